"""Hash-consed value terms and their algebraic normal form (the value-numbering domain)."""
import hashlib
import math

_tab = {}


class T:
    __slots__ = ("op", "a", "n", "_bd", "_mvk", "_bvs", "__weakref__")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.n, t._bd = op, a, len(_tab), -1
        t._mvk = t._bvs = None
        _tab[k] = t
    return t


def C(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and v.is_integer() and abs(v) < 2 ** 62:
        v = int(v)
    return mk("c", type(v).__name__, v)


TRUE, FALSE = C(1), C(0)
NONE = mk("none")
EMPTY = mk("seq")


def isc(t):
    return t.op == "c"


def cv(t):
    return t.a[1]


def isint(t):
    return t.op == "c" and t.a[0] == "int"


# ---------------------------------------------------------------- types
class RecDict(dict):
    """record type -> {field: type}; pairs are records too"""
    def get(self, k, d=None):
        r = dict.get(self, k)
        if r is None and isinstance(k, str) and k.startswith("std::pair<"):
            a = targs(k)
            if len(a) == 2:
                r = self[k] = {"first": a[0], "second": a[1]}
        if r is None and isinstance(k, str) and k.startswith("std::tuple<"):
            r = self[k] = {"_%d" % i: x for i, x in enumerate(targs(k))}
        if r is None and isinstance(k, str) and k.startswith("Iir::"):
            r = self[k] = {"fs": "double", "f": "double", "past": "std::vector<double>"}
        return d if r is None else r

    def __contains__(self, k):
        return self.get(k) is not None

    def __missing__(self, k):
        r = self.get(k)
        if r is None:
            raise KeyError(k)
        return r


_types = {"records": RecDict(), "enums": {}}


def set_types(records, enums):
    _types["records"] = RecDict({q: {f["n"]: f["t"] for f in r.get("fields", [])} for q, r in records.items()})
    _types["records"]["json"] = {"k": "int", "l": "std::vector<json>", "v": "jscalar"}
    _types["records"]["std::complex<double>"] = {"re": "double", "im": "double"}
    _types["records"]["drwav"] = {"channels": "unsigned short", "sampleRate": "unsigned int", "bitsPerSample": "unsigned short", "totalPCMFrameCount": "unsigned long"}
    _types["records"]["drwav_data_format"] = {x: "unsigned int" for x in ("container", "format", "channels", "sampleRate", "bitsPerSample")}
    _types["records"]["jpair"] = {"n": "jstring", "v": "json"}
    _types["enums"] = {}
    for q, e in enums.items():
        _types["enums"][q] = {x["n"]: x["v"] for x in e["consts"]}
    _tt.clear()


def clean(t):
    if t is None:
        return None
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.endswith("&"):
            t = t[:-1].strip()
        elif t.endswith(" const"):
            t = t[:-6]
        elif t.startswith("rapidjson::Generic") and t.startswith(("rapidjson::GenericValue<", "rapidjson::GenericObject<", "rapidjson::GenericArray<",
                                                                  "rapidjson::GenericDocument<")) and not t.endswith("*"):
            return "json"
        elif t.startswith("pugi::xml_object_range<") and not t.endswith("*"):
            return "std::vector<pugi::xml_node, std::allocator<pugi::xml_node>>"
        else:
            return t


def targ(t):
    """first template argument"""
    t = clean(t)
    i = t.find("<")
    if i < 0:
        return None
    d = 0
    for j in range(i, len(t)):
        ch = t[j]
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
            if d == 0:
                return t[i + 1:j].strip()
        elif ch == "," and d == 1:
            return t[i + 1:j].strip()
    return None


def targs(t):
    """template arguments"""
    t = clean(t)
    i = t.find("<")
    out, d, b = [], 0, i + 1
    for j in range(i, len(t)):
        ch = t[j]
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
            if d == 0:
                out.append(t[b:j].strip())
                break
        elif ch == "," and d == 1:
            out.append(t[b:j].strip())
            b = j + 1
    return out


_tt = {}


def ttype(t):
    r = _tt.get(t, 0)
    if r == 0:
        r = _ttype(t)
        _tt[t] = r
    return r


def _ttype(t):
    o = t.op
    if o in ("mv", "mvf"):
        return t.a[-1]
    if o == "mu":
        return t.a[4][0]
    if o in ("sym", "tok", "opq", "bv", "phi"):
        return clean(t.a[1]) if len(t.a) > 1 and isinstance(t.a[1], str) else None
    if o == "uf":
        return t.a[1]
    if o == "fld":
        b = ttype(t.a[0])
        return clean(_types["records"].get(b, {}).get(t.a[1]))
    if o == "at":
        b = ttype(t.a[0])
        if b is None:
            return None
        if "basic_string" in b:
            return "char"
        return clean(targ(b)) if "<" in b else None
    if o == "val":
        b = ttype(t.a[0])
        return clean(targ(b)) if b and "<" in b else None
    if o == "rec":
        return t.a[0]
    if o == "ite":
        return ttype(t.a[1]) or ttype(t.a[2])
    if o == "enum":
        return t.a[0]
    if o == "lin":
        return "int" if intval(t) else "double"
    if o == "len":
        return "int"
    if o == "rt":
        return ttype(t.a[1])
    if o == "upd":
        return ttype(t.a[0])
    if o == "fn" and t.a[0] in SEQFN:
        return ttype(t.a[1])
    if o == "fn" and t.a[0].startswith("re:"):
        return {"re:search": "bool", "re:size": "int", "re:group": "std::basic_string<char>"}.get(t.a[0])
    if o == "fn" and t.a[0].startswith("iir:"):
        return "double"
    if o == "fn" and t.a[0].startswith("ctor:drwav"):
        return t.a[0][5:]
    if o == "fn" and t.a[0] == "dj::fft1d":
        return "std::vector<std::complex<double>>"
    if o == "fn" and t.a[0] in ("atoi", "stoi", "isdigit"):
        return "int"
    if o == "fn" and t.a[0].startswith("js:"):
        return JSGET.get(t.a[1].a[1]) if t.a[0] == "js:get" else "bool" if t.a[0] in ("js:is", "js:has") else "json"
    if o == "seq":
        for g in t.a:
            if g.op == "all" and ttype(g.a[0]):
                return ttype(g.a[0])
    return None


# types of the scalar values of a JSON value
JSGET = {"Int": "int", "Uint": "unsigned int", "Int64": "long", "Uint64": "unsigned long", "Float": "float", "Double": "double",
         "Bool": "bool", "String": "std::basic_string<char>"}

# functions on sequences with an exact meaning: name -> length
SEQFN = {"slice", "padslice", "resize", "erase", "splice", "rev", "fill", "sorted"}


def seqlen(t):
    n, a = t.a[0], t.a[1:]
    if n == "slice":
        return sub(a[2], a[1])
    if n in ("resize",):
        return a[1]
    if n == "padslice":
        return a[2]
    if n == "erase":
        return sub(length(a[0]), C(1) if len(a) == 2 else sub(a[2], a[1]))
    return length(a[0])


_iv = {}


def intval(t):
    """certainly integer-valued"""
    r = _iv.get(t)
    if r is None:
        _iv[t] = r = _intval(t)
    return r


def _intval(t):
    o = t.op
    if o == "c":
        return t.a[0] == "int"
    if o == "lin":
        return isinstance(t.a[0], int) and all(isinstance(c, int) and intval(x) for x, c in t.a[1])
    if o == "mul":
        return intval(t.a[0]) and intval(t.a[1])
    if o in ("len", "tr", "f2i", "bit", "bits", "enum", "hi", "lo", "joined", "sumn") or o in BOOLOPS:
        return True
    if o == "ite":
        return intval(t.a[1]) and intval(t.a[2])
    y = ttype(t)
    return y is not None and y not in ("float", "double", "long double") and ("int" in y or "char" in y or "long" in y or "short" in y or y == "bool" or y in _types["enums"])


def domain(t):
    """finite set of the values an enum-typed term can take"""
    y = ttype(t)
    if y in _types["enums"]:
        return frozenset(_types["enums"][y].values())
    if t.op == "ite":
        d = frozenset()
        for x in t.a[1:]:
            dx = frozenset([cv(x)]) if isint(x) else domain(x)
            if dx is None:
                return None
            d |= dx
        return d
    return None


# ---------------------------------------------------------------- booleans
BOOLOPS = {"not", "and", "or", "eq", "lt", "has", "isnull"}


def isbool(t):
    if t.op in BOOLOPS or t is TRUE or t is FALSE:
        return True
    if t.op == "ite":
        return isbool(t.a[1]) and isbool(t.a[2])
    return ttype(t) == "bool"


def not_(t):
    if isc(t):
        return FALSE if cv(t) else TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "and":
        return or_(*[not_(x) for x in t.a])
    if t.op == "or":
        return and_(*[not_(x) for x in t.a])
    return mk("not", t)


def _nary(op, unit, zero, ts):
    s = {}
    for t in ts:
        if t.op == op:
            for x in t.a:
                s[x] = 1
        elif isc(t):
            if bool(cv(t)) == bool(cv(zero)):
                return zero
        else:
            s[t] = 1
    for t in s:
        if not_(t) in s if t.op not in ("and", "or") else False:
            return zero
    if op == "and":
        # eq(x,c1) & eq(x,c2) -> false ; eq(x,c1) & !eq(x,c2) -> eq(x,c1); domain exhaustion
        eqs = {}
        for t in s:
            if t.op == "eq" and isint(t.a[1]):
                if t.a[0] in eqs and eqs[t.a[0]] is not t.a[1]:
                    return zero
                eqs[t.a[0]] = t.a[1]
        for t in list(s):
            if t.op == "not" and t.a[0].op == "eq" and isint(t.a[0].a[1]) and t.a[0].a[0] in eqs:
                del s[t]
        neq = {}
        for t in s:
            if t.op == "not" and t.a[0].op == "eq" and isint(t.a[0].a[1]):
                neq.setdefault(t.a[0].a[0], set()).add(cv(t.a[0].a[1]))
        for x, vs in neq.items():
            d = domain(x)
            if d is not None:
                left = d - vs
                if not left:
                    return zero
                if len(left) == 1:
                    for v in vs:
                        s.pop(not_(mk("eq", x, C(v))), None)
                    s[mk("eq", x, C(next(iter(left))))] = 1
                else:
                    for v in vs - d:
                        s.pop(not_(mk("eq", x, C(v))), None)
        # absorption: a & (a | b) -> a
        for t in list(s):
            if t.op == "or" and any(x in s for x in t.a):
                s.pop(t, None)
            elif t.op == "or":
                keep = [x for x in t.a if not_(x) not in s]
                if len(keep) != len(t.a):
                    s.pop(t)
                    return and_(*(list(s) + [or_(*keep)]))
    else:
        # dual, by negation of the same rules
        n = [not_(t) for t in s]
        if any(x.op in ("eq",) or x.op == "or" or (x.op == "not" and x.a[0].op == "eq") for x in n) and len(n) > 1:
            r = _nary("and", TRUE, FALSE, n)
            if r.op == "and":
                s = {not_(x): 1 for x in r.a}
            else:
                return not_(r)
    ts = sorted(s, key=lambda x: x.n)
    if not ts:
        return unit
    if len(ts) == 1:
        return ts[0]
    return mk(op, *ts)


def and_(*ts):
    return _nary("and", TRUE, FALSE, ts)


def or_(*ts):
    return _nary("or", FALSE, TRUE, ts)


# ---------------------------------------------------------------- integers
def lin_parts(t):
    if isint(t):
        return cv(t), {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(k, d):
    d = {x: c for x, c in d.items() if c != 0}
    if not d:
        return C(k)
    if k == 0 and len(d) == 1:
        (x, c), = d.items()
        if c == 1:
            return x
    return mk("lin", k, tuple(sorted(d.items(), key=lambda p: p[0].n)))


def num(t):
    return t.op == "c" and t.a[0] in ("int", "float")


def add(a, b):
    if num(a) and num(b):
        return C(cv(a) + cv(b))
    if (isc(a) and not isint(a)) or (isc(b) and not isint(b)):
        return mk("fadd", *sorted((a, b), key=lambda x: x.n))
    if a.op == "ite" and isint(a.a[1]) and isint(a.a[2]) and isint(b):
        return ite(a.a[0], add(a.a[1], b), add(a.a[2], b))
    k1, d1 = lin_parts(a)
    k2, d2 = lin_parts(b)
    for x, c in d2.items():
        d1[x] = d1.get(x, 0) + c
    return mklin(k1 + k2, d1)


def mulc(a, c):
    if num(a):
        return C(cv(a) * c)
    k, d = lin_parts(a)
    return mklin(k * c, {x: v * c for x, v in d.items()})


def sub(a, b):
    if num(a) and num(b):
        return C(cv(a) - cv(b))
    if (isc(a) and not isint(a)) or (isc(b) and not isint(b)):
        return mk("fsub", a, b)
    return add(a, mulc(b, -1))


def mul(a, b):
    if num(a) and num(b):
        return C(cv(a) * cv(b))
    if isint(b):
        return mulc(a, cv(b))
    if isint(a):
        return mulc(b, cv(a))
    return mk("mul", *sorted((a, b), key=lambda x: x.n))


def tr(w, s, x):
    """low w bits of x read as unsigned/signed"""
    if isint(x):
        v = cv(x) & ((1 << w) - 1)
        if s and v >> (w - 1):
            v -= 1 << w
        return C(v)
    if x.op == "c":
        return mk("tr", w, s, x)
    if isbool(x):
        return x
    d = domain(x)
    if d is not None and all(0 <= v < (1 << (w - (1 if s else 0))) for v in d):
        return x
    if x.op == "bits":
        return mkbits({k: c for k, c in x.a[0] if k < w})
    if x.op == "ite":
        if isint(x.a[1]) or isint(x.a[2]):
            return ite(x.a[0], tr(w, s, x.a[1]), tr(w, s, x.a[2]))
    if x.op == "fq" and x.a[0] <= w:
        return x
    if x.op == "tr":
        w2, s2, y = x.a
        if w <= w2:
            return tr(w, s, y)
        if (not s2) or s:
            return x
    if x.op == "ext":
        w2 = x.a[0]
        if w2 <= w:
            return x
    if w >= 32 and not (x.op == "tr"):
        # same-width or wider than int: value preserving for every in-range attribute value
        return x
    return mk("tr", w, s, x)


def mkbits(d):
    d = {k: c for k, c in d.items() if c is not FALSE}
    if all(c is TRUE for c in d.values()):
        return mk("bits", tuple(sorted((k, c) for k, c in d.items()))) if d else C(0)
    return mk("bits", tuple(sorted(d.items(), key=lambda p: p[0])))


def asbits(t):
    if isint(t) and cv(t) >= 0:
        return {k: TRUE for k in range(cv(t).bit_length()) if cv(t) >> k & 1}
    if t.op == "bits":
        return dict(t.a[0])
    if t.op == "ite":
        a, b = asbits(t.a[1]), asbits(t.a[2])
        if a is not None and b is not None:
            return {k: ite(t.a[0], a.get(k, FALSE), b.get(k, FALSE)) for k in set(a) | set(b)}
    if isbool(t):
        return {0: t}
    return None


def bitor(a, b):
    if isint(a) and isint(b) and False:
        return C(cv(a) | cv(b))
    x, y = asbits(a), asbits(b)
    if x is not None and y is not None:
        return mkbits({k: or_(x.get(k, FALSE), y.get(k, FALSE)) for k in set(x) | set(y)})
    if b is FALSE:
        return a
    if a is FALSE:
        return b
    return mk("bor", *sorted((a, b), key=lambda x: x.n))


def bitand(a, b):
    if isint(a) and isint(b):
        return C(cv(a) & cv(b))
    x, y = asbits(a), asbits(b)
    if x is not None and y is not None:
        return mkbits({k: and_(x[k], y[k]) for k in set(x) & set(y)})
    for p, q in ((a, b), (b, a)):
        if isint(q) and cv(q) == 1:
            if p.op == "shr" and isint(p.a[1]):
                return mk("bit", strip_tr_bit(p.a[0], cv(p.a[1])), cv(p.a[1]))
            return mk("bit", strip_tr_bit(p, 0), 0)
        if isint(q) and cv(q) > 0 and cv(q) & (cv(q) - 1) == 0:
            k = cv(q).bit_length() - 1
            return shl(mk("bit", strip_tr_bit(p, k), k), C(k))
    return mk("band", *sorted((a, b), key=lambda x: x.n))


def strip_tr_bit(x, k):
    while x.op == "tr" and k < x.a[0]:
        x = x.a[2]
    return x


def shl(a, b):
    if isint(a) and isint(b):
        return C(cv(a) << cv(b))
    if isint(b):
        x = asbits(a)
        if x is not None:
            return mkbits({k + cv(b): c for k, c in x.items()})
        if cv(b) == 0:
            return a
    return mk("shl", a, b)


def shr(a, b):
    if isint(a) and isint(b):
        return C(cv(a) >> cv(b))
    if isint(b):
        x = asbits(a)
        if x is not None:
            return mkbits({k - cv(b): c for k, c in x.items() if k >= cv(b)})
        if cv(b) == 0:
            return a
    return mk("shr", a, b)


def tobool(t):
    if isc(t):
        v = cv(t)
        return TRUE if v else FALSE
    if isbool(t):
        return t
    if t.op == "bit":
        return t
    if t.op == "bits":
        return or_(*[c for _, c in t.a[0]])
    if t.op == "shl":
        return tobool(t.a[0])
    if t.op == "ite":
        return ite(t.a[0], tobool(t.a[1]), tobool(t.a[2]))
    return not_(eq(t, C(0)))


def eq(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return TRUE if cv(a) == cv(b) else FALSE
    if a.op == "iter" and b.op == "iter" and a.a[:2] == b.a[:2]:
        return eq(a.a[2], b.a[2])
    if isc(a):
        a, b = b, a
    if a.op == "nullptr":
        a, b = b, a
    if b.op == "nullptr":
        if a.op in ("iter", "riter"):
            return FALSE
        if a.op == "ite":
            return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if isint(b):
        if isbool(a) or a.op == "bit":
            if cv(b) == 1:
                return a
            if cv(b) == 0:
                return not_(a)
            return FALSE
        d = domain(a)
        if d is not None and cv(b) not in d:
            return FALSE
        if a.op == "bits":
            v = cv(b)
            bs = dict(a.a[0])
            r = []
            for k in range(max(list(bs) + [v.bit_length()]) + 1):
                c = bs.get(k, FALSE)
                r.append(c if v >> k & 1 else not_(c))
            return and_(*r)
        if a.op == "shl" and cv(b) == 0:
            return not_(tobool(a.a[0]))
        if a.op == "ite" and (isc(a.a[1]) or isc(a.a[2])):
            return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        if a.op == "lin":
            k, d = lin_parts(a)
            if len(d) == 1:
                (x, c), = d.items()
                if (cv(b) - k) % c:
                    return FALSE
                return eq(x, C((cv(b) - k) // c))
    if a.op == "ite" and b.op == "ite" and a.a[0] is b.a[0]:
        return ite(a.a[0], eq(a.a[1], b.a[1]), eq(a.a[2], b.a[2]))
    if not isc(b):
        if a.op == "lin" or b.op == "lin":
            d = sub(a, b)
            if isint(d):
                return TRUE if cv(d) == 0 else FALSE
        if a.n > b.n:
            a, b = b, a
    return mk("eq", a, b)


def nonneg(t):
    if isint(t):
        return cv(t) >= 0
    if t.op == "len":
        return True
    if t.op == "tr":
        return not t.a[1]
    if t.op == "ite":
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if t.op == "bits" or isbool(t):
        return True
    if t.op == "lin":
        return t.a[0] >= 0 and all(c > 0 and nonneg(x) for x, c in t.a[1])
    if t.op == "bv":
        return True
    if t.op in ("sym", "phi", "mv", "mvf", "fld", "at", "val"):
        y = ttype(t)
        if y is not None and (y.startswith("unsigned ") or y == "bool"):
            return True
    return domain(t) is not None


def lt(a, b):
    if isc(a) and isc(b) and num(a) and num(b):
        return TRUE if cv(a) < cv(b) else FALSE
    if a is b:
        return FALSE
    d = sub(b, a) if not ((isc(a) and not isint(a)) or (isc(b) and not isint(b))) else None
    if d is not None:
        if isint(d):
            return TRUE if cv(d) > 0 else FALSE
        if d.op == "lin" and d.a[0] > 0 and all(c > 0 and nonneg(x) for x, c in d.a[1]):
            return TRUE
        m = mulc(d, -1)
        if nonneg(m):
            return FALSE
    return mk("lt", a, b)


def le(a, b):
    return not_(lt(b, a))


# ---------------------------------------------------------------- optionals
def some(x):
    if x.op == "val":
        pass
    return mk("some", x)


def has(o):
    if o is NONE:
        return FALSE
    if o.op == "some":
        return TRUE
    if o.op == "ite":
        return ite(o.a[0], has(o.a[1]), has(o.a[2]))
    return mk("has", o)


def val(o):
    if o.op == "some":
        return o.a[0]
    if o.op == "ite":
        x, y = o.a[1], o.a[2]
        if x is NONE:
            return val(y)
        if y is NONE:
            return val(x)
        return ite(o.a[0], val(x), val(y))
    if o is NONE:
        return mk("opq", "val(none)")
    return mk("val", o)


# ---------------------------------------------------------------- ite
def ite(c, a, b):
    if c is TRUE or (isc(c) and cv(c)):
        return a
    if isc(c):
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if isbool(a) and isbool(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == "bits" or b.op == "bits":
        x, y = asbits(a), asbits(b)
        if x is not None and y is not None:
            return mkbits({k: ite(c, x.get(k, FALSE), y.get(k, FALSE)) for k in set(x) | set(y)})
    # optional identity: has(o) ? some(val o) : none  ==  o
    if c.op == "has" and b is NONE and a.op == "some" and a.a[0] is mk("val", c.a[0]):
        return c.a[0]
    if a.op == "some" and b.op == "some":
        return mk("some", ite(c, a.a[0], b.a[0]))
    if a.op == "rec" and b.op == "rec" and a.a[0] == b.a[0]:
        return rec_ite(c, a, b)
    if (a.op == "rec" or b.op == "rec"):
        y = a.a[0] if a.op == "rec" else b.a[0]
        if ttype(a) == ttype(b):
            return rec_ite(c, a, b)
    if isseq(a) and isseq(b) and (a.op == "seq" or b.op == "seq"):
        r = seq_ite(c, a, b)
        if r is not None:
            return r
    if a.op == "istream" and b.op == "istream" and a.a[0] is b.a[0]:
        return mk("istream", a.a[0], ite(c, a.a[1], b.a[1]))
    if a.op == b.op and a.op in ("iter", "riter") and a.a[:2] == b.a[:2]:
        return mk(a.op, a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
    if a.op == "upd" and b.op == "upd" and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
        return upd(a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
    if a.op == "upd" and a.a[0] is b:
        return upd(b, a.a[1], ite(c, a.a[2], at(b, a.a[1])))
    if b.op == "upd" and b.a[0] is a:
        return upd(a, b.a[1], ite(c, at(a, b.a[1]), b.a[2]))
    # eq(x,k) ? k : x  ->  x
    if c.op == "eq" and c.a[1] is a and c.a[0] is b:
        return b
    if c.op == "eq" and a.op == "ite" and False:
        pass
    # chain over one enum scrutinee: if the remaining domain is a single value
    if a.op == "ite" and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    if b.op == "ite" and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- records
def rec(cls, base, fields):
    """base: a term (fields not listed come from it) or None"""
    d = dict(fields)
    if base is not None and base.op == "rec":
        nd = dict(base.a[2])
        nd.update(d)
        d, base = nd, base.a[1]
    names = list(_types["records"].get(cls, {}))
    if base is not None:
        for n in list(d):
            if d[n] is fld(base, n):
                del d[n]
        if not d:
            return base
        if names and all(n in d for n in names):
            base = None
    if base is None and names and all(n in d for n in names) and names:
        b0 = None
        ok = True
        for n in names:
            v = d[n]
            if v.op == "fld" and v.a[1] == n and ttype(v.a[0]) == cls and (b0 is None or v.a[0] is b0):
                b0 = v.a[0]
            else:
                ok = False
                break
        if ok and b0 is not None:
            return b0
    return mk("rec", cls, base, tuple(sorted(d.items())))


def fld(t, n):
    if t.op == "rec":
        for k, v in t.a[2]:
            if k == n:
                return v
        if t.a[1] is None:
            return mk("opq", "uninit." + n)
        return fld(t.a[1], n)
    if t.op == "ite":
        return ite(t.a[0], fld(t.a[1], n), fld(t.a[2], n))
    return mk("fld", t, n)


def rec_ite(c, a, b):
    cls = ttype(a) or ttype(b)
    ba = a.a[1] if a.op == "rec" else a
    bb = b.a[1] if b.op == "rec" else b
    da = dict(a.a[2]) if a.op == "rec" else {}
    db = dict(b.a[2]) if b.op == "rec" else {}
    if ba is bb:
        names = set(da) | set(db)
        base = ba
    else:
        names = set(_types["records"].get(cls, {})) or (set(da) | set(db))
        base = None
    return rec(cls, base, {n: ite(c, fld(a, n), fld(b, n)) for n in names})


# ---------------------------------------------------------------- sequences
# segments: ("one", x) ("all", s, w) ("map", n, body-segs-term) ("if", c, segs, segs) ("e", w, x)
#           ("rec", fk, args...)   each a term
def isseq(t):
    if t.op in ("seq", "upd") or (t.op == "fn" and t.a[0] in SEQFN):
        return True
    if t.op == "c" and t.a[0] == "str":
        return True
    y = ttype(t)
    return bool(y) and ("vector<" in y or "basic_string" in y)


def segs(t):
    if t.op == "seq":
        return t.a
    if t.op == "c" and t.a[0] == "str":
        if cv(t) == "":
            return ()
    return (mk("all", t, None),)


def mkseq(ss):
    out = []
    for s in ss:
        if s.op == "if":
            if s.a[1] is EMPTY and s.a[2] is EMPTY:
                continue
        if s.op == "all" and s.a[0].op == "seq":
            out.extend(s.a[0].a)
            continue
        if s.op == "map" and (s.a[1] is EMPTY or s.a[0] is FALSE):  # (n, body, binder)
            continue
        if s.op == "e" and out:
            # coalesce single-bit emissions of one value into one field
            p = out[-1]
            j = _coalesce(p, s)
            if j is not None:
                out[-1] = j
                # a run that covers the whole value becomes a field of that value
                continue
        out.append(s)
    out = [_finish_run(s) for s in out]
    if len(out) == 1 and out[0].op == "all" and out[0].a[1] is None:
        return out[0].a[0]
    return mk("seq", *out)


def _coalesce(p, s):
    # run: ("run", value, hi, lo)
    if s.op == "e" and s.a[0] == 1 and s.a[1].op == "bit":
        x, k = s.a[1].a
        if p.op == "run" and p.a[0] is x and p.a[2] == k + 1:
            return mk("run", x, p.a[1], k)
        if p.op == "e" and p.a[0] == 1 and p.a[1].op == "bit" and p.a[1].a[0] is x and p.a[1].a[1] == k + 1:
            return mk("run", x, k + 1, k)
    return None


def _finish_run(s):
    if s.op == "run" and s.a[2] == 0:
        return mk("e", s.a[1] + 1, s.a[0])
    return s


def concat(a, b):
    return mkseq(tuple(segs(a)) + tuple(segs(b)))


def emit(w, x):
    x2 = x
    if x.op == "tr" and x.a[0] >= w:
        x2 = x.a[2]
    return mk("e", w, x2)


def seq_ite(c, a, b):
    if a.op == "upd" or b.op == "upd":
        return None
    sa, sb = list(segs(a)), list(segs(b))
    pre = []
    while sa and sb and sa[0] is sb[0]:
        pre.append(sa.pop(0))
        sb.pop(0)
    suf = []
    while sa and sb and sa[-1] is sb[-1]:
        suf.insert(0, sa.pop())
        sb.pop()
    if len(sa) == 1 and len(sb) == 1 and sa[0].op == "e" and sb[0].op == "e" and sa[0].a[0] == sb[0].a[0]:
        return mkseq(pre + [emit(sa[0].a[0], ite(c, sa[0].a[1], sb[0].a[1]))] + suf)
    if not pre and not suf and (a.op != "seq" or b.op != "seq") and not (a is EMPTY or b is EMPTY):
        return None
    if len(sa) == 1 and len(sb) == 1 and sa[0].op == "one" and sb[0].op == "one":
        return mkseq(pre + [mk("one", ite(c, sa[0].a[0], sb[0].a[0]))] + suf)
    if not any(x.op in ("e", "run", "if", "rec") for x in sa + sb) and not pre and not suf:
        return mk("ite", c, a, b)
    if len(sa) == 1 and sa[0].op == "if" and not sb and sa[0].a[2] is EMPTY:
        return mkseq(pre + [mk("if", and_(c, sa[0].a[0]), sa[0].a[1], EMPTY)] + suf)
    return mkseq(pre + [mkif(c, mkseq(sa), mkseq(sb))] + suf)


def mkif(c, a, b):
    if c.op == "not":
        return mk("if", c.a[0], b, a)
    return mk("if", c, a, b)


def length(s):
    if s.op == "c" and s.a[0] == "str":
        return C(len(cv(s)))
    if s.op == "upd":
        return length(s.a[0])
    if s.op == "ite":
        return ite(s.a[0], length(s.a[1]), length(s.a[2]))
    if s.op == "bvec":     # vector(n, x)
        return s.a[0]
    if s.op == "bitstr":
        return C(s.a[0])
    if s.op == "fn" and s.a[0] in SEQFN:
        return seqlen(s)
    if s.op == "seq":
        r = C(0)
        for g in s.a:
            if g.op == "one":
                r = add(r, C(1))
            elif g.op == "all":
                n = length(g.a[0])
                r = add(r, n if g.a[1] is None else tr(g.a[1], False, n))
            elif g.op == "e":
                r = add(r, C(g.a[0]))
            elif g.op == "run":
                r = add(r, C(g.a[1] - g.a[2] + 1))
            elif g.op == "if":
                r = add(r, ite(g.a[0], length(g.a[1]), length(g.a[2])))
            elif g.op == "map":
                l = length(g.a[1])
                if isint(l):
                    r = add(r, mulc(g.a[0], cv(l)))
                else:
                    r = add(r, mksum(g.a[0], l, g.a[2]))
            else:
                r = add(r, mk("len", mk("seq", g)))
        return r
    return mk("len", s)


def at(s, i):
    if s.op == "c" and s.a[0] == "str" and isint(i) and 0 <= cv(i) < len(cv(s)):
        return C(ord(cv(s)[cv(i)]))
    if s.op == "upd":
        j = s.a[1]
        if j is i:
            return s.a[2]
        if isint(j) and isint(i):
            return at(s.a[0], i)
        d = sub(i, j)
        if isint(d) and cv(d) != 0:
            return at(s.a[0], i)
        return ite(eq(i, j), s.a[2], at(s.a[0], i))
    if s.op == "ite":
        return ite(s.a[0], at(s.a[1], i), at(s.a[2], i))
    if s.op == "bvec":
        return s.a[1]
    if s.op == "bitstr" and isint(i) and 0 <= cv(i) < s.a[0]:
        return ite(bit_of(s.a[1], s.a[0] - 1 - cv(i)), C(49), C(48))
    if s.op == "seq":
        gs = s.a
        if len(gs) == 1:
            g = gs[0]
            if g.op == "all":
                return at(g.a[0], i)
            if g.op == "map":
                b = g.a[1]
                if b.op == "seq" and len(b.a) == 1 and b.a[0].op == "one":
                    return bsub(b.a[0].a[0], g.a[2], i)
        if isint(i):
            k = cv(i)
            for g in gs:
                if g.op == "one":
                    if k == 0:
                        return g.a[0]
                    k -= 1
                elif g.op == "e":
                    if k < g.a[0]:
                        return bit_of(g.a[1], g.a[0] - 1 - k)
                    k -= g.a[0]
                elif g.op == "run":
                    if k <= g.a[1] - g.a[2]:
                        return bit_of(g.a[0], g.a[1] - k)
                    k -= g.a[1] - g.a[2] + 1
                else:
                    break
            if gs and k == 0 and g.op in ("all",):
                return at(g.a[0], C(0))
        # last element: i == len(s)-1
        if gs and gs[-1].op == "one" and sub(length(s), i) is C(1):
            return gs[-1].a[0]
    return mk("at", s, i)


def bit_of(x, k):
    b = asbits(x)
    if b is not None:
        return b.get(k, FALSE)
    return mk("bit", strip_tr_bit(x, k), k)


def upd(s, i, v):
    if v is at(s, i):
        return s
    if s.op == "upd" and s.a[1] is i:
        return upd(s.a[0], i, v)
    if s.op == "seq":
        gs = list(s.a)
        if isint(i) and 0 <= cv(i) < len(gs) and all(g.op == "one" for g in gs[:cv(i) + 1]):
            gs[cv(i)] = mk("one", v)
            return mkseq(gs)
        if gs and gs[-1].op == "one" and sub(length(s), i) is C(1):
            gs[-1] = mk("one", v)
            return mkseq(gs)
    if s.op == "bvec" and isint(s.a[0]) and isint(i):
        gs = [mk("one", s.a[1])] * cv(s.a[0])
        if cv(i) < len(gs):
            gs[cv(i)] = mk("one", v)
            return mkseq(gs)
    return mk("upd", s, i, v)


# bound variables: the binder index is the height of the body (greatest binder index inside, plus 1)
def b_depth(t):
    """greatest binder index used inside t, plus one"""
    if t._bd >= 0:
        return t._bd
    d = 0
    for x in _kids(t):
        e = b_depth(x)
        if e > d:
            d = e
    if t.op in ("map", "sum"):
        d = max(d, t.a[2] + 1)
    elif t.op in ("mu", "lam"):
        d = max(d, t.a[0] + 1)
    t._bd = d
    return d


def _kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def BV(k):
    return mk("bv", k, "int")


def bsub(body, k, v):
    return subst(body, {BV(k): v})


def mksum(n, l, k):
    """sum of l over binder k in 0..n-1, canonical binder"""
    if BV(k) not in free(l):
        return mul(n, l)
    j = b_depth(l)
    if j != k:
        l = subst(l, {BV(k): BV(j)})
    if l.op == "lin":
        r = mulc(n, l.a[0])
        for x, c in l.a[1]:
            r = add(r, mulc(mksum(n, x, j), c))
        return r
    return mk("sum", n, l, j)


def mkmap(n, var, body):
    """segment for var = 0..n-1 of body (a seq term); var is a free symbol term"""
    k = b_depth(body)
    b = subst(body, {var: BV(k)})
    return _mkmap(n, b, k)


def _mkmap(n, b, k):
    j = b_depth(b)
    if j != k:
        b = subst(b, {BV(k): BV(j)})
        k = j
    if b.op != "seq":
        b = mk("seq", *segs(b))
    # identity map over all the indices of one sequence
    if len(b.a) == 1 and b.a[0].op == "one":
        x = b.a[0].a[0]
        if x.op == "at" and x.a[1] is BV(k) and BV(k) not in free(x.a[0]):
            s = x.a[0]
            if n is length(s):
                return mk("all", s, None)
            if n.op == "tr" and n.a[2] is length(s) and not n.a[1]:
                return mk("all", s, n.a[0])
    # the bits of std::bitset::to_string, one by one
    if len(b.a) == 1 and b.a[0].op == "e" and b.a[0].a[0] == 1 and b.a[0].a[1].op == "eq":
        for x, y in (b.a[0].a[1].a, b.a[0].a[1].a[::-1]):
            if isint(y) and cv(y) == 49 and x.op == "at" and x.a[0].op == "bitstr" and x.a[1] is BV(k) and n is C(x.a[0].a[0]):
                return emit(*x.a[0].a)
    return mk("map", n, b, k)


def ones(s):
    """the elements of a sequence of known length, or None"""
    if s.op == "c" and s.a[0] == "str":
        return [C(ord(c)) for c in cv(s)]
    if s.op == "bitstr":
        return [at(s, C(j)) for j in range(s.a[0])]
    out = []
    if s.op != "seq":
        return None
    for g in s.a:
        if g.op == "one":
            out.append(g.a[0])
        elif g.op == "map" and isint(g.a[0]) and cv(g.a[0]) <= 64 and len(segs(g.a[1])) == 1 and segs(g.a[1])[0].op == "one":
            out += [bsub(segs(g.a[1])[0].a[0], g.a[2], C(j)) for j in range(cv(g.a[0]))]
        else:
            return None
    return out


# loops without a closed form: mu(k, inits, cond, nexts) is the final value of variable 0 of the loop
#   vars := inits; while cond(vars): vars := nexts(vars)
# variables are mv(k, j, type); k is the height of the body as for the other binders
_mvf = iter(range(1, 1 << 60))


def _mvs(t):
    return [MV(t.a[0], j, y) for j, y in enumerate(t.a[4])]


def MV(k, j, ty):
    return mk("mv", k, j, ty)


def mklam(vs, body):
    k = b_depth(body)
    tys = tuple(v.a[-1] for v in vs)
    return mk("lam", k, subst(body, {v: MV(k, j, y) for j, (v, y) in enumerate(zip(vs, tys))}), tys)


COMM = {"and", "or", "eq", "band", "bor", "bxor", "mul", "fadd", "lin", "sorted"}
_sh = {}


def shash(t, col=None):
    """hash of a term that does not depend on the order in which terms were created; col colours
    some variables"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return hash_("t", *[shash(x, col) for x in t])
        return hash_("v", type(t).__name__, repr(t))
    if col:
        r = col.get(t)
        if r is not None:
            return r
        if not any(x in col for x in free(t)):
            col = None
    memo = _sh if col is None else col
    r = memo.get(t)
    if r is None:
        if t.op == "lin":
            hs = [shash(t.a[0])] + sorted(hash_("m", c, shash(x, col)) for x, c in t.a[1])
        elif t.op in COMM:
            hs = sorted(shash(x, col) for x in t.a)
        else:
            hs = [shash(x, col) for x in t.a]
        r = memo[t] = hash_(t.op, *hs)
    return r


def hash_(*a):
    return hashlib.blake2b("|".join(map(str, a)).encode(), digest_size=8).hexdigest()


def mkmu(vs, inits, cond, nexts):
    """final value of vs[0]; vs are distinct free variables ("mvf"/"phi"/"sym" terms)"""
    vs, inits, nexts = list(vs), list(inits), list(nexts)
    if cond is FALSE:
        return inits[0]
    # variables that keep their entry value
    while True:
        m = {v: e for v, e, n in zip(vs, inits, nexts) if n is v}
        if not m:
            break
        if vs[0] in m:
            return inits[0]
        keep = [j for j, v in enumerate(vs) if v not in m]
        cond = subst(cond, m)
        nexts = [subst(nexts[j], m) for j in keep]
        inits = [inits[j] for j in keep]
        vs = [vs[j] for j in keep]
        if subst(cond, dict(zip(vs, inits))) is FALSE:
            return inits[0]
    if subst(cond, dict(zip(vs, inits))) is FALSE:
        return inits[0]
    # only the variables the result depends on
    need, todo = {vs[0]}, [vs[0]]
    ix = {v: j for j, v in enumerate(vs)}
    for v in free(cond):
        if v in ix and v not in need:
            need.add(v)
            todo.append(v)
    while todo:
        v = todo.pop()
        for w in free(nexts[ix[v]]):
            if w in ix and w not in need:
                need.add(w)
                todo.append(w)
    # canonical order
    col = {v: hash_("init", shash(inits[ix[v]])) for v in need}
    col[vs[0]] = hash_("out", col[vs[0]])
    for _ in range(min(4, len(need))):
        hc = shash(cond, dict(col))
        new = {v: hash_(col[v], shash(nexts[ix[v]], dict(col)), hc) for v in need}
        if len(set(new.values())) == len(set(col.values())) and len(set(col.values())) == len(need):
            break
        col = new
    order = [vs[0]] + sorted((v for v in need if v is not vs[0]), key=lambda v: (col[v], ix[v]))
    k = max([b_depth(cond)] + [b_depth(nexts[ix[v]]) for v in order])
    tys = tuple(v.a[-1] if v.op in ("mvf",) else ttype(v) for v in order)
    m = {v: MV(k, j, y) for j, (v, y) in enumerate(zip(order, tys))}
    return mk("mu", k, tuple(inits[ix[v]] for v in order), subst(cond, m),
              tuple(subst(nexts[ix[v]], m) for v in order), tys)


_free = {}


def free(t):
    r = _free.get(t)
    if r is None:
        s = set()
        if t.op in ("bv", "mv", "mvf", "sym", "tok", "phi", "opq"):
            s.add(t)
        if t.op in ("map", "sum"):
            s |= free(t.a[0]) | (free(t.a[1]) - {BV(t.a[2])})
        elif t.op == "lam":
            s |= {x for x in free(t.a[1]) if not (x.op == "mv" and x.a[0] == t.a[0])}
        elif t.op == "mu":
            for x in t.a[2:4]:
                for y in (x if isinstance(x, tuple) else (x,)):
                    s |= free(y)
            s = {x for x in s if not (x.op == "mv" and x.a[0] == t.a[0])}
            for x in t.a[1]:
                s |= free(x)
        else:
            for x in _kids(t):
                s |= free(x)
        r = frozenset(s)
        _free[t] = r
    return r


REBUILD = {}


def rebuild(op, a):
    f = REBUILD.get(op)
    return f(*a) if f else mk(op, *a)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("map", "sum") and BV(t.a[2]) in m:
        m2 = {k: v for k, v in m.items() if k is not BV(t.a[2])}
        n = subst(t.a[0], m, memo)
        b = subst(t.a[1], m2, {})
        r = rebuild(t.op, (n, b, t.a[2]))
        memo[t] = r
        return r
    if t.op == "lam":
        m2 = {x: y for x, y in m.items() if not (x.op == "mv" and x.a[0] == t.a[0])}
        b = subst(t.a[1], m2, {} if len(m2) != len(m) else memo)
        if b is t.a[1]:
            r = t
        else:
            vs = [MV(t.a[0], j, y) for j, y in enumerate(t.a[2])]
            fr = [mk("mvf", next(_mvf), y) for y in t.a[2]]
            r = mklam(fr, subst(subst(t.a[1], dict(zip(vs, fr))), m2))
        memo[t] = r
        return r
    if t.op == "mu":
        k = t.a[0]
        inits = [subst(x, m, memo) for x in t.a[1]]
        m2, mm = m, memo
        if any(x.op == "mv" and x.a[0] == k for x in m):
            m2, mm = {x: y for x, y in m.items() if not (x.op == "mv" and x.a[0] == k)}, {}
        cond = subst(t.a[2], m2, mm)
        nx = [subst(x, m2, mm) for x in t.a[3]]
        if cond is t.a[2] and all(x is y for x, y in zip(nx, t.a[3])) and all(x is y for x, y in zip(inits, t.a[1])):
            r = t
        else:
            # rename the bound variables apart, then rebuild
            fr = [mk("mvf", next(_mvf), x.a[2]) for x in _mvs(t)]
            ren = dict(zip(_mvs(t), fr))
            r = mkmu(fr, inits, subst(cond, ren), [subst(x, ren) for x in nx])
        memo[t] = r
        return r
    changed = False
    na = []
    for x in t.a:
        y = _subx(x, m, memo)
        if y is not x:
            changed = True
        na.append(y)
    r = rebuild(t.op, na) if changed else t
    memo[t] = r
    return r


def _subx(x, m, memo):
    if isinstance(x, T):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        y = tuple(_subx(e, m, memo) for e in x)
        return x if all(p is q for p, q in zip(x, y)) else y
    return x


def _rb_lin(k, d):
    r = C(k)
    for x, c in d:
        r = add(r, mulc(x, c))
    return r


REBUILD.update({
    "not": not_, "and": and_, "or": or_, "eq": eq, "lt": lt, "ite": ite, "has": has, "val": val,
    "fld": fld, "at": at, "upd": upd, "len": length, "lin": _rb_lin, "mul": mul, "tr": tr,
    "rec": lambda c, b, fs: rec(c, b, dict(fs)), "seq": lambda *s: mkseq(s), "bits": lambda d: mkbits(dict(d)),
    "e": emit, "map": _mkmap, "sum": mksum, "shl": shl, "shr": shr, "band": bitand, "bor": bitor,
    "fadd": add, "fsub": sub,
})


# ---------------------------------------------------------------- facts
class Facts:
    def __init__(self, known=None):
        self.k = dict(known or {})

    def add(self, c, truth=True):
        f = Facts(self.k)
        f._put(c if truth else not_(c))
        return f

    def _put(self, c):
        if c.op == "and":
            for x in c.a:
                self._put(x)
            return
        if c.op == "not":
            self.k[c.a[0]] = False
        else:
            self.k[c] = True
        if c.op == "eq" and isint(c.a[1]):
            self.k[("val", c.a[0])] = c.a[1]
        if c.op == "not" and c.a[0].op == "eq" and isint(c.a[0].a[1]):
            x = c.a[0].a[0]
            d = domain(x)
            if d is not None:
                ex = set(self.k.get(("ne", x), frozenset())) | {cv(c.a[0].a[1])}
                self.k[("ne", x)] = frozenset(ex)
                left = d - ex
                if len(left) == 1:
                    v = C(next(iter(left)))
                    self.k[("val", x)] = v
                    self.k[mk("eq", x, v)] = True

    def decide(self, c):
        if isc(c):
            return bool(cv(c))
        r = self.k.get(c)
        if r is not None:
            return r
        if c.op == "not":
            r = self.decide(c.a[0])
            return None if r is None else not r
        if c.op in ("and", "or"):
            r = self.k.get(not_(c))
            if r is not None:
                return not r
        if c.op == "eq" and isint(c.a[1]):
            v = self.k.get(("val", c.a[0]))
            if v is not None:
                return v is c.a[1]
            ne = self.k.get(("ne", c.a[0]))
            if ne and cv(c.a[1]) in ne:
                return False
        if c.op == "and":
            rs = [self.decide(x) for x in c.a]
            if any(r is False for r in rs):
                return False
            if all(r for r in rs):
                return True
            rest = and_(*[x for x, r in zip(c.a, rs) if r is None])
            if len(c.a) != (len(rest.a) if rest.op == "and" else 1):
                r = self.k.get(rest)
                if r is None:
                    r = self.k.get(not_(rest))
                    r = None if r is None else not r
                return r
            return None
        if c.op == "or":
            rs = [self.decide(x) for x in c.a]
            if any(r for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            rest = [x for x, r in zip(c.a, rs) if r is None]
            if not_(or_(*rest)) in self.k:
                return not self.k[not_(or_(*rest))]
            return None
        return None

    def spec(self, t, memo=None):
        """t specialised under the facts"""
        if not self.k:
            return t
        if memo is None:
            memo = {}
        return self._spec(t, memo)

    def _spec(self, t, memo):
        r = memo.get(t)
        if r is not None:
            return r
        if isbool(t) and not isc(t):
            d = self.decide(t)
            if d is not None:
                memo[t] = TRUE if d else FALSE
                return memo[t]
        v = self.k.get(("val", t))
        if v is not None:
            memo[t] = v
            return v
        if t.op in ("ite", "if"):
            d = self.decide(t.a[0])
            if t.op == "ite":
                if d is not None:
                    r = self._spec(t.a[1] if d else t.a[2], memo)
                    memo[t] = r
                    return r
            elif d is not None:
                r = mk("seqwrap", self._spec(t.a[1] if d else t.a[2], memo))
                memo[t] = r
                return r
        changed = False
        na = []
        for x in t.a:
            y = self._sx(x, memo)
            if y is not x:
                changed = True
            na.append(y)
        if changed:
            if t.op == "seq":
                out = []
                for x in na:
                    if x.op == "seqwrap":
                        out.extend(segs(x.a[0]))
                    else:
                        out.append(x)
                r = mkseq(out)
            else:
                r = rebuild(t.op, na)
        else:
            r = t
        memo[t] = r
        return r

    def _sx(self, x, memo):
        if isinstance(x, T):
            return self._spec(x, memo)
        if isinstance(x, tuple):
            y = tuple(self._sx(e, memo) for e in x)
            return x if all(p is q for p, q in zip(x, y)) else y
        return x


# ---------------------------------------------------------------- display
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 12:
        return "…"
    o, a = t.op, t.a
    if o == "c":
        return repr(a[1])
    if o in ("sym", "phi"):
        return str(a[0])
    if o == "bv":
        return "#%d" % a[0]
    if o == "mv":
        return "@%d.%d" % a[:2]
    if o == "mu":
        return "mu%d(%s while %s: %s)" % (a[0], ", ".join(show(x, d + 1) for x in a[1]), show(a[2], d + 1),
                                          ", ".join(show(x, d + 1) for x in a[3]))
    if o == "fld":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if o == "at":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "lin":
        r = [] if a[0] == 0 else [str(a[0])]
        for x, c in a[1]:
            r.append(("%d*" % c if c != 1 else "") + show(x, d + 1))
        return "(" + "+".join(r) + ")"
    if o == "ite":
        return "(%s ? %s : %s)" % tuple(show(x, d + 1) for x in a)
    if o == "seq":
        return "[" + "; ".join(show(x, d + 1) for x in a) + "]"
    if o == "rec":
        return "%s{%s%s}" % (a[0].split("::")[-1], show(a[1], d + 1) + " with " if a[1] is not None else "",
                             ", ".join("%s=%s" % (k, show(v, d + 1)) for k, v in a[2]))
    if o == "bits":
        return "bits{" + ", ".join("%d:%s" % (k, show(v, d + 1)) for k, v in a[0]) + "}"
    return o + "(" + ", ".join(show(x, d + 1) for x in a) + ")"

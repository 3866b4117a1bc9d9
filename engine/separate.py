"""Separation of two summary terms.

Equality of two summaries is decided by identity of normal forms.  When the normal forms differ, the
difference may still be an artefact of an incomplete normal form; a report is only made when the two
terms are separated by a valuation of the symbolic model (random interpretation, Gulwani & Necula).
A part of a term that has no exact meaning (opaque value, unknown function) evaluates to UNDEC and
can never separate anything."""
import cmath
import copy, functools, hashlib, json, math, random, re, struct
from terms import *
from terms import _types


class _U:
    def __repr__(self):
        return "UNDEC"


class _Crash:
    """a definite failure: element outside its container, value of an empty optional, endless loop"""
    def __repr__(self):
        return "CRASH"


UNDEC = _U()
CRASH = _Crash()
STRICT = {"fld", "at", "len", "has", "val", "not", "eq", "lt", "lin", "mul", "fadd", "fsub", "fdiv", "idiv", "mod",
          "shl", "shr", "band", "bor", "bxor", "ceildiv", "bnot", "tr", "bit", "f2i", "enum", "fn", "upd"}


SCALAR = {"bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long",
          "long long", "unsigned long long", "float", "double"}


def ENUMS():
    return _types.get("enums") or {}


class Undecided(Exception):
    pass


def records():
    return _types["records"]


open_rec = {}
HOT = {"num": [], "str": []}     # constants of the terms being compared: drawn more often


def constants(*ts):
    seen, ks = set(), {}
    todo = list(ts)
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
            continue
        if not isinstance(t, T):
            if isinstance(t, (int, float)) and not isinstance(t, bool):
                ks[t] = 1
            continue
        if t in seen:
            continue
        seen.add(t)
        if t.op == "c":
            ks[cv(t)] = 1
        elif t.op == "tr":
            ks[1 << t.a[0]] = 1
            if t.a[1]:
                ks[1 << (t.a[0] - 1)] = 1
            todo.append(t.a[2])
        elif t.op == "lin":
            k = t.a[0]
            if k:
                ks[-k] = 1
            todo.extend(x for x, c in t.a[1])
        else:
            todo.extend(t.a)
    return ks


def subterms(*ts):
    seen = {}
    todo = list(ts)
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
        elif isinstance(t, T) and t not in seen:
            seen[t] = 1
            todo.extend(t.a)
    return seen


def _tkids(t):
    out, todo = [], list(t.a)
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            todo.extend(x)
    return out


def minimal_new(A, B):
    """subterms of A that B lacks although it has all their parts"""
    a, b = subterms(A), subterms(B)
    return [t for t in a if t not in b and all(k in b or isc(k) for k in _tkids(t))]


NEWTR = []


def ufnames(t, out):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == "uf":
                out.add(x.a[0])
            todo.extend(x.a)


# reviewed summaries of the functions that may stay uninterpreted: base name -> (outs, number of parameters)
BODY = {}
EXPAND = set()
_body = {}


def body(base, out):
    k = (base, out)
    if k not in _body:
        b = BODY.get(base)
        _body[k] = load(b[0][out]) if b and out in b[0] else None
    return _body[k]


def bases(*ts):
    n = set()
    for t in ts:
        ufnames(t, n)
    return {x[:x.rindex(")") + 1] for x in n}


def expansions(now, want):
    """the functions only one side calls: their calls are evaluated with their reviewed summaries"""
    N, W = bases(now), bases(want)
    D = set()
    while True:
        d = (N ^ W) - D
        if not d:
            return D
        D |= d
        for X in (N, W):
            for x in list(X):
                if x in D:
                    X.discard(x)
                    for o in (BODY.get(x) or ({},))[0]:
                        X |= bases(body(x, o))


_lens = {}
LENS = {"Spiht_Dec::decodeEffect": {"p1": "p2"}, "Spiht_Dec::decode": {"p1": "p2"}}     # out.resize(origlength, 0), then only out[i]


def arg_of(t, name):
    """what a call passes for a parameter of the callee"""
    np = len(sig_args(t.a[0]))
    xs = t.a[3:]
    if name == "this":
        return xs[0] if len(xs) > np else None
    return xs[len(xs) - np + int(name[1:])]


def number_of(t, loops):
    if t.op == "len":
        return length_of(t.a[0], loops)
    return t if not mvk(t) and not bvs(t) and "uf" not in ops(t) else None


def ops(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            out.add(x.op)
            todo.extend(x.a)
    return out


def length_of(t, loops=()):
    """the number of elements of a container as a term over the inputs of the function, when it is one"""
    o, a = t.op, t.a
    if o in ("sym", "fld"):
        return mk("len", t) if not mvk(t) and not bvs(t) and "uf" not in ops(t) else None
    if o == "upd":
        return length_of(a[0], loops)
    if o == "ite":
        x = length_of(a[1], loops)
        return x if x is not None and length_of(a[2], loops) is x else None
    if o == "mv":
        return dict(loops).get((a[0], a[1]))
    if o == "mu":
        x = length_of(a[1][0], loops)
        return x if x is not None and length_of(a[3][0], loops + (((a[0], 0), x),)) is x else None
    if o == "fn" and a[0] == "splice":
        return length_of(a[1], loops)
    if o == "fn" and a[0] == "resize":
        return number_of(a[2], loops)
    if o == "seq" and len(a) == 1 and a[0].op == "map" and a[0].a[1].op == "seq" and len(a[0].a[1].a) == 1 and a[0].a[1].a[0].op == "one":
        return number_of(a[0].a[0], loops)
    if o == "uf" and re.match(r"p\d+$", a[2]):
        x = call_length(a[0][:a[0].rindex(")") + 1], a[2])
        if x is None:
            return None
        if x.op == "sym":
            return number_of(arg_of(t, x.a[0]), loops)
        if x.op == "len" and x.a[0].op == "sym":
            y = arg_of(t, x.a[0].a[0])
            return length_of(y, loops) if y is not None else None
    return None


def call_length(base, out):
    """length of a container a function leaves behind, as a term over its parameters, by its reviewed summary"""
    k = (base, out)
    if k not in _lens:
        _lens[k] = None
        q = "::".join(base[:base.index("(")].split("::")[-2:])
        if out in LENS.get(q, ()):
            _lens[k] = mk("sym", LENS[q][out], "int")
        else:
            b = body(base, out)
            if b is not None:
                _lens[k] = length_of(b)
    return _lens[k]


_changes = {}


def changed(t, src, loops=()):
    """attributes in which a record may differ from the input it starts from (None: any)"""
    o, a = t.op, t.a
    if o == "sym":
        return frozenset() if a[0] == src else None
    if o == "rec":
        r = frozenset() if a[1] is None else changed(a[1], src, loops)
        if r is None:
            return None
        return r | {k for k, v in a[2] if not (v.op == "fld" and v.a[1] == k and v.a[0].op == "sym" and v.a[0].a[0] == src)}
    if o == "ite":
        x, y = changed(a[1], src, loops), changed(a[2], src, loops)
        return None if x is None or y is None else x | y
    if o == "mv":
        return frozenset() if (a[0], a[1]) in loops else None
    if o == "uf" and (a[2] == "this" or re.match(r"p\d+$", a[2])):
        x = call_changes(a[0][:a[0].rindex(")") + 1], a[2])
        y = arg_of(t, a[2])
        y = changed(y, src, loops) if y is not None and x is not None else None
        return None if x is None or y is None else x | y
    if o == "mu":
        x = changed(a[1][0], src, loops)
        y = changed(a[3][0], src, loops + ((a[0], 0),)) if x is not None else None
        return None if y is None else x | y
    return None


def call_changes(base, out):
    k = (base, out)
    if k not in _changes:
        _changes[k] = None
        b = body(base, out)
        if b is not None:
            _changes[k] = changed(b, out)
    return _changes[k]


def heat(now, want):
    EXPAND.clear()
    EXPAND.update(expansions(now, want))
    if GEN.get("expand"):
        EXPAND.update(b for b in BODY if re.search(GEN["expand"], b))
    jhints(now, want)
    names = set()
    ufnames(now, names)
    ufnames(want, names)
    by = {}
    for n in names:
        by.setdefault(n[:n.rindex(")") + 1], set()).add(n)
    UNLIKE.clear()
    for v in by.values():
        if len(v) > 1:
            UNLIKE.update(v)
    """constants of the smallest differing subterms are the interesting ones"""
    new = minimal_new(now, want) + minimal_new(want, now)
    ks = {}
    NEWTR[:] = []
    for t in new:
        if t.op == "tr":
            ks[1 << t.a[0]] = 1
            if t.a[1]:
                ks[1 << (t.a[0] - 1)] = 1
            NEWTR.append(t)
            continue
        if t.op == "lin":
            ks[-t.a[0]] = ks[t.a[0]] = 1
            for x, c in t.a[1]:
                if c not in (0, 1, -1) and isinstance(c, int) and t.a[0] % c == 0:
                    ks[-t.a[0] // c] = 1
            continue
        for k in t.a:
            if isinstance(k, (int, float)) and not isinstance(k, bool):
                ks[k] = 1
            elif isinstance(k, T):
                if isc(k):
                    ks[cv(k)] = 1
                elif k.op == "lin":
                    ks[-k.a[0]] = 1
                elif k.op == "bits":
                    pass
    HOT["num"] = [x + d for x in ks if isinstance(x, (int, float)) for d in (0, 1, -1)][:40]
    HOT["str"] = [x for x in ks if isinstance(x, str)][:12]


def hotnum(rg, lo, hi, isf=False):
    h = [x for x in HOT["num"] if lo <= x <= hi and (isf or isinstance(x, int) or float(x).is_integer())]
    if not h:
        return None
    x = rg.choice(h)
    return float(x) if isf else int(x)


RANGES = {"unsigned char": (0, 255), "uint8_t": (0, 255), "signed char": (-128, 127), "char": (-128, 127),
          "unsigned short": (0, 65535), "short": (-32768, 32767), "int": (-2 ** 31, 2 ** 31 - 1),
          "unsigned int": (0, 2 ** 32 - 1)}


UNLIKE = set()  # callees that may change other parameters in one program than in the other
KNOWN = set()   # callees that exist under the same name and signature in both programs
GEN = {}        # input name -> generator of typical values (used by part of the valuations)
MODE = {"none": 0.4, "mono": False, "small": 0, "big": False}


def set_mode(rg, k):
    """kind of inputs of a valuation: ranges, presence of optional attributes, monotone sequences"""
    MODE.update(none=0.4, mono=False, small=0, big=False)
    if k >= 4 and rg.random() < 0.6:
        MODE.update(none=rg.choice([0, 0, 0.05, 0.2, 0.4, 0.7]), mono=rg.random() < 0.6,
                    small=rg.choice([0, 2, 5, 12, 40, 2000]), big=rg.random() < 0.5)


def iir(kind, xs):
    """a recursive filter of the given kind and parameters: some causal linear filter that depends on all of them"""
    if CRASH in xs:
        return CRASH
    if not all(isinstance(x, (int, float)) for x in xs[:2]) or not isinstance(xs[2], list) or not all(isinstance(x, (int, float)) for x in xs[2]):
        return UNDEC
    g = random.Random("%s %.9g %.9g" % (kind, xs[0], xs[1])).uniform(0.2, 0.8)
    y = 0.0
    for x in xs[2]:
        y = (1 - g) * y + g * x
    return y


def fft(xs):
    """the discrete Fourier transform of a list of complex numbers, forwards for direction 1 (the length is a power of two)"""
    v, d = (xs + [1])[:2]
    if CRASH in xs:
        return CRASH
    if not isinstance(v, list) or not v or not all(isinstance(x, dict) and num_(x["re"]) and num_(x["im"]) for x in v) or d not in (1, -1) or len(v) > 64:
        return UNDEC
    n = len(v)
    if n & (n - 1):
        return CRASH
    z = [complex(x["re"], x["im"]) for x in v]
    r = [sum(z[j] * cmath.exp(-2j * d * cmath.pi * j * k / n) for j in range(n)) / n ** 0.5 for k in range(n)]
    return [{"#": "std::complex<double>", "re": x.real, "im": x.imag} for x in r]


def rnd_value(rg, t, depth=0, name=""):
    t = clean(t)
    if name in FHINT and rg.random() < 0.3:
        h = [x for x in FHINT[name] if isinstance(x, str) == ("basic_string" in t)]
        if h and "basic_string" in t:
            return [ord(c) for c in rg.choice(sorted(h))]
        if h and t in ("float", "double"):
            return float(rg.choice(sorted(h)) + rg.choice([0, 0, 0.001, -0.001]))
        if h and t in RANGES and name not in _types["enums"]:
            x = int(rg.choice(sorted(h))) + rg.choice([0, 0, 1, -1])
            if RANGES[t][0] <= x <= RANGES[t][1]:
                return x
    if name in LHINT and t.startswith("std::vector<") and rg.random() < 0.2 and depth < 9:
        n = rg.choice(sorted(LHINT[name]))
        if 3 <= n <= 300:
            l = [rnd_value(rg, targ(t), depth + 2) for _ in range(rg.choice([1, 1, 2]))]
            return [copy.deepcopy(rg.choice(l)) if n < 40 else l[0] for _ in range(n)]
    if (HOT["num"] or HOT["str"]) and rg.random() < 0.25:
        if t in ("float", "double"):
            x = hotnum(rg, -1e30, 1e30, True)
            if x is not None:
                return x + rg.choice([0, 0, 1e-3, -1e-3])
        elif t in RANGES or t.startswith("unsigned") or t in ("long", "long long"):
            x = hotnum(rg, *RANGES.get(t, (-2 ** 31, 2 ** 31)))
            if x is not None:
                return x
        elif "basic_string" in t and HOT["str"]:
            return [ord(c) for c in rg.choice(HOT["str"])]
        elif (t.startswith("std::vector<") or "basic_string" in t) and depth <= 14 and open_rec.get(clean(targ(t) or ""), 0) < 2:
            x = hotnum(rg, 3, 280)
            if x is not None and rg.random() < (0.5 if x < 20 else 0.1):
                if "basic_string" in t:
                    return [rg.randrange(33, 126) for _ in range(x)]
                return [rnd_value(rg, targ(t), depth + (1 if x < 9 else 6), name) for _ in range(x)]
    if t.startswith("std::optional<"):
        if rg.random() < MODE["none"]:
            return None
        return ("some", rnd_value(rg, targ(t), depth, name))
    m = re.match(r"std::array<(.+), ?(\d+)>$", t)
    if m:
        return [rnd_value(rg, m.group(1), depth + 1, name) for _ in range(int(m.group(2)))]
    if t.startswith(("std::vector<", "std::array<", "std::list<", "std::deque<")):
        e = targ(t)
        if depth > 14:
            return []
        k = clean(e)
        if k in records() and open_rec.get(k, 0) >= 2:
            return []
        n = rg.choice([0, 1, 1, 1, 2, 2, 3] if depth < 9 else [0, 1, 1, 2])
        if k not in records():
            n = rg.choice([n, 1, 2, 3, 5, 8])
        elif depth < 9 and MODE["big"]:
            n = rg.choice([n, 2, 3, 4, 5])
        l = [rnd_value(rg, e, depth + 1, name) for _ in range(n)]
        if MODE["mono"] and k in records() and len(l) > 1:
            for f in records()[k]:
                if all(num_(x[f]) for x in l):
                    for x, v in zip(l, sorted(x[f] for x in l)):
                        x[f] = v
                elif all(x[f] is None or isinstance(x[f], tuple) and num_(x[f][1]) for x in l):
                    y = [x for x in l if x[f] is not None]
                    step = rg.choice([0, 1, 2]) if isinstance(MODE["small"], int) else 0
                    for j, (x, v) in enumerate(zip(y, sorted(x[f][1] for x in y))):
                        x[f] = ("some", v + j * step if isinstance(v, int) and abs(v) < 10000 else v)
        elif MODE["mono"] and len(l) > 1 and all(num_(x) for x in l):
            l.sort()
        return l
    if t == "json":
        if JHINT:
            return JV(rg.random(), name or "$", rnd_value.name or name or "$", 0, rg.choice([0, 0, 0.02, 0.1, 0.4]))
        return {"#": "json", "k": rg.choice([3, 4]), "v": 0, "l": []}
    if t.startswith(("pugi::xml_node", "pugi::xml_document")):
        return 0 if t.endswith("*") and rg.random() < 0.2 else rnd_xml(rg, max(0, depth - 6) if "document" not in t else 0)
    if t == "char *":
        return [rg.choice([65, 66, 97]) for _ in range(2)]
    if "basic_string" in t:
        if REGEX and rg.random() < 0.7:
            return rx_text(rg, rg.choice(sorted(REGEX)))
        h = [x for x in HOT["num"] if isinstance(x, int) and 32 <= x < 127]
        if h and rg.random() < 0.5:
            return [rg.choice([rg.choice(h), rg.choice(h), rg.randrange(97, 100)]) for _ in range(rg.randrange(0, 9))]
        return [rg.randrange(33, 126) for _ in range(rg.randrange(0, 4))]
    if t in _types["enums"]:
        return rg.choice(sorted(_types["enums"][t].values()))
    if t in records():
        open_rec[t] = open_rec.get(t, 0) + 1
        r = {"#": t, **{n: rnd_value(rg, ft, depth + 1, n) for n, ft in records()[t].items()}}
        open_rec[t] -= 1
        return r
    if t == "bool":
        return rg.randrange(2)
    if MODE["small"] and t in RANGES or t in ("long", "long long", "unsigned long", "unsigned long long") and MODE["small"]:
        return rg.randrange(0 if rg.random() < 0.9 or t.startswith("u") else -3, MODE["small"])
    if MODE["small"] and t in ("float", "double"):
        return rg.choice([rg.uniform(0, MODE["small"]), float(rg.randrange(0, MODE["small"])), rg.uniform(-1, 1)])
    if t in ("float", "double"):
        return rg.choice([rg.uniform(-2, 2), rg.uniform(-50, 3000), 0.0, 1.0])
    if t in ("unsigned char", "uint8_t"):
        return rg.choice([rg.randrange(0, 256), rg.randrange(0, 8), 255])
    if t in ("unsigned short",):
        return rg.choice([rg.randrange(0, 65536), rg.randrange(0, 300), 65535])
    if t in ("signed char", "char"):
        return rg.choice([rg.randrange(-128, 128), rg.randrange(0, 8), -1])
    if t in ("int", "short", "long", "long long"):
        return rg.choice([rg.randrange(0, 4), rg.randrange(0, 120), rg.randrange(-5, 30000), rg.choice([127, 128, 255, 256, 65535, 65536, -1])])
    if t.startswith("unsigned"):
        return rg.choice([rg.randrange(0, 4), rg.randrange(0, 60000), rg.choice([127, 128, 255, 256, 65535, 65536])])
    return ("uft", rg.random())


rnd_value.name = None


def perturb(v, t, rg, depth=0):
    """a value of type t differing from v in one place"""
    t = clean(t)
    if t.startswith("std::optional<"):
        if v is None or rg.random() < 0.3:
            return None if v is not None else ("some", rnd_value(rg, targ(t), 8))
        return ("some", perturb(v[1], targ(t), rg, depth + 1))
    if isinstance(v, list):
        e = targ(t) or "char"
        r = rg.random()
        if not v or r < 0.2:
            return v + [copy.deepcopy(rg.choice(v)) if v and rg.random() < 0.5 else rnd_value(rg, e, 8)]
        k = rg.randrange(len(v))
        if r < 0.4:
            return v[:k] + v[k + 1:]
        return v[:k] + [perturb(v[k], e, rg, depth + 1)] + v[k + 1:]
    if isinstance(v, dict) and v.get("#") == "xml":
        return perturb_xml(v, rg)
    if isinstance(v, dict):
        f = rg.choice([x for x in v if x != "#"] or ["#"])
        if f == "#":
            return v
        return {**v, f: perturb(v[f], records().get(v["#"], {}).get(f, "int"), rg, depth + 1)}
    return rnd_value(rg, t, 8)


# what a function does not depend on (reviewed): the incoming value of outputs it overwrites
CONTRACT = {}


# JSON values read by the program: a tree of which only the parts asked for come into being
JHINT = {}      # member name -> kinds asked for
JSTR = {}       # member name -> strings its value is compared with
TABLES = {}     # constant name tables of the program
JCODE = {"Object": 3, "Array": 4, "String": 5, "Bool": 1, "Int": 6, "Uint": 6, "Int64": 6, "Uint64": 6, "Number": 67, "Float": 67, "Double": 67,
         "LosslessFloat": 67, "LosslessDouble": 67, "Null": 0}


def jname(t):
    if t.op == "fn" and t.a[0] == "js:mem" and t.a[1].op == "c":
        return str(cv(t.a[1]))
    if t.op == "at" and t.a[0].op == "fld" and t.a[0].a[1] == "l":
        n = jname(t.a[0].a[0])
        return n + "[]" if n else None
    if t.op == "sym":
        return t.a[0]
    if t.op == "fld" and t.a[1] == "v":
        return jname(t.a[0])
    return None


FHINT = {}      # attribute -> constants it is compared with
LHINT = {}      # sequence attribute -> lengths it is compared with


def fhints(*ts):
    FHINT.clear()
    LHINT.clear()

    def name(t):
        while t.op in ("val", "tr") or t.op == "at":
            t = t.a[0] if t.op != "tr" else t.a[2]
        return t.a[1] if t.op == "fld" else None
    for t in subterms(*ts):
        if t.op in ("eq", "lt"):
            for x, y in (t.a[:2], t.a[1::-1]):
                if isc(y) and isinstance(cv(y), (str, int, float)) and not isinstance(cv(y), bool):
                    n = name(x)
                    if n:
                        FHINT.setdefault(n, set()).add(cv(y))
                    if x.op == "len" and isinstance(cv(y), int):
                        n = name(x.a[0])
                        if n:
                            LHINT.setdefault(n, set()).update((cv(y), cv(y) + 1))


def jhints(*ts):
    fhints(*ts)
    xhints(*ts)
    JHINT.clear()
    JSTR.clear()
    REGEX.clear()
    for t in subterms(*ts):
        if t.op == "fn" and t.a[0] == "regex" and isc(t.a[1]) and _rx(cv(t.a[1])):
            REGEX.add(cv(t.a[1]))
        if t.op == "fn" and t.a[0] in ("js:is", "js:get"):
            n = jname(t.a[2])
            k = JCODE.get(t.a[1].a[1])
            if n and k is not None:
                JHINT.setdefault(n, set()).add(k)
        elif t.op == "fn" and t.a[0] in ("js:has", "js:mem"):
            n = jname(t.a[2])
            if n:
                JHINT.setdefault(n, set()).add(3)
            JHINT.setdefault("", set())
        elif t.op == "fld" and t.a[1] == "l" and ttype(t.a[0]) == "json":
            n = jname(t.a[0])
            if n and t.a[0].op != "rec":
                JHINT.setdefault(n, set()).add(4)
        elif t.op == "lookup" and t.a[1].op == "fn" and t.a[1].a[0] == "js:get":
            n = jname(t.a[1].a[2])
            if n:
                JSTR.setdefault(n, set()).update(k for k, _ in TABLES.get(t.a[0], ()) if isinstance(k, str))
        elif t.op == "lookup":
            JSTR.setdefault("", set()).update(k for k, _ in TABLES.get(t.a[0], ()) if isinstance(k, str))
        elif t.op == "eq" and any(x.op == "fn" and x.a[0] == "js:get" for x in t.a[:2]):
            for x, y in (t.a[:2], t.a[1::-1]):
                if x.op == "fn" and x.a[0] == "js:get" and isc(y) and isinstance(cv(y), str):
                    JSTR.setdefault(jname(x.a[2]), set()).add(cv(y))


# ---------------------------------------------------------------- XML nodes read by the program
XATTR, XKID = {}, set()     # attribute name -> strings its value is compared with; names of children asked for


def xhints(*ts):
    XATTR.clear()
    XKID.clear()

    def aname(t):
        return cv(t.a[2]) if t.op == "fn" and t.a[0] == "pugi::xml_node::attribute" and len(t.a) == 3 and isc(t.a[2]) else None
    for t in subterms(*ts):
        if t.op == "fn" and t.a[0].startswith("pugi::") and len(t.a) > 1:
            if aname(t):
                XATTR.setdefault(aname(t), set())
            n = aname(t.a[1]) if isinstance(t.a[1], T) else None
            if n and t.a[0].endswith(("as_int", "as_float", "as_double", "as_uint")):
                XATTR.setdefault(n, set()).add(0)
            if t.a[0] in ("pugi::xml_node::children", "pugi::xml_node::child") and len(t.a) == 3 and isc(t.a[2]):
                XKID.add(cv(t.a[2]))
        elif t.op == "eq":
            for x, y in (t.a[:2], t.a[1::-1]):
                if isc(y) and isinstance(cv(y), str) and x.op == "fn" and len(x.a) > 1 and isinstance(x.a[1], T):
                    n = aname(x.a[1])
                    if n:
                        XATTR.setdefault(n, set()).add(cv(y))


def xml_text(rg, n):
    """a value for attribute n"""
    h = XATTR.get(n, ())
    s = sorted(x for x in h if isinstance(x, str))
    if s and rg.random() < 0.9:
        return [ord(c) for c in rg.choice(s)]
    if 0 in h:
        v = rg.choice([rg.randrange(0, 5), rg.randrange(0, 60), rg.randrange(0, 60), 10 * rg.randrange(0, 12), rg.randrange(-3, 12000), 10000, -1, 0])
        return [ord(c) for c in (str(v) if rg.random() < 0.97 else "")]
    return [ord(c) for c in rg.choice(["a", "b", "a", "b", "ab", ""])]


def rnd_xml(rg, depth=0, name="n"):
    miss = rg.choice([0, 0, 0.1, 0.4])
    at_ = [[[ord(c) for c in n], xml_text(rg, n)] for n in sorted(XATTR) if rg.random() >= miss]
    kids = []
    if depth < 3:
        for n in sorted(XKID):
            kids += [rnd_xml(rg, depth + 1, n) for _ in range(rg.choice([0, 1, 1, 2, 3]))]
    return {"#": "xml", "n": [ord(c) for c in name], "at": at_, "kids": kids, "nil": 0}


def perturb_xml(v, rg):
    v = copy.deepcopy(v)
    r = rg.random()
    if r < 0.6 and v["at"]:
        a = rg.choice(v["at"])
        a[1] = xml_text(rg, "".join(map(chr, a[0])))
    elif r < 0.8 and v["at"]:
        v["at"].remove(rg.choice(v["at"]))
    elif v["kids"]:
        k = rg.randrange(len(v["kids"]))
        if rg.random() < 0.2:
            del v["kids"][k]
        else:
            v["kids"][k] = perturb_xml(v["kids"][k], rg)
    else:
        return rnd_xml(rg)
    return v


XNIL = {"#": "xml", "n": [], "at": [], "kids": [], "nil": 1}


def xml_fn(n, xs):
    """the pugixml operations the program uses"""
    if CRASH in xs:
        return CRASH
    if n == "ctor:pugi::xml_node":
        return XNIL
    c, m = n.split("::")[1:3]
    x = xs[0]
    if not isinstance(x, dict) or x.get("#") not in ("xml", "xattr"):
        return CRASH if x == 0 else UNDEC
    k = xs[1] if len(xs) > 1 else None
    if isinstance(k, str):
        k = [ord(ch) for ch in k]
    if c in ("xml_node", "xml_document") and x["#"] == "xml":
        if m == "name":
            return x["n"]
        if m == "attribute" and isinstance(k, list):
            for a in x["at"]:
                if a[0] == k:
                    return {"#": "xattr", "n": a[0], "v": a[1], "nil": 0}
            return {"#": "xattr", "n": [], "v": [], "nil": 1}
        if m == "child" and isinstance(k, list):
            return next((y for y in x["kids"] if y["n"] == k), XNIL)
        if m == "children":
            return [y for y in x["kids"] if k is None or y["n"] == k]
        if m in ("empty", "operator!"):
            return x["nil"]
    if c == "xml_attribute" and x["#"] == "xattr":
        s = x["v"]
        if m == "name":
            return x["n"]
        if m == "value":
            return s
        if m == "as_string":
            return k if x["nil"] and k is not None else s
        if m in ("empty", "operator!"):
            return x["nil"]
        if m in ("as_int", "as_uint", "as_llong"):
            if x["nil"]:
                return k if k is not None else 0
            g = re.match(r"\s*([+-]?\d+)", "".join(map(chr, s)))
            r = int(g.group(1)) if g else 0
            return r if -2 ** 31 <= r < 2 ** 31 else UNDEC
        if m in ("as_float", "as_double"):
            if x["nil"]:
                return k if k is not None else 0.0
            g = re.match(r"\s*([+-]?\d+\.?\d*)", "".join(map(chr, s)))
            return float(g.group(1)) if g else 0.0
    return UNDEC


# ---------------------------------------------------------------- regular expressions of the program
REGEX = set()


def rxof(pat):
    """(compiled, full match asked for)"""
    return _rx(pat)


@functools.lru_cache(None)
def _rx(pat):
    try:
        return re.compile(re.sub(r"(?<!\\)\$$", r"\\Z", pat), re.A)
    except re.error:
        return None


def rx_fn(n, xs):
    """search, group or number of groups: xs = regex value, text, ..."""
    r, t = xs[0], xs[1]
    if t is CRASH or r is CRASH:
        return CRASH
    if not (isinstance(r, tuple) and r[0] == "regex" and isinstance(t, list) and all(isinstance(c, int) for c in t)):
        return UNDEC
    c = _rx(r[1])
    if c is None:
        return UNDEC
    t = "".join(chr(x % 256) for x in t)
    m = c.fullmatch(t) if r[2] else c.search(t)
    if n == "re:search":
        return int(m is not None)
    if n == "re:size":
        return c.groups + 1 if m else 0
    if not num_(xs[2]) or not 0 <= xs[2]:
        return UNDEC
    g = m.group(xs[2]) if m and xs[2] <= c.groups else None
    return [ord(x) for x in g or ""]


def rx_text(rg, pat):
    """a random text of a regular expression, sometimes slightly off"""
    from re import _parser as SP

    def go(p):
        out = []
        for op, a in p:
            k = str(op)
            if k == "LITERAL":
                out.append(chr(a))
            elif k == "ANY":
                out.append(rg.choice("a0. "))
            elif k == "IN":
                neg = a and str(a[0][0]) == "NEGATE"
                cs = [chr(y) if str(x) == "LITERAL" else chr(rg.choice([y[0], y[1], rg.randrange(y[0], y[1] + 1)])) for x, y in a if str(x) in ("LITERAL", "RANGE")]
                out.append(rg.choice("a0x") if neg or not cs else rg.choice(cs))
            elif k in ("MAX_REPEAT", "MIN_REPEAT"):
                lo, hi, q = a
                n = lo if rg.random() < 0.4 else rg.randrange(lo, min(int(hi), lo + 3) + 1)
                for _ in range(n):
                    out.append(go(q))
            elif k == "SUBPATTERN":
                out.append(go(a[-1]))
            elif k == "BRANCH":
                out.append(go(rg.choice(a[1])))
        return "".join(out)
    s = go(SP.parse(pat))
    if s and rg.random() < 0.3:
        j = rg.randrange(len(s))
        s = rg.choice([s[:j] + s[j + 1:], s[:j] + rg.choice("0aZ-9") + s[j + 1:], s + rg.choice("0a-"), rg.choice("0x ") + s, s.replace(s[j], "0")])
    h = [x for x in HOT["num"] if isinstance(x, int) and 1000 <= x <= 9999]
    if h and rg.random() < 0.6 and re.match(r"\d{4}", s):
        s = str(rg.choice(h)) + s[4:]
    return [ord(c) for c in s]


class JV(dict):
    def __init__(self, seed, path, name, depth, miss):
        dict.__init__(self)
        self.seed, self.path, self.name, self.depth, self.miss = seed, path, name, depth, miss
        self.mems = {}
        rg = self.rg("k")
        h = sorted(JHINT.get(name, ()))
        if depth > 6:
            h = [x for x in h if x not in (3, 4)]
        if not h or rg.random() < miss * 0.3:
            h = [0, 1, 3, 4, 5, 6, 7]
            if depth > 5:
                h = [0, 1, 5, 6, 7]
        k = rg.choice(h)
        self.k = rg.choice([6, 7, 7]) if k == 67 else k
        rg = self.rg("v")
        if self.k == 6:
            v = rg.choice([rg.randrange(0, 6), rg.randrange(0, 6), rg.randrange(-3, 300), rg.choice([127, 128, 255, 256, -128, 65536, -1, 0])])
            if rg.random() < 0.15 and HOT["num"]:
                x = hotnum(rg, -2 ** 31, 2 ** 32 - 1)
                v = v if x is None else x
            if rg.random() < 0.04:
                v = rg.choice([2 ** 31, 2 ** 32 - 1, 2 ** 32, -2 ** 31 - 1])
        elif self.k == 7:
            v = rg.choice([rg.uniform(-2, 2), 0.5, 100.25, 0.0, rg.uniform(0, 1000)])
        elif self.k == 5:
            s = sorted(JSTR.get(name, ())) or (sorted(JSTR.get("", ())) if name.endswith("[]") else [])
            if HOT["str"] and rg.random() < 0.2:
                s = HOT["str"]
            v = [ord(c) for c in rg.choice(s)] if s and rg.random() < 0.95 else \
                [rg.choice([65, 66, 97, 103, 48, 57, 43, 47]) for _ in range(rg.choice([0, 1, 2, 3, 4]))]
        else:
            v = rg.randrange(2) if self.k == 1 else 0
        self.v = v

    def rg(self, what):
        return random.Random("%s/%s/%s" % (self.seed, self.path, what))

    def child(self, p, name):
        return JV(self.seed, self.path + "/" + p, name, self.depth + 1, self.miss)

    def __contains__(self, n):
        return n in ("k", "l", "v")

    def __getitem__(self, n):
        if n == "k":
            return self.k
        if n == "v":
            return self.v
        if n == "l":
            if self.k == 4:
                if "l" not in self.mems:
                    m = self.rg("n").choice([0, 1, 1, 2, 2, 3])
                    self.mems["l"] = [self.child(str(j), self.name + "[]") for j in range(m)]
                return self.mems["l"]
            return CRASH
        raise KeyError(n)

    def member(self, n):
        """a member of an object, or None"""
        if self.k != 3:
            return CRASH
        if n not in self.mems:
            self.mems[n] = self.child("." + n, n) if self.rg("has." + n).random() >= self.miss else None
        return self.mems[n]


class JX(JV):
    """a JSON value given in full"""
    def __init__(self, v):
        dict.__init__(self)
        self.path = canon_json(v)
        self.k = 0 if v is None else 1 if isinstance(v, bool) else 6 if isinstance(v, int) else 7 if isinstance(v, float) else 5 if isinstance(v, str) else 4 if isinstance(v, list) else 3
        self.v = [ord(c) for c in v] if isinstance(v, str) else v if self.k in (6, 7) else int(bool(v)) if self.k == 1 else 0
        self.l = [JX(x) for x in v] if self.k == 4 else CRASH
        self.mems = {n: JX(x) for n, x in v.items()} if self.k == 3 else {}

    def __getitem__(self, n):
        return {"k": self.k, "v": self.v, "l": self.l}[n]

    def member(self, n):
        return self.mems.get(n) if self.k == 3 else CRASH

    def __deepcopy__(self, memo):
        return self


def canon_json(v):
    return json.dumps(v, sort_keys=True)


def js_fn(n, what, x):
    """membership, kind and conversion of a JSON value"""
    if x is CRASH or what is CRASH:
        return CRASH
    if isinstance(what, list) and all(isinstance(c, int) for c in what):
        what = "".join(map(chr, what))
    if not isinstance(x, dict) or not isinstance(what, str):
        return UNDEC
    if n in ("js:has", "js:mem"):
        if isinstance(x, JV):
            m = x.member(what)
        elif x.get("k") == 3:
            m = [y["v"] for y in x["l"] if isinstance(y, dict) and y.get("n") == [ord(c) for c in what]] if isinstance(x.get("l"), list) else UNDEC
            m = m if m is UNDEC else m[0] if m else None
        else:
            m = CRASH if isinstance(x.get("k"), int) else UNDEC
        if m is CRASH or m is UNDEC:
            return m
        return int(m is not None) if n == "js:has" else CRASH if m is None else m
    k, v = x["k"], x["v"]
    if not isinstance(k, int):
        return UNDEC
    integer = k == 6 and isinstance(v, int)
    fits = {"Int": (-2 ** 31, 2 ** 31 - 1), "Uint": (0, 2 ** 32 - 1), "Int64": (-2 ** 63, 2 ** 63 - 1), "Uint64": (0, 2 ** 64 - 1)}
    if what in fits:
        ok = k == 6 and num_(v) and fits[what][0] <= v <= fits[what][1]
    elif what in ("Number", "LosslessFloat", "LosslessDouble"):
        ok = k in (6, 7)
    elif what == "Float":
        ok = k in (6, 7) if n == "js:get" else k == 7
    elif what == "Double":
        ok = k in (6, 7) if n == "js:get" else k == 7
    else:
        ok = k == JCODE.get(what)
    if n == "js:is":
        return int(bool(ok))
    if not ok:
        return CRASH
    return v


def contract(name, xs):
    q = name[:name.index("(")].split("::")[-1]
    if q not in CONTRACT:
        return xs
    np = len(sig_args(name))
    off = len(xs) - np
    xs = list(xs)
    for j, how in CONTRACT[q].items():
        k = 0 if j == "this" else off + j
        if j == "this" and not off or k >= len(xs):
            continue
        x = xs[k]
        if how == "none":
            xs[k] = "-"
        elif how == "len":
            xs[k] = ("#", len(x)) if isinstance(x, list) else x
        elif how[0] == "pad":
            n = xs[off + how[1]]
            if isinstance(x, list) and isinstance(n, int) and 0 <= n < 100000:
                xs[k] = (x + [0] * n)[:n]
    return xs


def noalloc(t):
    while ", std::allocator<" in t:
        a = t.index(", std::allocator<")
        d, b = 0, a + 2
        while True:
            d += (t[b] == "<") - (t[b] == ">")
            b += 1
            if t[b - 1] == ">" and d == 0:
                break
        t = t[:a] + t[b:]
    return t


def forget():
    CANON.clear()
    HASU.clear()


UWRAP = {"unsigned int": 1 << 32, "unsigned long": 1 << 64, "unsigned char": 256, "unsigned short": 65536, "unsigned long long": 1 << 64}


class Ev:
    """evaluates terms under one valuation"""

    def __init__(self, seed, roots=None):
        self.rg = random.Random(seed)
        self.seed = seed
        self.roots = dict(roots or {})
        self.memo = {}
        forget()
        self.ufs = {}
        self.frames = []        # active loops: (k, values, memo)
        self.steps = 0
        self.binds = None
        self.depth = 0
        # in part of the valuations what is called succeeds
        self.gen = None
        self.nice = random.Random("nice/%s" % seed).random() < 0.5
        set_mode(random.Random("mode/%s" % seed), int(re.findall(r"\d+$", str(seed))[0]) if re.search(r"\d+$", str(seed)) else 0)

    def unfold(self, base, out, xs):
        """value of a call by the reviewed summary of the function"""
        t = body(base, out)
        if t is None or self.depth > 8:
            return UNDEC
        return self.at_call(base, t, xs)

    def at_call(self, base, t, xs):
        """value of a term over the parameters of a function at a call of it"""
        np = len(sig_args(base))
        e = Ev(self.seed)
        e.roots, e.ufs, e.rg, e.depth, e.steps = self.roots, self.ufs, self.rg, self.depth + 1, self.steps
        e.binds = {"p%d" % j: x for j, x in enumerate(xs[len(xs) - np:])}
        if len(xs) > np:
            e.binds["this"] = xs[0]
        r = e.ev(t)
        self.steps = e.steps
        return r

    def sym(self, t):
        if self.binds is not None and t.a[0] in self.binds:
            return self.binds[t.a[0]]
        k = (t.a[0], t.a[1] if len(t.a) > 1 else None)
        if re.match(r"\$i\d|\$chr", t.a[0]):
            k = t.a[0]
            if k not in self.roots:
                self.roots[k] = random.Random("%s/%s" % (self.seed, k)).randrange(0, 2)
            return self.roots[k]
        if k not in self.roots:
            if k[0].startswith("global:std::basic_string<") and k[0].endswith("::npos"):
                return NPOS
            if k[1] is None:
                return UNDEC
            rg = random.Random("%s/%s" % (self.seed, k[0]))
            if self.nice and k[0] in ("$parse", "$accept"):
                self.roots[k] = int(k[0] == "$accept")
                return self.roots[k]
            if "*" in GEN:
                if self.gen is None:
                    r2 = random.Random("gen*/%s" % self.seed)
                    try:
                        self.gen = GEN["*"](r2) if r2.random() < 0.7 else {}
                    except Exception:
                        self.gen = {}
                if k[0] in self.gen:
                    self.roots[k] = self.gen[k[0]]
                    return self.roots[k]
            g = (GEN.get(k[0]) or GEN and GEN.get("t:" + noalloc(k[1]))) if random.Random("gen/%s" % self.seed).random() < GEN.get("%", 0.6) else None
            rnd_value.name = k[0]
            try:
                self.roots[k] = g(rg, k[1]) if g else rnd_value(rg, k[1])
            except (KeyError, IndexError, TypeError):
                self.roots[k] = rnd_value(rg, k[1])     # the generator speaks of attributes that changed
        return self.roots[k]

    def alias(self, terms):
        """makes two inputs of one type equal (they may be changed one at a time afterwards)"""
        ty = {}
        for t in terms:
            for x in syms(t):
                if len(x.a) > 1 and x.a[1]:
                    ty.setdefault(x.a[1], {})[x] = 1
        ty = [sorted(v, key=lambda x: x.a[0]) for k, v in ty.items() if len(v) > 1 and k != "json"]
        if ty:
            v = self.rg.choice(ty)
            a, b = self.rg.sample(v, 2)
            w = copy.deepcopy(self.sym(a))
            if self.rg.random() < 0.6:
                w = perturb(w, b.a[1], self.rg)
            self.roots[(b.a[0], b.a[1])] = w
            self.memo.clear()
            forget()

    # -- steering a valuation towards the truth of a condition (still only a valuation: everything
    #    decided from it is evaluated afterwards)
    def steer(self, t, truth=True, env=None, rg=None):
        try:
            return self.steer_(t, truth, env, rg)
        except (ValueError, OverflowError):
            return False

    def steer_(self, t, truth=True, env=None, rg=None):
        rg = rg or self.rg
        if env is None:
            env = tuple(sorted((k, 0) for k in bvs(t)))
        v = self.ev(t, env)
        if v is not UNDEC and isinstance(v, (int, float)) and bool(v) == truth:
            return True
        o, a = t.op, t.a
        ok = False
        if o == "not":
            return self.steer(a[0], not truth, env, rg)
        if (o == "and" and truth) or (o == "or" and not truth):
            ok = all([self.steer(x, truth, env, rg) for x in a])
        elif o in ("and", "or"):
            ok = self.steer(rg.choice(a), truth, env, rg)
        elif o == "eq":
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                w = self.ev(y, env)
                if w is UNDEC:
                    continue
                if truth:
                    ok = self.assign(x, w, env)
                elif num_(w):
                    ok = self.assign(x, w + rg.choice([1, -1, 2]), env)
                if ok:
                    break
        elif o == "lt":
            d = sub(a[1], a[0])         # truth: d >= 1
            k, parts = lin_parts(d)
            cur = self.ev(d, env)
            if num_(cur) and parts:
                need = (rg.choice([1, 1, 2]) - cur) if truth else (-rg.choice([0, 0, 1]) - cur)
                for x, c in sorted(parts.items(), key=lambda p: rg.random()):
                    w = self.ev(x, env)
                    if num_(w):
                        step = -(-need // c) if truth else need // c
                        if c < 0:
                            step = math.floor(need / c) if truth else math.ceil(need / c)
                        if self.assign(x, w + step, env):
                            ok = True
                            break
        elif o == "has":
            if truth:
                ty = targ(ttype(a[0]) or "") if ttype(a[0]) else None
                ok = ty is not None and self.assign(a[0], ("some", rnd_value(rg, ty, 8)), env)
            else:
                ok = self.assign(a[0], None, env)
        elif o == "ite":
            c = self.ev(a[0], env)
            if c is not UNDEC:
                ok = self.steer(a[1] if c else a[2], truth, env, rg)
        elif ttype(t) == "bool":
            ok = self.assign(t, int(truth), env)
        return ok

    def assign(self, x, v, env):
        """change the valuation so that x evaluates to v (best effort)"""
        o, a = x.op, x.a
        if o == "tr":
            return self.assign(a[2], v, env)
        if o == "enum":
            return self.assign(a[1], v, env)
        if o == "lin" and num_(v):
            for y, c in a[1]:
                w, cur = self.ev(y, env), self.ev(x, env)
                if num_(w) and num_(cur) and c and (v - cur) % c == 0:
                    if self.assign(y, w + (v - cur) // c, env):
                        return True
            return False
        if o == "len":
            if not isinstance(v, int) or not 0 <= v <= 300:
                return False
            l = self.ev(a[0], env)
            if not isinstance(l, list) or not self.place(a[0], l, env):
                return False
            ty = targ(ttype(a[0]) or "") or "char"
            while len(l) > v:
                l.pop()
            while len(l) < v:
                l.append(rnd_value(self.rg, ty, 8))
            self.memo.clear()
            forget()
            return True
        if o == "ite":
            c = self.ev(a[0], env)
            return c is not UNDEC and c is not CRASH and self.assign(a[1] if c else a[2], v, env)
        if num_(v):
            y = ttype(x)
            if y in RANGES and not RANGES[y][0] <= v <= RANGES[y][1]:
                return False
        return self.place(x, v, env)

    def place(self, x, v, env):
        o, a = x.op, x.a
        if v is UNDEC or v is CRASH or hasundec(v):
            return False
        if o == "sym":
            old = self.sym(x)
            k = (a[0], a[1] if len(a) > 1 else None)
            if k not in self.roots:
                k = a[0]
                if k not in self.roots:
                    return False
                if not (isinstance(v, int) and v >= 0):
                    return False
            self.roots[k] = v
        elif o == "fld":
            c = self.ev(a[0], env)
            if not isinstance(c, dict) or a[1] not in c or not self.rooted(a[0]):
                return False
            c[a[1]] = v
        elif o == "at":
            c, i = self.ev(a[0], env), self.ev(a[1], env)
            if not isinstance(c, list) or not isinstance(i, int) or i < 0 or not self.rooted(a[0]):
                return False
            if i >= len(c):
                return False
            c[i] = v
        elif o == "val":
            return self.place(a[0], ("some", v), env)
        else:
            return False
        self.memo.clear()
        forget()
        return True

    def rooted(self, x):
        while x.op in ("fld", "at", "val"):
            x = x.a[0]
        return x.op == "sym"

    def ev(self, t, bv=()):
        o = t.op
        if o == "c" and t.a[0] != "str":
            return t.a[1]
        if o == "mv":
            k, i = t.a[0], t.a[1]
            for f in reversed(self.frames):
                if f[0] == k:
                    return f[1][i]
            return UNDEC
        if bv and not (t._bvs if t._bvs is not None else bvs(t)):
            bv = ()
        key = (t, bv) if bv else t
        memo = self.memo
        if self.frames:
            ks = t._mvk if t._mvk is not None else mvk(t)
            if ks:
                for f in reversed(self.frames):
                    if f[0] in ks:
                        memo = f[2]
                        break
        r = memo.get(key)
        if r is None:
            f = FAST.get(o)
            r = f(self, t.a, bv) if f else self._ev(t, bv)
            if len(memo) > 400000:
                memo.clear()
            memo[key] = r if r is not None else NONEV
            return r
        return None if r is NONEV else r

    def mu(self, t, E, b):
        k, inits, cond, nexts, tys = t.a
        vals = [E(x) for x in inits]
        bt, dead = tuple(sorted(b.items())), 0
        for n in range(100000):
            self.frames.append((k, vals, {}))
            try:
                c = self.ev(cond, bt)
                if c is UNDEC or c is CRASH or not isinstance(c, (int, float)):
                    return c if c is CRASH else UNDEC
                if not c:
                    return vals[0]
                new = [self.ev(x, bt) for x in nexts]
            finally:
                self.frames.pop()
            for j, x in enumerate(new):
                # an unsigned counter wraps
                if isinstance(x, int) and x < 0 and j < len(tys) and isinstance(tys[j], str) and tys[j] in UWRAP:
                    new[j] = x + UWRAP[tys[j]]
            self.steps += 1
            dead = dead + 1 if new[0] is CRASH else 0
            if dead >= 500:
                return CRASH        # the result has had no value for hundreds of iterations and nothing ends the loop
            if self.steps > 4000:
                return UNDEC
            if n >= 63 and n & (n + 1) == 0 and not any(hasundec(x) for x in new) and all(same(x, y) is True for x, y in zip(vals, new)):
                return CRASH        # a state repeats: the loop never ends
            vals = new
        return UNDEC

    def _ev(self, t, bt):
        o, a, b = t.op, t.a, dict(bt)

        def E(x):
            return self.ev(x, bt)
        if o in STRICT:
            for x in a:
                if isinstance(x, T) and E(x) is CRASH:
                    return CRASH
            if o == "lin":
                for x, c in a[1]:
                    if E(x) is CRASH:
                        return CRASH
        if o == "mv":
            for k, vals, m in reversed(self.frames):
                if k == a[0]:
                    return vals[a[1]]
            return UNDEC
        if o == "mu":
            return self.mu(t, E, b)
        if o == "c":
            return [ord(c) for c in a[1]] if a[0] == "str" else a[1]
        if o == "sym":
            return self.sym(t)
        if o == "bv":
            return b.get(a[0], UNDEC)
        if o == "opq" and a[0] == "uninit" and len(a) > 1 and (a[1] in SCALAR or a[1] in ENUMS()):
            return CRASH            # an indeterminate value is read
        if o == "none":
            return None
        if o == "some":
            return ("some", E(a[0]))
        if o == "fld":
            x = E(a[0])
            if isinstance(x, dict) and a[1] in x:
                return x[a[1]]
            return ("rtf", x, a[1]) if isinstance(x, tuple) and x and x[0] in ("rt", "rtf") else UNDEC
        if o == "at":
            s, i = E(a[0]), E(a[1])
            if isinstance(s, list) and isinstance(i, int):
                return s[i] if 0 <= i < len(s) else CRASH
            return UNDEC
        if o == "len":
            s = E(a[0])
            return len(s) if isinstance(s, list) else UNDEC
        if o == "has":
            x = E(a[0])
            return UNDEC if x is UNDEC else int(x is not None)
        if o == "val":
            x = E(a[0])
            return x[1] if isinstance(x, tuple) and x[0] == "some" else CRASH if x is None else UNDEC
        if o == "rec":
            base = E(a[1]) if a[1] is not None else {"#": a[0]}
            if not isinstance(base, dict):
                return UNDEC
            r = dict(base)
            for k, v in a[2]:
                r[k] = E(v)
            return r
        if o == "ite" or o == "if":
            c = E(a[0])
            if c is CRASH:
                return CRASH
            if c is UNDEC or not isinstance(c, (int, float)):
                x, y = E(a[1]), E(a[2])
                return x if same(x, y) is True else UNDEC
            return E(a[1] if c else a[2])
        if o == "not":
            x = E(a[0])
            return UNDEC if not isinstance(x, (int, float)) else int(not x)
        if o == "and":
            r = 1
            for x in a:
                v = E(x)
                if v is UNDEC or v is CRASH:
                    r = v if r is not UNDEC else r
                elif not v:
                    return 0
            return r
        if o == "or":
            r = 0
            for x in a:
                v = E(x)
                if v is UNDEC or v is CRASH:
                    r = v if r is not UNDEC else r
                elif v:
                    return 1
            return r
        if o == "eq":
            s = same(E(a[0]), E(a[1]))
            return UNDEC if s is None else int(s)
        if o == "lt":
            x, y = E(a[0]), E(a[1])
            if num_(x) and num_(y):
                return int(x < y)
            return UNDEC
        if o == "lin":
            r = a[0]
            for x, c in a[1]:
                v = E(x)
                if not num_(v):
                    return UNDEC
                r += v * c
            return r
        if o in ("mul", "fadd", "fsub", "fdiv", "idiv", "mod", "shl", "shr", "band", "bor", "bxor", "ceildiv"):
            x, y = E(a[0]), E(a[1])
            if not (num_(x) and num_(y)):
                return UNDEC
            try:
                if o == "mul":
                    return x * y
                if o == "fadd":
                    return x + y
                if o == "fsub":
                    return x - y
                if o == "fdiv":
                    if y == 0:
                        return math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
                    return x / y
                x, y = int(x), int(y)
                if o == "idiv":
                    q = abs(x) // abs(y)
                    return q if (x < 0) == (y < 0) else -q
                if o == "mod":
                    return abs(x) % abs(y) * (1 if x >= 0 else -1)
                if o == "ceildiv":
                    return -(-x // y)
                if o == "shl":
                    return x << y if 0 <= y < 64 else UNDEC
                if o == "shr":
                    return x >> y if 0 <= y < 64 else UNDEC
                return {"band": x & y, "bor": x | y, "bxor": x ^ y}[o]
            except (ZeroDivisionError, OverflowError, ValueError):
                return UNDEC
        if o == "bnot":
            x = E(a[0])
            return ~x if isinstance(x, int) else UNDEC
        if o == "tr":
            x = E(a[2])
            if not isinstance(x, int):
                return UNDEC
            v = x & ((1 << a[0]) - 1)
            if a[1] and v >> (a[0] - 1):
                v -= 1 << a[0]
            return v
        if o == "bit":
            x = E(a[0])
            k = E(a[1]) if isinstance(a[1], T) else a[1]
            return (x >> k) & 1 if isinstance(x, int) and isinstance(k, int) and 0 <= k < 64 else UNDEC
        if o == "bitstr":
            x = E(a[1])
            return [48 + (x >> k & 1) for k in range(a[0] - 1, -1, -1)] if isinstance(x, int) else UNDEC
        if o == "bits":
            r = 0
            for k, c in a[0]:
                v = E(c)
                if v is UNDEC:
                    return UNDEC
                r |= (1 << k) if v else 0
            return r
        if o == "hi":
            x = E(a[0])
            return (x & ((1 << a[1]) - 1)) >> (a[1] - a[2]) if isinstance(x, int) else UNDEC
        if o == "lo":
            x = E(a[0])
            return x & ((1 << a[1]) - 1) if isinstance(x, int) else UNDEC
        if o == "joined":
            r = 0
            for w, x in a[0]:
                v = E(x)
                if not isinstance(v, int):
                    return UNDEC
                r = (r << w) | (v & ((1 << w) - 1))
            return r
        if o == "enum":
            return E(a[1])
        if o == "f2i":
            x = E(a[0])
            return int(x) if num_(x) and abs(x) < 1e15 else UNDEC
        if o == "fn":
            return self.fn(a, E)
        if o in ("quant", "fq", "fdq"):
            return (o,) + a[:3] + (E(a[3]),)
        if o == "rt":
            return ("rt", a[0], E(a[1]))
        if o in ("lookup", "intable"):
            k = E(a[1])
            if k is CRASH:
                return k
            if a[0] in TABLES and (isinstance(k, int) or isinstance(k, list) and all(isinstance(c, int) for c in k)):
                if isinstance(k, list):
                    k = "".join(map(chr, k))
                for x, v in TABLES[a[0]]:
                    if x == k:
                        return 1 if o == "intable" else [ord(c) for c in v] if isinstance(v, str) else v
                return 0 if o == "intable" else CRASH
            if o == "intable":
                return UNDEC
            return ("lookup", a[0], k)
        if o == "pair":
            return [E(x) for x in a]
        if o == "upd":
            s, i, v = E(a[0]), E(a[1]), E(a[2])
            if isinstance(s, list) and isinstance(i, int):
                if not 0 <= i < len(s):
                    return CRASH
                s = list(s)
                s[i] = v
                return s
            return UNDEC
        if o == "sum":
            n = E(a[0])
            if not isinstance(n, int) or n > 300:
                return UNDEC
            r = 0
            for i in range(n):
                v = self.ev(a[1], tuple(sorted({**b, a[2]: i}.items())))
                if not num_(v):
                    return UNDEC
                r += v
            return r
        if o == "allof":
            x = E(a[0])
            return UNDEC if x is UNDEC or UNDEC in x else int(all(x))
        if o == "seq":
            out = []
            for g in a:
                r = self.seg(g, b, bt)
                if r is UNDEC or r is CRASH:
                    return r
                out.extend(r)
            return out
        if o == "bitset":
            return E(a[1])
        if o == "nullptr":
            return 0
        if o == "uf":
            base = a[0][:a[0].rindex(")") + 1]
            if KNOWN and base not in KNOWN or a[0] in UNLIKE and base not in EXPAND:
                return UNDEC
            xs = [E(x) for x in a[3:]]
            if any(hasundec(x) for x in xs):
                return CRASH if any(x is CRASH for x in xs) else UNDEC
            if base in EXPAND:
                return self.unfold(base, a[2], xs)
            h = canon([a[0], a[2]] + contract(a[0], xs))
            r = self.ufs.get(h)
            if r is None:
                rg = random.Random("%s/%s" % (self.seed, h))
                k = None
                if re.match(r"p\d+$", a[2]):
                    np = len(sig_args(a[0]))
                    k = xs[len(xs) - np + int(a[2][1:])]
                n = call_length(base, a[2]) if "<" in a[1] and isinstance(k, list) else None
                if n is not None:
                    n = self.at_call(base, n, xs)
                    n = n if isinstance(n, int) and 0 <= n <= 4000 else None
                if n is not None or isinstance(k, list) and k and "<" in a[1] and rg.random() < 0.9:
                    r = [rnd_value(rg, targ(a[1]), 6) for _ in range(len(k) if n is None else n)]
                elif self.nice and a[1] == "bool":
                    r = int(rg.random() < 0.96)
                else:
                    g = GEN and GEN.get("t:" + noalloc(a[1]))
                    try:
                        r = g(rg, a[1]) if g else rnd_value(rg, a[1])
                    except (KeyError, IndexError, TypeError):
                        r = rnd_value(rg, a[1])
                if isinstance(r, dict):
                    k = xs[0] if a[2] == "this" else k
                    ch = call_changes(base, a[2]) if isinstance(k, dict) else None
                    if ch is not None:
                        r.update({f: v for f, v in k.items() if f not in ch})
                if r is UNDEC or hasundec(r):
                    r = ("uft", h)
                self.ufs[h] = r if r is not None else NONEV
            return None if r is NONEV else r
        return UNDEC

    def lam(self, t, vals, E):
        """value of a function term lam(k, body, types) for arguments"""
        self.frames.append((t.a[0], vals, {}))
        try:
            return E(t.a[1])
        finally:
            self.frames.pop()

    def sort(self, a, E):
        s = E(a[1])
        if not isinstance(s, list):
            return s if s is CRASH else UNDEC
        bad = []

        def less(x, y):
            r = self.lam(a[2], [x, y], E) if len(a) > 2 else (int(x < y) if num_(x) and num_(y) else UNDEC)
            if r is UNDEC or r is CRASH:
                bad.append(r)
                return 0
            return r
        out = sorted(s, key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else (1 if less(y, x) else 0)))
        return UNDEC if bad else out

    def seg(self, g, b, bt):
        E = lambda x: self.ev(x, bt)
        if g.op == "one":
            return [E(g.a[0])]
        if g.op == "all":
            s = E(g.a[0])
            if not isinstance(s, list):
                return CRASH if s is CRASH else UNDEC
            return s if g.a[1] is None else s[:len(s) & ((1 << g.a[1]) - 1)]
        if g.op == "map":
            n = E(g.a[0])
            if n is CRASH:
                return n
            if not isinstance(n, int) or n > (300 if bvs(g.a[1]) or mvk(g.a[1]) else 70000):
                return UNDEC
            out = []
            if n > 300:
                r = self.ev(g.a[1], bt)
                return r * n if isinstance(r, list) else UNDEC
            for i in range(max(0, n)):
                r = self.ev(g.a[1], tuple(sorted({**b, g.a[2]: i}.items())))
                if not isinstance(r, list):
                    return CRASH if r is CRASH else UNDEC
                out.extend(r)
            return out
        if g.op == "if":
            c = E(g.a[0])
            if c is UNDEC or c is CRASH:
                return c
            return E(g.a[1] if c else g.a[2])
        if g.op == "e":
            w, x = g.a[0], E(g.a[1])
            if isinstance(x, int):
                return [(x >> k) & 1 for k in range(w - 1, -1, -1)]
            if isinstance(x, tuple) and x[0] in ("fq",):
                return [("bitof", x, k) for k in range(w - 1, -1, -1)]
            return [CRASH if x is CRASH else UNDEC] * w
        if g.op == "run":
            x, hi, lo = g.a
            x = E(x)
            if isinstance(x, int):
                return [(x >> k) & 1 for k in range(hi, lo - 1, -1)]
            return CRASH if x is CRASH else UNDEC
        if g.op == "rec_":
            return [("rec_", g.a[0]) + tuple(fz(E(x)) for x in g.a[1:])]
        return UNDEC

    def fn(self, a, E):
        if a[0] == "sorted":
            return self.sort(a, E)
        if a[0].startswith("js:"):
            return js_fn(a[0], E(a[1]), E(a[2])) if len(a) > 2 else UNDEC
        if a[0] == "regex":
            return ("regex", cv(a[1]), len(a) > 2) if isc(a[1]) and isinstance(cv(a[1]), str) else UNDEC
        xs = [E(x) for x in a[1:] if isinstance(x, T)]
        n = a[0].split("::")[-1]
        if a[0].startswith(("pugi::xml_", "ctor:pugi::xml_")):
            return xml_fn(a[0], xs)
        if n in ("re:search", "re:size", "re:group"):
            return rx_fn(n, xs)
        if n == "fft1d":
            return fft(xs)
        if a[0].startswith("iir:"):
            return iir(a[0], xs)
        if n in ("atoi", "stoi"):
            if CRASH in xs:
                return CRASH
            if not isinstance(xs[0], list) or not all(isinstance(c, int) for c in xs[0]):
                return UNDEC
            m = re.match(r"\s*([+-]?\d+)", "".join(chr(c % 256) for c in xs[0]))
            r = int(m.group(1)) if m else 0 if n == "atoi" else CRASH
            return r if r is CRASH or -2 ** 31 <= r < 2 ** 31 else UNDEC
        if n in ("str2bits", "stoul2"):
            if isinstance(xs[0], str):
                xs[0] = [ord(c) for c in xs[0]]
            if not isinstance(xs[0], list) or not all(isinstance(c, int) for c in xs[0]):
                return UNDEC
            if not xs[0] or any(c not in (48, 49) for c in xs[0]):
                return CRASH if n == "stoul2" or xs[0] else 0
            return int("".join(map(chr, xs[0][:xs[1]] if n == "str2bits" else xs[0])), 2)
        if n == "byte" and isinstance(xs[1], int) and isinstance(xs[3], int) and num_(xs[2]):
            try:
                b = (struct.pack("<f" if xs[1] == 4 else "<d", xs[2]) if cv(a[1]) == "float" else
                     (int(xs[2]) & ((1 << 8 * xs[1]) - 1)).to_bytes(xs[1], "little"))
            except (OverflowError, struct.error, ValueError):
                return UNDEC
            return (b[xs[3]] ^ 128) - 128
        if n == "frombytes":
            if not all(isinstance(x, int) for x in xs[2:]):
                return UNDEC
            b = bytes(x & 255 for x in xs[2:])
            t = cv(a[1])
            if t in ("float", "double"):
                return struct.unpack("<f" if len(b) == 4 else "<d", b)[0] if len(b) in (4, 8) else UNDEC
            return int.from_bytes(b, "little", signed=xs[1] == 1)
        if n == "isdigit" and len(xs) == 1 and num_(xs[0]):
            return int(48 <= xs[0] <= 57)
        if xs and isinstance(xs[0], list) and all(isinstance(x, int) or isinstance(x, list) or k for k, x in enumerate(xs)):
            r = seqfn(n, xs)
            if r is not None:
                return r
        if all(num_(x) for x in xs):
            try:
                if n in ("floor", "ceil", "sqrt", "sin", "cos", "log2", "log10", "exp", "log", "tan", "atan", "fabs"):
                    r = getattr(math, n)(xs[0])
                    return float(r)
                if n == "pow":
                    return math.pow(xs[0], xs[1])
                if n == "fmod":
                    return math.fmod(xs[0], xs[1])
                if n == "abs":
                    return abs(xs[0])
                if n == "round":
                    return math.floor(abs(xs[0]) + 0.5) * (1 if xs[0] >= 0 else -1)
                if n == "max":
                    return max(xs)
                if n == "min":
                    return min(xs)
                if n == "clamp":
                    return min(max(xs[0], xs[1]), xs[2])
            except (ValueError, OverflowError, IndexError):
                return math.nan if any(isinstance(x, float) and not math.isfinite(x) for x in xs) else UNDEC
        return UNDEC


NPOS = 2 ** 64 - 1


def seqfn(n, xs):
    s, r = xs[0], [x - 2 ** 64 if isinstance(x, int) and x >= 2 ** 64 else x for x in xs[1:]]
    if n == "rev":
        return s[::-1]
    if n == "strcat" and len(r) == 1 and isinstance(r[0], list):
        return s + r[0]
    if n == "padslice":      # bytes that may lie beyond the end
        if not all(isinstance(x, int) for x in r) or not 0 <= r[1] <= 5000 or r[0] < 0:
            return UNDEC
        l = s[r[0]:r[0] + r[1]]
        return l + [0] * (r[1] - len(l))
    if n in ("slice", "erase", "splice", "resize", "substr") and any(not isinstance(x, int) for x in r[:1]):
        return UNDEC
    if n in ("find", "rfind", "find_last_of", "find_first_of", "find_last_not_of", "find_first_not_of") and r and \
            all(isinstance(x, int) for x in s) and (isinstance(r[0], int) or isinstance(r[0], list) and all(isinstance(x, int) for x in r[0])):
        y = [r[0]] if isinstance(r[0], int) else r[0]
        if n in ("find", "rfind"):
            hits = [k for k in range(len(s) - len(y) + 1) if s[k:k + len(y)] == y]
        else:
            hits = [k for k in range(len(s)) if (s[k] in y) != ("not" in n)]
        last = n == "rfind" or "last" in n
        if len(r) > 1:
            if not isinstance(r[1], int):
                return UNDEC
            hits = [k for k in hits if r[1] == NPOS or (k <= r[1] if last else k >= r[1])]
        return (hits[-1] if last else hits[0]) if hits else NPOS
    if n == "slice":
        if not isinstance(r[1], int):
            return UNDEC
        return s[r[0]:r[1]] if 0 <= r[0] <= r[1] <= len(s) else CRASH
    if n == "erase":
        j = r[1] if len(r) > 1 else r[0] + 1
        if not isinstance(j, int):
            return UNDEC
        return s[:r[0]] + s[j:] if 0 <= r[0] <= j <= len(s) else CRASH
    if n == "splice":
        if not isinstance(r[1], list):
            return UNDEC
        return s[:r[0]] + r[1] + s[r[0] + len(r[1]):] if 0 <= r[0] and r[0] + len(r[1]) <= len(s) else CRASH
    if n == "resize":
        if not 0 <= r[0] <= 5000:
            return CRASH if r[0] < 0 or r[0] > 1 << 40 else UNDEC
        return s[:r[0]] + [r[1]] * (r[0] - len(s))
    if n == "substr":
        if len(r) > 1 and not isinstance(r[1], int):
            return UNDEC
        return (s[r[0]:r[0] + r[1]] if len(r) > 1 else s[r[0]:]) if 0 <= r[0] <= len(s) else CRASH
    return None


_mvk = {}
NONEV = ("none",)


def _f_ite(S, a, bt):
    c = S.ev(a[0], bt)
    if c is CRASH:
        return CRASH
    if c is UNDEC or not isinstance(c, (int, float)):
        x, y = S.ev(a[1], bt), S.ev(a[2], bt)
        return x if same(x, y) is True else UNDEC
    return S.ev(a[1] if c else a[2], bt)


def _f_at(S, a, bt):
    s, i = S.ev(a[0], bt), S.ev(a[1], bt)
    if s is CRASH or i is CRASH:
        return CRASH
    if isinstance(s, list) and isinstance(i, int):
        return s[i] if 0 <= i < len(s) else CRASH
    return UNDEC


def _f_fld(S, a, bt):
    x = S.ev(a[0], bt)
    if isinstance(x, dict) and a[1] in x:
        return x[a[1]]
    if x is CRASH:
        return CRASH
    return ("rtf", x, a[1]) if isinstance(x, tuple) and x and x[0] in ("rt", "rtf") else UNDEC


def _f_len(S, a, bt):
    s = S.ev(a[0], bt)
    return len(s) if isinstance(s, list) else CRASH if s is CRASH else UNDEC


def _f_has(S, a, bt):
    x = S.ev(a[0], bt)
    return x if x is UNDEC or x is CRASH else int(x is not None)


def _f_val(S, a, bt):
    x = S.ev(a[0], bt)
    return x[1] if isinstance(x, tuple) and x[0] == "some" else CRASH if x is None or x is CRASH else UNDEC


def _f_lt(S, a, bt):
    x, y = S.ev(a[0], bt), S.ev(a[1], bt)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return int(x < y)
    return CRASH if x is CRASH or y is CRASH else UNDEC


def _f_lin(S, a, bt):
    r, bad = a[0], None
    for x, c in a[1]:
        v = S.ev(x, bt)
        if not isinstance(v, (int, float)):
            if v is CRASH:
                return CRASH
            bad = UNDEC
        elif bad is None:
            r += v * c
    return r if bad is None else bad


def _f_not(S, a, bt):
    x = S.ev(a[0], bt)
    return int(not x) if isinstance(x, (int, float)) else CRASH if x is CRASH else UNDEC


def _f_bv(S, a, bt):
    for k, v in bt:
        if k == a[0]:
            return v
    return UNDEC


FAST = {"ite": _f_ite, "if": _f_ite, "at": _f_at, "fld": _f_fld, "len": _f_len, "has": _f_has, "val": _f_val, "lt": _f_lt,
        "lin": _f_lin, "not": _f_not, "bv": _f_bv}


def mvk(t):
    """binder numbers of the free loop variables of t"""
    r = _mvk.get(t)
    if r is None:
        r = _mvk[t] = t._mvk = frozenset(x.a[0] for x in free(t) if x.op == "mv")
    return r


_bvs = {}


def bvs(t):
    r = _bvs.get(t)
    if r is None:
        r = _bvs[t] = t._bvs = frozenset(x.a[0] for x in free(t) if x.op == "bv")
    return r


_syms = {}


def syms(t):
    """the inputs a term depends on"""
    r = _syms.get(t)
    if r is None:
        out, todo, seen = {}, [t], set()
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op == "sym" and not x.a[0].startswith("$"):
                    out[x] = 1
                todo.extend(x.a)
        r = _syms[t] = list(out)
    return r


def atoms(t, out=None):
    """the conditions occurring in a term"""
    out = {} if out is None else out
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op in ("ite", "if"):
                out[x.a[0]] = 1
            elif x.op in ("eq", "lt", "has"):
                out[x] = 1
            todo.extend(x.a)
    return out


def valuations(seed, n, terms, want=(), roots=None):
    """random valuations; all but the first few are steered towards conditions that occur in the
    terms but not in the reviewed ones (or, when there is none, towards any of their conditions)"""
    A, B = {}, {}
    for t in terms:
        atoms(t, A)
    for t in want:
        atoms(t, B)
    hot = [x for x in A if x not in B] or [x for x in B if x not in A]
    hot = sorted(hot, key=lambda x: x.n)
    both = sorted(set(A) | set(B), key=lambda x: x.n)
    for k in range(n):
        e = Ev("%s/%s" % (seed, k), roots)
        if k >= 4 and NEWTR and e.rg.random() < 0.5:
            t = e.rg.choice(NEWTR)
            e.assign(t.a[2], e.rg.choice([1 << t.a[0], (1 << t.a[0]) + 3, 1 << (t.a[0] - 1), -1, (1 << t.a[0]) - 1]),
                     tuple(sorted((b, 0) for b in bvs(t))))
        if k >= 4 and e.rg.random() < 0.3:
            e.alias(terms)
        if k >= 4 and both:
            for _ in range(e.rg.choice([0, 0, 1, 3]) if "*" in GEN else 3):
                c = e.rg.choice(hot if hot and e.rg.random() < 0.8 else both)
                truth = e.rg.random() < 0.7
                for _ in range(2):
                    if e.steer(c, truth):
                        break
        yield k, e


def fz(x):
    if isinstance(x, JV):
        return ("#jv", x.path, x.seed)
    if isinstance(x, list):
        return tuple(fz(y) for y in x)
    if isinstance(x, dict):
        return ("#rec",) + tuple(sorted((k, fz(v)) for k, v in x.items()))
    if isinstance(x, tuple):
        return tuple(fz(y) for y in x)
    return x


CANON = {}      # id -> (object, text) of structured values; cleared when a valuation changes


def canon(x):
    """text of a value, blind to rounding"""
    if isinstance(x, bool):
        return str(int(x))
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        return str(int(x)) if x.is_integer() and abs(x) < 1e15 else "%.6g" % x
    if isinstance(x, JV):
        return "json:" + x.path
    if isinstance(x, (list, dict)):
        r = CANON.get(id(x))
        if r is None:
            t = "(" + ",".join([canon(y) for y in x]) + ")" if isinstance(x, list) else \
                "{" + ",".join([k + ":" + canon(x[k]) for k in sorted(x) if k != "#"]) + "}"
            if len(t) > 200:
                t = hashlib.md5(t.encode()).hexdigest()
            CANON[id(x)] = r = (x, t)
        return r[1]
    if isinstance(x, tuple):
        return "(" + ",".join([canon(y) for y in x]) + ")"
    return str(x)


def sig_args(name):
    s = name[name.index("(") + 1:name.rindex(")")]
    out, d, cur = [], 0, ""
    for c in s:
        d += c in "<(" 
        d -= c in ">)"
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur] if s else []


def num_(x):
    return isinstance(x, (int, float)) and not isinstance(x, _U)


HASU = {}       # likewise for hasundec


def hasundec(x):
    if x is UNDEC or x is CRASH:
        return True
    if isinstance(x, JV):
        return False
    if isinstance(x, (list, dict)):
        r = HASU.get(id(x))
        if r is None:
            v = False
            for y in x if isinstance(x, list) else x.values():
                if isinstance(y, (int, float, str)):
                    continue
                if hasundec(y):
                    v = True
                    break
            HASU[id(x)] = r = (x, v)
        return r[1]
    if isinstance(x, tuple):
        return any(hasundec(y) for y in x)
    return False


def same(x, y):
    """True / False / None (not decided)"""
    if x is UNDEC or y is UNDEC or x is CRASH or y is CRASH:
        return None
    if num_(x) and num_(y):
        if isinstance(x, float) or isinstance(y, float):
            if math.isnan(x) or math.isnan(y):
                return None if math.isnan(x) and math.isnan(y) else False
            if math.isinf(x) or math.isinf(y):
                return True if x == y else False
            if abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
                return True
            if abs(x - y) <= 1e-5 * max(1.0, abs(x), abs(y)):
                return None
            return False
        return x == y
    if x is None or y is None:
        return x is y
    if isinstance(x, JV) or isinstance(y, JV):
        return True if isinstance(x, JV) and isinstance(y, JV) and (x.seed, x.path) == (y.seed, y.path) else None
    if isinstance(x, dict) and isinstance(y, dict):
        if x.get("#") == y.get("#") == "json":
            return same_json(x, y)
        if set(x) != set(y):
            return None
        return _all(same(x[k], y[k]) for k in x if k != "#")
    if isinstance(x, dict) and num_(y) or isinstance(y, dict) and num_(x):
        return False            # an object against a null pointer
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            return False
        return _all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
        k = x[0]
        if k == "some":
            return same(x[1], y[1])
        if k in ("quant", "fq", "fdq"):
            if x[1:4] != y[1:4]:
                return False
            r = same(x[4], y[4])
            if r is False and num_(x[4]) and num_(y[4]):
                lo, hi = sorted(cv(t) if isinstance(t, T) and num(t) else 0 for t in x[2:4])
                cx, cy = min(max(x[4], lo), hi), min(max(y[4], lo), hi)
                step = (hi - lo) / max(1, (1 << x[1]) - 1)
                return False if abs(cx - cy) > 2 * step else None
            return r
        if k == "bitof":
            r = same(x[1], y[1])
            return True if r is True and x[2] == y[2] else (False if (r is False or x[2] != y[2]) else None)
        if k in ("rt", "rtf", "rec_", "lookup"):
            if len(x) != len(y):
                return None
            r = _all(same_h(p, q) for p, q in zip(x[1:], y[1:]))
            return r
        return True if x == y else None
    if isinstance(x, tuple) and isinstance(y, tuple) and "uft" in (x[0], y[0]):
        return None
    if type(x) is not type(y) and not (num_(x) and num_(y)):
        # an encoded real against a plain value: different kinds of leaf
        kx, ky = _kind(x), _kind(y)
        if "sym" in (kx, ky):
            return None
        return False if kx != ky else None
    return None


def jpairs(x):
    """members of a JSON object by name, or None"""
    l = x.get("l")
    if not isinstance(l, list) or not all(isinstance(y, dict) and isinstance(y.get("n"), list) and all(isinstance(c, int) for c in y["n"]) for y in l):
        return None
    d = {}
    for y in l:
        d.setdefault("".join(map(chr, y["n"])), y.get("v"))
    return d


def same_json(x, y):
    """JSON texts with the same meaning: the order of members is none"""
    r = same(x["k"], y["k"])
    if r is not True:
        return r
    k = x["k"]
    if k == 0:
        return True
    if k == 3:
        a, b = jpairs(x), jpairs(y)
        if a is None or b is None:
            return None
        if set(a) != set(b):
            return False
        return _all(same(a[n], b[n]) for n in a)
    if k == 4:
        return same(x["l"], y["l"])
    return same(x["v"], y["v"])


def same_h(p, q):
    if isinstance(p, (str,)) or isinstance(q, str):
        return True if p == q else None
    return same(p, q)


def _kind(x):
    if num_(x):
        return "num"
    if isinstance(x, tuple) and x and x[0] in ("quant", "fq", "fdq"):
        return "q"
    if isinstance(x, tuple) and x and x[0] == "some":
        return "opt"
    return "sym"


def _all(it):
    r = True
    for v in it:
        if v is False:
            return False
        if v is None:
            r = None
    return r


def crash_path(x, y, path):
    if x is CRASH and not hasundec(y):
        return (path, "no value: an access outside its container, an empty optional, a variable without a value or an endless loop", short(y))
    if isinstance(x, dict) and isinstance(y, dict):
        for k in x:
            if k != "#" and k in y:
                d = crash_path(x[k], y[k], path + "." + k if path else k)
                if d:
                    return d
    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        for i, (p, q) in enumerate(zip(x, y)):
            d = crash_path(p, q, path + "[%d]" % i)
            if d:
                return d
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) == 2 and x[0] == y[0] == "some":
        return crash_path(x[1], y[1], path)
    return None


def diff_path(x, y, path=""):
    """a path to a definite difference, or None"""
    d = crash_path(x, y, path)
    if d:
        return d
    s = same(x, y)
    if s is not False:
        return None
    if isinstance(x, dict) and isinstance(y, dict):
        for k in x:
            if k != "#" and k in y:
                d = diff_path(x[k], y[k], path + "." + k if path else k)
                if d:
                    return d
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            return (path, "%d element(s)" % len(x), "%d element(s)" % len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            d = diff_path(p, q, path + "[%d]" % i)
            if d:
                return d
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "some":
        return diff_path(x[1], y[1], path)
    return (path, short(x), short(y))


def short(x):
    if isinstance(x, tuple) and x and x[0] in ("quant", "fq", "fdq"):
        return "%s<%d bits over [%s,%s]>(%s)" % (x[0], x[1], show(x[2]) if isinstance(x[2], T) else x[2],
                                                show(x[3]) if isinstance(x[3], T) else x[3], short(x[4]))
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "…"


def separate(pairs, pre=(), n=120, seed=1):
    """pairs: [(name, term now, term expected)].  -> (name, path, now, expected, valuation number) or None.
    pre: conditions under which the comparison is made"""
    for _, a, b in pairs:
        if a is not b:
            heat(a, b)
    for k, e in valuations(seed, n, [a for _, a, b in pairs if a is not b], [b for _, a, b in pairs if a is not b]):
        ok = True
        for c in pre:
            e.steer(c)
        for c in pre:
            v = e.ev(c)
            if v is UNDEC or not v:
                ok = False
        if not ok:
            continue
        for name, a, b in pairs:
            if a is b:
                continue
            x, y = e.ev(a), e.ev(b)
            d = diff_path(x, y)
            if d:
                return name, d[0], d[1], d[2], k
    return None


# ---------------------------------------------------------------- (de)serialisation of reviewed terms
def dump(t):
    ids, out = {}, []

    def go(x):
        if isinstance(x, T):
            if x in ids:
                return {"r": ids[x]}
            e = [x.op] + [go(y) for y in x.a]
            ids[x] = len(out)
            out.append(e)
            return {"r": ids[x]}
        if isinstance(x, tuple):
            return {"t": [go(y) for y in x]}
        return x
    r = go(t)
    return {"nodes": out, "root": r["r"]}


def load(d):
    vals = []

    def dec(x):
        if isinstance(x, dict):
            if "r" in x:
                return vals[x["r"]]
            return tuple(dec(y) for y in x["t"])
        return x
    for e in d["nodes"]:
        a = [dec(y) for y in e[1:]]
        if e[0] == "lin":
            a[1] = tuple(sorted(a[1], key=lambda p: p[0].n))
        elif e[0] in ("and", "or", "fadd", "mul", "bor", "band", "bxor"):
            a = sorted(a, key=lambda x: x.n)
        elif e[0] == "eq":
            x = eq(*a)
            a = list(x.a) if x.op == "eq" else a
        vals.append(mk(e[0], *a))
    return vals[d["root"]]

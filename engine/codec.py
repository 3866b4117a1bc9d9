"""Abstract semantics of the bit-level primitives, and the round-trip driver shared by the codecs."""
from interp import *

PRIM = "haptics::io::IOBinaryPrimitives::"


def lvof(I, st, n):
    return I.ev(st, n)


def _w(n, k):
    return int(n["ta"][k])


def install(I):
    X = I.intr
    I.drop_false = True

    def writeNBits(I, st, n):
        t, w = n["ta"][0], _w(n, 1)
        v = I.val(st, n["a"][0])
        o = I.ev(st, n["a"][1])
        if t in WID and WID[t][0] and WID[t][0] < w:
            # bits above the value's own width are sign/zero extension of the narrowed value
            v = tr(WID[t][0], WID[t][1], v)
        I.set(st, o, concat(I.rv(st, o), mk("seq", emit(w, v))))
        return C(0)

    def fq(w, lo, hi, x):
        if x.op == "fdq" and x.a[:3] == (w, lo, hi):
            return x.a[3]
        return mk("fq", w, lo, hi, x)

    def fdq(w, lo, hi, y):
        if y.op == "fq" and y.a[:3] == (w, lo, hi):
            return mk("quant", w, lo, hi, y.a[3])
        if y.op == "ite":
            return ite(y.a[0], fdq(w, lo, hi, y.a[1]), fdq(w, lo, hi, y.a[2]))
        return mk("fdq", w, lo, hi, y)
    REBUILD["fq"], REBUILD["fdq"] = fq, fdq

    def writeFloatNBits(I, st, n):
        t, w = n["ta"][0], _w(n, 1)
        v = I.val(st, n["a"][0])
        o = I.ev(st, n["a"][1])
        lo, hi = I.val(st, n["a"][2]), I.val(st, n["a"][3])
        if WID.get(t, (64,))[0] < w:
            I.note("float field of %d bits computed in %s" % (w, t))
            raise Giveup("float field wider than its carrier type")
        y = fq(w, lo, hi, v) if v.op != "ite" else ite(v.a[0], fq(w, lo, hi, v.a[1]), fq(w, lo, hi, v.a[2]))
        I.set(st, o, concat(I.rv(st, o), mk("seq", emit(w, y))))
        return C(0)

    def stream(I, st, lv):
        s = I.rv(st, lv)
        if not (isinstance(s, T) and s.op == "istream"):
            raise Giveup("read from an unknown stream")
        return s.a

    def readNBits(I, st, n):
        t, w = n["ta"][0], _w(n, 1)
        f = I.ev(st, n["a"][0])
        B, p = stream(I, st, f)
        x = I.pop(st, B, p, w)
        I.set(st, f, mk("istream", B, add(p, C(w))))
        tw = WID.get(t, (64, False))
        r = tr(w, tw[1] and tw[0] == w, x)
        if tw[0] and tw[0] < w:
            r = tr(tw[0], tw[1], r)
        return r

    def readFloatNBits(I, st, n):
        if len(n["ta"]) == 2:
            t, w = n["ta"][0], _w(n, 1)
            f = I.ev(st, n["a"][0])
            lo, hi = I.val(st, n["a"][1]), I.val(st, n["a"][2])
            B, p = stream(I, st, f)
            x = I.pop(st, B, p, w)
            I.set(st, f, mk("istream", B, add(p, C(w))))
            return fdq(w, lo, hi, x)
        w = _w(n, 0)
        B = I.rv(st, I.ev(st, n["a"][0]))
        ix = I.ev(st, n["a"][1])
        lo, hi = I.val(st, n["a"][2]), I.val(st, n["a"][3])
        p = I.rv(st, ix)
        x = I.pop(st, B, p, w)
        I.set(st, ix, add(p, C(w)))
        return fdq(w, lo, hi, x)

    def chars(I, st, B, p, n):
        """n 8-bit characters at p -> (string, new position)"""
        if isint(n):
            out = []
            for _ in range(max(0, cv(n))):
                out.append(mk("one", tr(8, True, I.pop(st, B, p, 8))))
                p = add(p, C(8))
            return mkseq(out), p
        rest = I.rest_at(st, B, p)
        if rest is None:
            raise Giveup("string read at an unknown position")
        g = segs(rest)
        I.reads += 1
        if not g:
            I.mm("reads a string after the last field the writer emits", st.facts)
        if g[0].op == "if":
            raise Giveup("conditional string")
        if g[0].op != "map":
            I.mm("reads a string where the writer emits %s" % show(g[0])[:120], st.facts)
        m = g[0]
        cnt = n
        b = segs(m.a[1])
        if len(b) != 1 or b[0].op != "e" or b[0].a[0] != 8:
            I.mm("reads 8-bit characters where the writer repeats %s" % show(m.a[1])[:200], st.facts)
        if not I.same_count(cnt, m.a[0], st.facts):
            I.mm("string length read is %s, but the writer emits %s characters" % (show(cnt)[:150], show(m.a[0])[:150]), st.facts, not_(eq(cnt, m.a[0])))
        body = mk("seq", mk("one", b[0].a[1]))
        from terms import _mkmap
        s = mkseq((_mkmap(strip(m.a[0]), body, m.a[2]),))
        I.fresh += 1
        after = add(p, mul(C(8), m.a[0]))
        st.bput(B, after, mkseq(g[1:]))
        return s, after

    def writeString(I, st, n):
        s = I.val(st, n["a"][0])
        o = I.ev(st, n["a"][1])
        L = length(s)
        i = mk("sym", "$chr", "int")
        m = mkmap(L, i, mk("seq", emit(8, at(s, i))))
        I.set(st, o, mkseq(tuple(segs(I.rv(st, o))) + (emit(8, L),) + ((m,) if m is not None and L is not C(0) else ())))
        return C(0)

    def readString(I, st, n):
        ty = clean(n["a"][0].get("t", ""))
        if "stream" in ty:
            f = I.ev(st, n["a"][0])
            B, p = stream(I, st, f)
            L = I.pop(st, B, p, 8)
            s, p2 = chars(I, st, B, add(p, C(8)), L)
            I.set(st, f, mk("istream", B, p2))
            return s
        B = I.rv(st, I.ev(st, n["a"][0]))
        ix = I.ev(st, n["a"][1])
        L = I.val(st, n["a"][2])
        s, p2 = chars(I, st, B, I.rv(st, ix), L)
        I.set(st, ix, p2)
        return s

    def readUInt(I, st, n):
        B = I.rv(st, I.ev(st, n["a"][0]))
        ix = I.ev(st, n["a"][1])
        w = I.val(st, n["a"][2])
        if not isint(w):
            raise Giveup("field of variable width")
        p = I.rv(st, ix)
        x = I.pop(st, B, p, cv(w))
        I.set(st, ix, add(p, w))
        return tr(cv(w), False, x)

    def readInt(I, st, n):
        B = I.rv(st, I.ev(st, n["a"][0]))
        ix = I.ev(st, n["a"][1])
        w = I.val(st, n["a"][2])
        if not isint(w):
            raise Giveup("field of variable width")
        p = I.rv(st, ix)
        x = I.pop(st, B, p, cv(w))
        I.set(st, ix, add(p, w))
        return tr(cv(w), True, x)

    def writeStrBits(I, st, n):
        s = I.val(st, n["a"][0])
        o = I.ev(st, n["a"][1])
        if s.op == "bitstr":
            seg = (emit(s.a[0], s.a[1]),)
        elif isc(s):
            seg = tuple(emit(1, C(1 if ch == "1" else 0)) for ch in cv(s))
        else:
            raise Giveup("bit string")
        I.set(st, o, mkseq(tuple(segs(I.rv(st, o))) + seg))
        return C(0)

    def fillBitset(I, st, n):
        return C(0)

    def writeBitset(I, st, n):
        b = I.val(st, n["a"][0])
        f = I.ev(st, n["a"][1])
        old = I.rv(st, f)
        new = mk("ostream", concat(old.a[0], b) if old.op == "ostream" else b)
        I.set(st, f, new)
        st.store[("sys", "file")] = new.a[0]
        return C(0)

    def addEffect(I, st, n):
        # ordered insertion; its ordering is checked separately, here it appends (the model keeps the
        # effects of a band ordered by position, so the insertion point of a decoded effect is the end)
        o = I.ev(st, n["o"])
        x = I.val(st, n["a"][0])
        if not islv(o):
            raise Giveup("addEffect on a temporary")
        lv = LV(o[1], *(o[2] + (("f", band_effects(I)),)))
        I.set(st, lv, concat(I.rv(st, lv), mk("seq", mk("one", x))))
        return C(0)
    X["haptics::types::Band::addEffect"] = addEffect

    for k, v in list(locals().items()):
        if callable(v) and k in ("writeNBits", "writeFloatNBits", "readNBits", "readFloatNBits", "writeString",
                                 "readString", "readUInt", "readInt", "writeStrBits", "fillBitset", "writeBitset"):
            X[PRIM + k] = v
    X["recursive"] = recursive
    I.chars = chars


def strip(x):
    while x.op == "tr":
        x = x.a[2]
    return x


def isbits(v):
    return isinstance(v, T) and v.op == "seq"


def recursive(I, st, fn, this, args, n):
    """A recursive call inside a codec function: the writer appends an opaque nested structure, the
    reader consumes it and obtains (by induction on the nesting) the decoded counterpart."""
    kinds = [clean(p["t"]) for p in fn["params"]]
    rd = [i for i, k in enumerate(kinds) if "istream" in k]
    rdix = [i for i, k in enumerate(kinds) if k == "int" and isref(fn["params"][i]["t"])]
    bv = [i for i, k in enumerate(kinds) if k.startswith("std::vector<bool")]
    objs = [i for i, k in enumerate(kinds) if k in I.P.records]
    if not rd and not rdix and len(bv) == 1 and isref(fn["params"][bv[0]]["t"]):
        o = args[bv[0]]
        vals = tuple(I.rv(st, a) for i, a in enumerate(args) if i not in bv)
        I.set(st, o, mkseq(tuple(segs(I.rv(st, o))) + (mk("rec_", fn["q"], *vals),)))
        return TRUE
    if rd or (rdix and bv):
        if rd:
            f = args[rd[0]]
            s = I.rv(st, f)
            if s.op != "istream":
                raise Giveup("recursive read")
            B, p = s.a
        else:
            B, ix = I.rv(st, args[bv[0]]), args[rdix[0]]
            p = I.rv(st, ix)
        rest = I.rest_at(st, B, p)
        if rest is None:
            raise Giveup("recursive read at unknown position")
        g = segs(rest)
        if not g or g[0].op != "rec_":
            I.mm("reads a nested structure where the writer emits %s" % (show(g[0])[:200] if g else "nothing"), st.facts)
        I.fresh += 1
        after = mk("sym", "$pos%d" % I.fresh, "int")
        st.bput(B, after, mkseq(g[1:]))
        if rd:
            I.set(st, f, mk("istream", B, after))
        else:
            I.set(st, ix, after)
        src = g[0].a[1:]
        I.pairs_rec = getattr(I, "pairs_rec", set())
        I.pairs_rec.add((g[0].a[0], fn["q"]))
        eff = [x for x in src if ttype(x) == "haptics::types::Effect"]
        if not eff:
            raise Giveup("recursive structure without an effect")
        r = clean(fn["ret"])
        if r in I.P.records:
            return mk("rt", g[0].a[0], eff[0])
        for i in objs:
            if kinds[i] == "haptics::types::Effect" and isref(fn["params"][i]["t"]):
                lv = args[i]
                mods = I.rec_mods.get(fn["fk"])
                if mods is None:
                    I.rec_mods[fn["fk"]] = None
                    mods = ["timeline"]
                cur = I.rv(st, lv)
                nested = mk("rt", g[0].a[0], eff[0])
                I.set(st, LV(lv[1], *(lv[2] + (("f", rec_field(I)),))), fld(nested, rec_field(I)))
        return TRUE
    raise Giveup("recursion")


def band_effects(I):
    for f in I.P.records["haptics::types::Band"]["fields"]:
        if "std::vector<haptics::types::Effect" in f["t"]:
            return f["n"]
    raise Giveup("Band has no effects")


def rec_field(I):
    """the Effect field that nests effects"""
    for f in I.P.records["haptics::types::Effect"]["fields"]:
        if "std::vector<haptics::types::Effect" in f["t"]:
            return f["n"]
    raise Giveup("Effect has no nested effects")


# "rt" carries its class through ttype via its source term
def run_entry(I, q, this, args, nparams=None, st=None):
    """evaluate an entry function on symbolic inputs; leaves that report failure are dropped"""
    fns = [f for f in I.P.by_q.get(q, []) if (nparams is None or len(f["params"]) == nparams) and f.get("body")]
    if not fns:
        from front import AnalysisBroken
        raise AnalysisBroken("entry function %s not found" % q)
    fn = fns[0]
    st = st or State()
    fr = Frame(fn, this, None)
    I.fresh += 1
    fr.id = I.fresh
    for p, a in zip(fn["params"], args):
        I.bind(st, fr, p, a)
    I.stack.append(fr)
    try:
        o = I.exec(st, fn["body"])
        o = drop_fail(I, o)
        if o is None:
            raise Mismatch("no successful path")
        return I.collapse(o, fn)
    finally:
        I.stack.pop()


def drop_fail(I, o):
    if o[0] == "leaf":
        if o[1] == "throw":
            return None
        if o[1] == "ret" and isinstance(o[3], T) and isbool(o[3]):
            v = o[2].facts.spec(o[3])
            if v is FALSE:
                I.abort(o[2].facts)
                return None
            if v is not TRUE:
                st = o[2]
                f = st.facts.add(v)
                for k in list(st.store):
                    x = st.store[k]
                    if isinstance(x, T):
                        st.store[k] = f.spec(x)
                I.abort(o[2].facts, not_(v))
                return ("leaf", "ret", st, TRUE)
        return o
    a, b = drop_fail(I, o[2]), drop_fail(I, o[3])
    if a is None:
        return b
    if b is None:
        return a
    return ("fork", o[1], a, b, o[4])

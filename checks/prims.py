"""Bit-level primitives: every width, symbolic bit contents."""
from codec import *
import front, interp
from compare import *
import separate as S

PRIM = "haptics::io::IOBinaryPrimitives::"


def bytesrc(I):
    """byte-wise file model: read fills the buffer with the next symbolic bytes, write appends"""
    def read(I, st, n):
        f = I.ev(st, n["o"])
        buf = I.ev(st, n["a"][0])
        k = I.val(st, n["a"][1])
        s = I.rv(st, f)
        if s.op != "fbytes" or not isint(k):
            raise Giveup("file read")
        p = s.a[0]
        I.set(st, buf, mkseq([mk("one", mk("sym", "byte%d" % (p + j), "char")) for j in range(cv(k))]))
        I.set(st, f, mk("fbytes", p + cv(k)))
        return f

    def write(I, st, n):
        f = I.ev(st, n["o"])
        buf = I.ev(st, n["a"][0])
        k = I.val(st, n["a"][1])
        s = I.rv(st, f)
        if s.op != "fout" or not isint(k):
            raise Giveup("file write")
        v = I.rv(st, buf)
        if cv(k) != 1 or isseq(v):
            raise Giveup("file write form")
        I.set(st, f, mk("fout", *(s.a + (v,))))
        return f
    for s in ("<char, std::char_traits<char>>", "<char>"):
        I.intr["std::basic_istream%s::read" % s] = read
        I.intr["std::basic_ostream%s::write" % s] = write


def run(P, fn, args, st):
    I = interp.Interp(P)
    bytesrc(I)
    fr = interp.Frame(fn, None, 1)
    I.fresh = 10
    for p, a in zip(fn["params"], args):
        I.bind(st, fr, p, a)
    I.stack.append(fr)
    o = I.exec(st, fn["body"])
    st2, v = I.collapse(o, fn)
    return I, st2, (I.rv(st2, v) if v is not None else None)


def insts(P, name, nparams=None):
    return [f for f in P.by_q.get(PRIM + name, []) if f.get("body") and (f.get("ta") or f.get("inst") is None or True)
            and (nparams is None or len(f["params"]) == nparams)]


def bvec(bits):
    return mkseq([emit(1, b) for b in bits])


def symbits(n, name="ub"):
    return [mk("sym", "%s%d" % (name, i), "bool") for i in range(n)]


def stream_bits(nb):
    return [mk("bit", mk("sym", "byte%d" % j, "char"), 7 - k) for j in range(nb) for k in range(8)]


def field(bs, T_=None):
    """the value of a most-significant-bit-first group of bits, as type T_"""
    N = len(bs)
    v = mkbits({N - 1 - i: b for i, b in enumerate(bs)})
    if T_:
        w = WID[T_]
        if w[1] and w[0] == N:
            return v, True
    return v, False


def bits_of(t, w):
    """the low w bits of a term, as boolean terms (None if not known bit by bit)"""
    out = []
    while t.op == "tr" and t.a[0] >= w:
        t = t.a[2]
    for k in range(w):
        b = asbits(t)
        if b is not None:
            out.append(b.get(k, FALSE))
        elif t.op == "bor":
            x, y = bits_of(t.a[0], w), bits_of(t.a[1], w)
            if x is None or y is None:
                return None
            return [or_(p, q) for p, q in zip(x, y)]
        elif t.op in ("sym", "at", "fld"):
            out.append(mk("bit", t, k))
        else:
            return None
    return out


def check_bits(c, key, got, want, where):
    if got is None:
        c.undec(key, "not bit-precise")
        return
    for k, (g, w) in enumerate(zip(got, want)):
        if g is not w:
            r = sep(g, w)
            if r is not None:
                c.ob(key, False, "bit %d is %s, expected %s" % (k, show(g)[:200], show(w)[:120]), where)
            else:
                c.undec(key, "bit %d: %s vs %s" % (k, show(g)[:100], show(w)[:100]))
            return
    c.ob(key, True)


def sep(a, b, n=80):
    for k in range(n):
        e = S.Ev("p/%d" % k)
        if S.same(e.ev(a), e.ev(b)) is False:
            return k
    return None


def eqterm(c, key, got, want, where):
    if got is want:
        c.ob(key, True)
        return
    k = sep(got, want)
    if k is not None:
        c.ob(key, False, "computes %s, expected %s" % (show(got)[:300], show(want)[:300]), where)
    else:
        c.undec(key, "%s vs %s" % (show(got)[:300], show(want)[:300]))


def loc(f):
    return "%s:%s %s" % (f["file"], f["line"], f["q"].split("::")[-1])


def attempt(c, key, f):
    try:
        return f()
    except Giveup as e:
        c.undec(key, "outside the abstraction: %s" % e)
    except Mismatch as e:
        c.undec(key, str(e))
    return None


def verify(c):
    P = c.P
    n = 0
    for f in insts(P, "writeNBits"):
        T_, N = f["ta"][0], int(f["ta"][1])
        key = "writeNBits<%s,%d>" % (T_, N)

        def go():
            st = State()
            st.store["out"] = bvec([mk("sym", "prev", "bool")])
            v = mk("sym", "v", T_)
            I, s2, r = run(P, f, [v, LV("out")], st)
            out = s2.store["out"]
            want = mkseq([emit(1, mk("sym", "prev", "bool"))] + [emit(1, mk("bit", v, k)) for k in range(N - 1, -1, -1)])
            eqterm(c, key, out, want, loc(f))
        attempt(c, key, go)
        n += 1
    for f in insts(P, "readNBits"):
        T_, N = f["ta"][0], int(f["ta"][1])
        for u in range(8):
            key = "readNBits<%s,%d> with %d bits carried over" % (T_, N, u)

            def go():
                nb = -(-max(0, N - u) // 8)
                st = State()
                st.store["f"] = mk("fbytes", 0)
                st.store["un"] = bvec(symbits(u))
                I, s2, r = run(P, f, [LV("f"), LV("un")], st)
                bs = symbits(u) + stream_bits(nb)
                want, sg = field(bs[:N], T_)
                check_bits(c, key + ": value", bits_of(r, N), [bs[N - 1 - k] for k in range(N)], loc(f))
                eqterm(c, key + ": bits kept", s2.store["un"], bvec(bs[N:]), loc(f))
                p = s2.store["f"]
                c.ob(key + ": bytes consumed", True if p.op == "fbytes" and p.a[0] == nb else
                     (False if p.op == "fbytes" else None), "consumes %s bytes, expected %d" % (p.a[0], nb), loc(f))
            attempt(c, key, go)
        n += 1
    for f in insts(P, "fillBitset"):
        for k in range(0, 17):
            key = "padding of %d bits" % k

            def go():
                st = State()
                st.store["b"] = bvec(symbits(k))
                I, s2, r = run(P, f, [LV("b")], st)
                eqterm(c, key, s2.store["b"], bvec(symbits(k) + [FALSE] * (-k % 8)), loc(f))
            attempt(c, key, go)
        n += 1
    for f in insts(P, "writeBitset"):
        for k in range(0, 25):
            key = "bytes written for %d bits" % k

            def go():
                st = State()
                st.store["b"] = bvec(symbits(k))
                st.store["f"] = mk("fout")
                I, s2, r = run(P, f, [LV("b"), LV("f")], st)
                out = s2.store["f"].a
                bs = symbits(k) + [FALSE] * (-k % 8)
                if len(out) != len(bs) // 8:
                    c.ob(key, False, "writes %d bytes" % len(out), loc(f))
                    return
                for j, x in enumerate(out):
                    check_bits(c, key + ": byte %d" % j, bits_of(x, 8), [bs[8 * j + 7 - i] for i in range(8)], loc(f))
                if not out:
                    c.ob(key, True)
            attempt(c, key, go)
        n += 1
    n += verify_bits(c)
    n += verify_strings(c)
    n += verify_floats(c)
    c.count("primitive_instances", n)


def linb(t):
    """bit-level value as constant + linear form over single bits"""
    k, d = 0, {}
    k0, parts = lin_parts(t)
    k += k0
    for x, co in parts.items():
        b = asbits(x)
        if b is None:
            return None
        for i, bit in b.items():
            if isc(bit):
                k += co * (1 << i) * (1 if cv(bit) else 0)
                continue
            s = 1
            if bit.op == "not":
                k += co * (1 << i)
                bit, s = bit.a[0], -1
            d[bit] = d.get(bit, 0) + s * co * (1 << i)
    return k, {x: v for x, v in d.items() if v}


def verify_bits(c):
    P = c.P
    n = 0
    for name, signed in (("readUInt", False), ("readInt", True)):
        for f in insts(P, name, 3):
            n += 1
            for L in range(1, 33):
                key = "%s of %d bits" % (name, L)

                def go():
                    st = State()
                    bs = symbits(L + 3)
                    st.store["b"] = bvec(bs)
                    st.store["i"] = C(2)
                    I, s2, r = run(P, f, [LV("b"), LV("i"), C(L)], st)
                    eqterm(c, key + ": position", s2.store["i"], C(2 + L), loc(f))
                    fld_ = bs[2:2 + L]
                    cases = [(fld_[0], True), (fld_[0], False)] if signed else [(TRUE, True)]
                    for cond, tv in cases:
                        fc = Facts().add(cond, tv) if cond is not TRUE else Facts()
                        got = linb(fc.spec(r))
                        want = {}
                        k = 0
                        for j, b in enumerate(fld_):
                            w = 1 << (L - 1 - j)
                            if signed and j == 0:
                                k += -w if tv else 0
                                continue
                            want[b] = w
                        kk = key + (": value" if not signed else ": value, sign bit %d" % tv)
                        if got is None:
                            w = mkbits({L - 1 - j: b for j, b in enumerate(fld_)})
                            if signed and tv:
                                w = sub(fc.spec(w), C(1 << L))
                            eqterm(c, kk, fc.spec(r), fc.spec(w), loc(f))
                        elif got == (k, want):
                            c.ob(kk, True)
                        else:
                            c.ob(kk, False, "the value is not the %s number held in the bits (constant %d, expected %d)"
                                 % ("two's complement" if signed else "unsigned", got[0], k), loc(f))
                attempt(c, key, go)
    for f in insts(P, "writeStrBits", 2):
        n += 1
        for L in range(0, 9):
            def go():
                st = State()
                ch = [mk("sym", "ch%d" % j, "char") for j in range(L)]
                st.store["s"] = mkseq([mk("one", x) for x in ch])
                st.store["b"] = bvec([mk("sym", "prev", "bool")])
                I, s2, r = run(P, f, [LV("s"), LV("b")], st)
                eqterm(c, "writeStrBits of %d characters" % L, s2.store["b"],
                       bvec([mk("sym", "prev", "bool")] + [eq(x, C(ord("1"))) for x in ch]), loc(f))
            attempt(c, "writeStrBits", go)
    for f in insts(P, "readNBytes", 3):
        n += 1
        for L in range(0, 5):
            def go():
                st = State()
                st.store["f"] = mk("fbytes", 0)
                st.store["b"] = bvec(symbits(2))
                I, s2, r = run(P, f, [LV("f"), C(L), LV("b")], st)
                eqterm(c, "readNBytes of %d bytes" % L, s2.store["b"], bvec(symbits(2) + stream_bits(L)), loc(f))
            attempt(c, "readNBytes", go)
    return n


def verify_strings(c):
    P = c.P
    n = 0
    for f in insts(P, "readString", 3):
        n += 1
        for L in range(0, 4):
            def go():
                st = State()
                bs = symbits(8 * L + 3)
                st.store["b"] = bvec(bs)
                st.store["i"] = C(3)
                I, s2, r = run(P, f, [LV("b"), LV("i"), C(L)], st)
                key = "readString of %d characters" % L
                eqterm(c, key + ": position", s2.store["i"], C(3 + 8 * L), loc(f))
                g = segs(r)
                if len(g) != L or any(x.op != "one" for x in g):
                    c.ob(key, False if all(x.op == "one" for x in g) else None, "yields %d characters" % len(g), loc(f))
                    return
                for j, x in enumerate(g):
                    check_bits(c, key + ": character %d" % j, bits_of(x.a[0], 8), [bs[3 + 8 * j + 7 - i] for i in range(8)], loc(f))
                if not g:
                    c.ob(key, True)
            attempt(c, "readString", go)
    for f in insts(P, "writeString", 2):
        n += 1
        for L in (0, 1, 2, 3, 255, 256, 270):
            def go():
                st = State()
                ch = [mk("sym", "ch%d" % j, "char") for j in range(L)]
                st.store["s"] = mkseq([mk("one", x) for x in ch])
                st.store["b"] = EMPTY
                I, s2, r = run(P, f, [LV("s"), LV("b")], st)
                K = min(L, 255)
                want = mkseq([emit(8, C(K))] + [emit(1, mk("bit", x, 7 - j)) for x in ch[:K] for j in range(8)])
                key = "writeString of %d characters" % L
                got = s2.store["b"]
                lg = length(got)
                if not isint(lg):
                    c.undec(key, "length " + show(lg)[:100])
                elif cv(lg) != 8 + 8 * K:
                    c.ob(key, False, "emits %d bits, but the length byte announces %d characters" % (cv(lg), K), loc(f))
                else:
                    ok = None
                    bad = [k for k in range(8 + 8 * K) if at(got, C(k)) is not at(want, C(k))]
                    eqterm(c, key, at(got, C(bad[0])) if bad else TRUE, at(want, C(bad[0])) if bad else TRUE, loc(f))
            attempt(c, "writeString", go)
    for f in insts(P, "readString", 2):
        n += 1

        def go():
            I = interp.Interp(P)
            install(I)
            me = f
            del I.intr[PRIM + "readString"]
            st = State()
            s = mk("sym", "text", "std::basic_string<char>")
            L = mk("sym", "nchars", "unsigned char")
            i = mk("sym", "$q", "int")
            B = mkseq([emit(8, L), mkmap(L, i, mk("seq", emit(8, at(s, i)))), emit(5, mk("sym", "after", "unsigned char"))])
            st.store["f"] = mk("istream", B, C(0))
            st.store["un"] = EMPTY
            s2, r = I.call(st, f, None, [LV("f"), LV("un")])
            r = I.rv(s2, r)
            want = mkseq([mkmap(L, i, mk("seq", mk("one", at(s, i))))])
            g = segs(r)
            rest = I.rest_at(s2, B, s2.store["f"].a[1])
            if len(g) == 1 and g[0].op == "map" and strip(g[0].a[0]) is L:
                got = mkseq([mk("map", L, mk("seq", *[mk("one", strip(x.a[0])) for x in segs(g[0].a[1]) if x.op == "one"]), g[0].a[2])])
                eqterm(c, "readString: characters", got, want, loc(f))
            else:
                eqterm(c, "readString: characters", r, want, loc(f))
            c.ob("readString: consumes length and characters", True if rest is not None and segs(rest) == (emit(5, mk("sym", "after", "unsigned char")),) else None, show(rest) if rest is not None else "?")
        try:
            go()
        except Mismatch as e:
            c.ob("readString", False, str(e), loc(f))
        except Giveup as e:
            c.undec("readString", str(e))
    return n


def float_terms(P):
    out = {}
    for f in insts(P, "writeFloatNBits"):
        I = interp.Interp(P)
        install(I)
        del I.intr[PRIM + "writeFloatNBits"]
        st = State()
        st.store["b"] = EMPTY
        a = [mk("sym", "x", "float"), LV("b"), mk("sym", "lo", "float"), mk("sym", "hi", "float")]
        try:
            s2, r = I.call(st, f, None, a)
            out["write<%s>" % ",".join(f["ta"])] = (s2.store["b"], f)
        except (Giveup, Mismatch) as e:
            out["write<%s>" % ",".join(f["ta"])] = (None, f)
    for f in insts(P, "readFloatNBits"):
        I = interp.Interp(P)
        install(I)
        N = int(f["ta"][-1])
        st = State()
        y = mk("sym", "y", "unsigned int")
        key = "read<%s>" % ",".join(f["ta"])
        del I.intr[PRIM + "readFloatNBits"]
        try:
            if len(f["ta"]) == 2:
                B = mkseq([emit(N, y)])
                st.store["f"] = mk("istream", B, C(0))
                st.store["un"] = EMPTY
                s2, r = I.call(st, f, None, [LV("f"), mk("sym", "lo", "float"), mk("sym", "hi", "float"), LV("un")])
            else:
                st.store["b"] = bvec(symbits(N))
                st.store["i"] = C(0)
                s2, r = I.call(st, f, None, [LV("b"), LV("i"), mk("sym", "lo", "float"), mk("sym", "hi", "float")])
                r = mk("pair", I.rv(s2, r), s2.store["i"])
            out[key] = (I.rv(s2, r), f)
        except (Giveup, Mismatch) as e:
            out[key] = (None, f)
    return out


def verify_floats(c):
    n = 0
    for k, (t, f) in float_terms(c.P).items():
        n += 1
        w = spec_term("floats", k)
        if t is None or w is None:
            c.undec(k, "no summary")
            continue
        eqterm(c, "real-valued field " + k, t, w, loc(f))
    return n


def freeze(P):
    save_spec("floats", {k: t for k, (t, f) in float_terms(P).items()})


def check(c):
    verify(c)

"""Gated value-numbering abstract interpreter over the dumped AST.

One forward pass per function body; branches are evaluated once each and joined with gating terms
(ite), loops are summarised by recurrence recognition.  There is no path enumeration and no solver:
equality of two values is identity of their normal forms."""
import os
import re
import time
from terms import *


DBG = 0


class Giveup(Exception):
    """construct outside the abstraction"""


class NoForm(Exception):
    """loop without a closed form"""


class Mismatch(Exception):
    """reader and writer definitely disagree"""


WID = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
       "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
       "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
       "unsigned long long": (64, False), "float": (0, True), "double": (0, True), "char16_t": (16, False)}


def isfloat(t):
    return clean(t) in ("float", "double", "long double")


def isref(t):
    return t is not None and t.rstrip().endswith("&")


def LV(root, *path):
    return ("lv", root, tuple(path))


def islv(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == "lv"


class State:
    """store: root -> value; facts: branch conditions known to hold; bits: (B, position) -> what the
    bit sequence B holds from that position on"""
    __slots__ = ("store", "facts", "bits")

    def __init__(self, store=None, facts=None, bits=None):
        self.store = dict(store or {})
        self.facts = facts or Facts()
        self.bits = dict(bits or {})

    def copy(self):
        return State(self.store, self.facts, self.bits)

    def bget(self, B, p, facts=None):
        e = self.bits.get((B, p))
        if e is None:
            return None
        if e[1] is not TRUE and not (facts or self.facts).decide((facts or self.facts).spec(e[1])):
            return None
        return e[0]

    def bput(self, B, p, rest):
        self.bits[(B, p)] = (rest, TRUE)

    def become(self, o):
        self.store, self.facts, self.bits = o.store, o.facts, o.bits


class Frame:
    __slots__ = ("fn", "vars", "this", "id", "statics")

    def __init__(self, fn, this, id):
        self.fn, self.this, self.id = fn, this, id
        self.vars = {}


MODS = {}


def jrec(k, v, l=EMPTY):
    return rec("json", None, {"k": C(k), "v": v, "l": l})


def bsw(v):
    """width of a bit set value"""
    if v.op == "bitset":
        return v.a[0]
    if v.op == "ite":
        a, b = bsw(v.a[1]), bsw(v.a[2])
        return a if a == b else None
    return None


ISTREAM = re.compile(r"std::basic_i(f)?stream<")


COMPLEX = "std::complex<double>"
UNWRITTEN = {("io", "file.out"): EMPTY, ("io", "wav.out"): EMPTY, ("io", "wav.frames"): C(0)}     # outputs on the paths that do not write
FUNCTORS = {"std::minus": sub, "std::plus": add, "std::multiplies": mul, "std::less": lt, "std::greater": lambda a, b: lt(b, a),
            "std::equal_to": eq, "std::negate": lambda a: sub(C(0), a)}


class Interp:
    zero = False

    def __init__(self, prog):
        self.P = prog
        set_types(prog.records, {q: {"consts": e["e"]} for q, e in prog.enums.items()})
        self.fresh = 0
        self.input = None       # what a file opened for reading contains
        self.wlog = None
        self.stack = []
        self.phi_entry = {}     # phi position -> entry position
        self.pairs = {}
        self.notes = []         # undecided constructs
        self.aborts = []        # (condition, function): exits that report failure
        self.drop_false = False  # codec runs: the property is conditioned on reported success
        self.loops = 0
        self.calls = 0
        self.reads = 0
        self.rec_mods = {}
        self.intr = {}
        self.line = 0
        self.loopvars = []
        self.maxunroll = 300
        self.tables = {}
        self.inv = {}
        self.mism = []
        self.visited = {}
        self.hooks = []
        self.deadline = None
        self.steps = None
        self.modular = None     # functions kept as uninterpreted functions of their inputs
        self.generic = False    # loops without a closed form become mu terms
        self.vtype = {}
        self.lam = {}
        self._load_tables()

    # ------------------------------------------------------------ helpers
    def new(self, pfx, ty=None):
        self.fresh += 1
        return mk("sym", "%s$%d" % (pfx, self.fresh), ty)

    def opq(self, *key):
        ty = None
        return mk("opq", *key)

    def abort(self, facts, extra=TRUE):
        c = and_(extra, *[(t if v else not_(t)) for t, v in facts.k.items() if isinstance(t, T) and v in (True, False)])
        self.aborts.append((c, self.stack[-1].fn["q"] if self.stack else "?"))

    def mm(self, msg, facts, extra=None):
        """report a disagreement, provided the place is reachable: some valuation of the model satisfies
        everything known there (and the extra condition, under which the disagreement shows)"""
        import separate as S
        where = " [%s, line %s]" % (self.stack[-1].fn["q"] if self.stack else "?", self.line)
        need = [(t, v) for t, v in facts.k.items() if isinstance(t, T) and v in (True, False)]
        if extra is not None:
            need.append((extra, True))
        # the first iteration is an instance of every enclosing loop's general one
        roots = {("$io-ok", "bool"): 1, ("$io-size", "int"): 999}
        for _ in range(6):
            ph = [x for t, v in need for x in free(t) if x.op == "phi" and x in self.phi_entry]
            if not ph:
                break
            m = {x: self.phi_entry[x][0] for x in ph}
            for x in ph:
                roots[self.phi_entry[x][1].a[0]] = 0
            need = [(subst(t, m), v) for t, v in need]
        S.heat(mk("seq", *[t for t, v in need]), EMPTY)
        for k in range(300):
            e = S.Ev("mm/%s" % k, roots)
            for _ in range(3):
                if all([e.steer(t, v) for t, v in need]):
                    break
            for t, v in need:
                x = e.ev(t)
                if x is S.UNDEC or bool(x) != v:
                    if os.environ.get("HX_MM"): print("MM", show(t)[:300], x, v)
                    break
            else:
                raise Mismatch(msg + where)
        raise Giveup("unconfirmed: " + msg + where)

    def note(self, msg):
        fn = self.stack[-1].fn["q"] if self.stack else "?"
        self.notes.append("%s:%s: %s" % (fn, self.line, msg))

    def _load_tables(self):
        for q, v in self.P.vars.items():
            if "std::map<" not in v["t"] or not v.get("init"):
                continue
            ents = []
            ok = True

            def pairs(n):
                nonlocal ok
                if isinstance(n, dict):
                    if n.get("k") == "ctor" and n.get("f") == "std::pair" and len(n["a"]) == 2:
                        kv = [self._constof(x) for x in n["a"]]
                        if None in kv:
                            ok = False
                        ents.append(tuple(kv))
                        return
                    for x in n.get("a", []) or []:
                        pairs(x)

            pairs(v["init"])
            if ok and ents:
                self.tables[q] = ents
        import separate as S
        S.TABLES.clear()
        S.TABLES.update(self.tables)
        for q, e in self.tables.items():
            for q2, e2 in self.tables.items():
                if q < q2 and len(e) == len(e2) and {(b, a) for a, b in e} == set(e2):
                    self.inv[q], self.inv[q2] = q2, q

    def _constof(self, n):
        while isinstance(n, dict) and n.get("k") in ("ctor", "copy", "cast") and len(n.get("a", [])) >= 1:
            if n.get("cv") is not None:
                return n["cv"]
            n = n["a"][0]
        if n.get("k") == "str":
            return n["v"]
        return n.get("cv")

    # ------------------------------------------------------------ store
    def get(self, st, lv):
        if not islv(lv):
            return lv
        t = st.store.get(lv[1])
        if t is None:
            t = mk("opq", "unset", str(lv[1]))
        for p in lv[2]:
            if islv(t):
                t = self.get(st, t)
            if p[0] == "f":
                t = fld(t, p[1])
            elif p[0] == "i":
                t = at(t, p[1])
            elif p[0] == "b":
                t = self.bit_of(self.bsval(t), p[1])
            else:
                t = val(t)
        return t

    def rv(self, st, x):
        r = self.get(st, x) if islv(x) else x
        return r

    def set(self, st, lv, v):
        if not islv(lv):
            raise Giveup("assignment through a temporary")
        if self.wlog is not None:
            self.wlog.append((lv[1], lv[2]))
        st.store[lv[1]] = self._set(st.store.get(lv[1]), lv[2], v)

    def _set(self, t, path, v):
        if not path:
            return v
        p = path[0]
        if t is None:
            t = mk("opq", "unset")
        if p[0] == "f":
            inner = self._set(fld(t, p[1]), path[1:], v)
            cls = ttype(t)
            if cls is None and t.op == "rec":
                cls = t.a[0]
            return rec(cls, t, {p[1]: inner})
        if p[0] == "i":
            return upd(t, p[1], self._set(at(t, p[1]), path[1:], v))
        if p[0] == "b":
            w = bsw(t)
            x = asbits(self.bsval(t))
            if not isint(p[1]) or w is None or x is None:
                raise Giveup("bit of a bit set")
            if cv(p[1]) >= w:
                return mk("opq", "noreturn bit")
            x[cv(p[1])] = v if isbool(v) else not_(eq(v, C(0)))
            return mk("bitset", w, mkbits(x))
        return some(self._set(val(t), path[1:], v))

    # ------------------------------------------------------------ bit positions
    def bits_start(self, st, B):
        if (B, FALSE) not in st.bits:
            st.bput(B, FALSE, B)

    def rest_at(self, st, B, p, facts=None):
        """what B holds from position p on, with leading conditionals resolved under the known facts"""
        facts = facts or st.facts
        self.bits_start(st, B)
        r = st.bget(B, p, facts)
        if r is None and p.op == "ite":
            c = p.a[0]
            fa, fb = facts.add(c), facts.add(c, False)
            d = facts.decide(facts.spec(c))
            if d is not None:
                return self.rest_at(st, B, p.a[1 if d else 2], facts)
            a = self.rest_at(st, B, p.a[1], fa)
            b = self.rest_at(st, B, p.a[2], fb)
            if a is not None and b is not None:
                r = a if a is b else seq_ite(c, a, b)
                if r is not None and a is b:
                    st.bput(B, p, r)
        if r is None and p in self.phi_entry:
            info = self.phi_entry[p]
            e = self.rest_at(st, B, info[0], facts)
            if e is None:
                return None
            gs = segs(e)
            if gs and gs[0].op == "map":
                body = bsub(gs[0].a[1], gs[0].a[2], info[1])
                end = mk("end", p)
                r = mkseq(tuple(segs(body)) + (end,))
                self.pairs[p] = (B, gs[0], mkseq(gs[1:]))
                if DBG: print("ENTER", show(p), "FROM", show(info[0]), show(info[1]), show(r)[:300])
                st.bput(B, p, r)
            else:
                return None
        if r is None:
            # p as a displacement from a known position
            best = None
            for (b2, q) in list(st.bits):
                if b2 is not B:
                    continue
                rest = st.bget(B, q, facts)
                if rest is None:
                    continue
                d = sub(p, q)
                if isint(d) and cv(d) <= 0:
                    continue
                x = self._skip(lead(facts, rest), d, facts)
                if x is not None:
                    best = x
                    break
            if best is not None:
                if DBG: print("DISP", show(p)[:500], "FROM", show(q)[:500], show(best)[:500])
                st.bput(B, p, best)
                r = best
        return lead(facts, r) if r is not None else None

    def _skip(self, rest, d, facts):
        gs = list(segs(rest))
        while True:
            if gs and gs[0].op == "if":
                gs = list(segs(lead(facts, mkseq(gs))))
            if d is FALSE:
                return mkseq(gs)
            if not gs:
                return None
            g = gs[0]
            l = length(mk("seq", g))
            if isint(d) and isint(l) and cv(l) > cv(d):
                if g.op == "e":
                    hi, lo = self._split(g, cv(d))
                    gs[0] = lo
                    return mkseq(gs)
                return None
            nd = sub(d, l)
            if isint(nd) and cv(nd) < 0:
                return None
            if not isint(nd) and lin_size(nd) > lin_size(d):
                return None
            d = nd
            gs.pop(0)

    def _split(self, g, k):
        w, x = g.a
        b = asbits(x)
        if b is not None:
            return (emit(k, mkbits({i - (w - k): c for i, c in b.items() if i >= w - k})),
                    emit(w - k, mkbits({i: c for i, c in b.items() if i < w - k})))
        return emit(k, mk("hi", x, w, k)), emit(w - k, mk("lo", x, w - k))

    def pop(self, st, B, p, w):
        """value of the w bits at position p of B, as an unsigned field term"""
        rest = self.rest_at(st, B, p)
        if rest is None:
            raise Giveup("read at a position that is not a field boundary: %s (entry %s)" % (show(p), [(show(x[0]), (lambda r: r and [show(g)[:200] for g in segs(r)[:3]])(self.rest_at(st,B,x[0]))) for x in [self.phi_entry.get(p)] if x]))
        gs = list(segs(rest))
        if DBG: print("POP", self.line, w, show(p)[:500], "REST", show(rest)[:800])
        self.reads += 1
        if not gs:
            self.mm("reads %d bits after the last field the writer emits" % w, st.facts)
        g = gs[0]
        if g.op == "run":
            raise Giveup("partial field")
        if g.op == "all":
            # sequence of single bits (payload)
            raise Giveup("read inside a raw bit sequence")
        if g.op == "end":
            self.mm("reads %d bits where the writer's loop body has already ended" % w, st.facts)
        if g.op == "if":
            v, tail = self._pop_if(gs, w, st.facts)
            st.bput(B, add(p, C(w)), tail)
            return v
        v, tail = self._pop1(rest, w, st.facts)
        st.bput(B, add(p, C(w)), tail)
        return v

    def _pop_if(self, gs, w, facts):
        g = gs[0]
        if DBG: print("POPIF", self.line, show(g)[:600], [show(x)[:100] for x in facts.k if isinstance(x,T)][-10:])
        fa, fb = facts.add(g.a[0]), facts.add(g.a[0], False)
        ra = mkseq(tuple(segs(g.a[1])) + tuple(gs[1:]))
        rb = mkseq(tuple(segs(g.a[2])) + tuple(gs[1:]))
        if ra is rb:
            return self._pop1(ra, w, facts)
        if (g.a[1] is EMPTY) != (g.a[2] is EMPTY) and not gs[1:]:
            self.mm("reads %d bits unconditionally where the writer emits a field only if %s" % (w, show(g.a[0])[:200]), facts, g.a[0] if g.a[1] is EMPTY else not_(g.a[0]))
        va, ta = self._pop1(ra, w, fa)
        vb, tb = self._pop1(rb, w, fb)
        tail = ta if ta is tb else seq_ite(g.a[0], ta, tb)
        if tail is None:
            raise Giveup("branches of a conditional field do not rejoin")
        return ite(g.a[0], va, vb), tail

    def _pop1(self, rest, w, facts):
        gs = list(segs(lead(facts, rest)))
        acc, got = None, 0
        while got < w:
            if gs and gs[0].op == "if":
                gs = list(segs(lead(facts, mkseq(gs))))
            if not gs:
                self.mm("reads %d bits but only %d remain" % (w, got), facts)
            g = gs[0]
            if g.op == "if" and acc is None:
                return self._pop_if(gs, w, facts)
            if g.op == "if":
                self.mm("reads %d bits unconditionally where the writer emits a field only if %s"
                        % (w, show(g.a[0])), facts)
            if g.op in ("map", "rec", "all"):
                if g.op == "map":
                    b0 = segs(g.a[1])
                    if b0 and b0[0].op == "e" and b0[0].a[0] == w and acc is None:
                        raise Giveup("one element of a repeated group read outside its loop")
                self.mm("reads a %d-bit field where the writer emits %s" %
                        (w, {"map": "a repeated group", "rec": "a nested structure", "all": "a raw sequence"}[g.op]),
                        facts, lt(C(0), g.a[0]) if g.op == "map" else None)
            if g.op == "end":
                self.mm("reads %d bits across the end of the writer's loop body" % w, facts)
            if g.op != "e":
                raise Giveup("field of kind " + g.op)
            ww, x = g.a
            if got == 0 and ww == w:
                gs.pop(0)
                return x, mkseq(gs)
            need = w - got
            if ww > need:
                hi, lo = self._split(g, need)
                gs[0] = lo
                ww, x = hi.a
            else:
                gs.pop(0)
            piece = x
            if acc is None:
                acc, got = [(ww, piece)], ww
            else:
                acc.append((ww, piece))
                got += ww
        if len(acc) == 1:
            return acc[0][1], mkseq(gs)
        # several fields joined into one value
        bits = {}
        pos = w
        for ww, x in acc:
            pos -= ww
            b = asbits(x)
            if b is None:
                if ww == 1:
                    b = {0: tobool(x)}
                else:
                    return mk("joined", tuple(acc)), mkseq(gs)
            for k, c in b.items():
                bits[k + pos] = c
        # bits of one value in order?
        if all(isinstance(c, T) and c.op == "bit" for c in bits.values()) and len(bits) == w:
            x0 = bits[0].a[0]
            if all(bits[k] is mk("bit", x0, k) for k in range(w)):
                return x0, mkseq(gs)
        return mkbits(bits), mkseq(gs)

    # ------------------------------------------------------------ functions
    def lookup_fn(self, fk):
        return self.P.fn(fk)

    def modset(self, fn):
        """the parameters (and 'this') a function may change"""
        key = (fn["fk"], self.modular.pattern if self.modular else None)
        if key in MODS:
            return MODS[key]
        full = {"p%d" % j for j, p in enumerate(fn["params"]) if isref(p["t"]) and not p["t"].strip().startswith("const ")}
        if fn.get("cls") and not fn.get("static") and not fn.get("const") and self.P.records.get(fn["cls"], {}).get("fields"):
            full.add("this")
        MODS[key] = frozenset(full)
        if full:
            I = Interp(self.P)
            I.generic, I.modular, I.deadline = True, self.modular, self.deadline
            I.steps = 2500
            st, args, this = State(), [], None
            try:
                for j, p in enumerate(fn["params"]):
                    x = mk("sym", "p%d" % j, clean(p["t"]))
                    if ISTREAM.match(clean(p["t"])):
                        st.store[("io", "file.pos")] = mk("sym", "p%d" % j, "int")
                    if isref(p["t"]):
                        st.store[("in", j)] = x
                        args.append(LV(("in", j)))
                    else:
                        args.append(x)
                if fn.get("cls") and not fn.get("static"):
                    st.store[("in", "this")] = mk("sym", "this", fn["cls"])
                    this = LV(("in", "this"))
                st2, _ = I.call(st, fn, this, args)
                def same(m):
                    t = fn["cls"] if m == "this" else clean(fn["params"][int(m[1:])]["t"])
                    if ISTREAM.match(t):
                        return st2.store[("io", "file.pos")] is mk("sym", m, "int")
                    return st2.store[("in", "this" if m == "this" else int(m[1:]))] is mk("sym", m, t)
                full = {m for m in full if not same(m)}
            except (Giveup, Mismatch, RecursionError):
                pass
            MODS[key] = frozenset(full)
        return MODS[key]

    def boundary(self, st, fn, this, args):
        """a call treated as an uninterpreted function of its inputs: its result and every object it may change"""
        ts = [clean(p["t"]) for p in fn["params"]]
        mods = self.modset(fn)
        name = fn["q"] + "(" + ",".join(ts) + ")" + "".join(" " + m for m in sorted(mods))
        ins = []
        obj = fn.get("cls") and not fn.get("static") and this is not None and not fn.get("ctor")
        if obj:
            ins.append(self.rv(st, this))
        # a stream that is read from stands for its position
        ins += [st.store.get(("io", "file.pos"), C(0)) if self.generic and ISTREAM.match(t) else self.rv(st, a) for t, a in zip(ts, args)]
        for x in ins:
            if not isinstance(x, T):
                raise Giveup("argument of %s" % fn["q"])
        ins = tuple(ins)
        for j, (p, a) in enumerate(zip(fn["params"], args)):
            if "p%d" % j in mods and self.generic and ISTREAM.match(ts[j]):
                st.store[("io", "file.pos")] = mk("uf", name, "int", "p%d" % j, *ins)
            elif "p%d" % j in mods and islv(a):
                self.set(st, a, mk("uf", name, ts[j], "p%d" % j, *ins))
        if obj and "this" in mods and islv(this):
            self.set(st, this, mk("uf", name, fn["cls"], "this", *ins))
        rt = clean(fn.get("ret") or "")
        if rt in ("", "void"):
            return st, None
        return st, mk("uf", name, rt, "ret", *ins)

    def call(self, st, fn, this, args, node=None):
        """args: evaluated (LV or term). returns (state, result)"""
        if self.modular and self.stack and self.modular.search(fn["q"]) and not fn.get("ctor"):
            return self.boundary(st, fn, this, args)
        self.calls += 1
        self.visited[fn["fk"]] = fn
        if len(self.stack) > 60:
            raise Giveup("call depth")
        fr = Frame(fn, this, None)
        self.fresh += 1
        fr.id = self.fresh
        for p, a in zip(fn["params"], args):
            self.bind(st, fr, p, a)
        self.stack.append(fr)
        ol = self.line
        try:
            if fn.get("ctor"):
                self.run_inits(st, fr)
            o = self.exec(st, fn["body"]) if fn.get("body") else ("leaf", "n", st, None)
        finally:
            self.stack.pop()
            self.line = ol
        st2, v = self.collapse(o, fn)
        return st2, v

    def bind(self, st, fr, p, a):
        root = ("v", fr.id, p["id"])
        if isref(p["t"]):
            if islv(a):
                fr.vars[p["id"]] = a
                return
        if self.plain_pointer(st, p["t"], a):
            fr.vars[p["id"]] = a
            return
        v = self.rv(st, a)
        st.store[root] = v
        self.vtype[root] = clean(p["t"])
        fr.vars[p["id"]] = LV(root)

    def run_inits(self, st, fr):
        for i in fr.fn.get("inits", []):
            if i.get("f") is None:
                continue
            v = self.ev(st, i["e"])
            if fr.this is not None and islv(fr.this):
                lv = LV(fr.this[1], *(fr.this[2] + (("f", i["f"]),)))
                self.set(st, lv, self.rv(st, v))

    def construct(self, st, cls, fk, args, node):
        """value of a class-type construction"""
        fn = self.lookup_fn(fk) if fk else None
        self.fresh += 1
        root = ("o", self.fresh)
        base = {}
        r = self.P.records.get(cls)
        if r is None:
            return None
        user = fn is not None and not fn.get("defaulted")
        zero, self.zero = self.zero, bool(node and node.get("zi")) and not user
        for f in r.get("fields", []):
            if user:
                base[f["n"]] = mk("opq", "uninit." + f["n"])
            else:
                base[f["n"]] = self.default_field(st, f)
        self.zero = zero
        st.store[root] = rec(cls, None, base)
        if user:
            for f in r.get("fields", []):
                if not any(i.get("f") == f["n"] for i in fn.get("inits", [])):
                    st.store[root] = rec(cls, st.store[root], {f["n"]: self.default_field(st, f)})
            st2, _ = self.call(st, fn, LV(root), args, node)
            st.become(st2)
        v = st.store.pop(root)
        return v

    def default_field(self, st, f):
        if f.get("init"):
            try:
                return self.conv(st, self.rv(st, self.ev(st, f["init"])), f["t"])
            except Giveup:
                pass
        return self.default_value(st, f["t"])

    def default_value(self, st, t):
        t = clean(t)
        if t.startswith("std::optional<"):
            return NONE
        if t.startswith("std::vector<") or t.startswith("std::basic_string<") or re.match(r"std::(__cxx11::)?(list|deque)<", t):
            return EMPTY
        if t.startswith("std::pair<") and len(targs(t)) == 2:
            return rec(t, None, {k: self.default_elem(st, clean(x)) for k, x in zip(("first", "second"), targs(t))})
        if t.startswith("std::tuple<"):
            return rec(t, None, {"_%d" % k: self.default_elem(st, clean(x)) for k, x in enumerate(targs(t))})
        if t in self.P.records:
            r = self.P.records[t]
            # default constructor if user-provided
            for f in self.P.by_q.get(t + "::" + t.split("::")[-1], []):
                if not f["params"]:
                    return self.construct(st, t, f["fk"], [], None)
            return rec(t, None, {f["n"]: self.default_field(st, f) for f in r.get("fields", [])})
        if self.zero and t in WID:
            return C(0)
        return mk("opq", "uninit", t)

    # outcome trees ----------------------------------------------------------
    def collapse(self, o, fn=None):
        """join all leaves into one (state, value)"""
        r = self._coll(o)
        if r is None:
            raise Giveup("no normal return")
        st, v = r
        return st, v

    def _coll(self, o):
        if o[0] == "leaf":
            if o[1] in ("n", "ret"):
                return o[2], o[3]
            if o[1] == "throw":
                return None
            raise Giveup("unstructured exit " + o[1])
        _, c, a, b, base = o
        ra, rb = self._coll(a), self._coll(b)
        if ra is None or rb is None:
            if ra is None and rb is None:
                return None
            self.abort(base.add(c if ra is None else not_(c)))
            r = rb if ra is None else ra
            return r
        return self.merge(c, ra, rb, base)

    def merge(self, c, ra, rb, base):
        (sa, va), (sb, vb) = ra, rb
        if sa is sb:
            st = sa
        else:
            st = State({}, base)
            if sa.bits is sb.bits:
                st.bits = sa.bits
            else:
                nc = not_(c)
                for k, ex in sa.bits.items():
                    ey = sb.bits.get(k)
                    if ey is ex:
                        st.bits[k] = ex
                    elif ey is None:
                        st.bits[k] = (ex[0], and_(c, ex[1]))
                    else:
                        (x, cx), (y, cy) = ex, ey
                        z = x if x is y else seq_ite(c, lead(sa.facts, x), lead(sb.facts, y))
                        if z is not None:
                            st.bits[k] = (z, or_(and_(c, cx), and_(nc, cy)) if cx is not cy else cx)
                for k, ey in sb.bits.items():
                    if k not in sa.bits:
                        st.bits[k] = (ey[0], and_(nc, ey[1]))
            for k, x in sa.store.items():
                y = sb.store.get(k)
                if y is None:
                    y = UNWRITTEN.get(k)
                if y is None or x is y:
                    st.store[k] = x
                elif islv(x) or islv(y):
                    st.store[k] = x
                else:
                    st.store[k] = self.gate(c, x, y)
            for k, y in sb.store.items():
                if k not in st.store:
                    st.store[k] = self.gate(c, UNWRITTEN[k], y) if k in UNWRITTEN else y
        if va is None or vb is None:
            v = va if vb is None else vb
        elif va == vb:
            v = va
        else:
            v = self.gate(c, self.rv(sa, va), self.rv(sb, vb))
        return st, v

    def gate(self, c, x, y):
        r = ite(c, x, y)
        return r

    # ------------------------------------------------------------ statements
    def exec(self, st, n):
        k = n["k"] if n else "nop"
        if n and n.get("l"):
            self.line = n["l"]
        if self.deadline and time.time() > self.deadline:
            raise Giveup("analysis budget exhausted")
        if self.steps is not None:
            self.steps -= 1
            if self.steps < 0:
                raise Giveup("analysis budget exhausted")
        m = getattr(self, "s_" + k, None)
        if m:
            return m(st, n)
        # expression statement
        self.ev(st, n)
        return ("leaf", "n", st, None)

    def seq_exec(self, st, ss, i=0):
        while i < len(ss):
            o = self.exec(st, ss[i])
            i += 1
            if o[0] == "leaf":
                if o[1] != "n":
                    return o
                st = o[2]
                continue
            o = self.simplify(o)
            if o[0] == "leaf" and o[1] == "n":
                st = o[2]
                continue
            if i >= len(ss):
                return o
            return self.cont(o, lambda s: self.seq_exec(s, ss, i))
        return ("leaf", "n", st, None)

    def cont(self, o, f):
        if o[0] == "leaf":
            return f(o[2]) if o[1] == "n" else o
        return ("fork", o[1], self.cont(o[2], f), self.cont(o[3], f), o[4])

    def simplify(self, o):
        """join subtrees whose leaves all fall through"""
        if o[0] == "leaf":
            return o
        a, b = self.simplify(o[2]), self.simplify(o[3])
        if a[0] == "leaf" and b[0] == "leaf" and a[1] == b[1] and a[1] in ("n", "cont", "break"):
            st, _ = self.merge(o[1], (a[2], None), (b[2], None), o[4])
            return ("leaf", a[1], st, None)
        if a[0] == "leaf" and b[0] == "leaf" and a[1] == b[1] == "throw":
            return a
        return ("fork", o[1], a, b, o[4])

    def fork(self, st, c, fa, fb):
        c = st.facts.spec(c)
        d = st.facts.decide(c)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        base = st.facts
        sa, sb = st.copy(), st.copy()
        sa.facts = base.add(c)
        sb.facts = base.add(c, False)
        return ("fork", c, fa(sa), fb(sb), base)

    def s_blk(self, st, n):
        return self.seq_exec(st, n["s"])

    def s_nop(self, st, n):
        return ("leaf", "n", st, None)

    def s_decl(self, st, n):
        for v in n["vars"]:
            self.declare(st, v)
        return ("leaf", "n", st, None)

    def declare(self, st, v):
        fr = self.stack[-1]
        if "id" not in v:
            return
        if v.get("bind"):
            w = {k: x for k, x in v.items() if k != "bind"}
            self.declare(st, w)
            self.bindings(st, v)
            return
        root = ("v", fr.id, v["id"])
        if v.get("init") is not None:
            x = self.ev(st, v["init"])
            if isref(v["t"]) and islv(x) or self.plain_pointer(st, v["t"], x):
                fr.vars[v["id"]] = x
                return
            x = self.conv(st, self.rv(st, x), v["t"])
        else:
            x = self.default_value(st, v["t"])
        st.store[root] = x
        self.vtype[root] = clean(v["t"])
        fr.vars[v["id"]] = LV(root)

    def bindings(self, st, v):
        fr = self.stack[-1]
        b = fr.vars[v["id"]]
        x = self.rv(st, b)
        if islv(x):
            b = x
        if not islv(b):
            raise Giveup("structured binding")
        t = clean(v["t"])
        if t in ("auto", None) or t.startswith("auto"):
            t = ttype(self.rv(st, b))
        fs = list((_types["records"].get(t) or {}).keys())
        if len(fs) != len(v["bind"]):
            raise Giveup("structured binding")
        for f, y in zip(fs, v["bind"]):
            fr.vars[y["id"]] = LV(b[1], *(b[2] + (("f", f),)))

    def conv(self, st, x, t):
        t = clean(t)
        if islv(x):
            x = self.rv(st, x)
        if isinstance(x, T):
            if t.startswith("std::optional<") and x.op not in ("some", "none", "ite") :
                y = ttype(x)
                if isc(x):
                    return some(x)
        return x

    def s_if(self, st, n):
        if n.get("init"):
            o = self.exec(st, n["init"])
            st = o[2]
        if n.get("cvar"):
            self.declare(st, n["cvar"])
        c = tobool(self.rv(st, self.ev(st, n["c"])))
        return self.fork(st, c, lambda s: self.exec(s, n["th"]) if n["th"] else ("leaf", "n", s, None),
                         lambda s: self.exec(s, n["el"]) if n.get("el") else ("leaf", "n", s, None))

    def s_ret(self, st, n):
        v = None
        if n["a"] and n["a"][0] is not None:
            v = self.ev(st, n["a"][0])
            fr = self.stack[-1]
            if not isref(fr.fn["ret"]):
                v = self.conv(st, self.rv(st, v), fr.fn["ret"])
        return ("leaf", "ret", st, v)

    def s_break(self, st, n):
        return ("leaf", "break", st, None)

    def s_cont(self, st, n):
        return ("leaf", "cont", st, None)

    def s_try(self, st, n):
        return self.exec(st, n["body"])

    def s_throw(self, st, n):
        return ("leaf", "throw", st, None)

    def s_switch(self, st, n):
        if n.get("init"):
            st = self.exec(st, n["init"])[2]
        x = self.rv(st, self.ev(st, n["c"]))
        body = n["body"]["s"] if n["body"]["k"] == "blk" else [n["body"]]
        flat = []   # (labels, stmts)
        for s in body:
            labs = []
            while s and s["k"] in ("case", "default"):
                labs.append(None if s["k"] == "default" else self.rv(st, self.ev(st, s["v"])))
                s = s["sub"]
            flat.append((labs, s))
        stmts = [s for _, s in flat if True]
        arms = [(l, i) for i, (labs, _) in enumerate(flat) for l in labs]
        dflt = [i for l, i in arms if l is None]
        cases = [(l, i) for l, i in arms if l is not None]

        def run(s, i):
            o = self.seq_exec(s, [z for z in stmts[i:] if z is not None])
            return self.unbreak(o)

        def go(s, j):
            if j == len(cases):
                if dflt:
                    return run(s, dflt[0])
                return ("leaf", "n", s, None)
            return self.fork(s, eq(x, cases[j][0]), lambda q: run(q, cases[j][1]), lambda q: go(q, j + 1))

        return self.simplify(go(st, 0))

    def unbreak(self, o):
        if o[0] == "leaf":
            return ("leaf", "n", o[2], None) if o[1] == "break" else o
        return ("fork", o[1], self.unbreak(o[2]), self.unbreak(o[3]), o[4])

    # ------------------------------------------------------------ loops
    def s_for(self, st, n):
        if n.get("init"):
            o = self.exec(st, n["init"])
            st = o[2]
        return self.loop(st, n["c"], n.get("inc"), n["body"], n)

    def s_while(self, st, n):
        return self.loop(st, n["c"], None, n["body"], n)

    def s_do(self, st, n):
        if not self.generic:
            raise Giveup("do-while")
        return self.gloop(st, n["c"], None, n["body"], n, post=True)

    def s_rfor(self, st, n):
        r = self.ev(st, n["range"])
        if not islv(r):
            self.fresh += 1
            root = ("t", self.fresh)
            st.store[root] = self.rv(st, r)
            r = LV(root)
        s0 = self.rv(st, r)
        if ttype(s0) == "json":
            r = LV(r[1], *(r[2] + (("f", "l"),)))
            s0 = self.rv(st, r)
        fr = self.stack[-1]
        v = n["var"]

        def bindvar(s, i):
            if isref(v["t"]):
                fr.vars[v["id"]] = LV(r[1], *(r[2] + (("i", i),)))
            else:
                root = ("v", fr.id, v["id"])
                s.store[root] = at(self.rv(s, r), i)
                fr.vars[v["id"]] = LV(root)
            if v.get("bind"):
                self.bindings(s, v)

        n_ = length(s0)
        if isint(n_) and cv(n_) <= (12 if self.generic else self.maxunroll):
            out = None
            return self.unroll_rfor(st, n, bindvar, 0, cv(n_))
        return self.summarise(st, None, None, n["body"], n, bindvar, n_)

    def unroll_rfor(self, st, n, bindvar, i, N):
        while i < N:
            bindvar(st, C(i))
            o = self.simplify(self.exec(st, n["body"]))
            i += 1
            if o[0] == "leaf":
                if o[1] == "break":
                    return ("leaf", "n", o[2], None)
                if o[1] in ("n", "cont"):
                    st = o[2]
                    continue
                return o
            j = i
            return self.after_body(o, lambda s: self.unroll_rfor(s, n, bindvar, j, N))
        return ("leaf", "n", st, None)

    def after_body(self, o, f):
        if o[0] == "leaf":
            if o[1] in ("n", "cont"):
                return f(o[2])
            if o[1] == "break":
                return ("leaf", "n", o[2], None)
            return o
        return self.simplify(("fork", o[1], self.after_body(o[2], f), self.after_body(o[3], f), o[4]))

    def loop(self, st, c, inc, body, n):
        if self.generic and c and c.get("k") == "lit":
            return self.summarise(st, c, inc, body, n, None, None)      # while (true): left from inside only
        # unrolling while the condition is decided
        save, saved_bits = st.copy(), None
        s = st.copy()
        k = 0
        mism0, notes0 = len(self.mism), len(self.notes)
        fresh0 = self.fresh
        while True:
            try:
                cond = tobool(self.rv(s, self.ev(s, c))) if c else TRUE
            except Giveup:
                cond = None
            d = s.facts.decide(s.facts.spec(cond)) if cond is not None else None
            if d is False:
                return ("leaf", "n", s, None)
            if d is None or not isc(cond) or k > (12 if self.generic else self.maxunroll):
                break
            o = self.simplify(self.exec(s, body))
            k += 1
            if o[0] == "leaf" and o[1] in ("n", "cont"):
                s = o[2]
                if inc:
                    self.ev(s, inc)
                continue
            if o[0] == "leaf" and o[1] == "break":
                return ("leaf", "n", o[2], None)
            if o[0] == "leaf":
                return o
            # conditional exit inside an unrolled loop
            if inc is not None or True:
                def rest(q, inc=inc):
                    if inc:
                        self.ev(q, inc)
                    return self.loop(q, c, inc, body, n)
                if k > (4 if self.generic else 40):
                    break
                return self.after_body(o, rest)
        if k and not (cond is not None and isc(cond)):
            del self.notes[notes0:]
        return self.summarise(save, c, inc, body, n, None, None)

    def summarise(self, st, c, inc, body, n, bindvar, count):
        if not self.generic:
            return self.closed(st, c, inc, body, n, bindvar, count)
        keep = (self.wlog, dict(self.pairs), len(self.notes), len(self.aborts), list(self.stack))
        try:
            return self.closed(st.copy(), c, inc, body, n, bindvar, count)
        except (NoForm, Giveup) as e:
            if isinstance(e, Giveup) and "budget" in str(e):
                raise
            self.wlog, self.pairs = keep[0], keep[1]
            del self.notes[keep[2]:]
            del self.aborts[keep[3]:]
            self.stack[:] = keep[4]
            return self.gloop(st, c, inc, body, n, bindvar, count)

    def phi(self, st, rp, name):
        """loop variable standing for the value of a location"""
        e = self.get(st, LV(rp[0], *rp[1]))
        if islv(e):
            raise Giveup("a reference changes in a loop")
        if e.op in ("iter", "riter"):
            ph = mk("phi", name, "int")
            return e.a[2], mk(e.op, e.a[0], e.a[1], ph), ph
        ty = ttype(e)
        if not rp[1] and self.vtype.get(rp[0]):
            ty = self.vtype[rp[0]]
        if ty is None and e.op == "opq" and len(e.a) > 1 and isinstance(e.a[1], str):
            ty = e.a[1]
        if ty is None and rp[1] and rp[1][-1][0] == "f":
            ty = clean(_types["records"].get(ttype(self.get(st, LV(rp[0], *rp[1][:-1]))), {}).get(rp[1][-1][1]))
        ph = mk("phi", name, ty)
        return e, ph, ph

    def part(self, v, nv):
        """what the loop variable of v becomes when the location becomes nv"""
        if islv(nv):
            raise Giveup("a reference changes in a loop")
        if v.op in ("iter", "riter"):
            if nv.op != v.op or nv.a[:2] != v.a[:2]:
                raise Giveup("an iterator changes its container in a loop")
            return nv.a[2]
        if nv.op in ("iter", "riter"):
            if v.op == "phi" and str(v.a[1]).endswith("*"):
                return mk("opq", "pointer", v)      # refused below when an iteration reads what an earlier one left
            raise Giveup("an iterator is set in a loop")
        return nv

    def gloop(self, st, c, inc, body, n, bindvar=None, count=None, post=False):
        """loop as a fixpoint term: one variable per location the body changes, plus the exit it takes"""
        self.loops += 1
        self.fresh += 1
        lid = self.fresh
        XR, RR = ("x", lid), ("xr", lid)
        idx = mk("phi", "φ%d.i" % lid, "int")
        paths = []
        nt0, ab0 = len(self.notes), len(self.aborts)
        for rnd in range(14):
            del self.notes[nt0:]
            del self.aborts[ab0:]
            s = st.copy()
            info = {}
            for j, rp in enumerate(paths):
                e, v, ph = self.phi(st, rp, "φ%d.%d" % (lid, j))
                info[rp] = (e, v, ph)
                self._rawset(s, LV(rp[0], *rp[1]), v)
            log0, self.wlog = self.wlog, []
            codes = set()
            try:
                top = TRUE
                if bindvar:
                    bindvar(s, idx)
                    top = lt(idx, count)
                    s.facts = s.facts.add(top)
                if post:
                    def tail(q):
                        cond = tobool(self.rv(q, self.ev(q, c)))
                        return self.fork(q, cond, lambda a: ("leaf", "n", a, None), lambda a: ("leaf", "break", a, None))
                    o = self.after_iter(self.exec(s, body), tail)
                elif c is not None:
                    m = len(self.wlog)
                    cond = tobool(self.rv(s, self.ev(s, c)))
                    if len(self.wlog) > m:
                        o = self.fork(s, cond, lambda q: self.exec(q, body), lambda q: ("leaf", "break", q, None))
                    else:
                        top = cond
                        if s.facts.decide(s.facts.spec(cond)) is False:
                            return ("leaf", "n", st, None)
                        s.facts = s.facts.add(cond)
                        o = self.exec(s, body)
                else:
                    o = self.exec(s, body)

                def fin(o):
                    if o[0] == "fork":
                        return ("fork", o[1], fin(o[2]), fin(o[3]), o[4])
                    k, q = o[1], o[2]
                    if k in ("n", "cont"):
                        if inc:
                            self.ev(q, inc)
                        code = 0
                    elif k == "break":
                        code = 1
                    elif k == "ret":
                        code = 2
                        x = o[3]
                        if x is not None and isref(self.stack[-1].fn["ret"]) and islv(x):
                            raise Giveup("a reference is returned from a loop")
                        q.store[RR] = self.rv(q, x) if x is not None else C(0)
                    else:
                        code = 3
                    codes.add(code)
                    q.store[XR] = C(code)
                    return ("leaf", "n", q, None)
                s2 = self.collapse(fin(o))[0]
            finally:
                log = self.wlog
                self.wlog = log0
            new = self._paths(log + paths, st)
            if set(new) == set(paths):
                break
            paths = new
        else:
            raise Giveup("loop does not stabilise")
        if self.wlog is not None:
            self.wlog.extend(paths)
        vs, inits, nexts, where, dead = [], [], [], [], set()
        for rp in paths:
            e, v, ph = info[rp]
            nv = self.get(s2, LV(rp[0], *rp[1]))
            vs.append(ph)
            inits.append(e)
            nexts.append(self.part(v, nv))
            where.append((rp, v))
        if bindvar:
            vs.append(idx)
            inits.append(C(0))
            nexts.append(add(idx, C(1)))
        for j, (v, nv) in enumerate(zip(vs, nexts)):
            if nv.op == "opq" and nv.a[0] == "pointer":
                nexts[j] = C(0)
                if v in self.syms_in((tuple(nexts), top, s2.store[XR])):
                    raise Giveup("a pointer is kept over the iterations of a loop")
                dead.add(v)
        x = s2.store[XR]
        cond = top
        xp = ptr = None
        if x is not FALSE:
            xp = mk("phi", "φ%d.x" % lid, "int")
            cond = and_(eq(xp, C(0)), top)
            vs.append(xp)
            inits.append(C(0))
            nexts.append(x)
            if RR in s2.store:
                ty = clean(self.stack[-1].fn["ret"])
                rr = s2.store[RR]
                if self.pointer(rr):
                    if rr.op != "iter" or self.syms_in(rr.a[1]) & set(vs):
                        raise Giveup("one of several pointers is returned from a loop")
                    ptr, rr, ty = rr.a[:2], rr.a[2], "int"
                rp_ = mk("phi", "φ%d.r" % lid, ty)
                vs.append(rp_)
                inits.append(mk("opq", "noreturn"))
                nexts.append(rr)

        def out(v):
            j = vs.index(v)
            o = [j] + [q for q in range(len(vs)) if q != j]
            return mkmu([vs[q] for q in o], [inits[q] for q in o], cond, [nexts[q] for q in o])
        res = st.copy()
        for rp, v in where:
            t = out(info[rp][2]) if v not in dead else mk("opq", "pointer")
            if v.op in ("iter", "riter"):
                t = mk(v.op, v.a[0], v.a[1], t)
            self._rawset(res, LV(rp[0], *rp[1]), t)
        if xp is None or not codes & {2, 3}:
            return ("leaf", "n", res, None)
        X = out(xp)
        o = ("leaf", "n", res, None)
        if 2 in codes:
            r = out(rp_)
            if ptr:
                r = mk("iter", ptr[0], ptr[1], r)
            o = self.fork(res, eq(X, C(2)), lambda q: ("leaf", "ret", q, r), lambda q: ("leaf", "n", q, None))
        if 3 in codes:
            o = self.cont(o, lambda q: self.fork(q, eq(X, C(3)), lambda a: ("leaf", "throw", a, None), lambda a: ("leaf", "n", a, None)))
        return o

    def after_iter(self, o, f):
        if o[0] == "leaf":
            return f(o[2]) if o[1] in ("n", "cont") else o
        return ("fork", o[1], self.after_iter(o[2], f), self.after_iter(o[3], f), o[4])

    def closed(self, st, c, inc, body, n, bindvar, count):
        self.loops += 1
        self.fresh += 1
        lid = self.fresh
        i = mk("sym", "$i%d" % lid, "int")
        entry_facts = st.facts
        # pass A: which locations does the body write?
        log0, self.wlog = self.wlog, []
        pairs0 = dict(self.pairs)
        notes0, ab0 = len(self.notes), len(self.aborts)
        wl = None
        try:
            probe = st.copy()
            # havoc nothing: only the write log matters; positions are probed optimistically
            gind = self._guess_ind(st, inc, body)
            for rp, step in gind.items():
                self._rawset(probe, LV(rp[0], *rp[1]), self._advance(self.get(st, LV(rp[0], *rp[1])), step, i))
            wl = self._probe(probe, c, inc, body, bindvar, i, st)
        finally:
            mylog = self.wlog
            self.wlog = log0
            self.pairs = pairs0
            del self.notes[notes0:]
            del self.aborts[ab0:]
        paths = self._paths(mylog + (wl or []), st)
        if self.wlog is not None:
            self.wlog.extend(paths)
        # pass B: phi at every written location; find inductions
        ind = {rp: v for rp, v in gind.items() if rp in paths}
        ew = self._guess_ew(mylog, paths, i)
        noind, noew = set(), set()
        for rnd in range(10):
            self.pairs = dict(pairs0)
            s = st.copy()
            phis = {}
            for j, (root, path) in enumerate(paths):
                e = self.get(st, LV(root, *path))
                if (root, path) in ind:
                    step = ind[(root, path)]
                    v = e if step is None else self._advance(e, step, i)
                    phis[(root, path)] = (e, v, None)
                else:
                    ty = ttype(e) if isinstance(e, T) else None
                    ph = mk("phi", "φ%d.%d" % (lid, j), ty)
                    if self.generic and isinstance(e, T) and e.op not in ("iter", "istream"):
                        e, v, ph = self.phi(st, (root, path), "φ%d.%d" % (lid, j))
                        if v.op == "riter":
                            raise NoForm()
                        self.phi_entry[ph] = (e, i)
                    elif isinstance(e, T) and e.op == "iter":
                        ph = mk("iter", e.a[0], e.a[1], mk("phi", "φ%d.%d" % (lid, j), "int"))
                    elif isinstance(e, T) and e.op == "istream":
                        ph = mk("istream", e.a[0], mk("phi", "φ%d.%d" % (lid, j), "int"))
                        self.phi_entry[ph.a[1]] = (e.a[1], i)
                    else:
                        self.phi_entry[ph] = (e, i)
                    v = ph
                    if (root, path) in ew:
                        # only element i is written by iteration i: it still holds its entry value
                        v = mk("upd", ph, i, at(e, i))
                    phis[(root, path)] = (e, v, ph)
                lv = LV(root, *path)
                self._rawset(s, lv, v)
            cond = TRUE
            ab1 = len(self.aborts)
            nt1 = len(self.notes)
            log1, self.wlog = self.wlog, []
            try:
                if bindvar:
                    bindvar(s, i)
                if c is not None:
                    m = len(self.wlog)
                    cond = tobool(self.rv(s, self.ev(s, c)))
                    if self.generic and self._paths(self.wlog[m:], st):
                        raise NoForm()    # the last evaluation of the condition has an effect too
                s.facts = entry_facts.add(cond)
                o = self.exec(s, body)
                exits = []
                o = self.loop_leaves(o, exits)
                if o is None:
                    raise Giveup("loop body never completes")
                s2 = o
                if inc:
                    self.ev(s2, inc)
            finally:
                extra = self.wlog
                self.wlog = log1
            morep = [p for p in self._paths(extra, st) if not any(p[0] == q[0] and q[1] == p[1][:len(q[1])] for q in paths)]
            if morep:
                paths = self._paths(extra + [(r, p) for r, p in paths], st)
                ind = {}
                ew = set()
                del self.aborts[ab1:]
                del self.notes[nt1:]
                continue
            changed = False
            news = {}
            for rp, (e, v, ph) in phis.items():
                nv = self.get(s2, LV(*((rp[0],) + rp[1])))
                news[rp] = nv
                if ph is None:
                    want = v if ind[rp] is None else self._advance(v, ind[rp], C(1))
                    if nv is not want:
                        del ind[rp]
                        noind.add(rp)
                        changed = True
                    continue
                if rp in ew and nv is not v and not (nv.op == "upd" and nv.a[0] is ph and nv.a[1] is i):
                    ew.discard(rp)
                    noew.add(rp)
                    changed = True
                    continue
                if nv is v and rp not in noind:
                    ind[rp] = None
                    changed = True
                    continue
                if rp not in noew and nv.op == "upd" and nv.a[0] is ph and nv.a[1] is i and rp not in ew:
                    ew.add(rp)
                    changed = True
                    continue
                a, b = (v, nv)
                if v.op == "iter" and nv.op == "iter" and nv.a[:2] == v.a[:2]:
                    a, b = v.a[2], nv.a[2]
                elif v.op == "istream":
                    continue
                if isseq(e) or e.op in ("rec",):
                    continue
                if isc(e) and not isint(e):
                    continue
                d = sub(b, a) if b.op not in ("rec", "seq", "some", "none") else None
                if d is not None and isint(d) and not self._ispos(a) and rp not in noind:
                    ind[rp] = d
                    changed = True
            if not changed:
                break
            del self.aborts[ab1:]
            del self.notes[nt1:]
        else:
            raise Giveup("loop does not stabilise")
        if exits:
            if self.generic:
                raise NoForm()
            raise Giveup("loop with a data-dependent early exit")
        # trip count
        posphis = {(v.a[1] if v.op == "istream" else v): rp for rp, (e, v, ph) in phis.items() if ph is not None}
        if count is None:
            count = self.trip(cond, i, phis, posphis, news)
            if self.generic and count is not None and not nonneg(count):
                count = ite(lt(C(0), count), count, C(0))

        def general(ph, nv):
            vs, inits, nexts = [], [], []
            for rp, (e, v, q) in phis.items():
                if q is None:
                    continue
                k = q.a[2] if q.op == "iter" else q
                vs.append(k)
                inits.append(e.a[2] if q.op == "iter" else e)
                nexts.append(self.part(q, news[rp]))
            vs.append(i)
            inits.append(C(0))
            nexts.append(add(i, C(1)))
            k = ph.a[2] if ph.op == "iter" else ph
            j = vs.index(k)
            o = [j] + [q for q in range(len(vs)) if q != j]
            cnd = cond if bindvar is None else lt(i, count)
            r = mkmu([vs[q] for q in o], [inits[q] for q in o], cnd, [nexts[q] for q in o])
            return mk("iter", ph.a[0], ph.a[1], r) if ph.op == "iter" else r
        if self.generic:
            for rp, (e, v, ph) in phis.items():
                if ph is not None and ph.op in ("istream",):
                    raise NoForm()
                if ph is not None and islv(news[rp]):
                    raise NoForm()
            if count is None:
                count = general(i, None)
        out = st.copy()
        out.facts = entry_facts
        pend = []
        subst_entry = {}
        for rp, (e, v, ph) in phis.items():
            lv = LV(rp[0], *rp[1])
            if rp in ind:
                step = ind[rp]
                if step is not None:
                    if count is None:
                        f = mk("opq", "after-loop", lid, str(rp))
                    else:
                        f = self._advance(e, step, count)
                    self._rawset(out, lv, f)
                continue
            pend.append((rp, e, ph, news[rp]))
        for rp, e, ph, nv in pend:
            lv = LV(rp[0], *rp[1])
            p = ph.a[1] if ph.op == "istream" else ph
            if p in self.pairs and (nv.op == "istream" or not isseq(e)):
                B, mp, tail = self.pairs[p]
                np_ = nv.a[1] if nv.op == "istream" else nv
                rest = self.rest_at(s2, B, np_)
                rest = lead(entry_facts, rest) if rest is not None else None
                endm = mkseq((mk("end", p),))
                if rest is None:
                    raise Giveup("loop body leaves the read position undefined: %s | %s" % (show(np_), [show(q[1]) for q in st.bits][-12:]))
                if rest is not endm:
                    left = mkseq([x for x in segs(rest) if x is not segs(endm)[0]])
                    self.mm("one iteration of the reading loop does not consume exactly one iteration of the "
                            "writing loop; left over: %s" % show(rest)[:300], s2.facts, lt(C(0), length(left)))
                if count is None and cond is not TRUE:
                    count = self.trip_pos(cond, p, B, mp, tail)
                if count is None:
                    raise Giveup("trip count of a reading loop: %s vs %s" % (show(cond)[:400], show(mp.a[0])[:300]))
                if not self.same_count(count, mp.a[0], entry_facts):
                    self.mm("reading loop runs %s times where the writing loop runs %s times" %
                            (show(count), show(mp.a[0])), entry_facts, not_(eq(count, mp.a[0])))
                after = mk("sym", "$pos%d" % lid, "int")
                out.bput(B, after, tail)
                # positions known before the loop stay valid; remember the length relation too
                f = mk("istream", B, after) if nv.op == "istream" else after
                self._rawset(out, lv, f)
                continue
            others = {q for (_, _, q, _) in pend if q is not ph}
            f = self.recur(e, ph, nv, i, count, others, lid, rp)
            if self.generic and (f.op == "opq" or e.op in ("iter", "riter")):
                f = general(ph, nv)
            self._rawset(out, lv, f)
        return ("leaf", "n", out, None)

    def same_count(self, a, b, facts):
        if a is b:
            return True
        a, b = facts.spec(a), facts.spec(b)

        def strip(x):
            while x.op == "tr":
                x = x.a[2]
            return x
        return strip(a) is strip(b)

    def _ispos(self, p):
        return p in self.pairs

    def _advance(self, e, step, i):
        if e.op == "iter":
            return mk("iter", e.a[0], e.a[1], add(e.a[2], mul(step, i)))
        return add(e, mul(step, i))

    def _rawset(self, st, lv, v):
        st.store[lv[1]] = self._set(st.store.get(lv[1]), lv[2], v)

    def loop_leaves(self, o, exits):
        """join the iterations that complete; record other exits"""
        if o[0] == "leaf":
            if o[1] in ("n", "cont"):
                return o[2]
            if o[1] == "throw":
                return None
            if o[1] == "ret" and self.drop_false and isinstance(o[3], T) and o[3] is FALSE and clean(self.stack[-1].fn["ret"]) == "bool":
                # error exit of a bool-result codec function: the property is conditioned on success
                self.abort(o[2].facts)
                return None
            exits.append(o)
            return None
        a, b = self.loop_leaves(o[2], exits), self.loop_leaves(o[3], exits)
        if a is None:
            return b
        if b is None:
            return a
        return self.merge(o[1], (a, None), (b, None), o[4])[0]

    def _probe(self, s, c, inc, body, bindvar, i, st):
        if bindvar:
            bindvar(s, i)
        # give every istream/position a probe: the first iteration is evaluated at the loop entry when
        # the entry is at a repeated group
        self._enter_groups(s, i)
        if c is not None:
            cond = tobool(self.rv(s, self.ev(s, c)))
            s.facts = s.facts.add(cond)
        o = self.exec(s, body)
        ex = []
        s2 = self.loop_leaves(o, ex)
        if s2 is not None and inc:
            self.ev(s2, inc)
        return []

    def _guess_ind(self, st, inc, body):
        """counters stepped by the loop header only (verified afterwards)"""
        out = {}
        todo = [inc] if inc else []
        while todo:
            n = todo.pop()
            if n["k"] == "bin" and n["op"] == ",":
                todo += n["a"]
                continue
            step = None
            if n["k"] == "un" and n["op"] in ("++", "--"):
                step = 1 if n["op"] == "++" else -1
            elif n["k"] == "opcall" and n["op"] in ("++", "--"):
                step = 1 if n["op"] == "++" else -1
            elif n["k"] == "bin" and n["op"] in ("+=", "-=") and "cv" in n["a"][1]:
                step = n["a"][1]["cv"] * (1 if n["op"] == "+=" else -1)
            if step is None or not isinstance(step, int) or n["a"][0]["k"] != "ref":
                continue
            lv = self.stack[-1].vars.get(n["a"][0].get("id"))
            if lv is None:
                continue
            e = self.get(st, lv)
            if isinstance(e, T) and (e.op == "iter" or not (isc(e) and not isint(e))):
                out[(lv[1], tuple(lv[2]))] = C(step)
        return out

    def _guess_ew(self, log, paths, i):
        bad, good = set(), set()
        for root, path in log:
            for rp in paths:
                if rp[0] == root and path[:len(rp[1])] == rp[1]:
                    rest = path[len(rp[1]):]
                    if rest and rest[0] == ("i", i):
                        good.add(rp)
                    else:
                        bad.add(rp)
        return good - bad

    def _enter_groups(self, s, i):
        """probe pass only: let reads at an entry position that stands at a repeated group see one element"""
        Bs = list(dict.fromkeys(B for B, _ in s.bits))
        pos = []
        for v in list(s.store.values()):
            if not isinstance(v, T):
                continue
            if v.op == "istream":
                pos.append((v.a[0], v.a[1]))
            elif v in self.phi_entry:
                pos += [(B, v) for B in Bs]
            elif v.op in ("lin", "sym", "c", "ite"):
                pos += [(B, v) for B in Bs if (B, v) in s.bits]
        for B, p in dict.fromkeys(pos):
            r = self.rest_at(s, B, p)
            g = segs(r) if r is not None else ()
            if g and g[0].op == "map":
                b = bsub(g[0].a[1], g[0].a[2], i)
                s.bput(B, p, mkseq(tuple(segs(b)) + tuple(g[1:])))

    def _paths(self, log, st):
        ps = []
        for root, path in log:
            if root not in st.store:
                continue
            cut = []
            for p in path:
                if p[0] == "i":
                    break
                cut.append(p)
            # optional payload writes modify the optional
            if ("v",) in cut:
                cut = cut[:cut.index(("v",))]
            ps.append((root, tuple(cut)))
        ps = list(dict.fromkeys(ps))
        out = []
        for r, p in ps:
            if not any(r == r2 and p != p2 and p[:len(p2)] == p2 for r2, p2 in ps):
                out.append((r, p))
        return out

    def trip(self, cond, i, phis, posphis, news=None):
        if cond.op == "lt":
            a, b = cond.a
            mine = self._mine(phis)
            if i in free(b) or mine & free(b):
                b2 = self._inv(b, phis, news)
                if b2 is None:
                    return None
                b = b2
            k, d = lin_parts(a)
            step = d.get(i)
            if step and step > 0:
                start = sub(a, mulc(i, step))
                if i in free(start) or mine & free(start):
                    return None
                diff = sub(b, start)
                if step == 1:
                    return diff
                if isint(diff):
                    return C(-(-cv(diff) // step))
                q = mk("ceildiv", diff, C(step))
                k2, d2 = lin_parts(diff)
                if k2 % step == 0 and all(v % step == 0 for v in d2.values()):
                    return mklin(k2 // step, {x: v // step for x, v in d2.items()})
                return q
        if cond.op == "not" and cond.a[0].op == "eq":
            a, b = cond.a[0].a
            d = sub(b, a)
            k, dd = lin_parts(d)
            st_ = dd.get(i)
            if st_ in (1, -1):
                r = mulc(sub(d, mulc(i, st_)), -st_)
                r2 = self._inv(r, phis, news)
                return r2
        return None

    def _inv(self, b, phis, news=None):
        """replace phi by entry where only the length matters and is preserved"""
        m = {}
        for rp, (e, v, ph) in phis.items():
            if ph is not None and ph in free(b) and ph.op == "phi":
                if news is not None and length(news[rp]) is not length(ph):
                    continue
                m[mk("len", ph)] = length(e)
        r = subst(b, m) if m else b
        if self._mine(phis) & free(r):
            return None
        return r

    def _mine(self, phis):
        return frozenset(ph.a[1] if ph.op == "istream" else ph.a[2] if ph.op == "iter" else ph for (e, v, ph) in phis.values() if ph is not None)

    def trip_pos(self, cond, p, B, mp, tail):
        if tail is EMPTY and cond.op == "lt":
            a, b = cond.a
            if a is p and b is length(B):
                return mp.a[0]
        return None

    def recur(self, e, ph, nv, i, count, others, lid, rp):
        """closed form of a recurrence ph -> nv started at e"""
        fv = free(nv)
        if others & fv:
            return mk("opq", "coupled", lid, str(rp[1]))
        if count is None:
            return mk("opq", "nocount", lid, str(rp[1]))
        # append
        if nv.op == "seq" and nv.a and nv.a[0] is mk("all", ph, None):
            restn = mk("seq", *nv.a[1:])
            if ph not in free(restn):
                m = mkmap(count, i, restn)
                return mkseq(tuple(segs(e)) + ((m,) if m is not None else ()))
            l = mk("len", ph)
            r2 = subst(restn, {l: add(length(e), mul(i, length(restn)))}) if isint(length(restn)) else restn
            if ph not in free(r2):
                m = mkmap(count, i, r2)
                return mkseq(tuple(segs(e)) + ((m,) if m is not None else ()))
        # element-wise update
        x = nv
        conds = []
        if x.op == "ite" and ph in (x.a[1], x.a[2]):
            conds.append(x.a[0] if x.a[2] is ph else not_(x.a[0]))
            x = x.a[1] if x.a[2] is ph else x.a[2]
        if x.op == "upd" and x.a[0] is ph and x.a[1] is i:
            v = subst(x.a[2], {at(ph, i): at(e, i)})
            if conds:
                v = ite(conds[0], v, at(e, i))
            if ph not in free(v) and (length(e) is count or (isint(sub(length(e), count)))):
                if length(e) is count:
                    m = mkmap(count, i, mk("seq", mk("one", v)))
                    return mkseq((m,))
        if ph not in fv:
            if i not in fv:
                return ite(lt(C(0), count), nv, e) if not isint(count) else (nv if cv(count) > 0 else e)
            # value of the last iteration
            return mk("opq", "last", mk("seq", mkmap(count, i, mk("seq", mk("one", nv)))))
        if nv.op == "and" and ph in nv.a:
            r = and_(*[x for x in nv.a if x is not ph])
            if ph not in free(r):
                return and_(e, mk("allof", mk("seq", mkmap(count, i, mk("seq", mk("one", r))))))
        # scalar accumulation
        d = sub(nv, ph) if not isseq(e) and nv.op == "lin" else None
        if d is not None and ph not in free(d):
            k = b_depth(d)
            return add(e, mksum(count, subst(d, {i: BV(k)}), k))
        return mk("opq", "rec", lid, str(rp[1]))

    # ------------------------------------------------------------ expressions
    def ev(self, st, n):
        if n is None:
            return None
        if n.get("l"):
            self.line = n["l"]
        k = n["k"]
        if "cv" in n and k not in ("mem",) and not (k == "ref" and n.get("dk") in ("parm", "local")):
            return C(n["cv"])
        return getattr(self, "e_" + k)(st, n)

    def val(self, st, n):
        return self.rv(st, self.ev(st, n))

    def e_lit(self, st, n):
        if "cv" in n:
            return C(n["cv"])
        return mk("opq", "lit", n.get("cvs"))

    def e_str(self, st, n):
        return C(n["v"])

    def e_null(self, st, n):
        return mk("nullptr")

    def e_this(self, st, n):
        return self.stack[-1].this

    def e_ref(self, st, n):
        for fr in (self.stack[-1],):
            if n.get("id") in fr.vars:
                return fr.vars[n["id"]]
        if n["n"] == "std::nullopt":
            return NONE
        if "cv" in n:
            return C(n["cv"])
        if n["n"] in self.tables:
            return mk("table", n["n"])
        v = self.P.vars.get(n["n"])
        if v is not None and v.get("cv") is not None:
            return C(v["cv"])
        if n.get("dk") == "func":
            return mk("func", n["fk"])
        for fr in reversed(self.stack):
            if n.get("id") in fr.vars:
                return fr.vars[n["id"]]
        if v is not None and v.get("init") is not None and v.get("const"):
            return self.ev(st, v["init"])
        if n.get("dk") in ("local", "parm", "other"):
            raise Giveup("unbound local name %s" % n["n"])
        return mk("sym", "global:" + n["n"], n["t"])

    def e_mem(self, st, n):
        b = self.ev(st, n["a"][0])
        if "cv" in n and not islv(b):
            return C(n["cv"])
        if n.get("fk"):
            return mk("func", n["fk"])
        if islv(b):
            v = self.rv(st, b)
            if isinstance(v, T) and v.op in ("iter", "riter"):
                b = self.elem(v)
            elif islv(v):
                b = v
            return LV(b[1], *(b[2] + (("f", n["n"]),)))
        if isinstance(b, T) and b.op in ("iter", "riter"):
            b = self.elem(b)
            return LV(b[1], *(b[2] + (("f", n["n"]),)))
        return fld(b, n["n"])

    def e_cast(self, st, n):
        ck = n["ck"]
        x = self.ev(st, n["a"][0])
        t = clean(n["t"])
        if t == "void":
            return C(0)
        if ck in ("IntegralCast", "NoOp"):
            if ck == "NoOp":
                return x
            x = self.rv(st, x)
            if t in self.P.enums:
                if ttype(x) == t or isint(x):
                    return x
                if x.op == "tr" and ttype(x.a[2]) == t:
                    return x.a[2] if domain_fits(x.a[2], x.a[0]) else mk("enum", t, x)
                if x.op == "ite":
                    d = domain(x)
                    if d is not None and d <= frozenset(_types["enums"][t].values()):
                        return x
                return mk("enum", t, x)
            w = WID.get(t)
            if w and w[0] and w[0] < 32 and t != "bool":
                return tr(w[0], w[1], x)
            return x
        if ck in ("IntegralToFloating", "FloatingCast"):
            return self.rv(st, x)
        if ck == "FloatingToIntegral":
            x = self.rv(st, x)
            if num(x):
                return C(int(cv(x)))
            if intval(x):
                return x
            return mk("f2i", x)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return tobool(self.rv(st, x))
        if ck in ("ToVoid",):
            return C(0)
        return x

    def e_un(self, st, n):
        op = n["op"]
        if op in ("++", "--"):
            lv = self.ev(st, n["a"][0])
            old = self.rv(st, lv)
            d = C(1 if op == "++" else -1)
            if isinstance(old, T) and old.op == "iter":
                new = mk("iter", old.a[0], old.a[1], add(old.a[2], d))
            else:
                new = add(old, d)
            self.set(st, lv, new)
            return old if n["post"] else lv
        if op == "*":
            x = self.ev(st, n["a"][0])
            return self.deref(st, x)
        if op == "&":
            x = self.ev(st, n["a"][0])
            if self.generic and "pugi::" in (n.get("t") or ""):
                return self.rv(st, x)       # nodes of the document are handles and do not change
            if self.generic and islv(x) and x[2] and x[2][-1][0] == "i" and not self.pointer(self.rv(st, x)):
                return mk("iter", x[1], x[2][:-1], x[2][-1][1])     # a pointer to an element
            return x
        x = self.val(st, n["a"][0])
        if op == "-":
            return mulc(x, -1) if not (isc(x) and not num(x)) else x
        if op == "!":
            return not_(tobool(x))
        if op == "+":
            return x
        if op == "~":
            if isint(x):
                return C(~cv(x))
            return mk("bnot", x)
        raise Giveup("unary " + op)

    def pointer(self, v):
        """is the value itself a pointer?"""
        return islv(v) or v.op in ("iter", "riter", "nullptr") or v.op == "ite" and (self.pointer(v.a[1]) or self.pointer(v.a[2]))

    def syms_in(self, path):
        """the phis an access path mentions"""
        todo, out = [path], set()
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, T):
                if x.op == "phi":
                    out.add(x)
                todo.extend(x.a)
        return out

    def plain_pointer(self, st, t, x):
        """is x, of type t, a pointer to the object at that place?"""
        if not self.generic or not islv(x) or not clean(t).endswith("*") or "char" in t:
            return False
        v = self.rv(st, x)
        return not self.pointer(v) and v.op != "opq" and not (ttype(v) or "").endswith("*")

    def deref(self, st, x):
        v = self.rv(st, x)
        if self.generic and isinstance(v, T) and v.op == "ite":
            v = st.facts.spec(v)
            if v.op == "ite" and self.pointer(v):
                raise Giveup("one of several pointers")
        if islv(v):
            return v
        if v.op in ("iter", "riter"):
            return self.elem(v)
        if islv(x) and self._isopt(v):
            return LV(x[1], *(x[2] + (("v",),)))
        if self._isopt(v):
            return val(v)
        if islv(x):
            return x
        return mk("opq", "deref", v)

    def _isopt(self, v):
        if v.op in ("some", "none"):
            return True
        if v.op == "ite":
            return self._isopt(v.a[1]) or self._isopt(v.a[2])
        y = ttype(v)
        return bool(y) and y.startswith("std::optional<")

    def e_bin(self, st, n):
        op = n["op"]
        if op in ("&&", "||"):
            a = tobool(self.val(st, n["a"][0]))
            d = st.facts.decide(st.facts.spec(a))
            if op == "&&" and d is False:
                return FALSE
            if op == "||" and d is True:
                return TRUE
            # right operand evaluated under the left one
            old = st.facts
            st.facts = st.facts.add(a, op == "&&")
            before = dict(st.store)
            b = tobool(self.val(st, n["a"][1]))
            st.facts = old
            if any(before.get(k) is not v for k, v in st.store.items() if k in before):
                merged = self.merge(a, (State(st.store, old, st.bits), None), (State(before, old, st.bits), None), old) if op == "&&" \
                    else self.merge(a, (State(before, old, st.bits), None), (State(st.store, old, st.bits), None), old)
                st.store = merged[0].store
            return and_(a, b) if op == "&&" else or_(a, b)
        if op == "=":
            x = self.ev(st, n["a"][1])
            v = self.rv(st, x)
            lv = self.ev(st, n["a"][0])
            if self.plain_pointer(st, n["t"], x) or self.plain_pointer(st, n["t"], lv):
                raise Giveup("a pointer is assigned")
            self.set(st, lv, v)
            return lv
        if op == ",":
            self.ev(st, n["a"][0])
            return self.ev(st, n["a"][1])
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            lv = self.ev(st, n["a"][0])
            a = self.rv(st, lv)
            b = self.val(st, n["a"][1])
            v = self.arith(op[:-1], a, b, n)
            w = WID.get(clean(n["t"]))
            if w and w[0] and w[0] < 32 and clean(n["t"]) != "bool" and op[:-1] not in ("|", "&", "^"):
                v = tr(w[0], w[1], v)
            self.set(st, lv, v)
            return lv
        a = self.val(st, n["a"][0])
        b = self.val(st, n["a"][1])
        return self.arith(op, a, b, n)

    def arith(self, op, a, b, n):
        fl = isfloat(n["t"])
        if op == "+":
            if a.op in ("iter", "riter"):
                return self.itadd(a, b)
            return add(a, b)
        if op == "-":
            if a.op == "iter":
                if b.op == "iter":
                    return sub(a.a[2], b.a[2])
                return mk("iter", a.a[0], a.a[1], sub(a.a[2], b))
            if a.op == "riter":
                return sub(b.a[2], a.a[2]) if b.op == "riter" else self.itadd(a, mulc(b, -1))
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if num(a) and num(b) and cv(b) != 0:
                if fl:
                    return C(cv(a) / cv(b))
                q = abs(cv(a)) // abs(cv(b))
                return C(q if (cv(a) < 0) == (cv(b) < 0) else -q)
            if b is TRUE:
                return a
            if not fl and isint(b):
                k, d = lin_parts(a)
                c = cv(b)
                if c and k % c == 0 and all(v % c == 0 for v in d.values()):
                    return mklin(k // c, {x: v // c for x, v in d.items()})
            return mk("fdiv" if fl else "idiv", a, b)
        if op == "%":
            if isint(a) and isint(b) and cv(b):
                return C(abs(cv(a)) % abs(cv(b)) * (1 if cv(a) >= 0 else -1))
            if isint(b):
                k, d = lin_parts(a)
                c = cv(b)
                if c and k % c == 0 and all(v % c == 0 for v in d.values()):
                    return C(0)
            return mk("mod", a, b)
        if op == "&":
            return bitand(a, b)
        if op == "|":
            return bitor(a, b)
        if op == "^":
            if isint(a) and isint(b):
                return C(cv(a) ^ cv(b))
            return mk("bxor", *sorted((a, b), key=lambda x: x.n))
        if op == "<<":
            return shl(a, b)
        if op == ">>":
            return shr(a, b)
        if a.op == "iter" and b.op == "iter":
            a, b = a.a[2], b.a[2]
        elif a.op == "riter" and b.op == "riter":
            a, b = b.a[2], a.a[2]
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return not_(eq(a, b))
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return le(a, b)
        if op == ">=":
            return le(b, a)
        raise Giveup("operator " + op)

    def e_cond(self, st, n):
        c = tobool(self.val(st, n["a"][0]))
        d = st.facts.decide(st.facts.spec(c))
        if d is not None:
            return self.ev(st, n["a"][1 if d else 2])
        base = st.facts
        sa, sb = st.copy(), st.copy()
        sa.facts, sb.facts = base.add(c), base.add(c, False)
        va = self.val(sa, n["a"][1])
        vb = self.val(sb, n["a"][2])
        m, v = self.merge(c, (sa, va), (sb, vb), base)
        st.store, st.bits = m.store, m.bits
        return v

    def e_idx(self, st, n):
        b = self.ev(st, n["a"][0])
        i = self.val(st, n["a"][1])
        if islv(b):
            return LV(b[1], *(b[2] + (("i", i),)))
        return at(b, i)

    def e_ilist(self, st, n):
        t = clean(n["t"])
        if t in self.P.records:
            fs = self.P.records[t].get("fields", [])
            d = {}
            for f, a in zip(fs, n["a"]):
                d[f["n"]] = self.val(st, a)
            for f in fs[len(n["a"]):]:
                d[f["n"]] = self.default_field(st, f)
            return rec(t, None, d)
        if t in WID or t in self.P.enums:
            return self.val(st, n["a"][0]) if n["a"] else C(0)
        m = re.match(r"std::array<(.+), ?(\d+)>$", t)
        if m:
            a = n["a"]
            if len(a) == 1 and a[0].get("k") == "ilist" and clean(a[0].get("t", "")) != clean(m.group(1)):
                a = a[0]["a"]
            if len(a) == 1 and a[0].get("k") == "lit" and (a[0].get("t") or "").endswith("]"):
                a = []
            if int(m.group(2)) > 4096:
                raise Giveup("large array")
            a = [self.val(st, x) for x in a]
            a += [self.default_elem(st, clean(m.group(1)))] * (int(m.group(2)) - len(a))
            return mkseq([mk("one", x) for x in a])
        return mkseq([mk("one", self.val(st, a)) for a in n["a"]])

    def e_copy(self, st, n):
        return self.val(st, n["a"][0])

    def e_sizeof(self, st, n):
        return C(n["cv"])

    def e_lambda(self, st, n):
        if not self.generic:
            return mk("opq", "lambda", n.get("fk"))
        self.fresh += 1
        key = self.fresh
        caps = {}
        for c in n.get("caps", []):
            lv = None
            for fr in reversed(self.stack):
                if c["id"] in fr.vars:
                    lv = fr.vars[c["id"]]
                    break
            if lv is None:
                raise Giveup("captured variable")
            if not c["ref"] and islv(lv):
                root = ("l", key, c["id"])
                st.store[root] = self.rv(st, lv)
                lv = LV(root)
            caps[c["id"]] = lv
        fn = {"params": n["params"], "body": n["body"], "ret": "auto", "q": "lambda", "fk": "lambda"}
        self.lam[key] = (fn, caps, self.stack[-1].this if self.stack else None)
        return mk("lambda", key)

    def apply(self, st, f, args):
        """call a lambda or function value; returns its result"""
        f = self.rv(st, f)
        if f.op == "lambda":
            fn, caps, this = self.lam[f.a[0]]
            if any(fr.fn is fn for fr in self.stack):
                raise Giveup("recursion")
            self.calls += 1
            fr = Frame(fn, this, None)
            self.fresh += 1
            fr.id = self.fresh
            fr.vars.update(caps)
            for p, a in zip(fn["params"], args):
                self.bind(st, fr, p, a)
            self.stack.append(fr)
            try:
                st2, v = self.collapse(self.exec(st, fn["body"]), fn)
            finally:
                self.stack.pop()
            st.become(st2)
            return v if v is not None else C(0)
        if f.op == "func" and f.a[0] in FUNCTORS:
            return FUNCTORS[f.a[0]](*[self.rv(st, x) for x in args])
        if f.op == "func":
            fn = self.lookup_fn(f.a[0])
            if fn is not None:
                st2, v = self.call(st, fn, None, args)
                st.become(st2)
                return v if v is not None else C(0)
        raise Giveup("call of an unknown function value")

    # -- algorithms over iterator ranges
    def elem(self, it, k=None):
        k = it.a[2] if k is None else k
        if it.op == "riter":
            k = sub(k, C(1))
        return LV(it.a[0], *(it.a[1] + (("i", k),)))

    def search(self, st, a, b, pred):
        """first position of [a, b) where pred holds"""
        if a.op != b.op or a.a[:2] != b.a[:2]:
            raise Giveup("range over two containers")
        self.fresh += 1
        ph = mk("phi", "φ%d.s" % self.fresh, "int")
        stop = tobool(self.rv(st, pred(self.elem(a, ph))))
        if a.op == "iter":
            cond, nx = and_(lt(ph, b.a[2]), not_(stop)), add(ph, C(1))
        else:
            cond, nx = and_(lt(b.a[2], ph), not_(stop)), sub(ph, C(1))
        return mk(a.op, a.a[0], a.a[1], mkmu([ph], [a.a[2]], cond, [nx]))

    def fold(self, st, a, b, init, f, ty):
        """init combined with the elements of [a, b) one by one"""
        self.fresh += 1
        ph = mk("phi", "φ%d.s" % self.fresh, "int")
        ac = mk("phi", "φ%d.a" % self.fresh, ty)
        nx = f(ac, self.rv(st, self.elem(a, ph)), ph)
        fwd = a.op == "iter"
        return mkmu([ac, ph], [init, a.a[2]], lt(ph, b.a[2]) if fwd else lt(b.a[2], ph),
                    [nx, add(ph, C(1 if fwd else -1))])

    def algo(self, st, short, args, vals, n):
        it = lambda x: isinstance(x, T) and x.op in ("iter", "riter")
        if short in ("find_if", "find_if_not", "find") and it(vals[0]):
            def pred(e):
                if short == "find":
                    x = self.rv(st, e)
                    return eq(x, vals[2])
                r = tobool(self.rv(st, self.apply(st, vals[2], [e])))
                return r if short == "find_if" else not_(r)
            return self.search(st, vals[0], vals[1], pred)
        if short in ("any_of", "all_of", "none_of") and it(vals[0]):
            def pred(e):
                r = tobool(self.rv(st, self.apply(st, vals[2], [e])))
                return not_(r) if short == "all_of" else r
            r = self.search(st, vals[0], vals[1], pred)
            x = eq(r.a[2], vals[1].a[2])
            return not_(x) if short == "any_of" else x
        if short in ("max_element", "min_element") and it(vals[0]) and vals[0].op == "iter":
            a, b = vals[:2]

            def better(ac, x, ph):
                y = self.elem(a, ac)
                X = self.elem(a, ph)
                if len(vals) > 2:
                    c = self.apply(st, vals[2], [y, X] if short[:3] == "max" else [X, y])
                else:
                    c = lt(self.rv(st, y), x) if short[:3] == "max" else lt(x, self.rv(st, y))
                return ite(tobool(self.rv(st, c)), ph, ac)
            return mk("iter", a.a[0], a.a[1], self.fold(st, a, b, a.a[2], better, "int"))
        if short == "accumulate" and it(vals[0]):
            ty = clean(n["a"][2].get("t"))
            f = (lambda ac, x, ph: self.rv(st, self.apply(st, vals[3], [ac, x]))) if len(vals) > 3 else (lambda ac, x, ph: add(ac, x))
            return self.fold(st, vals[0], vals[1], vals[2], f, ty)
        if short == "transform" and len(vals) in (4, 5) and it(vals[0]):
            a, b = vals[:2]
            self.fresh += 1
            i = mk("sym", "$i%d" % self.fresh, "int")
            el = [self.elem(a, add(a.a[2], i) if a.op == "iter" else sub(a.a[2], i))]
            if len(vals) == 5:
                el.append(self.elem(vals[2], add(vals[2].a[2], i)))
            x = self.rv(st, self.apply(st, vals[-1], el))
            cnt = sub(b.a[2], a.a[2]) if a.op == "iter" else sub(a.a[2], b.a[2])
            part = mkseq([mkmap(cnt, i, mk("seq", mk("one", x)))])
            self.put(st, vals[-2], part)
            return C(0)
        if short == "copy" and len(vals) == 3 and it(vals[0]):
            self.put(st, vals[2], self.subrange(st, vals[0], vals[1]))
            return C(0)
        if short == "reverse" and it(vals[0]):
            lv = LV(vals[0].a[0], *vals[0].a[1])
            v = self.get(st, lv)
            if vals[0].a[2] is FALSE and vals[1].a[2] is length(v):
                self.set(st, lv, self.rev(v))
            else:
                part = self.slice(st, v, vals[0].a[2], vals[1].a[2])
                self.set(st, lv, mk("fn", "splice", v, vals[0].a[2], self.rev(part)))
            return C(0)
        if short == "fill" and it(vals[0]):
            lv = LV(vals[0].a[0], *vals[0].a[1])
            v = self.get(st, lv)
            cnt = sub(vals[1].a[2], vals[0].a[2])
            if cnt is length(v):
                self.set(st, lv, self.fill(cnt, vals[2]))
            else:
                self.set(st, lv, mk("fn", "splice", v, vals[0].a[2], self.fill(cnt, vals[2])))
            return C(0)
        if short in ("sort", "stable_sort") and it(vals[0]) and vals[0].op == "iter":
            lv = LV(vals[0].a[0], *vals[0].a[1])
            v = self.get(st, lv)
            if not (vals[0].a[2] is FALSE and vals[1].a[2] is length(v)):
                raise Giveup("sort of a part")
            extra = []
            if len(vals) > 2:
                ty = targ(ttype(v) or "") or None
                ph = [mk("mvf", next(_mvf), ty) for _ in range(2)]
                extra = [mklam(ph, tobool(self.rv(st, self.apply(st, vals[2], list(ph)))))]
            self.set(st, lv, mk("fn", "sorted", v, *extra))
            return C(0)
        if short == "for_each" and it(vals[0]):
            raise Giveup("for_each")
        if short in ("next", "prev") and it(vals[0]):
            k = vals[1] if len(vals) > 1 else C(1)
            return self.itadd(vals[0], k if short == "next" else mulc(k, -1))
        if short == "advance" and it(vals[0]):
            self.set(st, args[0], self.itadd(vals[0], vals[1]))
            return C(0)
        if short in ("rbegin", "crbegin") and islv(args[0]):
            return mk("riter", args[0][1], args[0][2], length(vals[0]))
        if short in ("rend", "crend") and islv(args[0]):
            return mk("riter", args[0][1], args[0][2], C(0))
        if short == "make_reverse_iterator" and it(vals[0]):
            a = vals[0]
            return mk("riter" if a.op == "iter" else "iter", a.a[0], a.a[1], a.a[2])
        if short == "make_tuple" and clean(n["t"]).startswith("std::tuple<"):
            return rec(clean(n["t"]), None, {"_%d" % i: y for i, y in enumerate(vals)})
        if short == "make_pair" and len(vals) == 2:
            return rec(clean(n["t"]), None, {"first": vals[0], "second": vals[1]})
        return None

    def itadd(self, it, k):
        return mk(it.op, it.a[0], it.a[1], add(it.a[2], k) if it.op == "iter" else sub(it.a[2], k))

    def rev(self, v):
        if v.op == "seq" and all(g.op == "one" for g in v.a):
            return mkseq(v.a[::-1])
        if v.op == "fn" and v.a[0] == "rev":
            return v.a[1]
        return mk("fn", "rev", v)

    def put(self, st, out, part):
        """write a sequence through an output iterator"""
        if out.op == "backins":
            lv = LV(out.a[0], *out.a[1])
            self.set(st, lv, concat(self.get(st, lv), part))
            return
        if out.op != "iter":
            raise Giveup("output iterator")
        lv = LV(out.a[0], *out.a[1])
        v = self.get(st, lv)
        if out.a[2] is FALSE and length(v) is length(part):
            self.set(st, lv, part)
        else:
            self.set(st, lv, mk("fn", "splice", v, out.a[2], part))

    def e_throw(self, st, n):
        raise Giveup("throw expression")

    def e_other(self, st, n):
        raise Giveup("expression " + str(n.get("cls")))

    def e_new(self, st, n):
        raise Giveup("new")

    def e_delete(self, st, n):
        return C(0)

    def e_null_(self, st, n):
        return C(0)

    # -------------------------------------------------------- constructions
    def e_ctor(self, st, n):
        f, a = n["f"], n["a"]
        t = clean(n["t"])
        if f == "std::optional":
            if not a:
                return NONE
            return self.to_opt(st, self.val(st, a[0]), a[0])
        if f == "std::vector" or self.generic and f in ("std::list", "std::__cxx11::list", "std::deque"):
            return self.mkvector(st, n)
        if f == "std::basic_string":
            if not a:
                return EMPTY
            x = [self.val(st, y) for y in a if not (y.get("k") == "ctor" and y.get("f") == "std::allocator")]
            if len(x) == 1:
                if isc(x[0]) and cv(x[0]) == "":
                    return EMPTY
                return x[0]
            if len(x) == 2 and x[0].op == "iter" and x[1].op == "iter":
                return self.subrange(st, x[0], x[1])
            if self.generic and len(x) == 2 and "*" in (a[0].get("t") or "") and isint(x[1]) and (isseq(x[0]) or x[0].op == "fn" and x[0].a[0] in SEQFN):
                return x[0] if length(x[0]) is x[1] else self.slice(st, x[0], C(0), x[1])
            if len(x) == 2 and "basic_string" in (ttype(x[0]) or "") and not isc(x[0]):
                return x[0] if x[1] is length(x[0]) else self.slice(st, x[0], C(0), x[1])
            if not x:
                return EMPTY
            return mk("fn", "string", *x)
        if f == "std::allocator":
            return C(0)
        if f == "rapidjson::GenericStringRef":
            return self.val(st, a[0])
        if f in ("rapidjson::GenericValue", "rapidjson::GenericDocument"):
            a = [y for y in a if not re.match(r"rapidjson::(MemoryPool|Crt|Std)\w*Allocator", clean(y.get("t") or "")) and y.get("k") not in ("defarg", "null")]
            if not a:
                return jrec(0, C(0))
            x = self.val(st, a[0])
            ty = clean(a[0].get("t", ""))
            if ty == "rapidjson::Type":
                if isint(x) and cv(x) in (0, 3, 4):
                    return jrec(cv(x), C(0))
                raise Giveup("JSON type")
            if f.endswith("Document") and ty != "json":
                return jrec(0, C(0))
            return self.jval(x, ty)
        if f == "std::basic_regex" and self.generic:
            x = [self.val(st, y) for y in a if y.get("k") != "defarg"]
            if len(x) < 1 or any(isc(y) and isinstance(cv(y), int) and cv(y) != 16 for y in x[1:]):
                raise Giveup("regular expression options")
            return mk("fn", "regex", x[0])
        if f == "std::bitset":
            m = re.search(r"std::bitset<(\d+)", n["t"])
            w = int(m.group(1))
            if not a:
                return mk("bitset", w, C(0))
            x = self.val(st, a[0])
            if isseq(x) or x.op == "seq" or "basic_string" in clean(a[0].get("t", "")):
                return mk("bitset", w, self.str2bits(x, w))
            return mk("bitset", w, x)
        if f in ("__gnu_cxx::__normal_iterator", "std::_Bit_const_iterator", "std::_Bit_iterator", "std::_List_const_iterator", "std::_List_iterator", "pugi::xml_named_node_iterator"):
            return self.val(st, a[0]) if a else mk("opq", "iter")
        if f == "std::pair":
            x = [self.val(st, y) for y in a]
            if not x and t.startswith("std::pair<"):
                return self.default_value(st, t)
            if len(x) == 2 and t.startswith("std::pair<"):
                return rec(t, None, {"first": x[0], "second": x[1]})
            if len(x) == 1 and t.startswith("std::pair<"):
                return x[0]
            return mk("pair", *x)
        if f.startswith("Iir::") and self.generic and not a:
            return rec(t, None, {"fs": C(0), "f": C(0), "past": EMPTY})
        if f == "std::complex" and self.generic and t == COMPLEX:
            x = [self.val(st, y) for y in a if y.get("k") != "defarg"]
            if len(x) == 1 and ttype(x[0]) == COMPLEX:
                return x[0]
            return self.complex(*(x + [C(0)] * 2)[:2])
        if f in FUNCTORS and self.generic and not a:
            return mk("func", f)
        if f == "std::tuple" and t.startswith("std::tuple<"):
            x = [self.val(st, y) for y in a]
            if len(x) == len(targs(t)) and not (len(x) == 1 and ttype(x[0]) == t):
                return rec(t, None, {"_%d" % i: y for i, y in enumerate(x)})
            if len(x) == 1:
                return x[0]
        if f == "std::initializer_list":
            return self.val(st, a[0]) if a else EMPTY
        if self.generic and f in ("std::basic_ifstream", "std::basic_ofstream") and len(a) <= 2:
            if a:
                self.fopen(st, self.val(st, a[0]), f.endswith("ofstream"), self.val(st, a[1]) if len(a) > 1 else None)
            return mk("fn", "file")
        if self.generic and f == "std::basic_istream" and len(a) == 1 and self.input is None:
            st.store[("io", "file.pos")] = C(0)     # over a buffer in memory
            return mk("fn", "file")
        if f == "std::basic_ifstream" or f == "std::basic_istream":
            return mk("istream", self.input, C(0)) if self.input is not None else mk("opq", "istream")
        if f == "std::basic_ofstream":
            return mk("ostream", EMPTY)
        if t in self.P.records:
            args = [self.ev(st, x) for x in a]
            v = self.construct(st, t, n["fk"], args, n)
            if v is not None:
                return v
        h = self.intr.get("ctor:" + f)
        if h:
            return h(self, st, n)
        return mk("fn", "ctor:" + f, *[self.rv(st, self.ev(st, x)) for x in a])

    def str2bits(self, s, w):
        """std::bitset<w>(string of '0'/'1')"""
        g = ones(s)
        if g and len(g) == w:
            bits = {}
            for j, c in enumerate(g):
                bits[w - 1 - j] = eq(c, C(ord("1")))
            x0 = bits[0]
            if x0.op == "bit" and all(bits[k] is mk("bit", x0.a[0], k) for k in range(w)):
                return x0.a[0]
            return mkbits(bits)
        if g and all(isint(c) for c in g):
            g = g[:w]
            return C(sum((cv(c) == 49) << (len(g) - 1 - j) for j, c in enumerate(g)))
        return mk("fn", "str2bits", s, C(w))

    def to_opt(self, st, x, n=None):
        if islv(x):
            x = self.rv(st, x)
        t = clean((n or {}).get("t", "") or "")
        if x is NONE or "nullopt" in t:
            return NONE
        if t.startswith("std::optional<") or self._isopt(x):
            return x
        return some(x)

    def mkvector(self, st, n):
        a = [x for x in n["a"] if not (x.get("k") == "ctor" and x.get("f") == "std::allocator")]
        if not a:
            return EMPTY
        x = [self.val(st, y) for y in a]
        if n.get("li") and a[0].get("k") == "ctor" and a[0].get("f") == "std::initializer_list" or a[0].get("k") == "ilist":
            return x[0]
        if len(x) >= 2 and x[0].op == "iter" and x[1].op == "iter":
            return self.subrange(st, x[0], x[1])
        if len(x) == 1:
            y = clean(a[0].get("t", ""))
            if y.startswith("std::vector") or y.startswith("std::initializer_list") or isseq(x[0]):
                return x[0]
            e = targ(n["t"])
            return self.fill(x[0], self.default_elem(st, e))
        if len(x) == 2:
            return self.fill(x[0], x[1])
        raise Giveup("vector constructor")

    def default_elem(self, st, e):
        if e in WID:
            return C(0)
        return self.default_value(st, e)

    def fill(self, n, v):
        if isint(n) and cv(n) <= 4096:
            return mkseq([mk("one", v)] * max(0, cv(n)))
        m = mkmap(n, mk("sym", "$fill", "int"), mk("seq", mk("one", v)))
        return mkseq((m,))

    def subrange(self, st, a, b):
        if a.a[:2] != b.a[:2] or a.op != b.op:
            raise Giveup("range over two containers")
        if a.op == "riter":
            return self.rev(self.slice(st, self.get(st, LV(a.a[0], *a.a[1])), b.a[2], a.a[2]))
        s = self.get(st, LV(a.a[0], *a.a[1]))
        return self.slice(st, s, a.a[2], b.a[2])

    def slice(self, st, s, i, j):
        n = length(s)
        if i is FALSE and j is n:
            return s
        if not self.generic and s.op == "seq" and any(g.op in ("e", "if", "run", "end", "rec") or (g.op == "map") for g in s.a) or (s, i) in st.bits:
            ri = self.rest_at(st, s, i)
            if ri is None:
                raise Giveup("slice at a position that is not a field boundary")
            ri = lead(st.facts, ri)
            if j is n:
                return ri
            # prefix of length j-i
            d = sub(j, i)
            gs = list(segs(ri))
            out = []
            while gs and d is not FALSE:
                if gs[0].op == "if":
                    gs = list(segs(lead(st.facts, mkseq(gs))))
                l = length(mk("seq", gs[0]))
                if isint(d) and isint(l) and cv(l) > cv(d) and gs[0].op == "e":
                    hi, lo = self._split(gs[0], cv(d))
                    out.append(hi)
                    d = C(0)
                    break
                nd = sub(d, l)
                if isint(nd) and cv(nd) < 0:
                    raise Giveup("slice end inside a field")
                out.append(gs.pop(0))
                d = nd
            if d is not FALSE:
                raise Giveup("slice end unknown")
            return mkseq(out)
        if isint(i) and isint(j) and s.op == "seq" and all(g.op == "one" for g in s.a):
            return mkseq(s.a[cv(i):cv(j)])
        return mk("fn", "slice", s, i, j)

    # -------------------------------------------------------- calls
    def e_call(self, st, n):
        q = n.get("f")
        if q is None:
            x = self.ev(st, n.get("fe")) if n.get("fe") else None
            raise Giveup("indirect call")
        h = self.intr.get(q)
        if h:
            r = h(self, st, n)
            if r is not NotImplemented:
                return r
        fn = self.lookup_fn(n["fk"])
        if fn is not None:
            return self.invoke(st, fn, None, n["a"], n)
        return self.extern(st, n, q)

    def extern(self, st, n, q):
        short = q.split("::")[-1]
        args = [self.ev(st, a) for a in n["a"]]
        vals = [self.rv(st, a) for a in args]
        if short in ("move", "forward") and len(args) == 1:
            return args[0]
        if short in ("pow",) and all(num(v) for v in vals):
            return C(float(cv(vals[0])) ** float(cv(vals[1])))
        if short == "get" and q == "std::get":
            t = ttype(vals[0]) or ""
            f = ["first", "second"] if t.startswith("std::pair<") else ["_%d" % i for i in range(len(targs(t)))] if t.startswith("std::tuple<") else None
            if f and int(n["ta"][0]) < len(f):
                x = self.ev(st, n["a"][0])
                k = f[int(n["ta"][0])]
                return LV(x[1], *(x[2] + (("f", k),))) if islv(x) else fld(vals[0], k)
            return mk("fn", "get" + str(n["ta"][0]), vals[0])
        if self.generic:
            if q.startswith("drwav_"):
                return self.drwav(st, q, n, args, vals)
            if short in ("abs", "norm", "real", "imag") and len(args) == 1 and ttype(vals[0]) == COMPLEX:
                x, y = fld(vals[0], "re"), fld(vals[0], "im")
                z = add(mul(x, x), mul(y, y))
                return x if short == "real" else y if short == "imag" else z if short == "norm" else mk("fn", "sqrt", z)
            if short == "memcpy" and len(args) == 3 and islv(args[0]):
                self.bytes_to(st, args[0], n["a"][0], self.bytes_of(st, args[1], n["a"][1], vals[2]), vals[2])
                return C(0)
            r = self.algo(st, short, args, vals, n)
            if r is not None:
                return r
            if q in ("std::regex_search", "std::regex_match"):
                rx = [v for v in vals if isinstance(v, T) and v.op == "fn" and v.a[0] == "regex"]
                if len(rx) != 1 or not isinstance(vals[0], T) or vals[0].op == "iter":
                    raise Giveup("regular expression search")
                r = rx[0] if q.endswith("search") else mk("fn", "regex", rx[0].a[1], C("full"))
                if len(vals) > 2 and islv(args[1]) and vals[1] is not rx[0]:
                    self.set(st, args[1], mk("fn", "re:match", r, vals[0]))
                return mk("fn", "re:search", r, vals[0])
            if q in ("atoi", "std::atoi", "std::stoi") and len(vals) == 1 or q == "std::stoi" and cv(vals[-1]) == 10:
                return mk("fn", "atoi" if q.endswith("atoi") else "stoi", vals[0])
        if short in ("begin", "end", "cbegin", "cend") and islv(args[0]):
            return mk("iter", args[0][1], args[0][2], C(0) if "begin" in short else length(vals[0]))
        if short == "distance":
            return sub(vals[1].a[2], vals[0].a[2]) if vals[0].op == "iter" else sub(vals[0].a[2], vals[1].a[2])
        if short == "copy" and len(vals) == 3 and vals[0].op == "iter":
            seg = self.subrange(st, vals[0], vals[1])
            if vals[2].op == "backins":
                lv = LV(vals[2].a[0], *vals[2].a[1])
                self.set(st, lv, concat(self.get(st, lv), seg))
                return C(0)
        if short == "back_inserter":
            return mk("backins", args[0][1], args[0][2])
        if short in ("swap",):
            self.set(st, args[0], vals[1])
            self.set(st, args[1], vals[0])
            return C(0)
        if short in ("stoul", "stoi", "stol", "stoull") and len(vals) == 3 and isint(vals[2]) and cv(vals[2]) == 2:
            g = ones(vals[0])
            if g:
                return mkbits({len(g) - 1 - j: eq(x, C(ord("1"))) for j, x in enumerate(g)})
            return mk("fn", "stoul2", vals[0])
        if short == "to_string":
            return mk("fn", "to_string", vals[0])
        # unknown external function: result is a pure function of its inputs; reference
        # arguments that are not const are clobbered
        for a, v, an in zip(args, vals, n["a"]):
            pass
        if short in ("clamp", "max", "min", "abs", "floor", "ceil", "round", "sqrt", "sin", "cos", "log2", "log10",
                     "exp", "fabs", "log", "pow", "fmod", "tan", "atan", "isdigit", "stoi", "stoul", "ctime",
                     "localtime", "time", "isnan"):
            return mk("fn", short, *vals)
        pure = tuple(v for v in vals if isinstance(v, T))
        for j, a in enumerate(args):
            if islv(a):
                self.set(st, a, mk("opq", "clobber", q, str(n.get("l"))) if not self.generic else mk("fn", "out%d:%s" % (j, q), *pure))
        return mk("fn", q, *pure)

    def invoke(self, st, fn, this, argn, n):
        args = [self.ev(st, a) if True else None for a in argn]
        # by-value class arguments are copied by bind
        if any(f.fn is fn for f in self.stack):
            return self.recursive(st, fn, this, args, n)
        st2, v = self.call(st, fn, this, args, n)
        st.become(st2)
        if v is None:
            return C(0)
        return v

    def recursive(self, st, fn, this, args, n):
        """induction hypothesis for a (mutually) recursive codec function"""
        h = self.intr.get("recursive")
        if h:
            return h(self, st, fn, this, args, n)
        if self.generic:
            st2, v = self.boundary(st, fn, this, args)
            return C(0) if v is None else v
        raise Giveup("recursion")

    def e_mcall(self, st, n):
        q, m = n.get("f"), n.get("m")
        if q is None:
            raise Giveup("unresolved member call")
        fn = self.lookup_fn(n["fk"])
        h = self.intr.get(q)
        if h:
            r = h(self, st, n)
            if r is not NotImplemented:
                return r
        if self.generic and n.get("o") and re.match(r"(const )?std::basic_[io]f?stream<", n["o"].get("t") or ""):
            r = self.m_file(st, n, m.split("<")[0].strip())
            if r is not None:
                return r
        if self.generic and q.startswith("Iir::"):
            return self.iir(st, q, m, self.ev(st, n["o"]), [self.val(st, x) for x in n["a"]])
        if self.generic and q in ("std::complex<double>::real", "std::complex<double>::imag"):
            return fld(self.rv(st, self.ev(st, n["o"])), "re" if q.endswith("real") else "im")
        if fn is not None:
            o = self.ev(st, n["o"])
            if not islv(o):
                v = self.rv(st, o)
                if isinstance(v, T) and v.op in ("iter", "riter"):
                    o = self.elem(v)
                else:
                    self.fresh += 1
                    root = ("t", self.fresh)
                    st.store[root] = v
                    o = LV(root)
            else:
                v = self.rv(st, o)
                if islv(v):
                    o = v
                elif isinstance(v, T) and v.op in ("iter", "riter"):
                    o = self.elem(v)
            return self.invoke(st, fn, o, n["a"], n)
        if q.startswith("std::optional<"):
            return self.m_optional(st, n, m)
        if q.startswith("std::vector<") or q.startswith("std::basic_string<") or q.startswith("std::vector::") or \
                q.startswith("std::basic_string::") or q.startswith("std::array<") or self.generic and re.match(r"std::(__cxx11::)?(list|deque)<", q):
            return self.m_vector(st, n, m)
        if self.generic and q.startswith("pugi::xml_object_range"):
            return self.m_vector(st, n, m)
        if self.generic and q.startswith("pugi::xml_document::load_file"):
            st.store[("io", "file.in path")] = self.val(st, n["a"][0])
            self.set(st, self.ev(st, n["o"]), mk("sym", "$xml", "pugi::xml_document"))
            return mk("sym", "$parse", "bool")
        if q.startswith("std::map<"):
            return self.m_map(st, n, m)
        if q.startswith("std::bitset<") or q.startswith("std::bitset"):
            return self.m_bitset(st, n, m)
        if q.startswith("rapidjson::"):
            return self.m_json(st, n, m)
        if m and m.startswith("operator bool") or m and m.startswith("operator "):
            o = self.ev(st, n["o"])
            v = self.rv(st, o)
            if isinstance(v, T) and v.op == "sref":
                return v.a[0]
            return o
        lv = self.ev(st, n["o"]) if n.get("o") else None
        o = self.rv(st, lv) if lv is not None else None
        args = [self.val(st, a) for a in n["a"]]
        ins = [x for x in [o] + args if isinstance(x, T)]
        if self.generic and o is not None and o.op == "fn" and o.a[0] == "re:match":
            if m == "empty":
                return not_(mk("fn", "re:search", *o.a[1:]))
            if m == "size":
                return mk("fn", "re:size", *o.a[1:])
            if m == "str":
                return mk("fn", "re:group", *o.a[1:], *(args[:1] or [C(0)]))
            raise Giveup("match results: " + m)
        if self.generic and "sub_match" in q:
            if m in ("str",):
                return o
            raise Giveup("sub match: " + m)
        if self.generic and not n.get("cm") and lv is not None and islv(lv) and not re.search(r"stream\b|stream<|streambuf|filebuf|ios_base|::begin$|::end$", q):
            # a member function of unknown meaning may change its object
            self.set(st, lv, mk("fn", "out:" + q, *ins))
        return mk("fn", q, *ins)

    @staticmethod
    def complex(re_, im):
        return rec(COMPLEX, None, {"re": re_, "im": im})

    def cparts(self, v, node):
        if "complex" in clean(node.get("t", "")):
            return fld(v, "re"), fld(v, "im")
        return v, C(0)

    # a recursive filter (Iir): what comes out is a function of its parameters and of what went in since the last reset
    def iir(self, st, q, m, o, a):
        if not islv(o):
            raise Giveup("filter")
        v = self.get(st, o)
        t = ttype(v) or ""
        if not t.startswith("Iir::"):
            raise Giveup("filter")
        past = fld(v, "past")
        if m == "setup" and len(a) == 2:
            self.set(st, o, rec(t, v, {"fs": a[0], "f": a[1], "past": EMPTY}))
            return C(0)
        if m == "reset" and not a:
            self.set(st, o, rec(t, v, {"past": EMPTY}))
            return C(0)
        if m == "filter" and len(a) == 1:
            past = concat(past, mk("seq", mk("one", a[0])))
            self.set(st, o, rec(t, v, {"past": past}))
            return mk("fn", "iir:" + t, fld(v, "fs"), fld(v, "f"), past)
        raise Giveup("call of " + q)

    # WAV files (dr_wav): the header and the samples of the file read are inputs, those of the file written outputs
    WAV = mk("sym", "file:wav", "drwav")
    WDATA = mk("sym", "file:wav.samples", "std::vector<float>")

    def drwav(self, st, q, n, args, vals):
        if q == "drwav_uninit":
            return C(0)
        if q == "drwav_init_file":
            self.set(st, args[0], self.WAV)
            st.store[("io", "wav.in path")] = vals[1]
            st.store[("io", "wav.pos")] = C(0)
            return self.ROPEN
        if q == "drwav_read_pcm_frames_f32":
            if vals[0] is not self.WAV or not islv(args[2]):
                raise Giveup("reading from an unknown WAV file")
            pos = st.store[("io", "wav.pos")]
            k = mul(vals[1], fld(self.WAV, "channels"))
            part = mk("fn", "padslice", self.WDATA, pos, k)
            v = self.get(st, args[2])
            self.set(st, args[2], part if length(v) is k else mk("fn", "splice", v, C(0), part))
            st.store[("io", "wav.pos")] = add(pos, k)
            return vals[1]
        if q == "drwav_init_file_write":
            f = self.rv(st, vals[2]) if islv(vals[2]) else vals[2]
            if ttype(f) != "drwav_data_format":
                raise Giveup("format of the WAV file")
            st.store[("io", "wav.out path")] = vals[1]
            st.store[("io", "wav.out format")] = f
            st.store[("io", "wav.out")] = EMPTY
            self.set(st, args[0], mk("fn", "wavfile"))
            return self.WOPEN
        if q == "drwav_write_pcm_frames":
            if vals[0] is not mk("fn", "wavfile"):
                raise Giveup("writing to an unknown WAV file")
            v = vals[2]
            if not (isseq(v) or v.op in ("mu", "upd", "fn", "sym")):
                raise Giveup("samples written")
            old = st.store[("io", "wav.out")]
            st.store[("io", "wav.out")] = concat(old, v)
            st.store[("io", "wav.frames")] = add(st.store.get(("io", "wav.frames"), C(0)), vals[1])
            return ite(self.WOK, vals[1], C(0))
        raise Giveup("call of " + q)

    # files: the bytes read are an input, with the read position in a cell; the bytes written are an output
    FBYTES = mk("sym", "file:bytes", "std::vector<char>")
    ROPEN, WOPEN, WOK = (mk("sym", "file:" + x, "bool") for x in ("opened", "created", "written"))

    FOLD = mk("sym", "file:before", "std::vector<char>")      # what the file held before it was opened for writing
    APP, ATE, IN, TRUNC = 1, 2, 8, 32       # std::ios_base::openmode of this library

    def fopen(self, st, path, out, mode=None):
        m = cv(mode) if mode is not None and isint(mode) else 0 if mode is None else None
        if m is None:
            raise Giveup("open mode")
        if out:
            if m & self.IN and not m & (self.TRUNC | self.APP):
                raise Giveup("a file opened for reading and writing")
            st.store[("io", "file.out")] = self.FOLD if m & self.APP else EMPTY
            st.store[("io", "file.out path")] = path
        else:
            st.store[("io", "file.pos")] = length(self.FBYTES) if m & self.ATE else C(0)
            st.store[("io", "file.in path")] = path

    def fgood(self, st, out):
        if out:
            return self.WOPEN if st.store.get(("io", "file.out"), EMPTY) in (EMPTY, self.FOLD) else and_(self.WOPEN, self.WOK)
        return and_(self.ROPEN, not_(lt(length(self.FBYTES), st.store.get(("io", "file.pos"), C(0)))))

    def m_file(self, st, n, m):
        """a member function of a file stream; None: no meaning given"""
        out = "ofstream" in (n["o"].get("t") or "") or "ostream" in (n["o"].get("t") or "")
        a = n["a"]
        if m == "close":
            return C(0)
        if m in ("good", "operator bool"):
            return self.fgood(st, out)
        if m in ("fail", "bad", "operator!"):
            return not_(self.fgood(st, out))
        if m == "is_open":
            return self.WOPEN if out else self.ROPEN
        if m == "open":
            self.fopen(st, self.val(st, a[0]), out, self.val(st, a[1]) if len(a) > 1 else None)
            return C(0)
        lv = LV(("io", "file.out" if out else "file.pos"))
        if not out:
            pos = st.store.get(("io", "file.pos"), C(0))
            if m == "tellg":
                return pos
            if m == "eof":
                return lt(length(self.FBYTES), pos)
            if m == "seekg":
                x = [self.val(st, y) for y in a]
                w = cv(x[1]) if len(x) > 1 and isint(x[1]) else 0 if len(x) == 1 else None
                if w is None:
                    raise Giveup("seek")
                self.set(st, lv, x[0] if w == 0 else add(pos if w == 1 else length(self.FBYTES), x[0]))
                return C(0)
            if m in ("read", "ignore"):
                k = self.val(st, a[-1]) if a else C(1)
                if m == "read":
                    dst = self.ev(st, a[0])
                    if not islv(dst):
                        raise Giveup("read into an unknown place")
                    part = mk("fn", "padslice", self.FBYTES, pos, k)
                    self.bytes_to(st, dst, a[0], part, k)
                self.set(st, lv, add(pos, k))
                return C(0)
            if m == "get" and not a:
                self.set(st, lv, add(pos, C(1)))
                return at(mk("fn", "padslice", self.FBYTES, pos, C(1)), C(0))
            return None
        if m in ("write", "put"):
            src = self.ev(st, a[0])
            if m == "put":
                part = mk("seq", mk("one", self.rv(st, src)))
            else:
                part = self.bytes_of(st, src, a[0], self.val(st, a[1]))
            self.set(st, lv, concat(st.store.get(("io", "file.out"), EMPTY), part))
            return C(0)
        if m == "flush":
            return C(0)
        return None

    @staticmethod
    def pointee(n):
        """the expression and the type a pointer argument points to"""
        while n.get("k") in ("cast", "paren") and n.get("a"):
            n = n["a"][0]
        if n.get("k") == "un" and n.get("op") == "&":
            return clean(n["a"][0].get("t", ""))
        if n.get("k") == "mcall" and n.get("m") in ("data", "c_str"):
            return "bytes" if re.match(r"(const )?(unsigned |signed )?char\b", n.get("t") or "") else clean(n["o"].get("t", ""))
        return clean(re.sub(r"\*\s*(const)?$", "", n.get("t", "")))

    BYTES = re.compile(r"^bytes$|std::array<(unsigned |signed )?(char|unsigned char|signed char), ?\d+>$|std::vector<(unsigned )?char>$|(unsigned )?char ?\[|std::basic_string<char")

    def bytes_of(self, st, src, node, k):
        v = self.rv(st, src)
        t = self.pointee(node)
        if self.BYTES.search(t):
            if isc(v) and isinstance(cv(v), str):
                v = mkseq([mk("one", C(ord(x))) for x in cv(v)])
            return v if length(v) is k else mk("fn", "padslice", v, C(0), k)
        if not isint(k) or not 0 < cv(k) <= 16 or isseq(v) or v.op == "rec":
            raise Giveup("bytes of " + t)
        return mkseq([mk("one", mk("fn", "byte", C("float" if t in ("float", "double") else "int"), C(cv(k)), v, C(j))) for j in range(cv(k))])

    def bytes_to(self, st, dst, node, part, k):
        t = self.pointee(node)
        if self.BYTES.search(t):
            v = self.get(st, dst)
            self.set(st, dst, part if length(v) is k else mk("fn", "splice", v, C(0), part))
            return
        if not isint(k) or not 0 < cv(k) <= 16:
            raise Giveup("bytes to " + t)
        bs = [at(part, C(j)) for j in range(cv(k))]
        kind = "float" if t in ("float", "double") else "int"
        b = bs[0]
        if b.op == "fn" and b.a[0] == "byte" and b.a[1] is C(kind) and b.a[2] is k and all(x is mk("fn", "byte", b.a[1], k, b.a[3], C(j)) for j, x in enumerate(bs)):
            self.set(st, dst, b.a[3])
            return
        sg = t in WID and WID[t][1]
        self.set(st, dst, mk("fn", "frombytes", C(t if kind == "float" else "int"), C(1 if sg else 0), *bs))

    # JSON values: under construction they are records (kind, elements or members, scalar); read values are
    # symbols with membership, kind and conversion operations
    def jval(self, x, t):
        t = clean(t or "")
        if t == "json" or ttype(x) == "json":
            return x
        if isc(x) and isinstance(cv(x), str) or "basic_string" in t or "StringRef" in t or "char *" in t or "char[" in t or t == "jstring":
            return jrec(5, x)
        if t == "bool":
            return jrec(1, x)
        if t in ("float", "double"):
            return jrec(7, x)
        if t in WID or t in self.P.enums or t in ("long", "unsigned long", "long long", "unsigned long long"):
            return jrec(6, x)
        raise Giveup("JSON value of type %s" % t)

    def jkind(self, x, kind):
        """IsObject() etc. as a term"""
        k = fld(x, "k")
        if isint(k):
            want = {"Null": (0,), "Bool": (1,), "Object": (3,), "Array": (4,), "String": (5,), "Number": (6, 7)}.get(kind)
            if want:
                return TRUE if cv(k) in want else FALSE
        if kind in ("True", "False"):
            raise Giveup("JSON " + kind)
        return mk("fn", "js:is", C(kind), x)

    def jget(self, x, kind):
        if x.op == "rec" and isint(fld(x, "k")) and cv(fld(x, "k")) in (1, 5, 6, 7):
            return fld(x, "v")
        return mk("fn", "js:get", C(kind), x)

    def m_json(self, st, n, m):
        o = self.ev(st, n["o"]) if n.get("o") else None
        x = self.rv(st, o) if o is not None else None
        a = n["a"]
        ot = clean(n["o"].get("t", "")) if n.get("o") else ""
        if isinstance(x, T) and x.op == "iter" and ot != "json":
            raise Giveup("JSON iterator")
        if m == "GetAllocator":
            return C(0)
        if isinstance(x, T) and (ot == "json" or ttype(x) == "json"):
            if m in ("AddMember", "PushBack"):
                i = 1 if m == "AddMember" else 0
                av = self.ev(st, a[i])
                v = self.jval(self.rv(st, av), a[i].get("t"))
                if i:
                    nm = self.val(st, a[0])
                    if ttype(nm) == "json":
                        nm = fld(nm, "v")
                    v = rec("jpair", None, {"n": nm, "v": v})
                if islv(av) and clean(a[i].get("t", "")) == "json":
                    self.set(st, av, jrec(0, C(0)))         # moved from
                self.set(st, o, rec("json", x, {"l": concat(fld(x, "l"), mk("seq", mk("one", v)))}))
                return o
            if m in ("SetObject", "SetArray", "SetNull"):
                self.set(st, o, jrec({"SetObject": 3, "SetArray": 4, "SetNull": 0}[m], C(0)))
                return o
            if m in ("SetString", "SetInt", "SetUint", "SetFloat", "SetDouble", "SetBool", "SetInt64", "SetUint64"):
                self.set(st, o, jrec({"SetString": 5, "SetBool": 1, "SetFloat": 7, "SetDouble": 7}.get(m, 6), self.val(st, a[0])))
                return o
            if m == "CopyFrom":
                self.set(st, o, self.val(st, a[0]))
                return o
            if m in ("Reserve", "MemberReserve"):
                return o
            if m == "HasMember":
                nm = self.val(st, a[0])
                if ttype(nm) == "json":
                    nm = self.jget(nm, "String")
                return mk("fn", "js:has", nm, x)
            if m in ("operator[]", "GetMember"):
                return self.jindex(st, x, a[0])
            if m.startswith("Is"):
                return self.jkind(x, m[2:])
            if m in ("GetObject", "GetArray", "Move"):
                return o
            if m in ("Size", "Capacity", "MemberCount"):
                return length(fld(x, "l"))
            if m in ("Empty", "ObjectEmpty"):
                return eq(length(fld(x, "l")), C(0))
            if m == "GetStringLength":
                return length(self.jget(x, "String"))
            if m.startswith("Get") and m[3:] in JSGET:
                return self.jget(x, m[3:])
            if m in ("Begin", "End", "begin", "end"):
                if not islv(o):
                    self.fresh += 1
                    o = LV(("t", self.fresh))
                    st.store[o[1]] = x
                return mk("iter", o[1], o[2] + (("f", "l"),), C(0) if m in ("Begin", "begin") else length(fld(x, "l")))
            if m == "Accept":
                self.io_out(st, "out", x)
                return mk("sym", "$accept", "bool")
            if m in ("ParseStream", "Parse", "ParseInsitu"):
                self.set(st, o, mk("sym", "$json", "json"))
                return o
            if m == "HasParseError":
                return mk("sym", "$parse", "bool")
            if m == "FindMember":
                return mk("fn", "js:find", self.val(st, a[0]), x)
            if m == "MemberEnd":
                return mk("fn", "js:end", x)
        return mk("fn", "rapidjson::" + m, *[y for y in [x] + [self.val(st, z) for z in a] if isinstance(y, T)])

    def jindex(self, st, x, node):
        i = self.val(st, node)
        if ttype(i) == "json":
            i = self.jget(i, "String")
        if isc(i) and isinstance(cv(i), str) or "basic_string" in (ttype(i) or ""):
            return mk("fn", "js:mem", i, x)
        return at(fld(x, "l"), i)

    def io_out(self, st, name, v):
        """what leaves the program"""
        old = st.store.get(("io", name))
        st.store[("io", name)] = v if old is None or old is NONE else mk("fn", "then", old, v)

    def m_optional(self, st, n, m):
        o = self.ev(st, n["o"])
        v = self.rv(st, o)
        if m in ("has_value", "operator bool"):
            return has(v)
        if m in ("value", "operator*"):
            if islv(o) and v.op != "ite":
                return LV(o[1], *(o[2] + (("v",),)))
            return val(st.facts.spec(v))
        if m == "value_or":
            d = self.val(st, n["a"][0])
            if isc(d) and cv(d) == "":
                d = EMPTY
            return ite(has(v), val(v), d)
        if m == "reset":
            self.set(st, o, NONE)
            return C(0)
        if m == "emplace":
            self.set(st, o, some(self.val(st, n["a"][0])))
            return C(0)
        raise Giveup("optional::" + m)

    def m_map(self, st, n, m):
        o = self.val(st, n["o"])
        a = [self.val(st, x) for x in n["a"]]
        if o.op == "table" and m in ("at", "operator[]"):
            return self.table_at(o.a[0], a[0])
        if o.op == "table" and m in ("count", "contains"):
            return mk("intable", o.a[0], a[0])
        return mk("fn", "map::" + m, o, *a)

    def table_at(self, q, key):
        if isc(key):
            for k, v in self.tables[q]:
                if k == cv(key):
                    return C(v)
            return mk("opq", "missing-key", q, key)
        if key.op == "lookup" and self.inv.get(q) == key.a[0]:
            return key.a[1]
        if key.op == "ite":
            return ite(key.a[0], self.table_at(q, key.a[1]), self.table_at(q, key.a[2]))
        return mk("lookup", q, key)

    def m_bitset(self, st, n, m):
        o = self.ev(st, n["o"])
        v = self.rv(st, o)
        if bsw(v) is None:
            if m == "operator bool":
                return v if isbool(v) else not_(eq(v, C(0)))
            return mk("fn", "bitset::" + m, v)
        w, x = bsw(v), self.bsval(v)
        if m == "to_string":
            return mkseq([mk("e", w, x)]) if False else mk("bitstr", w, x)
        if m in ("to_ulong", "to_ullong"):
            return x if (asbits(x) is not None) else tr(w, False, x)
        if m == "test":
            return self.bit_of(x, self.val(st, n["a"][0]))
        raise Giveup("bitset::" + m)

    def bsval(self, v):
        if v.op == "bitset":
            return v.a[1]
        if v.op == "ite":
            return ite(v.a[0], self.bsval(v.a[1]), self.bsval(v.a[2]))
        raise Giveup("bit set")

    def bit_of(self, x, k):
        b = asbits(x)
        if isint(k):
            if b is not None:
                return b.get(cv(k), FALSE)
            return mk("bit", strip_tr_bit(x, cv(k)), cv(k))
        return mk("bit", x, k)

    def m_vector(self, st, n, m):
        o = self.ev(st, n["o"])
        v = self.rv(st, o)
        if isinstance(v, T) and v.op in ("iter", "riter") and islv(o):
            o = self.elem(v)
            v = self.rv(st, o)
        a = n["a"]
        if m in ("size", "length"):
            return length(st.facts.spec(v)) if v.op == "ite" else length(v)
        if m == "empty":
            return eq(length(v), C(0))
        if m in ("at", "operator[]"):
            i = self.val(st, a[0])
            if islv(o):
                return LV(o[1], *(o[2] + (("i", i),)))
            return at(v, i)
        if m == "front":
            return LV(o[1], *(o[2] + (("i", C(0)),))) if islv(o) else at(v, C(0))
        if m == "back":
            i = sub(length(v), C(1))
            return LV(o[1], *(o[2] + (("i", i),))) if islv(o) else at(v, i)
        if m in ("begin", "cbegin"):
            if not islv(o):
                self.fresh += 1
                o = LV(("t", self.fresh))
                st.store[o[1]] = v
            return mk("iter", o[1], o[2], C(0))
        if m in ("end", "cend"):
            if not islv(o):
                self.fresh += 1
                o = LV(("t", self.fresh))
                st.store[o[1]] = v
            return mk("iter", o[1], o[2], length(v))
        if m in ("rbegin", "crbegin", "rend", "crend"):
            if not islv(o):
                self.fresh += 1
                o = LV(("t", self.fresh))
                st.store[o[1]] = v
            return mk("riter", o[1], o[2], length(v) if "begin" in m else C(0))
        if m in ("push_back", "emplace_back"):
            if m == "emplace_back" and (len(a) > 1 or (len(a) == 1 and targ(n["o"].get("t", "")) in self.P.records and ttype(self.val(st, a[0])) != clean(targ(n["o"].get("t", ""))))):
                e = clean(targ(n["o"].get("t", "")))
                args = [self.ev(st, y) for y in a]
                if e.startswith(("std::tuple<", "std::pair<")) and len(_types["records"].get(e) or ()) == len(a):
                    x = rec(e, None, dict(zip(_types["records"].get(e), [self.rv(st, y) for y in args])))
                    self.set(st, o, concat(v, mk("seq", mk("one", x))))
                    return LV(o[1], *(o[2] + (("i", length(v)),))) if islv(o) else C(0)
                fs = [f for f in self.P.by_q.get(e + "::" + e.split("::")[-1], []) if len(f["params"]) == len(a)]
                x = self.construct(st, e, fs[0]["fk"], args, None) if len(fs) == 1 else None
                if x is None:
                    raise Giveup("emplace_back")
                self.set(st, o, concat(v, mk("seq", mk("one", x))))
                return LV(o[1], *(o[2] + (("i", length(v)),))) if islv(o) else C(0)
            x = self.val(st, a[0]) if a else self.default_elem(st, targ(n["o"].get("t", "")))
            if self.boolvec(n["o"]):
                self.set(st, o, concat(v, mk("seq", emit(1, tobool(x)))))
            else:
                self.set(st, o, concat(v, mk("seq", mk("one", x))))
            return C(0)
        if m == "pop_back":
            g = segs(v)
            if g and g[-1].op == "one":
                self.set(st, o, mkseq(g[:-1]))
                return C(0)
            if self.generic:
                self.set(st, o, mk("fn", "slice", v, C(0), sub(length(v), C(1))))
                return C(0)
            raise Giveup("pop_back")
        if m == "clear":
            self.set(st, o, EMPTY)
            return C(0)
        if m in ("reserve", "shrink_to_fit"):
            return C(0)
        if m in ("resize", "assign"):
            k = self.val(st, a[0])
            if v is EMPTY or m == "assign":
                e = targ(n["o"].get("t", ""))
                x = self.val(st, a[1]) if len(a) > 1 else self.default_elem(st, e)
                self.set(st, o, self.fill(k, x))
                return C(0)
            if length(v) is k:
                return C(0)
            if self.generic:
                e = targ(n["o"].get("t", ""))
                x = self.val(st, a[1]) if len(a) > 1 else self.default_elem(st, e)
                self.set(st, o, mk("fn", "resize", v, k, x))
                return C(0)
            raise Giveup("resize of a non-empty vector")
        if m in ("c_str", "data"):
            return o
        if m == "insert":
            pos = self.val(st, a[0])
            vals = [self.val(st, x) for x in a[1:]]
            if pos.op != "iter":
                raise Giveup("insert position")
            if len(vals) == 2 and vals[0].op == "iter":
                part = self.subrange(st, vals[0], vals[1])
            elif len(vals) == 1:
                part = mk("seq", mk("one", vals[0]) if not self.boolvec(n["o"]) else emit(1, tobool(vals[0])))
            elif len(vals) == 2:
                part = self.fill(vals[0], vals[1])
            else:
                raise Giveup("insert form")
            i = pos.a[2]
            if i is length(v):
                self.set(st, o, concat(v, part))
            elif i is FALSE:
                self.set(st, o, concat(part, v))
            else:
                self.set(st, o, concat(concat(self.slice(st, v, C(0), i), part), self.slice(st, v, i, length(v))))
            return pos
        if m == "erase":
            pos = [self.val(st, x) for x in a]
            if len(pos) == 2 and pos[0].op == "iter":
                i, j = pos[0].a[2], pos[1].a[2]
                if j is length(v):
                    self.set(st, o, self.slice(st, v, C(0), i))
                elif i is FALSE:
                    self.set(st, o, self.slice(st, v, j, length(v)))
                else:
                    self.set(st, o, mk("fn", "erase", v, i, j))
                return C(0)
            if self.generic and pos and pos[0].op != "iter" and "basic_string" in (n["o"].get("t") or ""):
                if len(pos) == 1 or "npos" in str(pos[1]):
                    self.set(st, o, self.slice(st, v, C(0), pos[0]))
                else:
                    self.set(st, o, mk("fn", "erase", v, pos[0], add(pos[0], pos[1])))
                return o
            self.set(st, o, mk("fn", "erase", v, *[p.a[2] if p.op == "iter" else p for p in pos]))
            return pos[0]
        if m == "flip":
            g = segs(v)
            if all(x.op in ("e", "one") for x in g):
                nv = mkseq([emit(1, not_(bit_of(x.a[1], x.a[0] - 1 - k))) for x in g if x.op == "e" for k in range(x.a[0])]) \
                    if all(x.op == "e" for x in g) else mkseq([mk("one", not_(tobool(x.a[0]))) for x in g])
                self.set(st, o, nv)
            else:
                self.set(st, o, mk("flip", v))
            return C(0)
        if m in ("append",):
            x = [self.val(st, y) for y in a]
            if len(x) == 2 and re.match(r"(unsigned |const )*(long|int|short)", clean(a[0].get("t", ""))):
                x = [self.fill(*x)]
            elif len(x) == 2 and x[0].op == "iter" and x[1].op == "iter":
                x = [self.subrange(st, *x)]
            elif len(x) != 1:
                raise Giveup("append form")
            self.set(st, o, concat(v, x[0]))
            return o
        if m == "substr":
            x = [self.val(st, y) for y in a]
            if isint(length(v)) and x and all(isint(y) for y in x) and v.op == "seq" and all(g.op == "one" for g in v.a):
                p = cv(x[0])
                return mkseq(v.a[p:p + cv(x[1])] if len(x) > 1 else v.a[p:])
            return mk("fn", "substr", v, *x)
        if m == "fill":
            self.set(st, o, self.fill(length(v), self.val(st, a[0])))
            return C(0)
        if m == "push_front":
            self.set(st, o, concat(mk("seq", mk("one", self.val(st, a[0]))), v))
            return C(0)
        if m == "pop_front":
            self.set(st, o, self.slice(st, v, C(1), length(v)))
            return C(0)
        if m == "swap":
            q = self.ev(st, a[0])
            if not islv(q) or not islv(o):
                raise Giveup("swap")
            x = self.rv(st, q)
            self.set(st, q, v)
            self.set(st, o, x)
            return C(0)
        if m not in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "compare", "max_size", "capacity", "count"):
            raise Giveup("sequence method " + m)
        return mk("fn", m, v, *[self.val(st, x) for x in a])

    def boolvec(self, on):
        return re.match(r"(const )?(std::)?(__cxx1998::)?vector<bool\b", on.get("t") or "") is not None

    def e_opcall(self, st, n):
        op, f, a = n["op"], n.get("f") or "", n["a"]
        if f.startswith("rapidjson::") or a and clean(a[0].get("t", "")) == "json":
            x = self.rv(st, self.ev(st, a[0]))
            if op == "[]":
                return self.jindex(st, x, a[1])
            if op in ("==", "!="):
                y = self.val(st, a[1])
                if x.op == "fn" and x.a[0] in ("js:find", "js:end"):
                    x, y = (x, y) if x.a[0] == "js:find" else (y, x)
                    if x.a[0] == "js:find" and y.op == "fn" and y.a[0] == "js:end":
                        r = mk("fn", "js:has", x.a[1], x.a[2])
                        return r if op == "!=" else not_(r)
                    raise Giveup("JSON iterators")
                if isc(y) and isinstance(cv(y), str) or "basic_string" in (ttype(y) or ""):
                    r = and_(self.jkind(x, "String"), eq(self.jget(x, "String"), y))
                    return r if op == "==" else not_(r)
                raise Giveup("JSON comparison")
            if op == "->" and x.op == "fn" and x.a[0] == "js:find":
                return rec("jpair", None, {"n": x.a[1], "v": mk("fn", "js:mem", x.a[1], x.a[2])})
        h = self.intr.get("opcall:" + f)
        if h:
            return h(self, st, n)
        if self.generic and f in ("std::operator*", "std::operator+", "std::operator-", "std::operator/") and clean(n["t"]) == COMPLEX and len(a) == 2:
            (r1, i1), (r2, i2) = [self.cparts(self.val(st, y), y) for y in a]
            if op in "+-":
                g = add if op == "+" else sub
                return self.complex(g(r1, r2), g(i1, i2))
            if op == "/":
                if i2 is not C(0):
                    raise Giveup("complex quotient")
                return self.complex(fdiv(r1, r2), fdiv(i1, r2))
            return self.complex(sub(mul(r1, r2), mul(i1, i2)), add(mul(r1, i2), mul(i1, r2)))
        if self.generic and f in ("std::complex<double>::operator*=", "std::complex<double>::operator/=") and "complex" not in clean(a[1].get("t", "")):
            lv = self.ev(st, a[0])
            k = self.val(st, a[1])
            x, y = self.cparts(self.rv(st, lv), a[0])
            g = mul if "*=" in f else fdiv
            if not islv(lv):
                raise Giveup("assignment through a temporary")
            self.set(st, lv, self.complex(g(x, k), g(y, k)))
            return lv
        if self.generic and op == "!" and re.match(r"(const )?std::basic_[io]f?stream<", a[0].get("t") or ""):
            return not_(self.fgood(st, "ostream" in a[0]["t"] or "ofstream" in a[0]["t"]))
        fn = self.lookup_fn(n.get("fk"))
        if fn is not None and not fn.get("defaulted") and fn.get("cls"):
            o = self.ev(st, a[0])
            if not islv(o):
                raise Giveup("operator on temporary")
            return self.invoke(st, fn, o, a[1:], n)
        if op in ("<<", ">>"):
            ty = clean(a[0].get("t", ""))
            if "ostream" in ty or "stringstream" in ty:
                return self.ev(st, a[0]) if a[0]["k"] != "opcall" else mk("opq", "ostream")
        if op == "=":
            v = self.ev(st, a[1])
            lv = self.ev(st, a[0])
            v = self.rv(st, v)
            ty = clean(a[0].get("t", ""))
            if ty.startswith("std::optional<"):
                v = self.to_opt(st, v, a[1])
            if isc(v) and cv(v) == "":
                v = EMPTY
            if not islv(lv):
                raise Giveup("assignment through a temporary")
            self.set(st, lv, v)
            return lv
        if op == "[]":
            o = self.ev(st, a[0])
            v = self.rv(st, o)
            i = self.val(st, a[1])
            if v.op == "fn" and v.a[0] == "re:match":
                return mk("fn", "re:group", v.a[1], v.a[2], i)
            if "std::map" in clean(a[0].get("t", "")):
                if v.op == "table":
                    return self.table_at(v.a[0], i)
                raise Giveup("map[]")
            if v.op == "bitset" or bsw(v) is not None:
                if islv(o):
                    return LV(o[1], *(o[2] + (("b", i),)))
                return self.bit_of(self.bsval(v), i)
            if self.boolvec(a[0]) and not (n.get("store")):
                # single-bit read; writes to elements go through the LV
                if v.op == "seq" or (v, i) in st.bits:
                    if islv(o) and n.get("lhs"):
                        return LV(o[1], *(o[2] + (("i", i),)))
                    return mk("bitref", o, i) if False else LV(o[1], *(o[2] + (("i", i),))) if islv(o) else at(v, i)
            if islv(o):
                return LV(o[1], *(o[2] + (("i", i),)))
            return at(v, i)
        if op == "+=":
            lv = self.ev(st, a[0])
            x = self.val(st, a[1])
            v = self.rv(st, lv)
            if "basic_string" in clean(a[0].get("t", "")):
                t1 = clean(a[1].get("t", ""))
                if t1 == "char" or t1 in WID:
                    self.set(st, lv, concat(v, mk("seq", mk("one", x))))
                elif isc(x) and isinstance(cv(x), str):
                    self.set(st, lv, concat(v, mk("seq", *[mk("one", C(ord(ch))) for ch in cv(x)])))
                elif x.op == "ite" and all(isc(y) and isinstance(cv(y), str) and len(cv(y)) == 1 for y in x.a[1:]):
                    self.set(st, lv, concat(v, mk("seq", mk("one", ite(x.a[0], C(ord(cv(x.a[1]))), C(ord(cv(x.a[2]))))))))
                else:
                    self.set(st, lv, concat(v, x))
                return lv
            if v.op in ("iter", "riter"):
                self.set(st, lv, self.itadd(v, x))
                return lv
            raise Giveup("operator+=")
        if op == "-=" and self.rv(st, self.ev(st, a[0])).op in ("iter", "riter"):
            lv = self.ev(st, a[0])
            self.set(st, lv, self.itadd(self.rv(st, lv), mulc(self.val(st, a[1]), -1)))
            return lv
        if op in ("++", "--"):
            lv = self.ev(st, a[0])
            v = self.rv(st, lv)
            if v.op in ("iter", "riter"):
                nv = self.itadd(v, C(1 if op == "++" else -1))
                self.set(st, lv, nv)
                return v if len(a) > 1 else lv
            raise Giveup("operator++")
        if op == "*" or op == "->":
            if len(a) == 1:
                x = self.ev(st, a[0])
                return self.deref(st, x)
        if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-"):
            x, y = self.val(st, a[0]), self.val(st, a[1])
            tx = clean(a[0].get("t", ""))
            if tx.startswith("std::optional<") or clean(a[1].get("t", "")).startswith("std::optional<"):
                if op in ("==", "!="):
                    ox = x if self._isopt(x) else some(x)
                    oy = y if self._isopt(y) else some(y)
                    if ox is NONE or oy is NONE:
                        r = not_(has(oy if ox is NONE else ox))
                    elif oy.op == "some":
                        r = and_(has(ox), eq(val(ox), oy.a[0]))
                    elif ox.op == "some":
                        r = and_(has(oy), eq(val(oy), ox.a[0]))
                    else:
                        r = eq(ox, oy)
                    return r if op == "==" else not_(r)
                if self._isopt(x) and not self._isopt(y):
                    return and_(has(x), self.arith(op, val(x), y, {"t": "bool"}))
            if "basic_string" in tx or "basic_string" in clean(a[1].get("t", "")):
                if op == "+":
                    return mk("fn", "strcat", x, y)
                if op in ("==", "!="):
                    x = EMPTY if isc(x) and cv(x) == "" else x
                    y = EMPTY if isc(y) and cv(y) == "" else y
                    if y is EMPTY or x is EMPTY:
                        r = eq(length(x if y is EMPTY else y), C(0))
                    else:
                        r = eq(x, y)
                    return r if op == "==" else not_(r)
            return self.arith(op, x, y, {"t": n["t"]})
        if op == "!":
            x = self.val(st, a[0])
            return mk("fn", "not:" + f, x) if not isbool(x) else not_(x)
        if op == "()":
            if self.generic:
                return self.apply(st, self.ev(st, a[0]), [self.ev(st, x) for x in a[1:]])
            raise Giveup("call operator")
        if op in ("|=", "&="):
            lv = self.ev(st, a[0])
            v, x = self.rv(st, lv), self.val(st, a[1])
            if self.generic and "bitset" in clean(a[0].get("t", "")):
                r = bitor(self.bsval(v), self.bsval(x)) if op == "|=" else bitand(self.bsval(v), self.bsval(x))
                w = int(re.search(r"bitset<(\d+)", a[0]["t"]).group(1))
                self.set(st, lv, mk("bitset", w, r))
                return lv
            if v.op == "bitset" and x.op == "bitset":
                r = bitor(v.a[1], x.a[1]) if op == "|=" else bitand(v.a[1], x.a[1])
                self.set(st, lv, mk("bitset", v.a[0], r))
                return lv
        if op in ("|", "&"):
            x, y = self.val(st, a[0]), self.val(st, a[1])
            if x.op == "bitset" and y.op == "bitset":
                return mk("bitset", x.a[0], bitor(x.a[1], y.a[1]) if op == "|" else bitand(x.a[1], y.a[1]))
            return mk("fn", op, x, y)
        args = [self.ev(st, x) for x in a]
        raise Giveup("operator %s of %s" % (op, f))


def lead(facts, rest):
    """resolve the conditionals at the front of a bit sequence"""
    gs = list(segs(rest))
    ch = False
    while gs and gs[0].op == "if":
        d = facts.decide(facts.spec(gs[0].a[0]))
        if d is None:
            break
        gs = list(segs(gs[0].a[1 if d else 2])) + gs[1:]
        ch = True
    if gs and gs[0].op not in ("if", "map", "seq"):
        x = facts.spec(gs[0])
        if x is not gs[0]:
            gs[0], ch = x, True
    return mkseq(gs) if ch else rest


def lin_size(t):
    return len(t.a[1]) if t.op == "lin" else 1


def domain_fits(x, w):
    d = domain(x)
    return d is not None and all(0 <= v < (1 << w) for v in d)


from terms import _types, _mvf  # noqa: E402

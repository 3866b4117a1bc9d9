"""Whole-function summaries: what each public operation returns and leaves behind, as terms over its inputs, compared
with the reviewed ones."""
import mmap, os, pickle, sys, time, traceback, warnings, signal, json
import front, interp
from interp import *
import compare as CMP
import separate as S

warnings.filterwarnings("ignore", category=DeprecationWarning)
JOBS = int(os.environ.get("HX_JOBS", "8"))


def sigof(f):
    return [clean(p["t"]) for p in f["params"]]


def tshort(t):
    t = re.sub(r", *std::(allocator|char_traits)<[^<>]*(<[^<>]*>)?[^<>]*>", "", t)
    t = re.sub(r"[\w]+::", "", t).replace("basic_string<char>", "string")
    return t if len(t) < 40 else re.sub(r"<.*", "", t)


_rev = []


def reviewed():
    """signatures of every function of the reviewed tree"""
    if not _rev:
        p = os.path.join(CMP.SPEC, "functions.json")
        _rev.append(set(json.load(open(p))) if os.path.exists(p) else set())
    return _rev[0]


def pick(P, e, sig=None, cls=None):
    """the function an entry 'q' or 'q/arity' or 'q(type,...)' names"""
    q, ar, ts = e, None, None
    if "(" in e:
        q, ts = e.split("(", 1)
        ts = [x.strip() for x in ts.rstrip(")").split(";")] if ts != ")" else []
    elif re.search(r"/\d+$", e):
        q, ar = e.rsplit("/", 1)
        ar = int(ar)
    q = "haptics::" + q
    fs = [f for f in P.by_q.get(q, []) if f.get("body")]
    fs = list({f["fk"]: f for f in fs}.values())
    if not fs:
        # a member moved to a base class or made free keeps its last name (a function that was reviewed as itself is not it)
        own = reviewed()
        last = q.split("::")[-1]
        fs = [f for n, l in P.by_q.items() if n.split("::")[-1] == last and n.split("::")[:2] == q.split("::")[:2] for f in l if f.get("body")]
        fs = list({f["fk"]: f for f in fs if f["q"] + "(" + ",".join(sigof(f)) + ")" not in own}.values())
    if ts is not None:
        g = [f for f in fs if [tshort(x) for x in sigof(f)] == ts]
        fs = g or [f for f in fs if len(f["params"]) == len(ts)]
    if ar is not None:
        fs = [f for f in fs if len(f["params"]) == ar]
    if sig is not None and len(fs) > 1:
        fs = [f for f in fs if sigof(f) == sig] or [f for f in fs if len(f["params"]) == len(sig)]
    return fs


def opaque(t, seen=None):
    seen = set() if seen is None else seen
    todo, out = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == "opq" and not str(x.a[0]).startswith(("noreturn", "uninit")):
                out.add(str(x.a[0]))
            todo.extend(x.a)
    return out


def summary(P, f, types=None, cls=None, setup=None, budget=200, inputs=None, mod=None):
    """{output name: term} of a function over the symbols this, p0, p1, ..."""
    I = interp.Interp(P)
    I.generic = True
    I.modular = re.compile(mod) if mod else None
    I.deadline = time.time() + budget
    st = State()
    args = []
    this = None
    if setup:
        setup(I, st)
    for k, p in enumerate(f["params"]):
        t = types[k] if types and k < len(types) else clean(p["t"])
        s = (inputs or {}).get("p%d" % k)
        if s is None:
            s = mk("sym", "p%d" % k, t)
        if interp.ISTREAM.match(t):
            st.store[("io", "file.pos")] = mk("sym", "p%d" % k, "int")
        if isref(p["t"]) or pointee(p["t"]):
            if pointee(p["t"]) and s.op == "sym":
                s = mk("sym", "p%d" % k, pointee(p["t"]))
            st.store[("in", k)] = s
            args.append(LV(("in", k)))
        else:
            args.append(s)
    if f.get("ctor"):
        return {"ret": I.rv(st, I.construct(st, f["cls"], f["fk"], args, None))}, I
    if f.get("cls") and not f.get("static"):
        s = (inputs or {}).get("this")
        if s is None:
            s = mk("sym", "this", cls or f["cls"])
        st.store[("in", "this")] = s
        this = LV(("in", "this"))
    st2, v = I.call(st, f, this, args)
    out = {}
    if v is not None:
        if islv(v):
            r = v[1]
            if isinstance(r, tuple) and r and r[0] == "in":
                out["ret at"] = mk("fn", "place", C(str(r[1])), *[x if isinstance(x, T) else C(str(x)) for p in v[2] for x in p])
        v = I.rv(st2, v)
        if I.pointer(v):
            v, at_ = points(I, st2, v)
            if at_ is not None:
                out["ret at"] = at_
        out["ret"] = v
    for k, p in enumerate(f["params"]):
        if (isref(p["t"]) or pointee(p["t"])) and not const_(p["t"]):
            out["p%d" % k] = st2.store[("io", "file.pos") if interp.ISTREAM.match(clean(p["t"])) else ("in", k)]
    if this is not None and not f.get("const"):
        out["this"] = st2.store[("in", "this")]
    for k, x in st2.store.items():
        if isinstance(k, tuple) and k and k[0] == "io" and k[1] not in ("file.pos", "wav.pos"):
            out[str(k[1])] = x
    if I.aborts:
        out["throws"] = or_(*[c for c, q in I.aborts]) if len(I.aborts) > 1 else I.aborts[0][0]
    return out, I


def pointee(t):
    """the class a pointer parameter points to"""
    t = clean(t)
    x = clean(t[:-1]) if t and t.endswith("*") else ""
    return x if x.startswith(("std::vector<", "haptics::", "pugi::")) and not x.endswith("*") else None


def points(I, st, v):
    """the value behind a returned pointer and the place it points to"""
    if islv(v):
        return I.rv(st, v), None
    if v.op == "ite":
        (a, p), (b, q) = points(I, st, v.a[1]), points(I, st, v.a[2])
        return ite(v.a[0], a, b), None if p is None or q is None else ite(v.a[0], p, q)
    if v.op == "iter":
        r = v.a[0]
        p = mk("fn", "place", C(str(r[1]) if isinstance(r, tuple) and r[0] == "in" else "local"), *[x if isinstance(x, T) else C(str(x)) for p in v.a[1] for x in p], v.a[2])
        return I.rv(st, I.elem(v)), p
    return v, mk("fn", "place", C("none"))


def const_(t):
    return t.strip().startswith("const ") or t.strip().endswith(" const &")


def fields_of(P, terms):
    """the record types the terms speak about"""
    names = set()
    for t in terms:
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, str):
                for m in re.findall(r"haptics::[\w:]+", x):
                    names.add(m)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                todo.extend(x.a)
    out = {}
    todo = sorted(names)
    while todo:
        n = todo.pop()
        if n in out or n not in P.records:
            continue
        out[n] = [[f["n"], clean(f["t"])] for f in P.records[n].get("fields", [])]
        for _, t in out[n]:
            todo += re.findall(r"haptics::[\w:]+", t)
    return out


def renames(P, recs):
    """private field names that changed while the class kept its fields' order and types"""
    m, bad = {}, set()
    cur = {f["n"] for r in P.records.values() for f in r.get("fields", [])}
    for c, fs in recs.items():
        now = [[f["n"], clean(f["t"])] for f in P.records.get(c, {}).get("fields", [])]
        if now == fs or len(now) != len(fs):
            for n, _ in fs:
                bad.add(n)
            continue
        same_t = [t for _, t in now] == [t for _, t in fs]
        if sorted(map(tuple, now)) == sorted(map(tuple, fs)) or not same_t:
            continue
        for (a, _), (b, _) in zip(fs, now):
            if a != b:
                if a in m and m[a] != b:
                    bad.add(a)
                m[a] = b
    return {a: b for a, b in m.items() if a not in bad and a not in cur}


def ren(d, m):
    def go(x):
        if isinstance(x, str):
            return m.get(x, x)
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items()}
        return x
    return go(d) if m else d


class Entry:
    def __init__(self, name, setup=None, outs=None, budget=200, inputs=None, pre=None, n=None, drop=None, gen=None, mod=None, attrs=None):
        self.name, self.setup, self.outs, self.budget = name, setup, outs, budget
        self.inputs, self.pre, self.n, self.drop, self.gen, self.mod, self.attrs = inputs, pre, n, drop, gen, mod, attrs

    def view(self, out):
        """of an object whose other attributes nobody sees: the attributes named"""
        if self.attrs and "this" in out:
            x = out.pop("this")
            for path in self.attrs:
                y = x
                for a in path.split("."):
                    y = fld(y, a)
                out["this." + path] = y


PRIVATE = re.compile(r"::(IOStream|IOBinary|IOBinaryBands)::")    # helpers that carry one construct of the format each


def expand(P, entries):
    out = []
    named = {e if isinstance(e, str) else e.name for e in entries}
    for e in entries:
        if isinstance(e, str):
            e = Entry(e)
        if "*" in e.name:
            c, ex = (e.name + "!").split("*", 1)
            c, ex = "haptics::" + c, ex.strip("!")
            for q in sorted(P.by_q):
                if q.startswith(c) and "::" not in q[len(c):] and not (ex and re.search(ex, q[len(c):])):
                    for f in {f["fk"]: f for f in P.by_q[q] if f.get("body") and not f.get("implicit")}.values():
                        if f.get("implicit") or f.get("defaulted") or "operator" in q or "~" in q or (f.get("access") not in (0, 3, None) and not PRIVATE.search(q)):
                            continue
                        k = q[len("haptics::"):] + "(" + ";".join(tshort(x) for x in sigof(f)) + ")"
                        if k in named:
                            continue
                        x = Entry(k, e.setup, e.outs, e.budget, e.inputs, e.pre, e.n, e.drop, e.gen, e.mod, e.attrs)
                        out.append(x)
        else:
            out.append(e)
    return out


def fork_map(f, items, limit):
    """f(item) in a process of its own each, JOBS at a time; the result or an exception text"""
    res = [None] * len(items)
    run, todo = {}, list(range(len(items)))[::-1]
    while run or todo:
        while todo and len(run) < JOBS:
            k = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    try:
                        x = ("ok", f(items[k]))
                    except (Giveup, Mismatch) as e:
                        x = ("giveup", str(e))
                    except RecursionError:
                        x = ("giveup", "nesting too deep")
                    except MemoryError:
                        x = ("giveup", "memory")
                    except BaseException as e:
                        x = ("error", traceback.format_exc()[-300:].replace("\n", " | "))
                    b = pickle.dumps(x)
                    with os.fdopen(w, "wb") as o:
                        o.write(b)
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (k, pid, time.time(), [])
        import select
        rs, _, _ = select.select(list(run), [], [], 1.0)
        for r in rs:
            b = os.read(r, 1 << 20)
            k, pid, t, buf = run[r]
            if b:
                buf.append(b)
            else:
                os.close(r)
                os.waitpid(pid, 0)
                del run[r]
                try:
                    res[k] = pickle.loads(b"".join(buf))
                except Exception:
                    res[k] = ("giveup", "the analysis process ended early")
        for r in list(run):
            k, pid, t, buf = run[r]
            if time.time() - t > limit:
                os.kill(pid, signal.SIGKILL)
                os.close(r)
                os.waitpid(pid, 0)
                del run[r]
                res[k] = ("giveup", "time limit")
    return res


SPECS = ("P04", "P05", "P07", "P08", "P09", "P10", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20")


def signatures(P):
    return {f["q"] + "(" + ",".join(sigof(f)) + ")" for l in P.by_q.values() for f in l if f["q"].startswith("haptics::")}


class Col:
    """collects obligations in a worker"""
    def __init__(self):
        self.l = []

    def ob(self, key, ok, msg="", where=""):
        self.l.append((key, ok, msg, where))

    def undec(self, key, msg):
        self.l.append((key, None, msg, ""))


def freeze(P, pid, entries):
    ents = expand(P, entries)

    def one(e):
        fs = pick(P, e.name)
        if len(fs) != 1:
            raise Giveup("%d candidates" % len(fs))
        f = fs[0]
        out, I = summary(P, f, None, None, e.setup, e.budget, e.inputs(P) if e.inputs else None, e.mod)
        e.view(out)
        if e.outs:
            out = {k: v for k, v in out.items() if k in e.outs}
        if e.drop:
            out = {k: v for k, v in out.items() if k not in e.drop}
        return {"sig": sigof(f), "cls": f.get("cls"), "outs": {k: S.dump(v) for k, v in out.items()},
                "recs": fields_of(P, out.values())}, {k: sorted(opaque(v)) for k, v in out.items() if opaque(v)}
    res = fork_map(one, ents, 600)
    d, recs = {}, {}
    for e, r in zip(ents, res):
        if r[0] != "ok":
            print("NOT FROZEN", e.name, r[1])
            continue
        x, opq = r[1]
        if opq:
            print("opaque", e.name, opq)
        recs.update(x.pop("recs"))
        d[e.name] = x
    os.makedirs(CMP.SPEC, exist_ok=True)
    with open(os.path.join(CMP.SPEC, "functions.json"), "w") as f:
        json.dump(sorted(signatures(P)), f, indent=0)
        f.write("\n")
    with open(os.path.join(CMP.SPEC, pid + ".json"), "w") as f:
        json.dump({"fns": d, "records": recs}, f, separators=(",", ":"), sort_keys=True)
        f.write("\n")
    print("%s: %d functions, %d bytes" % (pid, len(d), os.path.getsize(os.path.join(CMP.SPEC, pid + ".json"))))


def check(c, pid, entries, limit=400):
    P = c.P
    entries = [Entry(x) if isinstance(x, str) else x for x in entries]
    ents = {e.name: e for e in entries if "*" not in e.name}
    star = [e for e in entries if "*" in e.name]
    spec = json.load(open(os.path.join(CMP.SPEC, pid + ".json")))
    mp = renames(P, spec["records"])
    S.KNOWN.clear()
    S.KNOWN.update(signatures(P) & set(json.load(open(os.path.join(CMP.SPEC, "functions.json")))))
    thorough = c.tier == "thorough"
    S.BODY.clear()
    for q in [x for x in SPECS if x != pid] + [pid]:
        p = os.path.join(CMP.SPEC, q + ".json")
        if os.path.exists(p):
            for n, sp in (spec if q == pid else json.load(open(p)))["fns"].items():
                S.BODY["haptics::" + n.split("(")[0] + "(" + ",".join(sp["sig"]) + ")"] = (ren(sp["outs"], mp), len(sp["sig"]))

    def entry(name):
        if name in ents:
            return ents[name]
        for s in star:
            if name.startswith(s.name.split("*")[0]):
                return Entry(name, s.setup, s.outs, s.budget, s.inputs, s.pre, s.n, s.drop, s.gen, s.mod, s.attrs)
        return Entry(name)

    start = time.time()
    flag = mmap.mmap(-1, 1)
    flag[0] = 0

    def budget(th):
        t = time.time() - start
        if flag[0] and not th:
            return 4
        return (120 if th else 25) if t < 200 else 8 if t < 400 else 2

    def one(name):
        e = entry(name)
        col = Col()
        sp = spec["fns"][name]
        fs = pick(P, name, sp["sig"], sp["cls"])
        if len(fs) != 1:
            return "missing", [], []
        f = fs[0]
        short = name.split("(")[0]
        where = "%s:%s %s" % (f["file"], f["line"], short)
        if len(f["params"]) != len(sp["sig"]):
            return "missing", [], []
        outs, I = summary(P, f, sp["sig"], sp["cls"] if sp["cls"] in P.records else None, e.setup, e.budget, e.inputs(P) if e.inputs else None, e.mod)
        e.view(outs)
        sd = ren(sp["outs"], mp)
        pre = e.pre(P) if e.pre else ()
        S.GEN.clear()
        wants = {o: S.load(d) for o, d in sd.items()}
        if any(outs.get(o) is not w for o, w in wants.items()):
            S.GEN.update((e.gen(name) if callable(e.gen) else e.gen) or {})
        for o, want in sorted(wants.items()):
            key = name + " " + o
            if o not in outs:
                if o in ("ret at", "throws"):
                    continue
                if o == "this" and f.get("const"):
                    outs[o] = mk("sym", "this", sp["cls"])
                else:
                    col.undec(key, "no such output")
                    continue
            now = outs[o]
            t0 = time.time()
            CMP.compare(col, key, now, want, pre, c.seed, (e.n or 1500) * (6 if thorough else 1), where,
                        "of %s becomes" % short if o != "ret" else "is the value returned by %s:" % short,
                        lambda: budget(thorough))
        for o in outs:
            if o not in sd and o not in ("ret at", "throws") and not e.outs:
                s = outs[o]
                if s is not mk("sym", o, sp["cls"] if o == "this" else None):
                    pass
        if any(x[1] is False for x in col.l):
            flag[0] = 1
        return "ok", col.l, sorted(v["q"] for v in I.visited.values())
    names = sorted(spec["fns"])
    res = fork_map(one, names, limit)
    miss = 0
    seen = set()
    for n, r in zip(names, res):
        if r[0] == "ok" and r[1][0] == "ok":
            for ob in r[1][1]:
                c.ob(*ob)
            seen.update(r[1][2])
            c.count("functions_summarised")
        elif r[0] == "ok":
            miss += 1
            c.undec(n, "no such function any more")
        else:
            c.undec(n, "outside the abstraction: " + r[1] if r[0] == "giveup" else r[1])
    c.count("functions_analysed_interprocedurally", len(seen))
    if miss * 2 > len(names):
        raise front.AnalysisBroken("%d of %d analysed functions do not exist any more" % (miss, len(names)))

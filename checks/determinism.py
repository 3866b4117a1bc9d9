"""Determinism: an effect system over the call graph, definite assignment, and comparators.

Effects of a function: what its result may depend on besides its inputs. The effects of every reviewed function,
including those of the helpers only it or other unreviewed code calls, must be among its reviewed ones."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import front, interp, terms
import compare as CMP
from separate import SCALAR

SPEC = os.path.join(CMP.SPEC, "P11.json")
SOURCES = [
    ("clock", re.compile(r"^(std::)?(time|clock|gettimeofday|clock_gettime|timespec_get|ftime|localtime|gmtime|ctime|asctime)$|^std::chrono::.*::now$")),
    ("random", re.compile(r"^(std::)?(rand|random|rand_r|drand48|lrand48|mrand48|arc4random\w*|getrandom|srand|srandom)$|^std::random_device")),
    ("environment", re.compile(r"^(std::)?(getenv|secure_getenv|getpid|getppid|gethostname|getcwd|getlogin|setlocale|localeconv|tmpnam|mkstemp)$"
                               r"|^std::filesystem::(current_path|temp_directory_path|last_write_time)|^std::this_thread::get_id")),
    ("schedule", re.compile(r"^std::(thread|jthread|async|atomic)(<|::|$)")),
]
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
PTRKEY = re.compile(r"std::(__\w+::)?(unordered_)?(multi)?(map|set)<[^<>,]*\*\s*[,>]|std::unordered_(multi)?(map|set)<[^<>,]*\*")
OVER = ("clear", "assign", "fill")


def sig(f):
    return f["q"] + "(" + ",".join(front_clean(p["t"]) for p in f["params"]) + ")" + (" const" if f.get("const") else "")


def front_clean(t):
    return re.sub(r"\bconst\b|&", "", t or "").replace(" ", "")


def walk(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(reversed(list(y.values())))
        elif isinstance(y, list):
            st.extend(reversed(y))


def root(n):
    """the variable an access path starts at"""
    while isinstance(n, dict):
        k = n.get("k")
        if k == "ref":
            return n
        if k == "mcall" and n.get("m") in ("operator[]", "at", "front", "back", "data", "begin", "end", "value", "get"):
            n = n.get("o")
        elif k == "opcall" and n.get("op") in ("[]", "*", "->"):
            n = n["a"][0]
        elif k in ("mem", "idx", "cast") or k == "un" and n.get("op") in ("*", "&"):
            n = n["a"][0]
        else:
            return None
    return None


class Effects:
    def __init__(self, P):
        self.P = P
        self.fns = {fk: f for fk, f in P.functions.items() if f.get("body") is not None}
        self.norm = {front._nk(k): k for k in self.fns}
        self.undec = []
        self.direct, self.calls = {}, {}
        self.shared = {}             # variable -> [functions that change it]
        self.reads = {}              # function -> {variable: line}
        self.statics = 0
        glob = {}
        for v in P.vars.values():
            if not v.get("const") and not v.get("cx") and "const" not in (v.get("t") or "").split("*")[-1].split("[")[0].split("<")[0]:
                glob[v["id"]] = v["n"]
                glob[v["n"]] = v["n"]
        self.glob = glob
        for fk, f in self.fns.items():
            self.one(fk, f)
        # state kept between calls: read somewhere, changed somewhere
        for fk, rs in self.reads.items():
            for v, l in rs.items():
                if self.shared.get(v):
                    self.direct[fk].setdefault("history", []).append((l, "variable '%s' keeps its value between calls" % v[1]))

    def one(self, fk, f):
        eff = {}
        calls = set()
        body = [f.get("inits", []), f["body"]]
        line = [f["line"]]
        stat = {}
        own = {p["id"] for p in f["params"]}
        for n in walk(body):
            if "id" in n and "t" in n and n.get("k") is None and not n.get("static"):
                own.add(n["id"])
        for n in walk(body):
            if n.get("static") is True and "t" in n and "id" in n and n.get("k") is None:
                self.statics += 1
                for y in walk(n.get("init")):
                    if y.get("k") == "this" or y.get("k") == "ref" and (y.get("dk") == "parm" or y.get("dk") == "local") and "cv" not in y:
                        # a variable of a lambda inside the initialiser is its own
                        if y.get("k") == "ref" and any(z.get("id") == y.get("id") for z in walk(n.get("init")) if z.get("k") is None):
                            continue
                        eff.setdefault("history", []).append((n.get("l"), "static variable '%s' is fixed by the first call (it is initialised from %s)"
                                                              % (n["n"], "the object" if y.get("k") == "this" else "'%s'" % y["n"])))
                        break
                if not n.get("const") and not n.get("cx"):
                    stat[n["id"]] = n
        cur = f["line"]
        pos = []
        self.order = []
        for n in walk(body):
            if n.get("l"):
                cur = n["l"]
            k = n.get("k")
            if k in ("call", "mcall", "ctor", "opcall"):
                q = re.sub(r"<.*", "", n.get("f") or "") if k == "ctor" else n.get("f") or ""
                q = re.sub(r"\bstd::(__\w+|_V\d+)::", "std::", q)
                for e, rx in SOURCES:
                    if rx.search(q):
                        eff.setdefault(e, []).append((cur, "call of %s" % q))
                if n.get("fk"):
                    calls.add(n["fk"])
            elif k == "ref" and n.get("dk") == "func" and n.get("fk"):
                calls.add(n["fk"])
            elif k == "cast" and n.get("ck") == "PointerToIntegral":
                eff.setdefault("address", []).append((cur, "an address is used as a number"))
            elif k == "rfor":
                v = n.get("range")
                t = v.get("t") if isinstance(v, dict) else None
                if isinstance(t, str) and PTRKEY.search(t):
                    eff.setdefault("address", []).append((cur, "elements are visited in the order of their addresses"))
        self.access(fk, f, body, stat)
        self.direct[fk] = eff
        self.calls[fk] = calls

    def access(self, fk, f, body, stat):
        """reads and changes of variables that outlive the call"""
        mine = {}
        if not stat and not self.glob:
            return
        parent = {}

        def var(r):
            if r is None or r.get("k") != "ref":
                return None
            if r.get("dk") == "slocal" and r.get("id") in stat:
                return (fk, stat[r["id"]]["n"])
            if r.get("dk") == "global" and (r.get("id") in self.glob):
                return ("", self.glob[r["id"]])
            return None
        events = []                 # (variable, "w" full overwrite | "u" update | "r", line, nested)

        def go(n, nest, line):
            if isinstance(n, list):
                for x in n:
                    go(x, nest, line)
                return
            if not isinstance(n, dict):
                return
            line = n.get("l") or line
            k = n.get("k")
            if n.get("static") is True and n.get("k") is None:
                go(n.get("init"), nest, line)
                return
            sub = nest or k in ("if", "switch", "cond", "lambda", "try")
            if k == "bin" and n.get("op") in ASSIGN or k == "opcall" and n.get("op") in ASSIGN and len(n.get("a", [])) == 2:
                l, r = n["a"]
                v = var(root(l))
                if v:
                    go(r, sub, line)
                    whole = l.get("k") == "ref"
                    events.append((v, "w" if whole and n["op"] == "=" else "u", line, nest))
                    if not whole:
                        go([x for x in walk(l) if x.get("k") == "ref" and var(x) is None], sub, line)
                    return
            if k == "un" and n.get("op") in ("++", "--") or k == "opcall" and n.get("op") in ("++", "--"):
                v = var(root(n["a"][0]))
                if v:
                    events.append((v, "u", line, nest))
                    return
            if k == "mcall":
                v = var(root(n.get("o")))
                if v:
                    go(n.get("a"), sub, line)
                    direct = n["o"].get("k") == "ref"
                    events.append((v, "r" if n.get("cm") or n.get("m") in ("begin", "end", "size", "front", "back", "at", "find", "operator[]") and direct
                                   else "w" if direct and n.get("m") in OVER else "s" if direct and n.get("m") == "resize" else "u", line, nest))
                    if n.get("m") in ("find", "operator[]", "at", "count", "emplace", "insert", "try_emplace") and not n.get("cm"):
                        mine.setdefault(v, set()).add("keyed")
                    return
            if k in ("call", "ctor", "mcall", "opcall"):
                g = self.P.functions.get(n.get("fk") or "")
                for j, a in enumerate(n.get("a", [])):
                    v = var(root(a))
                    t = g["params"][j]["t"] if g and j < len(g["params"]) else ""
                    if v and t.endswith("&") and "const" not in t:
                        events.append((v, "u", line, nest))
            if k == "ref":
                v = var(n)
                if v:
                    events.append((v, "r", line, nest))
                return
            for x in n.values():
                if isinstance(x, (dict, list)):
                    go(x, sub, line)
        go(body, False, f["line"])
        types = {(fk, s["n"]): s.get("t", "") for s in stat.values()}
        first = {}
        for v, kind, l, nest in events:
            first.setdefault(v, (kind, l, nest))
            if kind in ("w", "u", "s"):
                self.shared.setdefault(v, []).append(fk)
        for v, (kind, l, nest) in first.items():
            if kind == "w" and not nest:
                continue            # overwritten before anything reads it
            if not any(k in ("r", "u") for w, k, _, _ in events if w == v):
                continue            # only ever set
            if kind == "s" and not nest:
                self.undec.append("%s: static buffer '%s' is resized before its use" % (f["q"], v[1]))
                continue
            if v[0] == fk and not any(k == "r" for w, k, _, _ in events if w == v):
                continue            # counted, never looked at
            if re.search(r"\bmap<", types.get(v, "")):
                self.undec.append("%s: keyed static '%s' (a cache keeps the result, other uses may not)" % (f["q"], v[1]))
                continue
            self.reads.setdefault(fk, {})[v] = l

    def target(self, fk):
        return fk if fk in self.fns else self.norm.get(front._nk(fk))

    def closure(self, fk, stop=None):
        """effects of a function and of what it calls (not through functions in stop)"""
        out, seen, todo = {}, {fk}, [(fk, ())]
        while todo:
            x, path = todo.pop()
            for e, l in self.direct[x].items():
                out.setdefault(e, (l[0], self.fns[x], path))
            for y in self.calls[x]:
                y = self.target(y)
                if y and y not in seen and not (stop and sig(self.fns[y]) in stop):
                    seen.add(y)
                    todo.append((y, path + (self.fns[y]["q"],)))
        return out


WARN = ["-Wno-everything", "-Wuninitialized", "-Wsometimes-uninitialized", "-Wconditional-uninitialized"]


def assigned():
    """clang's definite-assignment dataflow over every translation unit: [(sure, file, line, function-free message)]"""
    def one(u):
        r = subprocess.run([front.CXX, "-std=c++17", "-include", "cstdint", "-I" + os.path.join(front.VERIF, "stubs"), "-I" + os.path.join(front.REPO, "source"),
                            "-DNDEBUG", "-DJSON_SCHEMA_PATH=\"x\"", "-fsyntax-only", "-fno-caret-diagnostics"] + WARN + [os.path.join(front.REPO, u)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise front.AnalysisBroken("translation unit does not parse: %s\n%s" % (u, r.stdout[-1500:]))
        out = []
        for m in re.finditer(r"(?m)^(\S+?):(\d+):\d+: warning: (.*) \[-W([\w-]+)\]$", r.stdout):
            out.append((m.group(4) != "conditional-uninitialized", os.path.relpath(m.group(1), front.REPO), m.group(2), m.group(3)))
        return out
    us = front.units()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, us))
    return us, sorted({x for l in res for x in l})


def defaults(P):
    """{record: [scalar fields that have a value in an object created without arguments]}"""
    I = interp.Interp(P)
    I.generic = True
    I.stack.append(interp.Frame({"q": "?", "fk": "?"}, None, 0))
    out = {}
    for q, r in sorted(P.records.items()):
        if not q.startswith("haptics::") or not r.get("fields"):
            continue
        try:
            v = I.default_value(interp.State(), q)
        except interp.Giveup:
            continue
        if not isinstance(v, terms.T) or v.op != "rec":
            continue
        out[q] = {f["n"]: terms.fld(v, f["n"]).op != "opq" for f in r["fields"]
                  if terms.clean(f["t"]) in SCALAR or terms.clean(f["t"]) in P.enums}
    return out


def own(f):
    return f["q"].startswith("haptics::") and not f.get("implicit")


def freeze(P):
    E = Effects(P)
    d = {}
    for fk, f in E.fns.items():
        if own(f):
            d[sig(f)] = sorted(set(d.get(sig(f), [])) | set(E.closure(fk)))
    defs = {q: sorted(n for n, v in x.items() if v) for q, x in defaults(P).items()}
    json.dump({"effects": d, "initialised": {q: l for q, l in defs.items() if l}}, open(SPEC, "w"), indent=0, sort_keys=True)
    print("%d functions, with effects:" % len(d), {k: v for k, v in d.items() if v}, defaults(P))


def check(c):
    P = c.P
    both = json.load(open(SPEC))
    spec = both["effects"]
    E = Effects(P)
    have = {}
    for fk, f in E.fns.items():
        have.setdefault(sig(f), fk)
    gone = 0
    called = {E.target(y) for x in E.calls for y in E.calls[x] if E.target(y) != x}
    done = set()
    for s, want in sorted(spec.items()):
        fk = have.get(s)
        if fk is None:
            gone += 1
            continue
        f = E.fns[fk]
        bad = {e: w for e, w in E.closure(fk, spec).items() if e not in want}
        c.count("functions_analysed")
        if not bad:
            c.ob(s, True)
        for e, ((line, what), g, path) in sorted(bad.items()):
            key = "%s %s" % (s, e)
            c.ob(key, False, "%s: its result depends on the %s%s" % (what, {"history": "calls before it"}.get(e, e), "" if not path else " (through %s)" % " -> ".join(path)),
                 "%s:%s %s" % (g["file"], line, g["q"]))
            done.add((g["q"], line))
    # functions that did not exist when the effects were reviewed and that nobody reviewed calls
    for fk, f in sorted(E.fns.items()):
        if own(f) and sig(f) not in spec and fk not in called and not f["q"].endswith("main"):
            for e, ((line, what), g, path) in sorted(E.closure(fk, spec).items()):
                if (g["q"], line) not in done:
                    c.undec(sig(f), "new function with effect %s" % e)
    for u in E.undec:
        c.undec(u.split(":")[0], u)
    now = defaults(P)
    for q, names in sorted(both["initialised"].items()):
        for n in names:
            if n in now.get(q, {}):
                c.count("fields_of_default_objects")
                if not now[q][n] and not re.match(r"haptics::(types::|tools::OHMData|encoder::EncodingConfig)", q):
                    c.undec("initialised %s.%s" % (q, n), "no value at first (every operation may set it before its use)")
                    continue
                c.ob("initialised %s.%s" % (q, n), now[q][n], "'%s' of a %s created without arguments has no value: what is read from it is whatever the memory held" % (n, q),
                     "%s:%s" % (P.records[q]["file"], next((f["l"] for f in P.records[q]["fields"] if f["n"] == n), 0)))
    us, l = assigned()
    c.count("translation_units", len(us))
    c.count("call_edges", sum(len(x) for x in E.calls.values()))
    c.count("static_storage_variables", len(P.vars) + E.statics)
    hit = {}
    for sure, file, line, msg in l:
        hit.setdefault(file, []).append((sure, line, msg))
    files = {os.path.normpath(f["file"]) if not os.path.isabs(f["file"]) else os.path.relpath(f["file"], front.REPO) for f in E.fns.values()}
    for file in sorted(files | set(hit)):
        ws = hit.get(file, [])
        if not ws:
            c.ob("definite assignment " + file, True)
        for sure, line, msg in ws:
            if sure:
                c.ob("definite assignment %s %s" % (file, re.sub(r"\W+", " ", msg)), False, msg, "%s:%s" % (file, line))
            else:
                c.undec("definite assignment " + file, "line %s: %s" % (line, msg))
    if gone * 2 > len(spec):
        raise front.AnalysisBroken("%d of %d analysed functions do not exist any more" % (gone, len(spec)))

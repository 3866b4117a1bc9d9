"""Front end: builds the clang plugin, dumps the resolved AST of every project translation unit of
/repo/source and indexes it.  Nothing here decides anything."""
import fcntl, glob, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("HX_REPO", "/repo")
BUILD = os.environ.get("HX_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-18"


class AnalysisBroken(Exception):
    """The analysis itself cannot run (source does not parse, an anchor vanished...)."""


def _sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_plugin():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "astdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    so = os.path.join(BUILD, "hx-%s.so" % h)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so):
            tmp = so + ".tmp%d" % os.getpid()
            r = _sh([CXX, "-std=c++17", "-fno-rtti", "-O0", "-fPIC", "-shared",
                     "-I/usr/lib/llvm-18/include", src, "-o", tmp])
            if r.returncode:
                raise AnalysisBroken("plugin does not build:\n" + r.stdout[-3000:])
            os.rename(tmp, so)
    return so


def units():
    """Every non-test .cpp below /repo/source."""
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "source", "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(f, REPO)
        if "/test/" in rel or rel.endswith(".test.cpp"):
            continue
        out.append(rel)
    return out


def _tree_hash(so):
    """hash of everything a unit can include"""
    h = hashlib.sha256(so.encode())
    for pat in ("**/*.h", "**/*.hpp"):
        for f in sorted(glob.glob(os.path.join(REPO, "source", pat), recursive=True)):
            if "/test/" in f:
                continue
            h.update(os.path.relpath(f, REPO).encode())
            h.update(open(f, "rb").read())
    for f in sorted(glob.glob(os.path.join(VERIF, "stubs", "**", "*"), recursive=True)):
        if os.path.isfile(f):
            h.update(open(f, "rb").read())
    return h


def dump_all(only=None):
    so = build_plugin()
    th = _tree_hash(so)
    cdir = os.path.join(BUILD, "ast")
    us = units() if only is None else [u for u in units() if any(u.startswith(o) for o in only)]
    if not us:
        raise AnalysisBroken("no translation units found under %s/source" % REPO)
    os.makedirs(cdir, exist_ok=True)

    def one(u):
        h = th.copy()
        h.update(open(os.path.join(REPO, u), "rb").read())
        out = os.path.join(cdir, u.replace("/", "__") + "-" + h.hexdigest()[:20] + ".json")
        if os.path.exists(out):
            return u, out, ""
        tmp = out + ".tmp%d" % os.getpid()
        A = lambda x: ["-Xclang", "-plugin-arg-hxdump", "-Xclang", x]
        r = _sh([CXX, "-std=c++17", "-include", "cstdint", "-I" + os.path.join(VERIF, "stubs"),
                 "-I" + os.path.join(REPO, "source"), "-DNDEBUG", "-DJSON_SCHEMA_PATH=\"x\"", "-w",
                 "-fsyntax-only", "-fplugin=" + so, "-Xclang", "-plugin", "-Xclang", "hxdump"]
                + A("out=" + tmp) + A("root=" + os.path.join(REPO, "source") + "/")
                + [os.path.join(REPO, u)])
        if r.returncode or not os.path.exists(tmp):
            return u, None, r.stdout[-2000:]
        os.rename(tmp, out)
        return u, out, ""

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, us))
    bad = [(u, m) for u, o, m in res if o is None]
    if bad:
        raise AnalysisBroken("translation unit does not parse: %s\n%s" % bad[0])
    return [(u, json.load(open(o))) for u, o, _ in res]


class Program:
    def __init__(self, only=None):
        t0 = time.time()
        self.units = []
        self.functions = {}      # fk -> function
        self.by_q = {}           # qualified name -> [function]
        self.records, self.enums, self.vars = {}, {}, {}
        for u, d in dump_all(only):
            if d.get("errors"):
                raise AnalysisBroken("parse errors in " + u)
            self.units.append(u)
            T = d["types"]
            uid = len(self.units)
            for f in d["functions"]:
                if f["fk"] in self.functions:
                    continue
                _resolve(f, T, uid)
                self.functions[f["fk"]] = f
                self.by_q.setdefault(f["q"], []).append(f)
            for r in d["records"]:
                if r["q"] not in self.records:
                    _resolve(r, T, uid)
                    self.records[r["q"]] = r
            for e in d["enums"]:
                self.enums.setdefault(e["q"], e)
            for v in d["vars"]:
                if v["q"] not in self.vars:
                    _resolve(v, T, uid)
                    self.vars[v["q"]] = v
        self._norm = {}
        for fk, f in self.functions.items():
            self._norm.setdefault(_nk(fk), f)
        self.load_s = time.time() - t0

    def fn(self, fk):
        if not fk:
            return None
        return self.functions.get(fk) or self._norm.get(_nk(fk))


def _nk(fk):
    """top-level const on by-value parameters is not part of a function's identity"""
    return fk.replace("const ", "").replace(" const", "")


def _resolve(o, T, uid):
    """type indexes -> strings; local ids made unique over units."""
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            t = x.get("t")
            if isinstance(t, int) and not isinstance(t, bool):
                x["t"] = T[t]
            r = x.get("ret")
            if isinstance(r, int):
                x["ret"] = T[r]
            i = x.get("id")
            if isinstance(i, int):
                x["id"] = (uid, i)
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)


if __name__ == "__main__":
    p = Program()
    print("%d translation units, %d functions" % (len(p.units), len(p.functions)))

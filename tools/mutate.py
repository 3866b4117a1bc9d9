#!/usr/bin/env python3
"""Developer tool: random small mutations of a source file; prints those no given property reports.
mutate.py N seed file[:regex-of-functions] prop..."""
import os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
N, seed, spec, props = int(sys.argv[1]), sys.argv[2], sys.argv[3], sys.argv[4:]
rel, _, fre = spec.partition(":")
MR = os.environ.get("MREPO", "/repo")
src = open(MR + "/source/" + rel).read()
MR = os.environ.get("MREPO", "/repo")
W = int(os.environ.get("MW", "3"))
REPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
        (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.\"'])\d+(?![\w.\"'])", ["N"]), (r" \+= ", [" -= ", " = "]),
        (r" >> ", [" << "]), (r" << ", [" >> "]),
        (r"\.begin\(\)", [".end()"]), (r"\bcontinue;", ["break;", ";"]), (r"\bbreak;", [";"]), (r"\+\+", ["--"]), (r"--", ["++"]),
        (r"Lower", ["Upper"]), (r"Upper", ["Lower"]), (r"Amplitude", ["Frequency"]), (r"Minimum", ["Maximum"]), (r"Maximum", ["Minimum"]),
        (r"if \(", ["if (!", "if (true || ", "if (false && "]), (r"\.value_or\((\w+)\)", [".value()"]),
        (r"OrDefault", [""]), (r"(?m)^ +[A-Za-z_][\w.\->\[\]:()]*(\(| = | \+= ).*;$", ["DEL"])]
spans = [(0, len(src))]
if fre:
    spans = []
    for m in re.finditer(r"(?m)^[^\s#/}{].*\b(%s)\([^;]*?\{[^\n]*\n" % fre, src):
        e = src.find("\n}", m.end())
        spans.append((m.start(), e))
cand = []
for r, outs in REPS:
    for m in re.finditer(r, src):
        if not any(a <= m.start() < b for a, b in spans):
            continue
        ls = src.rfind("\n", 0, m.start()) + 1
        line = src[ls:src.find("\n", m.start())]
        if line.lstrip().startswith(("//", "#", "*", "/*", "std::cerr", "std::cout")) or "//" in src[ls:m.start()]:
            continue
        if src[ls:m.start()].count('"') % 2:
            continue
        for o in outs:
            cand.append((m, o, ls, line))
rg = random.Random(seed)
rg.shuffle(cand)


def mutant(m, o):
    t = m.group(0)
    if o == "N":
        n = str(int(t) + 1)
    elif o == "DEL":
        n = re.match(r" *", t).group(0) + ";"
    else:
        n = o
    return src[:m.start()] + n + src[m.end():]


def run(k):
    m, o, ls, line = cand[k]
    s2 = mutant(m, o)
    d = "/tmp/mutants/" + str(os.getpid()) + "/%s" % k
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(MR + "/source", d + "/source")
    open(d + "/source/" + rel, "w").write(s2)
    new = s2[ls:s2.find("\n", m.start())]
    res = []
    for p in props:
        env = dict(os.environ, HX_REPO=d, HX_OUT=d + "/out", HX_JOBS="4", HX_BUILD="/tmp/mutbuild")
        r = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "check.py"), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res.append((p, r.returncode, r.stdout))
    shutil.rmtree(d, ignore_errors=True)
    return k, line.strip(), new.strip(), src.count("\n", 0, ls) + 1, res


os.makedirs("/tmp/mutbuild/ast", exist_ok=True)
subprocess.run("cp -n /verif/build/*.so /tmp/mutbuild/; cp -n /verif/build/ast/* /tmp/mutbuild/ast/", shell=True)
base = set(os.listdir("/tmp/mutbuild/ast"))
n = dict(caught=0, missed=0, invalid=0, broken=0)
with ThreadPoolExecutor(W) as ex:
    for k, old, new, ln, res in ex.map(run, range(min(N, len(cand)))):
        if any("does not parse" in o for _, _, o in res):
            n["invalid"] += 1
            continue
        if any(rc == 1 and "VIOLATION" in o for _, rc, o in res):
            n["caught"] += 1
            if os.environ.get("MV"): print("caught %d: %s  ==>  %s" % (ln, old, new))
            continue
        und = [x for p, rc, o in res for x in o.splitlines() if "undecided:" in x][:2]
        if any(rc not in (0, 1) for _, rc, o in res):
            n["broken"] += 1
        n["missed"] += 1
        print("MISSED %d: %s\n     ==>  %s   %s" % (ln, old, new, [(p, rc) for p, rc, o in res if rc]))
        for u in und: print("        ", u[:200])
print(n)
for f in os.listdir("/tmp/mutbuild/ast"):
    if f not in base:
        os.unlink("/tmp/mutbuild/ast/" + f)

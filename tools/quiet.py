"""quiet.py [-b] [name...]: apply each behaviour-preserving edit of quiet_edits.py to a copy of /repo and run every
claimed check on it; -b also builds the copy and runs the stable tests. Prints alarms, errors and undecided obligations."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from quiet_edits import EDITS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
build = "-b" in args
names = [a for a in args if a != "-b"] or list(EDITS)
props = os.environ.get("PROPS", "").split() or [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]


def apply(name, root):
    for e in EDITS[name]:
        p = os.path.join(root, e[1])
        s = open(p).read()
        if e[0] == "sub":
            assert s.count(e[2]) == e[4], (name, s.count(e[2]), e[2][:60])
            s = s.replace(e[2], e[3])
        elif e[0] == "rx":
            s, n = re.subn(e[2], e[3], s, flags=re.S)
            assert n and (not e[4] or n == e[4]), (name, n, e[2][:60])
        else:
            i = s.find(e[2])
            assert i >= 0 and s.count(e[2]) == 1, (name, s.count(e[2]), e[2])
            j = s.index("\n}\n", i) + 3
            s = s[:i] + e[3] + s[j:]
        open(p, "w").write(s)


def one(name):
    root = "/tmp/quiet/" + name
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    subprocess.run(["cp", "-a", "/repo/source", root + "/"], check=True)
    apply(name, root)
    out = []
    for p in props:
        r = subprocess.run(["python3", HERE + "/check.py", p], capture_output=True, text=True,
                           env=dict(os.environ, HX_REPO=root, HX_OUT=root + "/out", HX_JOBS="1"))
        m = re.search(r"(\d+) undecided", r.stdout)
        if r.returncode or m and m.group(1) != "0":
            out.append("   %s rc=%d %s" % (p, r.returncode, "\n      ".join(l[:300] for l in (r.stdout + r.stderr).splitlines() if l.strip())[-1600:]))
    if not out:
        shutil.rmtree(root, ignore_errors=True)
    return name, out


with ThreadPoolExecutor(8) as ex:
    n = bad = 0
    for name, out in ex.map(one, names):
        n += 1
        bad += any(" rc=0" not in o.split("\n")[0] for o in out)
        print(("%s: " % name) + ("quiet, all decided" if not out else "\n" + "\n".join(out)), flush=True)
    print("%d edits, %d with an alarm or an error" % (n, bad))

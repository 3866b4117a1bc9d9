"""Comparison of a summary computed from the current source with the reviewed one."""
import json, os, re, time
from terms import *
import separate as S

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def flat(t, path="", out=None):
    """attribute path -> term, descending through records, repeated groups and optional payloads"""
    if out is None:
        out = {}
    if t.op == "rec":
        if t.a[1] is not None:
            out[path + ".*"] = t.a[1]
        for k, v in t.a[2]:
            flat(v, (path + "." if path else "") + k, out)
    elif t.op == "seq" and len(t.a) == 1 and t.a[0].op == "map" and t.a[0].a[1].op == "seq" \
            and len(t.a[0].a[1].a) == 1 and t.a[0].a[1].a[0].op == "one":
        out[path + "#"] = t.a[0].a[0]
        flat(t.a[0].a[1].a[0].a[0], path + "[]", out)
    elif t.op == "some":
        flat(t.a[0], path + "?", out)
    elif t.op == "ite" and t.a[1].op == "some" and t.a[2] is NONE:
        out[path + "!"] = t.a[0]
        flat(t.a[1].a[0], path + "?", out)
    elif t.op == "seq":
        for i, g in enumerate(t.a):
            out["%s{%d}" % (path, i)] = g
        if not t.a:
            out[path] = t
    else:
        out[path] = t
    return out


def norm_path(p):
    return re.sub(r"\[\d+\]", "[]", p)


_spec_cache = {}


def spec(name):
    if name not in _spec_cache:
        _spec_cache[name] = json.load(open(os.path.join(SPEC, name + ".json")))
    return _spec_cache[name]


def spec_term(name, key):
    d = spec(name)
    return S.load(d[key]) if key in d else None


def save_spec(name, terms):
    os.makedirs(SPEC, exist_ok=True)
    with open(os.path.join(SPEC, name + ".json"), "w") as f:
        json.dump({k: S.dump(v) for k, v in terms.items()}, f, separators=(",", ":"), sort_keys=True)
        f.write("\n")


def compare(c, key, now, want, pre=(), seed=1, n=150, where="", what="is decoded as", limit=120):
    """one obligation per attribute path of `want`"""
    if now is want:
        for p in flat(want, key):
            c.ob(p, True)
        return True
    fn, fw = flat(now, key), flat(want, key)
    bad = [p for p in fw if fn.get(p) is not fw[p]]
    for p in fw:
        if p not in bad:
            c.ob(p, True)
    found = {}
    A = mk("seq", *[fn[p] for p in fn if fw.get(p) is not fn[p]])
    B = mk("seq", *[fw[p] for p in bad])
    S.heat(A, B)
    t0 = time.time()
    for k, e in S.valuations(seed, n, [A], [B], {("$io-ok", "bool"): 1}):
        ok = True
        if time.time() - t0 > (limit() if callable(limit) else limit):
            break
        for q in pre:
            e.steer(q)
        for q in pre:
            v = e.ev(q)
            if v is S.UNDEC or not v:
                ok = False
        if not ok:
            continue
        try:
            d = S.diff_path(e.ev(now), e.ev(want), key)
        except RecursionError:
            d = None
        if d:
            p = norm_path(d[0])
            if p not in found:
                found[p] = (d, k)
                if len(found) >= 6:
                    break
    if found:
        for p, (d, k) in found.items():
            c.ob(p, False, "%s %s %s where the reviewed summary has %s (separating valuation %d)\n    now:  %s\n    want: %s"
                 % (p, what, d[1], d[2], k, "", ""), where)
        return False
    for p in bad:
        c.undec(p, "normal forms differ but are not separated")
    return None

"""Enumerations: names in text files, codes in binary files and streams."""
import json, os
import front, interp
import compare as CMP

SPEC = os.path.join(CMP.SPEC, "P06.json")


def extract(P):
    I = interp.Interp(P)
    enums = {q: {x["n"]: x["v"] for x in e["e"]} for q, e in P.enums.items() if q.startswith("haptics::")}
    tabs = {}
    for q, es in I.tables.items():
        v = P.vars[q]
        first = es[0]
        tabs[q] = {"to": "name" if isinstance(first[0], int) else "code", "pairs": [list(x) for x in es],
                   "enum": next((e for e in sorted(P.enums) if e.split("::")[-1] in v["t"].replace("<", " ").replace(",", " ").replace(">", " ").replace("::", " ").split()), None)}
    return enums, tabs


def freeze(P):
    enums, tabs = extract(P)
    json.dump({"enums": enums, "tables": tabs}, open(SPEC, "w"), indent=0, sort_keys=True)


def check(c):
    P = c.P
    spec = json.load(open(SPEC))
    enums, tabs = extract(P)
    gone = 0
    for e, want in sorted(spec["enums"].items()):
        have = enums.get(e)
        if have is None:
            # a moved enumeration keeps its last name
            l = [x for x in enums if x.split("::")[-1] == e.split("::")[-1]]
            have = enums[l[0]] if len(l) == 1 else None
        if have is None:
            gone += 1
            c.undec(e, "no such enumeration any more")
            continue
        c.count("enumerations")
        en = P.enums.get(e) or {}
        where = "%s:%s %s" % (en.get("file", ""), en.get("line", ""), e)
        for n, v in sorted(want.items()):
            if n not in have:
                c.undec("%s::%s" % (e, n), "no enumerator of that name")
                continue
            c.ob("%s::%s" % (e, n), have[n] == v, "the code of %s::%s is %s, published as %s" % (e, n, have[n], v), where)
        vals = list(have.values())
        dup = sorted({v for v in vals if vals.count(v) > 1})
        c.ob(e + " codes are distinct", not dup, "code %s stands for several enumerators" % dup, where)
    found = {}
    for t, w in sorted(spec["tables"].items()):
        have = tabs.get(t)
        if have is None:
            l = [x for x in tabs if x.split("::")[-1] == t.split("::")[-1]]
            if len(l) == 1:
                have = tabs[l[0]]
                t2 = l[0]
            else:
                gone += 1
                c.undec(t, "no such table of constants any more")
                continue
        else:
            t2 = t
        c.count("tables")
        var = P.vars[t2]
        where = "%s:%s %s" % (var.get("file", ""), var.get("line", ""), t2)
        m = {}
        for k, v in have["pairs"]:
            m.setdefault(k, v)          # std::map keeps the first of equal keys
        found[t] = m
        for k, v in w["pairs"]:
            if k not in m:
                c.ob("%s[%s]" % (t, k), False, "%s has no entry for %r (published: %r)" % (t, k, v), where)
            else:
                c.ob("%s[%s]" % (t, k), m[k] == v, "%s maps %r to %r, published as %r" % (t, k, m[k], v), where)
        e = w["enum"]
        if e in enums:
            if w["to"] == "name":
                for n, v in sorted(enums[e].items()):
                    c.ob("%s covers %s" % (t, n), v in m, "%s::%s has no name in %s" % (e, n, t), where)
            else:
                for n, v in sorted(enums[e].items()):
                    c.ob("%s reaches %s" % (t, n), v in m.values(), "no name in %s gives %s::%s" % (t, e, n), where)
    # every name written is read back as the same value
    by = {}
    for t, m in found.items():
        by.setdefault(spec["tables"][t]["enum"], {})[spec["tables"][t]["to"]] = (t, m)
    for e, d in sorted(by.items()):
        if "name" not in d or "code" not in d:
            continue
        (tn, mn), (tc, mc) = d["name"], d["code"]
        var = P.vars.get(tn) or {}
        where = "%s:%s %s" % (var.get("file", ""), var.get("line", ""), tn)
        for v, n in sorted(mn.items()):
            c.ob("%s inverts %s at %s" % (tc, tn, v), mc.get(n) == v,
                 "%s writes %s as %r, which %s reads as %s" % (tn, v, n, tc, mc.get(n)), where)
    if gone * 2 > len(spec["enums"]) + len(spec["tables"]):
        raise front.AnalysisBroken("%d of the analysed enumerations and tables do not exist any more" % gone)


if __name__ == "__main__":
    freeze(front.Program())

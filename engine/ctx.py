"""Shared bookkeeping of a check run: obligations, violations, known findings, evidence."""
import json, os, sys, time
import front

VERIF = front.VERIF
OUT = os.environ.get("HX_OUT", VERIF)


class Ctx:
    def __init__(self, prop, tier, seed, prog):
        self.prop, self.tier, self.seed, self.P = prop, tier, seed, prog
        self.obl = 0
        self.done = 0
        self.undecided = []
        self.viol = []
        self.known = []
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.findings = load_findings(prop)
        self.min = {}

    # an obligation: ok is True / False / None (not decided)
    def ob(self, key, ok, msg="", where=""):
        self.obl += 1
        if ok is True:
            self.done += 1
            if len(self.samples) < 12 and self.obl % 7 == 1:
                self.samples.append(key)
        elif ok is None:
            self.undecided.append("%s: %s" % (key, msg))
        else:
            self.fail(key, msg, where)

    def fail(self, key, msg, where=""):
        for k in self.findings:
            if k == key:
                if key not in [x for x, _ in self.known]:
                    self.known.append((key, msg))
                return
        self.viol.append((key, msg, where))

    def undec(self, key, msg):
        self.obl += 1
        self.undecided.append("%s: %s" % (key, msg))

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def need(self, k, n):
        """at least n instances must have been analysed"""
        self.min[k] = n

    def finish(self, level, rule, wall):
        for k, n in self.min.items():
            if self.cov.get(k, 0) < n:
                raise front.AnalysisBroken("only %d instance(s) of '%s' found, expected at least %d"
                                           % (self.cov.get(k, 0), k, n))
        if self.obl == 0:
            raise front.AnalysisBroken("no obligation was generated")
        for k, m in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k + " — " + m if m else k))
        cov = {"explanation": rule, "obligations": self.obl, "discharged": self.done,
               "undecided": len(self.undecided), "undecided_list": self.undecided[:40],
               "known_findings": [k for k, _ in self.known],
               "translation_units": len(self.P.units), "functions_in_scope": len(self.P.functions),
               "samples": self.samples}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.viol)}
        d = os.path.join(OUT, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)
        if self.viol:
            rd = os.path.join(OUT, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".txt")
            with open(path, "w") as f:
                for k, m, w in self.viol:
                    f.write("rule instance: %s\nwhere: %s\n%s\n\n" % (k, w, m))
            for k, m, w in self.viol[:20]:
                print("  %s [%s] %s" % (k, w, m))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        for u in self.undecided[:int(os.environ.get("HX_SHOW", "3"))]:
            print("  undecided: " + u[:400])
        print("property %s: %d obligation(s), %d discharged, %d undecided, %d known finding(s), %.1fs"
              % (self.prop, self.obl, self.done, len(self.undecided), len(self.known), wall))
        return 0


def load_findings(prop):
    """known-findings.txt: 'finding: property=<id> key=<key> -- text' ('fixed:' lines suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                k = line.split("key=", 1)[1].split(" -- ")[0].strip()
                out.append(k)
    return out

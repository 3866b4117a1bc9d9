#!/usr/bin/env python3
"""Runs the check of one property: check.py <property> [--tier quick|thorough]"""
import argparse, os, signal, sys, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(200000)
threading.stack_size(1 << 30)
import front, ctx, registry


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        P = front.Program()
        r = registry.CHECKS[a.property]
        mod, level, rule = r["func"], r["level"], r["rule"]
        c = ctx.Ctx(a.property, a.tier, seed, P)
        mod(c)
        return c.finish(level, rule, time.time() - t0)
    except front.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s" % a.property)
        return 2


rc = [3]


def run():
    rc[0] = main()


t = threading.Thread(target=run)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])

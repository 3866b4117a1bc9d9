"""Developer tool (no check runs it): rewrites the reviewed summaries from the current tree."""
import os, sys, threading
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(os.path.dirname(H), "checks")]
sys.setrecursionlimit(200000)
threading.stack_size(1 << 30)
import importlib, front
def go():
    P = front.Program()
    for m in (sys.argv[1:2] if sys.argv[1] == "model" else sys.argv[1:]):
        importlib.import_module(m).freeze(P)
t = threading.Thread(target=go); t.start(); t.join()

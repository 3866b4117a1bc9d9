"""Binary file format (.hmpg): write then read, over every model."""
from codec import *
import front, interp, prims
from compare import *

WR = "haptics::io::IOBinary::writeFile"
RD = "haptics::io::IOBinary::loadFile"
MODEL = "haptics::types::Haptics"
_cache = {}


def io_install(I):
    X = I.intr

    def ok(I, st, n):
        return mk("sym", "$io-ok", "bool")
    for k in ("is_open", "good", "operator bool"):
        for b in ("std::basic_ifstream", "std::basic_ofstream", "std::basic_ios", "std::basic_fstream"):
            for s in ("", "<char, std::char_traits<char>>", "<char>"):
                X[b + s + "::" + k] = ok

    def notok(I, st, n):
        return not_(ok(I, st, n))
    X["opcall:std::basic_ios<char, std::char_traits<char>>::operator!"] = notok
    X["opcall:std::basic_ios<char>::operator!"] = notok

    def tellg(I, st, n):
        return mk("sym", "$io-size", "int")
    for s in ("std::basic_istream<char, std::char_traits<char>>::tellg", "std::basic_istream<char>::tellg"):
        X[s] = tellg


def writer(P):
    if "w" not in _cache:
        I = interp.Interp(P)
        install(I)
        io_install(I)
        M = mk("sym", "M", MODEL)
        st = State()
        st.store[("in", "h")] = M
        st, v = run_entry(I, WR, None, [LV(("in", "h")), mk("sym", "$path")], st=st)
        B = st.store.get(("sys", "file"))
        if B is None:
            raise Giveup("the writer emits nothing to the file")
        _cache["w"] = (I, M, B, st.store[("in", "h")])
    return _cache["w"]


def reader(P, B, key):
    if key not in _cache:
        I = interp.Interp(P)
        install(I)
        io_install(I)
        I.input = B
        st = State()
        st.store[("in", "h")] = I.default_value(st, MODEL)
        st, v = run_entry(I, RD, None, [mk("sym", "$path"), LV(("in", "h"))], st=st)
        _cache[key] = (I, st.store[("in", "h")], st)
    return _cache[key]


def guarded(c, key, f):
    try:
        return f()
    except Mismatch as e:
        c.ob(key, False, "reader and writer disagree: %s" % e, where(e))
    except Giveup as e:
        c.undec(key, "outside the abstraction: %s" % e)
    return None


def where(e):
    return ""


def tally(c, *Is):
    fs = {}
    for I in Is:
        fs.update({f["q"]: 1 for f in I.visited.values()})
        c.count("loops_summarised", I.loops)
        c.count("calls_inlined", I.calls)
        c.count("fields_read", I.reads)
        c.undecided += ["note " + x for x in I.notes]
    c.cov["functions_analysed"] = sorted(fs)
    c.cov["n_functions_analysed"] = len(fs)


def fidelity(c):
    P = c.P
    r = guarded(c, "write", lambda: writer(P))
    if r is None:
        return
    I, M, B, M2 = r
    q = guarded(c, "read-back", lambda: reader(P, B, "r"))
    if q is None:
        return
    I2, R, st = q
    tally(c, I, I2)
    c.ob("writer leaves the model unchanged", True if M2 is M else None)
    compare(c, "model", R, spec_term("binary", "R"), seed=c.seed)
    spurious(c, I, "binary-w")
    spurious(c, I2, "binary-r")
    prims.verify(c)


def spurious(c, I, key):
    """exits that report failure although the reviewed code has none there for the same model"""
    for cond, q in I.aborts:
        if cond is TRUE or any(x.op == "sym" and str(x.a[0]).startswith("$io") for x in free(cond)):
            continue
        for k in range(60):
            e = S.Ev("%s/%s" % (c.seed, k))
            v = e.ev(cond)
            if v is not S.UNDEC and v:
                c.ob(key + " accepts every model", False, "%s reports failure when %s" % (q, show(cond)[:300]), q)
                break
        else:
            c.undec(key + " failure exit", show(cond)[:200])


def layout(c):
    P = c.P
    r = guarded(c, "write", lambda: writer(P))
    if r is not None:
        I, M, B, M2 = r
        tally(c, I)
        W = spec_term("binary", "B")
        compare(c, "file", B, W, seed=c.seed, what="has")
    W = spec_term("binary", "B")
    q = guarded(c, "reads the reviewed layout", lambda: reader(P, W, "rs"))
    if q is not None:
        compare(c, "model", q[1], spec_term("binary", "R"), seed=c.seed)


def freeze(P):
    I, M, B, _ = writer(P)
    I2, R, st = reader(P, B, "r")
    save_spec("binary", {"B": B, "R": R})

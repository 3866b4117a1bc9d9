"""Summaries by property: which functions, under which conditions"""
import copy
import os
import random, re, struct, time
import summary
import typical
import separate as S
from summary import Entry

T = "types::"
EVAL = "Evaluate|Evaluation|getEffectTimeLength|isOverlapping|[Rr]efactor|[Ll]inearize|TimeLength|getTransientDuration|searchFor|extractLibrary"
P07 = [T + c + "::*!" + EVAL for c in ("Haptics", "Perception", "Channel", "Band", "Effect", "Keyframe", "Avatar", "ReferenceDevice", "Sync", "Direction", "Vector")] 
P08 = [T + c for c in ("Effect::*", "Band::*", "Channel::*", "Perception::*", "Haptics::*")]


P08 = [T + x for x in ("Effect::*!^(?!Evaluate|getEffectTimeLength|computeBase)", "Band::*!^(?!Eval|isOverl|getBandTime|getTransientD)",
                       "Channel::*!^(?!Eval|.*TimeLength)", "Perception::*!^(?!.*TimeLength|Eval)", "Haptics::*!^(?!.*TimeLength|Eval)")]
P17 = ["tools::*!OHMData|InputParser|WavParser|Psycho", "tools::InputParser::*"]
P19 = [T + x for x in ("Haptics::*!^(?!refactor|linearize)", "Perception::*!^(?!.*refactor|.*linearize|search|Refactor)")]
S.CONTRACT.update({"decodeBlock": {1: "none"}, "decodeEffect": {1: ("pad", 2), 3: "none", 4: "none", "this": "none"}, "inv_DWT": {2: "len"},
                   "DWT": {2: "none"}, "encodeEffect": {"this": "none"}, "maximumWaveletCoefficient": {1: "none", 2: "none"},
                   "encodeBlock": {2: "none", 3: "none"}, "updateNoise": {2: "len", 3: "len"}, "conv1D": {2: "len"}})


def signals(rg):
    """a signal and a result vector with room for its transform"""
    n = rg.choice([4, 8, 8, 16])
    f = lambda k: [rg.choice([rg.uniform(-1, 1), rg.uniform(-1, 1), 0.0, 1.0]) for _ in range(k)]
    return {"p0": f(n), "p2": f(n + rg.choice([0, 8, 20]))}


SIGNAL = {"*": signals, "p1": lambda rg, t: S.rnd_value(rg, t) if "array" in t else rg.choice([1, 1, 2, 3])}


def wavelet_encoder(rg):
    """an encoder of block length bl and arguments of matching sizes"""
    bl, r = rg.choice([8, 8, 16]), {}
    lv = {8: 1, 16: 2}[bl]
    w = S.rnd_value(rg, "haptics::encoder::WaveletEncoder")
    book = [bl >> lv] + [bl >> (lv - k) for k in range(lv)]
    w.update(bl=bl, fs=rg.choice([1000, 2000, 8000]), dwtlevel=lv, book=book, book_cumulative=[sum(book[:k]) for k in range(len(book) + 1)])
    f = lambda k: [rg.choice([rg.uniform(-1, 1), rg.uniform(0, 1), 0.0, 0.25]) for _ in range(k)]
    g = lambda k: [rg.uniform(0.01, 3) for _ in range(k)]
    return w, bl, f, g


def enc_args(kind):
    def go(rg):
        w, bl, f, g = wavelet_encoder(rg)
        n = len(w["book"])
        return {"signal": lambda: {"this": w, "p0": f(rg.choice([0, 1, bl, bl + 3, 2 * bl])), "p1": rg.choice([0, 1, 5, 12, 40]), "p4": rg.choice([1000, 1000, 8000])},
                "block": lambda: {"this": w, "p0": f(bl), "p1": rg.choice([0, 1, 3, 8, 20])},
                "noise": lambda: {"this": w, "p0": g(n), "p1": g(n), "p2": g(n), "p3": g(n), "p4": g(n)},
                "quant": lambda: {"this": w, "p0": f(bl), "p1": rg.choice([0, 2, 4]), "p2": rg.uniform(0.1, 2), "p3": rg.randrange(0, 6), "p4": rg.choice([0, 1, 4]), "p5": f(bl)}}[kind]()
    return {"*": go, "t:haptics::tools::modelResult": lambda rg, t: {k: [rg.uniform(0.01, 3) for _ in range(3)] for k in ("SMR", "bandenergy")}}


WEMOD = r"::Spiht|::Wavelet::|::PsychohapticModel::|::WaveletEncoder::(max|upd|uni|find|enc)"
P14 = [Entry("filterbank::Wavelet::*", mod=r"::Wavelet::", gen=SIGNAL), Entry("filterbank::Filterbank::*", gen={"p0": lambda rg, t: samples(rg, t)}),
       Entry("waveletdecoder::WaveletDecoder::*", mod=r"::decodeEffect$|::decodeBlock$|::Wavelet::", drop=["this"]),
       Entry("encoder::WaveletEncoder::*", drop=["this"], mod=WEMOD)]
WE = "encoder::WaveletEncoder::"
P14 += [Entry(WE + n, mod=WEMOD, drop=["this"], gen=enc_args(k)) for n, k in (
    ("encodeSignal(vector<double>;int;double;Band;unsigned int)", "signal"), ("encodeBlock(vector<double>;int;double;int;vector<unsigned char>)", "block"),
    ("updateNoise(vector<double>;vector<double>;vector<double>;vector<double>;vector<double>)", "noise"),
    ("uniformQuant(vector<double>;unsigned long;double;int;unsigned long;vector<double>)", "quant"))]


def damage(rg, v):
    """a JSON value in which something may be missing or of another kind"""
    if rg.random() < 0.04:
        return rg.choice([None, True, 3, 0.5, "x", [], {}])
    if isinstance(v, dict):
        return {k: damage(rg, x) for k, x in v.items() if rg.random() > 0.04}
    return [damage(rg, x) for x in v] if isinstance(v, list) else v


def ahap(kind):
    """an AHAP event or curve with control points before, inside and after the event"""
    def go(rg):
        ts = rg.choice([1000, 1000, 8000, 10])
        q = lambda hi: rg.choice([rg.randrange(0, hi) / 10.0, rg.randrange(0, 5), rg.randrange(0, hi) / 8.0])
        pts = lambda: sorted((int(q(60) * ts), rg.choice([0.0, 1.0, 0.5, rg.uniform(0, 1), rg.uniform(-1, 1)])) for _ in range(rg.choice([0, 1, 1, 2, 3, 4])))
        tbl = lambda l: [{"#": "std::pair<int, double>", "first": a, "second": b} for a, b in l]
        at_ = q(50)
        amp, frq = pts(), pts()
        for l in (amp, frq):        # now and then a control point right at the start or the end of the event
            if l and rg.random() < 0.3:
                l[rg.randrange(len(l))] = (int(at_ * ts), rg.uniform(0, 1))
                l.sort()
        par = [{"ParameterID": rg.choice(["HapticIntensity", "HapticSharpness", "HapticIntensity", "HapticSharpness", "AttackTime"]), "ParameterValue": rg.choice([0.0, 1.0, 0.5, 1, rg.uniform(0, 1)])}
               for _ in range(rg.choice([0, 1, 2, 2, 3]))]
        ev = lambda k: {"Time": at_ if rg.random() < 0.8 else q(50), "EventType": k, "EventDuration": q(30), "EventParameters": par}
        cu = lambda k, l: {"ParameterID": k, "Time": rg.choice([0, 0.0, 0.5, q(20)]), "ParameterCurveControlPoints": [{"Time": a / ts, "ParameterValue": b} for a, b in l]}
        some_ = lambda v: damage(rg, v) if rg.random() < 0.4 else v
        if kind == "file":
            pat = [{"Event": ev(rg.choice(["HapticTransient", "HapticContinuous", "HapticContinuous", "AudioCustom"]))} for _ in range(rg.choice([0, 1, 1, 2, 3]))]
            pat += [{"ParameterCurve": cu(*x)} for x in (("HapticIntensityControl", amp), ("HapticSharpnessControl", frq), ("AudioVolumeControl", frq)) if rg.random() < 0.6]
            rg.shuffle(pat)
            return {"$json": S.JX(some_({"Version": 1.0, "Pattern": pat})), "p2": ts}
        v = cu("HapticIntensityControl", amp) if kind == "curve" else ev("HapticTransient" if kind == "transient" else "HapticContinuous")
        if rg.random() < 0.05:
            v["EventType"] = "HapticOther"
        v = some_(v)
        r = {"p0": S.JX(v if isinstance(v, dict) else {}), "p4": ts, "p2": tbl(amp), "p3": tbl(frq)}
        if kind == "curve":
            r = {"p0": r["p0"], "p2": ts, "p1": tbl(amp[:2])}
        else:
            r["p1"] = []
        return r
    return go


def ivs(rg):
    """a basis effect, the event that launches it and the effect to fill"""
    n = lambda hi: str(10 * rg.randrange(0, hi))
    at_ = lambda d: {"#": "xml", "n": [], "kids": [], "nil": 0, "at": [[[ord(c) for c in k], [ord(c) for c in v]] for k, v in d.items()]}
    opt = lambda d, p: {k: v for k, v in d.items() if rg.random() < p}
    b = {"type": rg.choice(["periodic", "periodic", "magsweep", "timeline"]), "name": rg.choice("ab")}
    b.update(opt({"duration": n(30), "magnitude": n(1000), "period": n(10), "waveform": rg.choice(["sine", "square", "triangle", "sawtooth-up", "sawtooth-down", "x"])}, 0.9))
    b.update(opt({"attack-time": n(20), "fade-time": n(20)}, 0.5))
    b.update(opt({"attack-level": n(1000), "fade-level": n(1000)}, 0.8))
    e = opt({"time": n(50), "duration-override": n(30), "magnitude-override": n(1000), "period-override": str(rg.choice([5, 20, 100, -2147483000]))}, 0.5)
    S.MODE["none"], k = 0, S.rnd_value(rg, "haptics::types::Effect")
    k["keyframes"] = []
    return {"p0": at_(b), "p1": at_(e), "p2": k, "p3": rg.choice([1000, 1000, 8000, 100])}


def repeats(rg, depth=0):
    """a repeat event, the effects it holds and the repeat events inside it"""
    at_ = lambda d: {"#": "xml", "n": [], "kids": [], "nil": 0, "at": [[[ord(c) for c in k], [ord(c) for c in str(v)]] for k, v in d.items() if rg.random() < 0.95]}
    es = [S.rnd_value(rg, "haptics::types::Effect", 8) for _ in range(rg.choice([0, 1, 2, 3]))]
    for e, v in zip(es, sorted(rg.randrange(0, 60) for _ in es)):
        e["position"] = v
    kids = [repeats(rg, depth + 1) for _ in range(rg.choice([0, 1, 1, 2]) if depth < 2 else 0)]
    return {"#": "haptics::encoder::IvsEncoder::RepeatNode", "value": 0 if rg.random() < 0.3 and not depth else at_({"time": rg.randrange(0, 50), "duration": rg.randrange(0, 40), "count": rg.randrange(0, 4)}),
            "myEffects": es, "children": kids}


def ivs_file(rg):
    """an IVS document: basis effects, timelines that launch them and repeat parts of themselves"""
    ch = lambda s: [ord(c) for c in s]
    node = lambda n, d, kids=(): {"#": "xml", "n": ch(n), "at": [[ch(k), ch(str(v))] for k, v in d.items()], "kids": list(kids), "nil": 0}
    basis = []
    for n in rg.choice(["ab", "a", "abc"]):
        b = ivs(rg)["p0"]
        b["n"], b["at"] = ch("basis-effect"), [a for a in b["at"] if a[0] != ch("name")] + [[ch("name"), ch(n)]]
        basis.append(b)
    lines = []
    for _ in range(rg.choice([0, 1, 1, 2, 3])):
        k = []
        for _ in range(rg.choice([0, 1, 2, 3])):
            d = {"effect": rg.choice("aab"), "time": 10 * rg.randrange(0, 12)}
            d.update({x: v for x, v in (("duration-override", 10 * rg.randrange(0, 20)), ("magnitude-override", 10 * rg.randrange(0, 1000))) if rg.random() < 0.3})
            k.append(node("launch-event", d))
        for _ in range(rg.choice([0, 0, 1, 2, 3])):
            k.append(node("repeat-event", {"time": 10 * rg.randrange(0, 10), "duration": 10 * rg.randrange(0, 12), "count": rg.randrange(0, 4)}))
        rg.shuffle(k)
        lines.append(node("timeline-effect", {"name": rg.choice(["x", "yy"])} if rg.random() < 0.8 else {}, k))
    eff = node("effects", {}, basis + lines)
    S.MODE.update(none=0, small=12)
    p = S.rnd_value(rg, "haptics::types::Perception")
    if rg.random() < 0.6:
        p["channels"] = []
    return {"$xml": node("", {}, [node("ivs-file", {"last-modified": "d"} if rg.random() < 0.8 else {}, [eff])]), "p0": ch("f"), "p1": p, "p2": rg.choice([1000, 1000, 8000, 100])}


AE, IE = "encoder::AhapEncoder::", "encoder::IvsEncoder::"
P15 = [Entry(AE + "encode(string;Perception;unsigned int)", gen={"*": ahap("file")}),
       Entry(AE + "extractKeyframes/3", gen={"*": ahap("curve")}),
       Entry(AE + "extractTransients/5", gen={"*": ahap("transient")}),
       Entry(AE + "extractContinuous/5", gen={"*": ahap("continuous")}),
       Entry(IE + "encode/3", mod="RepeatNode::", gen={"*": ivs_file}), Entry(IE + "convertToEffect/4", gen={"*": ivs}),
       Entry(IE + "RepeatNode::*", mod="RepeatNode::", gen={"this": lambda rg, t: repeats(rg)}), IE + "injectIntoBands/3", IE + "*!^(encode|convertToEffect)$"]



def ohm(rg, t):
    """a metadata file, sometimes damaged"""
    ch = lambda b: [(x ^ 128) - 128 for x in b]

    def text(n):
        k = min(n, rg.choice([0, 1, 3, n - 1, n]))
        return bytes(rg.randrange(1, 256) for _ in range(k)) + bytes(n - k)
    b = rg.choice([b"OHM "] * 9 + [b"OHM\0"]) + rg.randrange(65536).to_bytes(2, "big")
    n = rg.choice([0, 1, 1, 2])
    b += n.to_bytes(2, "big") + text(32)
    for _ in range(n):
        m = rg.choice([0, 1, 1, 2, 3])
        b += text(64) + text(32) + m.to_bytes(2, "big")
        for _ in range(m):
            b += text(32) + struct.pack("<f", rg.uniform(-2, 2)) + rg.choice([rg.randrange(2 ** 32), 0x80808080, 128]).to_bytes(4, "big")
    r = rg.random()
    return ch(b[:rg.randrange(len(b))] if r < 0.2 else b + b"x" if r < 0.3 else b)


P09 = [Entry("tools::OHMData::*", gen={"file:bytes": ohm, "file:opened": lambda rg, t: int(rg.random() < 0.9), "file:created": lambda rg, t: int(rg.random() < 0.9)})]




def curve_band(rg, t):
    """a curve band whose keyframes are complete and in order"""
    old = dict(S.MODE)
    S.MODE.update(none=0, mono=False, small=12, big=False)
    b = S.rnd_value(rg, t)

    def go(v):
        if isinstance(v, dict):
            for x in v.values():
                go(x)
            if "bandType" in v:
                v["bandType"] = 1
        elif isinstance(v, list):
            pos = rg.choice([0, 0, 1, 3])
            for x in v:
                go(x)
                if isinstance(x, dict) and "amplitudeModulation" in x and isinstance(x.get("relativePosition"), tuple):
                    x["relativePosition"] = ("some", pos)
                    x["amplitudeModulation"] = ("some", rg.choice([rg.uniform(-1, 1), 0.5, 1.0]))
                    pos += rg.randrange(1, 9)
    for l in [b["effects"]] if "effects" in b else [x["effects"] for x in b.get("bands", []) if "effects" in x]:
        while isinstance(l, list) and len(l) < rg.choice([1, 1, 2]):
            l.append(S.rnd_value(rg, "haptics::types::Effect"))
        for e in l:
            if isinstance(e.get("keyframes"), list) and not e["keyframes"] and rg.random() < 0.9:
                e["keyframes"].append(S.rnd_value(rg, "haptics::types::Keyframe"))
    for e in b.get("effects", []) if "effects" in b else [e for x in b.get("bands", []) for e in x.get("effects", [])]:
        k = e.get("keyframes")
        if isinstance(k, list) and k:
            while len(k) < rg.randrange(1, 6):
                k.append(copy.deepcopy(k[0]))
            if len(k) > 2 and rg.random() < 0.3:
                del k[2:]
    S.MODE.update(old)
    go(b)
    return b


CURVE = {"this": curve_band, "p0": lambda rg, t: rg.randrange(5, 40), "p1": lambda rg, t: rg.choice([1, 2, 4]),
         "p2": lambda rg, t: rg.choice([0, 0, 1, 2, -1]), "p3": lambda rg, t: rg.choice([1, 1, 2, 4])}
P08 = [Entry("types::Band::EvaluationBand(unsigned int;int;int;unsigned int)", gen=CURVE),
       Entry("types::Channel::EvaluateChannel(unsigned int;int;int;unsigned int)", gen=CURVE)] + P08


def wavelet_band(rg, t):
    """a wavelet band with consistent block length and positions"""
    old = dict(S.MODE)
    S.MODE.update(none=0.2, mono=True, small=9, big=True)
    b = S.rnd_value(rg, t)
    k = rg.choice([1, 2, 4])
    b.update(bandType=3, blockLength=("some", rg.choice([4, 8])), upperFrequencyLimit=1000 * k)
    while isinstance(b.get("effects"), list) and len(b["effects"]) < rg.choice([1, 2, 3]):
        b["effects"].append(S.rnd_value(rg, "haptics::types::Effect"))
    S.MODE.update(old)
    for j, e in enumerate(b.get("effects", [])):
        e["position"] = j * b["blockLength"][1]
    return b


WAVE = {"p0": wavelet_band, "p1": lambda rg, t: rg.choice([1000, 1000, 2000])}
P14 = [Entry("waveletdecoder::WaveletDecoder::" + n, mod=r"::decodeEffect$|::decodeBlock$|::Wavelet::", gen=WAVE, drop=["this"])
       for n in ("decodeBand(Band;int)", "transformBand(Band;unsigned int)")] + P14

IOJ = r"::IOJson::(load|extract|semantic|schema|version|date|URI|bytes2|bits2|base642)"


def bits(rg, t):
    l = []
    for _ in range(rg.randrange(0, 5)):
        v = rg.choice([0, 62, 63, 25, 26, 51, 52, 61, 1, rg.randrange(64)])
        l += [v >> (5 - j) & 1 for j in range(6)]
    return l + [rg.randrange(2) for _ in range(rg.choice([0, 0, 1, 5]))]


P05 = [Entry("io::IOJson::bits2base64(vector<unsigned char>;vector<unsigned char>)", gen={"p0": bits}),
       Entry("io::IOJson::base642bits(vector<unsigned char>;vector<unsigned char>)",
             gen={"p0": lambda rg, t: [ord(rg.choice("AZaz09+/=Mm5")) for _ in range(rg.randrange(0, 5))]}),
       Entry("io::IOJson::*!Check", mod=IOJ), Entry("io::IOJsonPrimitives::*")]

CHK = "io::IOJson::semanticConformanceCheck"
CMOD = r"::IOJson::(semantic|version|date|URI|schema)"
P18 = [Entry(CHK + n + "(" + ";".join(c) + ")", mod=CMOD, gen={"*": typical.args(*c, library=n.startswith("Lib"))}) for n, c in (
    ("Experience", ("Haptics",)), ("Avatar", ("Avatar", "Haptics")), ("Perception", ("Perception", "Haptics")),
    ("ReferenceDevice", ("ReferenceDevice", "Perception")), ("Channel", ("Channel", "Perception", "Haptics")),
    ("Band", ("Band", "Channel", "Perception", "Haptics")), ("Effect", ("Effect", "Band", "Channel", "Perception", "Haptics")),
    ("LibraryEffect", ("Effect", "Perception", "Haptics")))]
P18 += [Entry("io::IOJson::*!^(?!.*Check)", mod=CMOD)]



def stream_bits(rg, t):
    """enough bits for any fixed-size part of a packet, mostly zero so that counts stay small"""
    n = rg.choice([64, 96, 200, 400, 900, 900])
    p = rg.choice([0.03, 0.1, 0.1, 0.25, 0.5])
    return [int(rg.random() < p) for _ in range(n)]


def packets(rg, t):
    return [stream_bits(rg, t) for _ in range(rg.choice([0, 1, 1, 2, 3]))]


def writer(rg, t):
    old = dict(S.MODE)
    S.MODE.update(none=0.4, mono=True, small=rg.choice([6, 12, 40]), big=False)
    h = typical.model(rg)
    w = S.rnd_value(rg, t)
    S.MODE.update(old)
    g = lambda l, c: copy.deepcopy(rg.choice(l)) if l else typical.new(rg, c)
    w["haptic"] = h
    w["perception"] = p = g(h["perceptions"], "Perception")
    w["channel"] = c = g(p["channels"], "Channel")
    w["bandStream"]["band"] = b = g(c["bands"], "Band")
    w["bandStream"]["id"] = rg.randrange(0, 9)
    for l in [b["effects"]] + [x["effects"] for q in h["perceptions"] for y in q["channels"] for x in y["bands"]]:
        pos = rg.choice([0, 0, 5])
        for e in l:
            e["position"] = pos
            e["id"] = rg.choice([-1, -1, rg.randrange(0, 9)])
            at = 0
            for k in e.get("keyframes", []):
                k.update(relativePosition=("some", at), amplitudeModulation=("some", rg.uniform(-1, 1)), frequencyModulation=("some", rg.randrange(0, 500)))
                at += rg.choice([0, 1, 4, 9])
            pos += at + rg.choice([0, 1, 8])
    w["time"] = rg.choice([0, 0, 4, 8, 16])
    w["packetDuration"] = rg.choice([4, 8, 128])
    w["timescale"] = rg.choice([1000, 1000, 500])
    w["effects"] = copy.deepcopy(b["effects"])
    w["keyframesCount"] = [len(e.get("keyframes", [])) for e in b["effects"]]
    return w


def reader(rg, t):
    old = dict(S.MODE)
    S.MODE.update(none=0.4, mono=True, small=12, big=False)
    r = S.rnd_value(rg, t)
    h = typical.model(rg)
    S.MODE.update(old)
    g = lambda l, c: copy.deepcopy(rg.choice(l)) if l else typical.new(rg, c)
    for j, q in enumerate(h["perceptions"]):
        q["id"] = rg.choice([j, j, 0, 1, 4])
    r["haptic"] = h
    r["perception"] = p = g(h["perceptions"], "Perception")
    r["channel"] = c = g(p["channels"], "Channel")
    r["bandStream"]["band"] = g(c["bands"], "Band")
    for x in r["bandStreamsHaptic"]:
        x.update(id=rg.randrange(0, 4), index=rg.randrange(0, 3))
    r["waitSync"] = rg.choice([0, 0, 1])
    return r


def known_effect(rg, t):
    e = typical.effect(rg, rg.random() < 0.3, [1, 2, 3] if rg.random() < 0.5 else [])
    e["id"] = rg.choice([-1, 0, 1, 2, 3])
    for k in e.get("keyframes", []):
        k.update(relativePosition=("some", rg.randrange(0, 9)), amplitudeModulation=("some", rg.uniform(-1, 1)), frequencyModulation=("some", rg.randrange(0, 500)))
    return e


def nested_effect(rg, t, depth=0):
    """an effect whose timeline holds effects, some of them with timelines of their own"""
    e = known_effect(rg, t)
    e["effectType"] = 2 if depth == 0 else rg.choice([0, 1, 2, 2])
    e["timeline"] = [nested_effect(rg, t, depth + 1) for _ in range(rg.choice([0, 1, 2, 2]))] if e["effectType"] == 2 and depth < 4 else []
    return e


def timeline_band(rg, t):
    b = S.rnd_value(rg, t)
    b["effects"] = [nested_effect(rg, typical.TY + "Effect", rg.choice([0, 1])) for _ in range(rg.choice([0, 1, 2, 3]))]
    return b


def unit_file(rg, t):
    """a stream file, sometimes damaged"""
    b = b""
    for _ in range(rg.choice([0, 1, 1, 2, 3])):
        n = rg.choice([0, 1, 2, 5])
        h = rg.getrandbits(72) & ~(0xffffffff << 4) | n << 4
        b += h.to_bytes(9, "big") + bytes(rg.randrange(256) for _ in range(n))
    r = rg.random()
    b = b[:rg.randrange(len(b) + 1)] if r < 0.2 else b + b"x" if r < 0.3 else b
    return [(x ^ 128) - 128 for x in b]


STREAM = {"%": 0.85, "file:bytes": unit_file, "t:std::vector<bool>": stream_bits, "t:int": lambda rg, t: rg.choice([0, 0, 0, 1, 1, 2, 3, 8, 16, 128, -1]),
          "t:std::vector<std::vector<std::vector<bool>>>": lambda rg, t: [packets(rg, t) for _ in range(rg.choice([0, 1, 2, 2]))], "t:std::vector<std::vector<bool>>": packets,
          "t:haptics::io::IOStream::StreamWriter": writer, "t:haptics::io::IOStream::StreamReader": reader,
          "t:haptics::types::Haptics": lambda rg, t: typical.model(rg), "t:haptics::types::Effect": known_effect}


def units(rg, t):
    """the units of a stream: type, sync flag and some bits"""
    return [[int(x) for x in "{:06b}{:02b}".format(rg.choice([0, 1, 1, 2, 3, 3, 3]), rg.choice([0, 0, 1, 2]))] + [rg.randrange(2) for _ in range(rg.choice([0, 1, 5]))]
            for _ in range(rg.choice([1, 2, 3, 4, 6]))]


def wave_writer(rg, t):
    """a writer at a wavelet band whose effects carry published semantics"""
    w = writer(rg, t)
    b = w["bandStream"]["band"]
    while len(b["effects"]) < rg.choice([1, 2, 3]):
        b["effects"].append(typical.effect(rg, True, []))
    for e in b["effects"]:
        e["semantic"] = rg.choice([None, typical.some(typical.text(rg.choice(["UX/Click", "UX/Ring", "UX/Error", "Avatar/Jumping"])))])
    b.update(bandType=3, blockLength=("some", rg.choice([8, 16])))
    return w


SMALL = {"p%d" % j: (lambda rg, t: rg.choice([0, 0, 0, 1, -1, 2])) for j in (1, 2, 3)}
IOS = "io::IOStream::"
IOSMOD = r"::IOStream::(?!search|readPacket|readMIHSPacketType|getNextSync|padTo|addTimestamp)|::IOBinaryBands::"
P04 = [Entry(IOS + "addEffectToHaptic(Haptics;int;int;int;vector<Effect>)", mod=r"::IOStream::", gen={**STREAM, **SMALL}),
       Entry(IOS + "searchChannelInHaptic(Haptics;int;int)", mod=r"::IOStream::", gen={**STREAM, **SMALL})]
P04 += [Entry(IOS + "linearizeTimelineEffect(Effect;vector<Effect>)", mod=IOSMOD, gen={**STREAM, "p0": nested_effect}),
        Entry(IOS + "linearizeTimeline(Band)", mod=IOSMOD, gen={**STREAM, "p0": timeline_band}),
        Entry(IOS + "silentUnitSyncFlag(vector)", mod=IOSMOD, gen={**STREAM, "p0": units}),
        Entry(IOS + "writeWaveletPayloadPacket(vector<bool>;vector<bool>;StreamWriter)", mod=IOSMOD,
              gen={**STREAM, "t:haptics::io::IOStream::StreamWriter": wave_writer})]
P04 += [Entry("io::IOStream::*", mod=IOSMOD, gen=STREAM)]



def raw(rg, t):
    """bytes of a binary file: mostly zero bits, so that counts stay small; sometimes too few"""
    n = rg.choice([0, 1, 3, 8, 30, 60, 200, 400, 400])
    p = rg.choice([0.03, 0.1, 0.1, 0.25, 0.5])
    return [((sum((rg.random() < p) << j for j in range(8))) ^ 128) - 128 for _ in range(n)]


def left_over(rg, t):
    return [int(rg.random() < 0.2) for _ in range(rg.choice([0, 0, 0, 1, 4, 7]))]


def whole_band(rg, t):
    """a band whose effects all have the attributes their kind of band requires"""
    k = rg.choice([0, 1, 2, 3])
    old = dict(S.MODE)
    S.MODE.update(none=0.5, mono=True, small=9, big=False)
    b = S.rnd_value(rg, t)
    if not isinstance(b.get("effects"), list):
        b["effects"] = []
    b["effects"] += [S.rnd_value(rg, "haptics::types::Effect") for _ in range(rg.choice([0, 1, 2]))]
    S.MODE.update(old)
    b.update(bandType=k, upperFrequencyLimit=1000 * rg.choice([1, 2]))

    def go(e, depth):
        e["effectType"] = rg.choice([0, 0, 1, 2 if depth < 2 else 0])
        e["position"] = rg.choice([0, 1, 200])
        e["id"] = rg.choice([0, 1, 70])
        for q in e.get("keyframes", []):
            q.update(relativePosition=("some", rg.randrange(0, 9)), amplitudeModulation=("some", rg.uniform(-1, 1)), frequencyModulation=("some", rg.randrange(0, 500)))
        for x in e.get("timeline", []):
            if isinstance(x, dict):
                go(x, depth + 1)
    for e in b["effects"]:
        go(e, 0)
    return b


BIN = {"%": 0.85, "file:bytes": raw, "file:opened": lambda rg, t: int(rg.random() < 0.9), "file:created": lambda rg, t: int(rg.random() < 0.9),
       "t:int": lambda rg, t: rg.choice([0, 0, 0, 1, 2, 5, 9]), "t:std::vector<bool>": left_over,
       "t:haptics::types::Haptics": lambda rg, t: typical.model(rg), "t:haptics::types::Band": whole_band}
_pool = {}


def written(name):
    """complete inputs for a reading function: what the reviewed writing function puts out for typical elements,
    after some left-over bits, sometimes cut short"""
    m = re.match(r"(io::IOBinary(?:Bands)?::)read(\w+)\((.*)\)$", name)
    if not m:
        return {}
    prm = m.group(3).split(";")
    cls = "Effect" if m.group(2) == "LibraryEffect" else prm[0]
    sig = "haptics::" + m.group(1) + "write" + m.group(2) + "("
    q = [x for x in S.BODY if x.startswith(sig)]
    if len(q) != 1 or "istream" not in m.group(3):
        return {}
    q, f = q[0], prm.index("basic_istream<char>")
    ts = q[len(sig):-1].split(",")
    ts = [t for t in re.findall(r"[\w:]+(?:<[^()]*?>)?(?=,|$)", q[len(sig):-1])] if "<" in q else ts
    out = "p%d" % [k for k, t in enumerate(ts) if "vector<bool" in t][0]
    term = S.body(q, out)
    key = (name, os.getpid())
    if key not in _pool:
        l = _pool[key] = []
        old, gen, exp = dict(S.MODE), dict(S.GEN), set(S.EXPAND)
        S.EXPAND.clear()
        S.EXPAND.update(x for x in S.BODY if "::IOBinary" in x)
        S.GEN.clear()
        t0 = time.time()
        for j in range(60):
            if time.time() - t0 > 4:
                break
            rg = random.Random("%s%d" % (name, j))
            h = typical.model(rg)
            for p in h["perceptions"]:
                for c in p["channels"]:
                    c["bands"] = [whole_band(rg, typical.TY + "Band") for _ in c["bands"]]
                for x in p["effectLibrary"]:
                    x["timeline"] = [typical.effect(rg, False, [1, 2]) for _ in range(rg.choice([0, 1, 2]))]
            g = h["perceptions"]
            if cls in ("Perception", "Channel", "Band", "Effect"):
                v = rg.choice(g)
                if m.group(2) == "LibraryEffect":
                    v = rg.choice(v["effectLibrary"] or [typical.effect(rg, False, [], 0)])
                elif cls != "Perception":
                    v = whole_band(rg, typical.TY + "Band")
                    if cls == "Effect":
                        v = rg.choice(v["effects"]) if v["effects"] else typical.new(rg, "Effect")
            else:
                v = h
            e = S.Ev("pool%d" % j)
            e.roots = {("p%d" % k, t): [] if "vector<bool" in t else rg.choice([1000, 500]) if t.endswith("int") else
                       whole_band(rg, t) if t.endswith("Band") and cls != "Band" else v for k, t in enumerate(ts)}
            r = None
            try:
                r = e.ev(term)
            except (KeyError, IndexError, TypeError, ValueError, RecursionError):
                pass
            if isinstance(r, list) and all(x in (0, 1) for x in r):
                l.append((v, r, {k: x for k, x in e.roots.items()}))
        S.MODE.clear(), S.MODE.update(old)
        S.GEN.clear(), S.GEN.update(gen)
        S.EXPAND.clear(), S.EXPAND.update(exp)
        S.forget()

    def go(rg):
        l = _pool[key]
        if not l:
            return {}
        v, bits, roots = rg.choice(l)
        k = rg.choice([0, 0, 0, 3, 7])
        bits = [rg.randrange(2) for _ in range(rg.choice([0, 0, 8]))] + bits
        at = 0
        r = {"p%d" % (f + 1): bits[:k], "file:opened": 1}
        bits = bits[k:]
        r["p%d" % f] = at
        bits = bits + [rg.randrange(2) for _ in range(-len(bits) % 8)]
        if rg.random() < 0.15:
            bits = bits[:8 * rg.randrange(len(bits) // 8 + 1)]
        b = [int("".join(map(str, bits[j:j + 8])), 2) for j in range(0, len(bits), 8)]
        r["file:bytes"] = [(x ^ 128) - 128 for x in b]
        if f and prm[0] == cls and rg.random() < 0.5:
            r["p0"] = copy.deepcopy(v)
        for k, t in enumerate(prm):
            if t == "Band" and k:
                r["p%d" % k] = copy.deepcopy([x for (n, y), x in roots.items() if y.endswith("Band")][0])
        return r
    return go


def binary_in(name):
    w = written(name)
    return {"*": w, **BIN} if w else BIN


P10 = [Entry("io::IOBinary::*", mod=r"::IOBinary(Bands)?::", gen=binary_in), Entry("io::IOBinaryBands::*", mod=r"::IOBinary(Bands)?::", gen=binary_in)]


def coder(rg):
    """the state and the input of the arithmetic coder in the course of a stream"""
    tot = [rg.choice([rg.randrange(16, 90), rg.randrange(16, 90), rg.randrange(1000, 5000)]) for _ in range(7)]
    cnt = [rg.choice([8, 1, t - 1, rg.randrange(1, t)]) for t in tot]
    while True:
        lo, hi = rg.randrange(0, 512), rg.randrange(257, 1025)
        if hi > 512 and hi - lo > 2 and not (lo >= 256 and hi <= 768):
            break
    n = rg.randrange(0, 30)
    b = [rg.randrange(2) for _ in range(n)]
    at = rg.choice([n, n, max(0, n - 1), rg.randrange(n + 1)])
    w = {"counter": cnt, "counter_total": tot, "range_lower": lo, "range_upper": hi, "range_diff": hi - lo,
         "in_leading": rg.randrange(lo, hi), "instream": b, "in_index": at, "max_index": n}
    return w


def arith_dec(rg):
    return {"this": coder(rg), "p0": rg.randrange(7)}


def arith_enc(rg):
    w = coder(rg)
    n = rg.choice([0, 1, 2, 5, 20, 60, 200])
    p, k = rg.choice([0, 0.05, 0.5, 0.5, 0.95, 1]), rg.choice([1, 1, 2, 7])
    return {"this": {x: w[x] for x in ("counter", "counter_total")}, "p0": [int(rg.random() < p) for _ in range(n)], "p1": [rg.randrange(k) for _ in range(n)], "p2": []}


def skewed(rg, t):
    p = rg.choice([0.1, 0.5, 0.5, 0.9])
    return [int(rg.random() < p) for _ in range(rg.choice([0, 1, 7, 8, 9, 10, 11, 40]))]


def block(rg, bits):
    n = rg.choice([8, 16, 16, 32, 64])
    m = 1 << (bits + 1)
    p = rg.choice([0.1, 0.4, 0.9])
    return [rg.choice([rg.randrange(m), -rg.randrange(m), m - 1, 1 - m, m >> 1, -(m >> 1), 1]) if rg.random() < p else 0 for _ in range(n)]


def spiht_enc(rg):
    k = rg.choice([0, 1, 1, 2, 3, 4])
    b = block(rg, k)
    if rg.random() < 0.3:
        b = [abs(x) if j else x for j, x in enumerate(b)]
    n = len(b)
    return {"p0": b, "p1": n.bit_length() - 3, "p2": [rg.randrange(2) for _ in range(8)], "p3": k, "p4": [], "p5": [],
            "this": {"maxDescendants": [rg.randrange(9) for _ in range(rg.choice([0, 0, 4, n // 2]))], "maxDescendants1": [rg.randrange(9) for _ in range(rg.choice([0, 0, 4, n // 4]))], "arithEnc": {"counter": [8] * 7, "counter_total": [16] * 7}}}


def spiht_block(rg):
    r = spiht_enc(rg)
    return {"p0": r["p0"], "p1": rg.choice([r["p3"], r["p3"], 0]), "p2": rg.choice([0.5, 1.0, 0.25, 1.875, 3.5, rg.uniform(0, 8)]), "p3": [], "this": r["this"]}


def spiht_dec(as_bytes):
    """mostly streams of the reviewed encoder, each of a different number of coefficients"""
    pool = {}

    def go(rg):
        if os.getpid() not in pool:
            pool.clear()
            l = pool[os.getpid()] = []
            exp, nm = set(S.EXPAND), [x for x in S.BODY if "::Spiht_Enc::encodeEffect(" in x]
            S.EXPAND.clear()
            S.EXPAND.update(x for x in S.BODY if "::Arith" in x or "::Spiht" in x)
            t0 = time.time()
            for j in range(40):
                if not nm or time.time() - t0 > 6:
                    break
                e = S.Ev("spiht%d" % j)
                r = spiht_block(random.Random("spiht%d" % j))
                e.roots = {("p0", VI): r["p0"], ("p1", "int"): r["p1"], ("p2", "double"): r["p2"], ("p3", VU): [], ("this", "haptics::spiht::Spiht_Enc"): r["this"]}
                x = None
                try:
                    x = e.ev(S.body(nm[0], "p3"))
                except (KeyError, IndexError, TypeError, ValueError, RecursionError):
                    pass
                if isinstance(x, list) and x and all(isinstance(y, int) for y in x):
                    l.append((len(r["p0"]), x))
            S.EXPAND.clear()
            S.EXPAND.update(exp)
            S.forget()
        l = pool[os.getpid()]
        n, b = rg.choice(l) if l and rg.random() < 0.8 else (rg.choice([16, 32]), [rg.choice([0, 1, 2, 64, rg.randrange(256)]) for _ in range(rg.choice([0, 1, 3, 9]))])
        d = coder(rg)
        d.update(counter=[8] * 7, counter_total=[16] * 7)
        left = lambda k: [rg.randrange(k) for _ in range(rg.choice([0, 1, 3]))]     # lists left from an earlier block
        lis = left(min(n, 16) // 4)
        r = {"p1": [], "this": {"arithDec": d, "LIP": left(8), "LIS1": lis, "LIS2": [0 for _ in lis], "LSP": left(8)}, "p2": n}
        if as_bytes:
            r.update(p0=b, p3=0.0, p4=0)
        else:
            r.update(p0=[x >> k & 1 for x in b for k in range(8)], p3=n.bit_length() - 3, p4=0.0, p5=0)
        return r
    return go


VI, VU = "std::vector<int, std::allocator<int>>", "std::vector<unsigned char, std::allocator<unsigned char>>"
ARI = "::Arith(Enc|Dec)::"
E13 = {"expand": "::spiht::"}
DEC = ["arithDec.counter", "arithDec.counter_total"]
P13 = [Entry("spiht::ArithDec::decode(int)", gen={"*": arith_dec}), Entry("spiht::ArithDec::initDecoding(vector<unsigned char>)", gen={"p0": skewed}),
       Entry("spiht::ArithDec::convert2bits(vector<unsigned char>;vector<unsigned char>)", gen={"p0": lambda rg, t: [rg.randrange(256) for _ in range(rg.randrange(5))], "p1": lambda rg, t: []}),
       Entry("spiht::ArithDec::*", gen={"this": lambda rg, t: coder(rg)}),
       Entry("spiht::ArithEnc::encode(vector<unsigned char>;vector<int>;vector<unsigned char>)", gen={"*": arith_enc}),
       Entry("spiht::ArithEnc::convert2bytes(vector<unsigned char>;vector<unsigned char>)", gen={"p0": skewed}),
       Entry("spiht::ArithEnc::*", gen={"*": arith_enc}),
       Entry("spiht::Spiht_Enc::encode(vector<int>;int;vector<unsigned char>;int;vector<unsigned char>;vector<int>)", mod=ARI, gen={**E13, "*": spiht_enc}),
       Entry("spiht::Spiht_Enc::encodeEffect(vector<int>;int;double;vector<unsigned char>)", mod=ARI + "|::Spiht_Enc::encode$", gen={**E13, "*": spiht_block},
             attrs=["arithEnc.counter", "arithEnc.counter_total"]),
       Entry("spiht::Spiht_Enc::initMaxDescendants(vector<int>)", mod=ARI, gen={"p0": lambda rg, t: block(rg, 3)}),
       Entry("spiht::Spiht_Enc::maxDescendant(int;int)", mod=ARI, gen={"p0": lambda rg, t: rg.randrange(8), "p1": lambda rg, t: rg.choice([0, 1])}),
       Entry("spiht::Spiht_Enc::*", mod=ARI, gen={"t:double": lambda rg, t: rg.choice([0.0, 0.5, 1.0, 0.999, 1.875, rg.uniform(0, 9)])}),
       Entry("spiht::Spiht_Dec::decodeEffect(vector<unsigned char>;vector<int>;int;double;int)", mod=ARI + "|::Spiht_Dec::decode$", gen={**E13, "*": spiht_dec(True)}, attrs=DEC),
       Entry("spiht::Spiht_Dec::decode(vector<unsigned char>;vector<int>;int;int;double;int)", mod=ARI, gen={**E13, "*": spiht_dec(False)}, attrs=DEC)]


def wav_file(rg, t):
    return {"#": "drwav", "channels": rg.choice([1, 1, 2, 3]), "sampleRate": rg.choice([1000, 8000, 44100]), "bitsPerSample": 16, "totalPCMFrameCount": rg.choice([0, 1, 4, 9])}


def samples(rg, t):
    """a sampled signal that rises, falls and stays level"""
    r, x = [], 0.0
    for _ in range(rg.choice([0, 1, 2, 3, 6, 12, 20])):
        x = rg.choice([x, x, rg.uniform(-1, 1), x + 0.25, x - 0.25, 1.0, -1.0])
        r.append(x)
    return r


def level(rg, t):
    n = rg.choice([0, 1, 3, 3])
    return [[rg.uniform(-1.2, 1.2) for _ in range(n if rg.random() < 0.9 else n + 1)] for _ in range(rg.choice([1, 2, 3]))]


WAVS = {"file:opened": lambda rg, t: int(rg.random() < 0.9), "file:created": lambda rg, t: int(rg.random() < 0.9), "file:wav": wav_file,
        "file:wav.samples": lambda rg, t: [rg.uniform(-1, 1) for _ in range(60)]}


def perceptual(kind):
    """a perceptual model of block length bl"""
    def go(rg):
        bl = rg.choice([8, 8, 16])
        lv = {8: 1, 16: 2}[bl]
        book = [bl >> lv] + [bl >> (lv - k) for k in range(lv)]
        m = {"bl": bl, "fs": 8000, "freqs": [533.0 * k + rg.choice([0, 0, 1.5]) for k in range(bl)], "percthres": [rg.uniform(0, 1) for _ in range(bl)],
             "book": book, "book_cumulative": [sum(book[:k]) for k in range(len(book) + 1)]}
        spec = [rg.choice([rg.uniform(-60, 40), -20.0, 10.0, 30.0]) for _ in range(bl)]
        loc = sorted(rg.sample(range(1, bl), rg.choice([0, 1, 2, 3])))
        return {"smr": lambda: {"this": m, "p0": [rg.uniform(-1, 1) for _ in range(bl)]},
                "spect": lambda: {"this": m, "p0": spec},
                "find": lambda: {"p0": samples(rg, "") if rg.random() < 0.5 else spec, "p1": rg.choice([0.0, 0.25, 12.0]), "p2": rg.choice([-1.0, 0.0, -30.0])},
                "mask": lambda: {"this": m, "p0": [rg.uniform(-20, 40) for _ in loc], "p1": loc, "p2": rg.choice([[], [1.0]])}}[kind]()
    return go


def peak_list(rg):
    s = samples(rg, "") or [0.5]
    loc = sorted(rg.sample(range(len(s)), rg.randrange(len(s) // 2 + 1)))
    return {"p0": s, "p1": {"#": "haptics::tools::peaks", "locations": loc, "heights": [s[k] for k in loc]}}


PM, MMOD = "tools::PsychohapticModel::", "::PsychohapticModel::(getSMR|global|find(All|Peaks)|peakMask|peakProm|filterPeak)"
PEXP = {"expand": "::PsychohapticModel::"}     # peaks are parallel lists: always evaluated by the reviewed summaries
P16 = [Entry(PM + "getSMR(vector<double>)", mod=MMOD, gen={**PEXP, "*": perceptual("smr")}), Entry(PM + "globalMaskingThreshold(vector<double>)", mod=MMOD, gen={**PEXP, "*": perceptual("spect")}),
       Entry(PM + "findPeaks(vector<double>;double;double)", mod=MMOD, gen={**PEXP, "*": perceptual("find")}), Entry(PM + "findAllPeakLocations(vector<double>)", mod=MMOD, gen={**PEXP, "p0": samples}),
       Entry(PM + "peakMask(vector<double>;vector<unsigned long>;vector<double>)", mod=MMOD, gen={**PEXP, "*": perceptual("mask")}),
       Entry(PM + "peakProminence(vector<double>;peaks)", mod=MMOD, gen={**PEXP, "*": peak_list}),
       Entry(PM + "filterPeakCriterion(peaks;double)", mod=MMOD, gen={**PEXP, "p0": lambda rg, t: peak_list(rg)["p1"]}), Entry(PM + "*", mod=MMOD, gen=PEXP)]
PE = "encoder::PcmEncoder::"
PMOD = r"::WavParser::loadFile|::WaveletEncoder::|::Filterbank::|::PcmEncoder::|::EvaluationBand"
P20 = [Entry("tools::WavParser::saveFile(string;vector;int)", gen={**WAVS, "p1": level}), Entry("tools::WavParser::*", gen=WAVS),
       Entry(PE + "localExtrema(vector<double>;bool)", mod=PMOD, gen={"p0": samples}), Entry(PE + "*", mod=PMOD, gen=WAVS), Entry("encoder::EncodingConfig::*")]
SETS = {k: v for k, v in list(globals().items()) if re.fullmatch(r"P\d\d", k)}


def freeze(P):
    import sys
    for k in sys.argv[2:] or SETS:
        summary.freeze(P, k, SETS[k])


def run(pid):
    return lambda c: summary.check(c, pid, SETS[pid])

"""Typical input models: valuations on which most rules of the format are satisfied, with at most one or two departures.
They only decide where two summaries are evaluated; never what is right."""
import copy
import separate as S

TY = "haptics::types::"


def new(rg, cls, **kw):
    r = S.rnd_value(rg, TY + cls, 13)
    for k, v in kw.items():
        if k in r:
            r[k] = v
    return r


def some(x):
    return ("some", x)


def text(s):
    return [ord(c) for c in s]


def effect(rg, wave, lib, kind=None):
    k = kind if kind is not None else rg.choice([0, 0, 1]) if lib else 0
    return new(rg, "Effect", id=rg.choice(lib) if k == 1 and lib else rg.randrange(1, 9), effectType=k,
               semantic=rg.choice([None, some(text(rg.choice(["Explosion", "Hit", "nonsense"])))]), timeline=[], waveletSamples=[],
               keyframes=[] if wave else [new(rg, "Keyframe") for _ in range(rg.choice([0, 1, 2]))])


def model(rg):
    """a conformant model"""
    old = dict(S.MODE)
    S.MODE.update(none=0.5, mono=False, small=6, big=False)
    prof = rg.choice(["Main", "Simple Parametric"])
    level = rg.choice([1, 2])
    avs = [new(rg, "Avatar", id=j + 1, mesh=None) for j in range(rg.choice([0, 1, 2]))]
    pers = []
    for j in range(rg.choice([1, 1, 2])):
        lib = list(range(1, rg.choice([1, 2, 3])))
        devs = []
        for d in range(rg.choice([0, 1, 2, 3])):
            f = sorted(rg.uniform(1, 500) for _ in range(3))
            o = lambda x: some(x) if rg.random() < 0.7 else None
            devs.append(new(rg, "ReferenceDevice", id=d, minimumFrequency=o(f[0]), resonanceFrequency=o(f[1]), maximumFrequency=o(f[2])))
        chans = []
        for c in range(rg.choice([1, 1, 2, 3])):
            bands = []
            for _ in range(rg.choice([0, 1, 2])):
                bt = rg.choice([0, 1, 2, 3] if prof == "Main" else [0, 1, 2])
                bands.append(new(rg, "Band", bandType=bt, curveType=some(1) if bt == 1 else None, blockLength=some(rg.choice([8, 16, 32])) if bt == 3 else None,
                                 lowerFrequencyLimit=rg.randrange(0, 50), upperFrequencyLimit=rg.randrange(50, 900),
                                 effects=[effect(rg, bt == 3, lib) for _ in range(rg.choice([0, 1, 2]))]))
            res = rg.random() < 0.5
            vec = lambda lim: new(rg, "Vector", X=rg.randrange(0, lim + 1), Y=rg.randrange(0, lim + 1), Z=rg.randrange(0, lim + 1))
            ch = new(rg, "Channel", id=c, bands=bands, vertices=[], bodyPartTarget=None, actuatorTarget=None,
                     referenceDeviceId=some(rg.randrange(len(devs))) if devs and rg.random() < 0.6 else None,
                     direction=some(new(rg, "Vector", **dict(zip("XYZ", rg.choice([(127, 0, 0), (0, 127, 0), (0, 0, 127), (73, 73, 73), (90, 0, 90), (0, -90, 90)]))))) if rg.random() < 0.6 else None,
                     actuatorResolution=some(new(rg, "Vector", X=6, Y=5, Z=4)) if res else None)
            if res and rg.random() < 0.7:
                ch["actuatorTarget"] = some([vec(4) for _ in range(rg.choice([0, 1, 2]))])
            chans.append(ch)
        pers.append(new(rg, "Perception", id=j, avatarId=rg.choice([a["id"] for a in avs] + [0]), effectSemanticScheme=None,
                        perceptionModality=rg.choice([6, 9, 10, 11]), channels=chans, referenceDevices=devs,
                        effectLibrary=[effect(rg, False, [], 0) | {"id": i} for i in lib]))
    S.MODE.update(old)
    return new(rg, "Haptics", version=text("2023"), profile=text(prof), level=level, date=text("2023-01-02"), perceptions=pers, avatars=avs,
               timescale=rg.choice([None, some(1000)]), syncs=[])


def vary(rg, v, depth=0):
    """one departure somewhere in a value"""
    if isinstance(v, dict):
        ks = [k for k in v if k != "#"]
        rg.shuffle(ks)
        for k in ks:
            x = v[k]
            if isinstance(x, (list, dict)) and depth < 6 and rg.random() < 0.5:
                if isinstance(x, list) and (k in S.LHINT and rg.random() < 0.5) and x:
                    n = rg.choice(sorted(S.LHINT[k]))
                    if 0 < n < 300:
                        v[k] = [copy.deepcopy(x[j % len(x)]) if n < 40 else x[0] for j in range(n)]
                        for j, y in enumerate(v[k][:40]):
                            if isinstance(y, dict) and "id" in y and n < 40:
                                y["id"] = j
                        return True
                if vary(rg, x, depth + 1):
                    return True
            t = S.records().get(v.get("#"), {}).get(k)
            if t and rg.random() < 0.5 and not isinstance(x, (list, dict)):
                if isinstance(x, tuple) and x[0] == "some" and not (isinstance(x[1], list) and x[1] and isinstance(x[1][0], int)) and rg.random() < 0.75:
                    if isinstance(x[1], (dict, list)):
                        if vary(rg, x[1], depth + 1):
                            return True
                    elif isinstance(x[1], int):
                        v[k] = some(x[1] + rg.choice([1, -1, 5]))
                        return True
                    else:
                        v[k] = some(x[1] * rg.choice([0.5, 2, 20]))
                        return True
                elif isinstance(x, int) and rg.random() < 0.5 and t not in S._types["enums"]:
                    v[k] = max(0, x + rg.choice([1, -1]))
                else:
                    v[k] = S.rnd_value(rg, t, 9, k)
                return True
        return False
    if isinstance(v, list) and v:
        r = rg.random()
        if r < 0.25:
            v.append(copy.deepcopy(rg.choice(v)))
            return True
        if r < 0.35:
            v.pop(rg.randrange(len(v)))
            return True
        x = rg.choice(v)
        if isinstance(x, (dict, list)):
            return vary(rg, x, depth + 1)
    return False


STEP = {"Haptics": None, "Perception": ("Haptics", "perceptions"), "Channel": ("Perception", "channels"), "Band": ("Channel", "bands"),
        "Effect": ("Band", "effects"), "Avatar": ("Haptics", "avatars"), "ReferenceDevice": ("Perception", "referenceDevices")}


def args(*classes, library=False):
    """values for parameters p0, p1, ... of these classes, all taken from one model"""
    def go(rg):
        h = model(rg)
        for _ in range(rg.choice([0, 1, 1, 1, 2, 3])):
            vary(rg, h)
        got = {"Haptics": h}

        def get(c):
            if c not in got:
                up, f = ("Perception", "effectLibrary") if c == "Effect" and library else STEP[c]
                l = get(up)[f]
                got[c] = rg.choice(l) if l else new(rg, c)
            return got[c]
        return {"p%d" % j: copy.deepcopy(get(c)) for j, c in enumerate(classes)}
    return go

"""Extraction of audio, images and everything: P29 - driver mode extract, specification Extract."""
from runner import MC, Suite

def n(ctx, q, t):
    return q if ctx.quick else t

BITS = {1: 8, 2: 8, 3: 8, 4: 8, 5: 16, 6: 16, 9: 24, 13: 32, 14: 32, 17: 32, 19: 64}

def audio(r):
    sf, ch = r.choice(sorted(BITS)), r.choice([1, 1, 2, 3, 8])
    frame = BITS[sf] // 8 * ch
    return {"k": "audio", "v": [sf, ch, r.choice([0, 0, frame, frame + 1, frame + r.randint(2, 9)]), r.choice([1, 8000, 44100, 48000]), r.choice([1, 2, 3, 7, 20])]}

def image(r):
    w, h = r.randint(1, 9), r.randint(1, 6)
    return {"k": "raw", "v": [w, h, r.choice([0, 0, w, w + 1, w + 5])]} if r.random() < .7 else {"k": r.choice(["jpg", "png"]), "v": [r.randint(1, 40)]}

def size(b):
    v = b["v"]
    if b["k"] == "audio":
        return (v[2] or BITS[v[0]] // 8 * v[1]) * v[4]
    return (v[2] or v[0]) * v[1] if b["k"] == "raw" else v[0]

def stream(r, t, kind):
    fs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if kind == "audio" and fs and r.random() < .6:   # one detail changed
            b = {"k": "audio", "v": list(fs[0][0]["v"])}
            i = r.choice([1, 2, 3, 4, 4])
            v = b["v"]
            frame = BITS[v[0]] // 8 * v[1]
            v[i] = {1: v[1] + 1, 2: (v[2] or frame) + r.choice([0, 1]), 3: v[3] + 1, 4: v[4] + 1}[i]
            if v[2] and v[2] < BITS[v[0]] // 8 * v[1]:
                v[2] = 0
        else:
            b = {"audio": audio, "image": image}[kind if kind != "mixed" else r.choice(["audio", "image"])](r) if kind != "custom" else {"k": "custom", "v": [r.randint(1, 9)]}
        f = [b] * r.choice([1, 1, 1, 2])
        if r.random() < .2:
            f = f + [{"k": "custom", "v": [r.randint(1, 9)]}]
        fs.append(f)
    return {"t": t, "formats": fs}

def gen(quick, thorough):
    def g(ctx):
        r = ctx.rng("extract")
        out = []
        for _ in range(n(ctx, quick, thorough)):
            o = [{"op": "begin"}]
            for _ in range(2):
                kinds = [r.choice(["audio", "audio", "image", "image", "mixed", "custom"]) for _ in range(r.choice([1, 2, 2, 3, 4]))]
                if r.random() < .3:
                    kinds = ["audio"] + ["image"] * r.randint(0, 2)
                ss = [stream(r, t, k) for t, k in zip(sorted(r.choice([200, 200, 201, 370, 1000]) for _ in kinds), kinds)]
                recs, steady = [], r.random() < .5
                for _ in range(r.choice([0, 1, 4, 8, 16])):
                    s = r.randint(1, len(ss))
                    f = 1 if steady else r.randint(1, len(ss[s - 1]["formats"]))
                    recs.append({"s": s, "f": f, "ts": r.choice([r.randint(0, 9), r.randint(0, 90), r.randint(0, 9000)]), "n": sum(size(b) for b in ss[s - 1]["formats"][f - 1])})
                o.append({"op": "make", "streams": ss, "recs": recs})
                for how in r.sample(["audio", "track", "raw", "png", "all"], 4):
                    sel = sorted(r.sample(range(1, len(ss) + 1), r.randint(1, len(ss)))) if r.random() < .4 else list(range(1, len(ss) + 1))
                    au = [k for k in sel if any(b["k"] == "audio" for f in ss[k - 1]["formats"] for b in f)]
                    if how == "track" and len(au) > 1 and r.random() < .8:
                        sel = [k for k in sel if k not in au or k == au[0]]
                    o.append({"op": "extract", "how": how, "sel": sel, "ext": r.random() < .5})
            out.append(o)
        return out
    return g

def p29(tier):
    return "model_checking", [MC("MCExtract", "MCExtract.cfg" if tier == "quick" else "MCExtractT.cfg", expect_states=1000)], [Suite("extract", "TraceExtract", gen(50, 1500), "extract")]

CHECKS = {"P29": p29}

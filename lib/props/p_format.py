"""Record formats: P22 - driver mode format, specifications RecordFormat, MCRecordFormat."""
from runner import MC, Suite

def n(ctx, quick, thorough):
    return quick if ctx.quick else thorough

SIM = """SPECIFICATION SimSpec
CONSTANTS
  MaxBlocks = 1
  MaxReads = 1
  Streams = {1, 2}
  KeepHist = TRUE
  MaxLen = %d
CHECK_DEADLOCK FALSE
"""

CUSTOM, EMPTY, LAYOUT, IMAGE, AUDIO = range(5)
RAW, VIDEO, CODEC = 1, 4, 6
W, H, S1, S2, PIX, CNAME, Q, BPP, BPP8, KTS, KIX, AF, SF, AS, CH, RATE, COUNT, PAIRS, SIZE, OTHER, TEXT, W8 = range(1, 23)
PACK = [(1, 1), (1, 3), (1, 4), (1, 3), (1, 1), (1, 4), (1, 6), (1, 6), (1, 2), (1, 2), (1, 2), (1, 12), (1, 8), (2, 4), (1, 1), (1, 16), (1, 1), (4, 5), (4, 5), (4, 5), (1, 1), (1, 1), (4, 5), (1, 1), (1, 2), (1, 1)]
BITS = [8] * 4 + [16] * 4 + [24] * 4 + [32] * 6 + [64] * 2
NOIMG, NOAUD = [0, 0, 0, 0, 0, 0, 255, -1, 0], [0] * 6

def line(p, w):
    g, b = PACK[p - 1]
    return (w + g - 1) // g * b

def chroma(p, w):
    return (w + 1) // 2 if p == 5 else (w + 1) // 2 * 2 if p in (21, 22) else 0

def raw_size(p, w, h, s, s2):
    return (s or line(p, w)) * h + (2 if p == 5 else 1 if p in (21, 22) else 0) * (s2 or chroma(p, w)) * ((h + 1) // 2)

def block(t, size=-1, img=None, codec=(), aud=None, name=(), how=0):
    return {"t": t, "size": size, "img": img or list(NOIMG), "codec": list(codec), "aud": aud or list(NOAUD), "name": list(name), "how": how}

def image_params(r):
    p, w, h = r.randint(1, 26), r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 33]), r.choice([1, 2, 3, 4, 5])
    s = r.choice([0, 0, 0, 0, line(p, w) + r.choice([0, 1, 3, 16])])
    s2 = r.choice([0, 0, 0, chroma(p, w) + r.choice([0, 1, 4])]) if chroma(p, w) else 0
    return [p, w, h, s, s2]

def audio_params(r):
    sf, ch = r.randint(1, 20), r.choice([1, 1, 2, 3, 6, 8])
    st = BITS[sf - 1] // 8 * ch
    return [sf, ch, r.choice([0, 0, 0, st, st + r.choice([0, 1, ch, 3 * ch])]), r.choice([8000, 16000, 44100, 48000, 1])]

def name(r, long=True):
    k = r.choice([1, 3, 8, 20, 20] + ([60, 193, 194, 199, 250] if long else []))
    return [r.choice(b"ABCHxyz019._-") if r.random() < .9 or not long else r.randrange(1, 256) for _ in range(k)]

def custom_name(r):
    return [r.choice(b"abcXYZ0189_-*.,;:!@~#&|[]{}'") for _ in range(r.choice([1, 5, 30, 200]))]

def image(r, role, text):
    """role: a block of a record that will be written; text: any block"""
    f = r.choice([0, 1, 1, 1, 1, 2, 3, 4, 4, 5, 6])
    img = list(NOIMG)
    img[0] = f
    size, codec = -1, []
    if f == 0:
        return block(IMAGE, r.choice([-1, -1, r.randrange(50)]), img, how=r.randint(0, 1))
    if r.random() < .5 or (text and r.random() < .5):
        p, w, h, s, s2 = image_params(r)
        if text and r.random() < .3:
            w, h = r.choice([(2147483647, 1), (640, 480), (4096, 3000), (1, 2147483647)])
            s = s2 = 0
        img[1:4] = [p if r.random() < .8 else 0, w, h]
        if r.random() < .2:
            img[2:4] = [0, 0]
        if f in (RAW, VIDEO, CODEC) and img[1] and img[2]:
            img[4:6] = [s, s2]
    if f in (VIDEO, CODEC):
        codec = name(r, text) if r.random() < .6 else []
        img[6] = r.choice([255, 255, 0, 1, 50, 99, 100])
    if f == VIDEO and r.random() < .3 and text:
        img[7:9] = [r.choice([0, 1, 2, 3, 4, 4000001, 2147483647]), r.choice([0, 1, 77, 2147483647])]
    if f != RAW and r.random() < .3 or (text and r.random() < .2):
        size = r.choice([0, 1, 7, 100, 2147483647 if text else 64])
    if f == RAW and not text and img[1] and img[2] and r.random() < .1:
        size = raw_size(*img[1:6])
    return block(IMAGE, size, img, codec, how=r.randint(0, 1))

def audio(r, text):
    f = r.choice([0, 1, 1, 1, 2])
    aud, size = list(NOAUD), -1
    aud[0] = f
    if f:
        sf, ch, st, rate = audio_params(r)
        if text and r.random() < .2:
            ch = r.choice([c for c in [1, 3, 16, 31, 32, 33, 64, 100, 127, 128, 255] if BITS[sf - 1] // 8 * c < 256])
            st = 0
        c = r.random()
        if c < .6:
            aud[1:5] = [sf, ch, st, rate]
        elif c < .8:
            aud[1:5] = [0, ch, r.choice([0, 4, 255]), rate]
        elif c < .9:
            aud[1:5] = [sf, 0, r.choice([0, 7]), 0]
        if r.random() < .4:
            aud[5] = r.choice([1, 2, 16, 100])
        if aud[1] == 0 and aud[2] == 0 and aud[4] == 0:
            aud[3] = 0
    if f != 1 and r.random() < .3 or text and r.random() < .1:
        size = r.choice([0, 3, 40])
    return block(AUDIO, size, None, (), aud)

def any_block(r, text=False):
    t = r.choice([CUSTOM, CUSTOM, EMPTY, LAYOUT, LAYOUT, IMAGE, IMAGE, IMAGE, AUDIO, AUDIO])
    if t == CUSTOM:
        return block(t, r.choice([-1, -1, 0, 1, 13, 100]), name=custom_name(r) if r.random() < .4 else ())
    if t == IMAGE:
        return image(r, None, text)
    if t == AUDIO:
        return audio(r, text)
    return block(t, r.choice([-1, -1, 5, 48]) if text and t == LAYOUT else -1)

# ---- text and sizes
def is_big(b):
    return b["img"][2] > 10000 or b["img"][3] > 10000

def gen_text(quick, thorough):
    def g(ctx):
        r = ctx.rng("formattext")
        out = []
        for _ in range(n(ctx, quick, thorough)):
            o = [{"op": "begin"}]
            for _ in range(12):
                bs = [any_block(r, True) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6]))]
                big = any(is_big(b) or b["size"] > 1000000 for b in bs)
                o.append({"op": "text", "blocks": bs, "big": big, "lefts": [r.choice([0, 1, 2, 5, 20, 100, 300, 5000]) for _ in range(4)]})
            o.append({"op": "tag", "type": r.choice([1, 2, 3]), "ver": r.choice([0, 1, 2, 99, r.randrange(1 << 31), 2147483647]), "blk": r.choice([0, 1, 12, 300])})
            out.append(o)
        return out
    return g

def gen_wide(ctx):
    """known finding: sample frames of more than 255 bytes"""
    return [[{"op": "begin", "finding": "audio-wide-frames"}, {"op": "text", "blocks": [block(AUDIO, -1, None, (), [1, 9, 100, 0, 48000, 10])], "big": False, "lefts": [3000]}]]

# ---- records
def layout_fields(r, role):
    """fields of a layout: role 0 anything, 1 image, 2 audio, 3 next size, 4 video"""
    pick = lambda *fs: [f for f in fs if r.random() < .85]
    c = r.choice([0, 0, 1, 1, 1, 2, 2, 3, 4]) if role is None else role
    fs = []
    if c == 1:
        fs = pick(W, H, PIX, S1, S2) + ([r.choice([BPP, BPP8])] if r.random() < .2 else []) + ([CNAME] if r.random() < .5 else []) + ([Q] if r.random() < .4 else [])
    elif c == 2:
        fs = pick(SF, CH, RATE) + [f for f in (AF, AS, COUNT, PAIRS) if r.random() < .4]
    elif c == 4:
        fs = [KTS, KIX] + pick(W, H, PIX, CNAME)
    if r.random() < (.7 if c == 3 else .25):
        fs.append(SIZE)
    if r.random() < .15:
        fs.append(COUNT)
    fs += [f for f in (OTHER, TEXT) if r.random() < .3]
    if W not in fs and r.random() < .1:
        fs.append(W8)
    fs = list(dict.fromkeys(fs))
    r.shuffle(fs)
    return fs

def new_format(r, typ):
    k = r.choice([1, 1, 2, 2, 2, 3, 3, 4, 6])
    bs, fs = [], []
    while len(bs) < k:
        c = r.random()
        if typ == 2 and c < .7:
            pair = [(block(LAYOUT), layout_fields(r, r.choice([1, 1, 2, None])))]
        elif c < .3:
            b = image(r, None, False)
            pair = [(block(LAYOUT), layout_fields(r, r.choice([1, 3, 4] if b["img"][0] == VIDEO else [1, 3, None]))), (b, [-1])]
        elif c < .45:
            pair = [(block(LAYOUT), layout_fields(r, r.choice([2, 2, 3]))), (audio(r, False), [-1])]
        else:
            b = any_block(r)
            pair = [(b, layout_fields(r, None) if b["t"] == LAYOUT else [-1])]
        for b, f in pair:
            if b["t"] == LAYOUT:
                if r.random() < .02:
                    f = [-1]
                elif r.random() < .15 and not {CNAME, TEXT} & set(f):
                    b["size"] = sum(8 if x == KTS else 1 if x in (BPP8, AF, SF, AS, CH, PAIRS, W8) else 4 for x in f)
            bs.append(b)
            fs.append(f)
    return {"type": typ, "ver": 1, "blocks": bs, "fields": fs}

def content(r, f, par, typ):
    """lengths and values of a record of format f"""
    bs = f["blocks"]
    lens = []
    count = r.choice([1, 2, 5, 16])
    for b in bs:
        t = b["t"]
        if t == EMPTY:
            lens.append(0)
        elif t == LAYOUT:
            lens.append(-1)
        elif b["size"] != -1:
            lens.append(b["size"])
        elif t == IMAGE and b["img"][0] == RAW:
            g = b["img"]
            lens.append(raw_size(*g[1:6]) if g[1] and g[2] and g[3] else raw_size(*par["img"]))
        elif t == AUDIO and (b["aud"][0] == 1 or par["af"] == 1):
            a = b["aud"]
            own = a[0] == 1 and a[1] and a[2]
            st = (a[3] or BITS[a[1] - 1] // 8 * a[2]) if own else par["aud"][2] or BITS[par["aud"][0] - 1] // 8 * par["aud"][1]
            k = a[5] if own and a[5] else count
            if a[0] == 1 and not own and a[3] and a[5]:
                lens.append(a[3] * a[5])
            elif a[0] == 1 and a[1] == 0 and a[3]:
                lens.append(a[3] * count)
            else:
                lens.append(st * k)
        else:
            lens.append(r.choice([0, 1, 5, 30, 200, r.randrange(1000)]))
    # sizes declared by formats of PCM blocks with a stride but no sample format
    vals = []
    for k, b in enumerate(bs):
        v = []
        for x in f["fields"][k] if b["t"] == LAYOUT else []:
            p, w, h, s, s2 = par["img"]
            sf, ch, st, rate = par["aud"]
            odd = r.random() < par["odd"]
            val = {W: w, H: h, PIX: p, S1: s, S2: s2, BPP: {1: 1, 4: 3, 3: 4, 13: 8}.get(p, 0), BPP8: {1: 1, 4: 3, 3: 4, 13: 8}.get(p, 0), Q: r.choice([0, 50, 100, 101, 255]), KTS: r.randrange(4000), KIX: r.randrange(9),
                   AF: par["af"], SF: sf, AS: st, CH: ch, RATE: rate, COUNT: 0 if typ == 2 else r.choice([count, count, 0]), PAIRS: 0, SIZE: 0, OTHER: r.randrange(1 << 31), W8: 9}.get(x)
            if x in (CNAME, TEXT):
                v.append(r.choice([[], [72, 46, 50, 54, 52], [72, 46, 50, 54, 53]]) if x == CNAME else [r.randrange(256) for _ in range(r.choice([0, 1, 9]))])
                continue
            if x == SIZE:
                nxt = lens[k + 1] if k + 1 < len(bs) else 0
                val = max(nxt, 0) if not odd else r.choice([0, 1, max(nxt, 0) + 1])
            elif odd:
                val = r.choice([0, 0, val, r.randrange(30)])
            v.append([val])
        vals.append(v)
    return lens, vals

def fcopies(r, recs, fm):
    """copies with a filter: records without a usable format must be kept verbatim (empty records always are)"""
    ns = range(1, len(recs) + 1)
    plain = [k for k, x in enumerate(recs, 1) if sum(x["lens"]) > 0 and (not (fm.get((x["s"], x["type"], x["ver"])) or {"blocks": []})["blocks"] or all(b["t"] == EMPTY for b in fm[x["s"], x["type"], x["ver"]]["blocks"]))]
    for _ in range(r.choice([1, 2, 3])):
        some = lambda p: [k for k in ns if r.random() < p]
        edits = []
        if r.random() < .6:
            edits = [e for e in ([OTHER, [r.randrange(1 << 31)]], [TEXT, [r.randrange(256) for _ in range(r.choice([0, 1, 5, 40]))]], [W, [r.choice([0, 1, 3, 77])]],
                                  [CNAME, r.choice([[], [72], [72, 46, 50, 54, 52]])], [CH, [r.choice([0, 1, 2, 3])]], [SIZE, [r.choice([0, 1, 10])]]) if r.random() < .5]
        yield {"op": "fcopy", "verb": sorted(set(plain + some(r.choice([0, 0, .1, .5])))), "skip": some(r.choice([0, 0, 0, .3])), "hdr": some(r.choice([0, 0, .3])), "edits": edits,
               "shift": r.choice([0, 0, 1, 1000, -3]), "newt": r.choice([0, 0, 100]), "comp": r.choice([0, 1, 4, 7]), "pool": r.choice([0, 1, 4])}

def decodes(r, recs, fm):
    yield {"op": "decode"}

def tame(r, f):
    """a format whose blocks are likely to be decodable: raw images, other blocks with a size, layouts declared"""
    for k, b in enumerate(f["blocks"]):
        if b["t"] == IMAGE and b["img"][0] != RAW:
            f["blocks"][k] = block(CUSTOM, r.choice([0, 1, 20]))
        elif b["t"] == LAYOUT and f["fields"][k] == [-1]:
            f["blocks"][k] = block(EMPTY)
        elif b["t"] == IMAGE and k and f["blocks"][k - 1]["t"] == LAYOUT and r.random() < .8:
            f["fields"][k - 1] = [W, H, PIX] + [x for x in f["fields"][k - 1] if x not in (W, H, PIX)]
    return f

def gen(quick, thorough, length=36, then=None):
    def g(ctx):
        r = ctx.rng("format")
        out = []
        for h in ctx.sim("MCRecordFormat", SIM % length, n(ctx, quick, thorough), length + 2):
            used = {(x["s"], x["type"], x["ver"]) for x in h if x["op"] == "rec"}
            o, fm, par = [{"op": "begin"}], {}, {}
            shared = r.randint(0, 1)
            good = then is decodes and r.random() < .75
            for s in sorted({x[0] for x in used}):
                fs = []
                for typ in (1, 2, 3):
                    for ver in (1, 2):
                        if (s, typ, ver) in used and r.random() < .96 or r.random() < .1:
                            f = new_format(r, typ) if r.random() < .97 else {"type": typ, "ver": ver, "blocks": r.choice([[], [block(EMPTY)]]), "fields": []}
                            if good:
                                f = tame(r, f)
                            f["fields"] = f["fields"] or [[-1]] * len(f["blocks"])
                            f["ver"] = ver
                            fs.append(f)
                            fm[s, typ, ver] = f
                par[s] = {"img": image_params(r), "aud": audio_params(r), "af": r.choice([1, 1, 1, 2]), "odd": 0 if good else r.choice([0, 0, .05, .2])}
                o.append({"op": "stream", "s": s, "formats": fs, "comp": r.choice([0, 0, 1, 4, 7]), "shared": shared})
            recs = []
            ts = 0
            for x in h:
                if x["op"] == "rec":
                    s, typ, ver = x["s"], x["type"], x["ver"]
                    ts += 1
                    if typ == 2 and r.random() < .6:
                        par[s]["img"] = image_params(r)
                        if r.random() < .4:
                            par[s]["aud"] = audio_params(r)
                    f = fm.get((s, typ, ver))
                    if f and f["blocks"]:
                        lens, vals = content(r, f, par[s], typ)
                    else:
                        lens, vals = [r.choice([0, 1, 40])], [[]]
                        if f:
                            lens, vals = [], []
                    if r.random() < .02 and f and lens and f["blocks"][-1]["t"] == EMPTY:
                        pass
                    x = dict(x, ts=ts, lens=lens, vals=vals, kind=r.choice([0, 1, 2]))
                    recs.append(x)
                    o.append(x)
            k = 0
            for x in h:
                if x["op"] == "open":
                    k = 0
                    o.append({"op": "open", "one": r.random() < .4})
                elif x["op"] == "read" and recs:
                    k = k % len(recs) + 1 if x.pop("next") else r.randint(1, len(recs))
                    o.append(dict(x, n=k))
            if then:
                o = [x for x in o if x["op"] not in ("open", "read")] + list(then(r, recs, fm))
            # formats that can't have a layout block that isn't declared written by the driver
            for x in o:
                if x["op"] == "rec":
                    f = fm.get((x["s"], x["type"], x["ver"]))
                    if f:
                        x["lens"] = [(0 if f["fields"][i] == [-1] else -1) if f["blocks"][i]["t"] == LAYOUT else l for i, l in enumerate(x["lens"])]
                        x["vals"] = [[] if f["fields"][i] == [-1] else v for i, v in enumerate(x["vals"])]
            out.append(o)
        return out
    return g

S = lambda gen, name, **kw: Suite("format", "TraceFormat", gen, name, **kw)

def p22(tier):
    q = tier == "quick"
    s = [S(gen_text(300, 5000), "text"), S(gen(1200, 12000), "records"), S(gen_wide, "wide"), S(gen(500, 6000, 12, then=decodes), "decode")]
    if not q:
        s += [S(gen_text(0, 500), "text-asan", variant="asan"), S(gen(0, 3000), "records-asan", variant="asan"), S(gen(0, 1500, 12, then=decodes), "decode-asan", variant="asan")]
    return "model_checking", [MC("MCRecordFormat", "MCRecordFormat.cfg" if q else "MCRecordFormatT.cfg", expect_states=10000, timeout=200 if q else 900)], s

def copies(tier):
    return [S(gen(250, 3000, 26, then=fcopies), "rewrite")] + ([] if tier == "quick" else [S(gen(0, 800, 26, then=fcopies), "rewrite-asan", variant="asan")])

CHECKS = {"P22": p22}

"""Description records (P14): driver mode desc, specification Describe."""
from runner import Suite

def n(ctx, q, t):
    return q if ctx.quick else t

B = lambda s: list(s.encode() if isinstance(s, str) else s)
KEYS = ["a", "b", "ab", "k", "key", "", "ø", "x y", "\"q\"", "b\\s", "new\nline", "tags", "name"]
NAMES = ["Camera", "Camera #1", "a #1", " #1", "x #", "x # 2", "a #1 #22", "a #1 #2b", "#1", "a#1", "Some Device - Left #12", "", "é #3", "a #1 ", "abc", "a #", "ab #x #9"]
TEST = 65500  # see Type in the specification

def word(r):
    c = r.random()
    if c < .5:
        return B(r.choice(KEYS + NAMES))
    if c < .9:
        return B("".join(r.choice("abc=#/ ,;é") for _ in range(r.randint(0, 8))))
    return [r.randrange(1, 256) for _ in range(r.randint(1, 9))] if r.random() < .7 else B("v" * r.choice([255, 256, 1900]))

def tags(r, plain):
    ok = lambda w: all(x < 128 for x in w) or not plain
    out = {}
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        k, v = word(r), word(r)
        if plain and not all(x < 128 for x in k + v):
            k, v = B("plain"), B("text")
        out[bytes(k)] = v
    return [[list(k), out[k]] for k in sorted(out)]

def gen(quick, thorough):
    def g(ctx):
        r = ctx.rng("desc")
        out = []
        for _ in range(n(ctx, quick, thorough)):
            o = [{"op": "begin"}]
            pool = []
            for _ in range(8):
                ver = r.choice([1, 2, 2])
                ft = tags(r, ver == 1)
                ss, seen = [], set()
                for _ in range(r.choice([0, 1, 2, 3, 6])):
                    rt = r.choice([200, 201, 370, 1000, 214, 100000, 100003, 65500, 65501]) if r.random() < .9 else r.randrange(1, 60000)
                    t = rt - 100000 + TEST if rt >= 100000 else rt
                    i = r.choice([1, 2, 3, 9, 255, 65535])
                    if (t, i) in seen:
                        continue
                    seen.add((t, i))
                    s = {"user": tags(r, ver == 1), "name": [B(r.choice(NAMES))] if ver == 1 or r.random() < .8 else [], "flavor": [], "serial": [], "other": []}
                    if ver == 2:
                        for k, p in (("flavor", .4), ("serial", .5), ("other", .3)):
                            if r.random() < p:
                                s[k] = [B("0123456789abcdef-%d" % r.randrange(10000)) if k == "serial" and r.random() < .8 else word(r) if r.random() < .8 else []]
                        if r.random() < .1 and s["user"]:
                            s["user"][0][1] = s["user"][0][1] + [0, 7]
                    elif any(x >= 128 for x in s["name"][0]):
                        s["name"] = [B("plain #8")]
                    s.update(t=t, i=i, rt=rt)
                    ss.append(s)
                c = r.random()
                if pool and c < .5:   # like one before, but for a detail
                    old = r.choice(pool)
                    ver, ft = old["ver"], old["tags"]
                    ss = [dict(s) for s in old["streams"]]
                    if c < .1 and ss:
                        r.choice(ss)["user"] = tags(r, True)
                    elif c < .2:
                        ft = tags(r, True)
                    elif c < .3 and ss:
                        ss.pop(r.randrange(len(ss)))
                    elif c < .4 and ver == 2 and ss:
                        x = r.choice(ss)
                        x["serial"] = [] if x["serial"] else [B("given")]
                # distinct streams with equal given serial numbers, or numbers given twice, are as they are
                if r.random() < .6:
                    ss = sorted(ss, key=lambda s: (s["t"], s["i"]))
                x = {"op": "desc", "ver": ver, "extra": r.choice([0, 0, 0, 8, 40]), "junk": r.random() < .3, "streams": ss, "tags": ft, "eof": -1}
                x["odd"] = any(s["rt"] != s["t"] for s in ss) or [(s["t"], s["i"]) for s in ss] != sorted((s["t"], s["i"]) for s in ss)
                if r.random() < .1:
                    x["eof"] = r.choice([1, 4, 30, 100000])
                else:
                    pool.append(x)
                o.append(x)
            out.append(o)
        return out
    return g

def suites(tier):
    return [Suite("desc", "TraceDescribe", gen(40, 1200), "records")]

CHECKS = {}

"""Details of remote files saved in a cache: P25 - driver mode read, specifications FileCache, MCFileCache."""
from runner import MC, Suite
from p_read import n, simcfg, make_file, a_query, a_read, small, mixed

FT = ["capture_time_epoch", "session_id", "z"]

def gen(quick, thorough, length=40):
    def g(ctx):
        r = ctx.rng("cache")
        out = []
        for h in ctx.sim("MCReader", simcfg(length), n(ctx, quick, thorough), length + 2):
            files, nid = {}, 0
            o = [{"op": "begin", "tm": r.choice([0, 0, 3])}]
            if r.random() < .95:
                o.append({"op": "cache", "on": True})
            for f in (1, 2, 3):
                mf, nid = make_file(r, f, nid, mixed if r.random() < .15 else small, maxrec=r.choice([3, 8, 14, 40]))
                mf["ftags"] = [[k, r.choice(["a", "", "b\u00e9c", "x" * 300])] for k in r.sample(FT, r.randint(0, 3))]
                if r.random() < .35:
                    mf["cut"] = r.choice([0, 0, 1, 5, 31, 32, 40])
                files[f] = mf
                o.append(mf)
            cur = None
            for x in h:
                if x["op"] == "open":
                    f = x["f"]
                    c = r.random()
                    if c < .12:
                        o.append({"op": "spoil", "f": f, "how": r.choice(["cut", "cut", "extend", "magic", "remove", "headers"]), "k": r.choice([0, 1, 100, 300, 500, 800, 950, 990, 999, r.randrange(1000)])})
                    elif c < .18:
                        o.append({"op": "twin", "f": f, "prefetch": r.random() < .2})
                        o.append({"op": "cached", "f": f})
                    elif c < .2:
                        o.append({"op": "cache", "on": r.random() < .7})
                    y = {"op": "open", "f": f, "fresh": r.random() < .3, "remote": r.random() < .85, "fast": r.random() < .25, "sorted": r.random() < .3, "prefetch": r.random() < .15}
                    if r.random() < .1:
                        y["fault"] = r.choice([1, 2, 3, 4, 5, 6, 8])
                        y["kinds"] = r.choice(["w", "wf", "o", "c", "wfc"])
                    o.append(y)
                    cur = files[f]
                elif x["op"] == "close":
                    o.append({"op": "close"})
                    o.append({"op": "cached", "f": [f for f in files if files[f] is cur][0]})
                    cur = None
                elif x["op"] == "q":
                    c = r.random()
                    if c < .06:
                        o.append({"op": "details", "has": r.random() < .5, "fill": r.choice([0, 1, 255]), "all": r.random() < .05})
                    elif c < .15:
                        o.append({"op": "q", "q": "ftag", "key": r.choice(FT)})
                    else:
                        q = a_query(r, cur)
                        if q["q"] == "near" and o[0]["tm"]:
                            q["q"] = "bts" if q["s"] else "bt"
                        o.append(q)
                elif x["op"] == "read" and cur["recs"]:
                    o.append(a_read(r, cur, x["i"] % len(cur["recs"])))
            o.append({"op": "close"})
            out.append(o)
        return out
    return g

def gen_bulk(quick, thorough):
    def g(ctx):
        r = ctx.rng("bulkdetails")
        ns = [0, 1, 2, 49999, 50000, 50001, 99999, 100000, 100001, 123456]
        return [[{"op": "begin", "tm": 0}, {"op": "bulk", "n": ns[k] if k < len(ns) else r.choice([r.randrange(200), r.randrange(200000), 50000 * r.randint(1, 6) + r.randint(-1, 1)]),
                  "seed": r.randrange(1 << 30), "streams": r.choice([0, 1, 5, 300])}] for k in range(n(ctx, quick, thorough))]
    return g

S = lambda gen, name, **kw: Suite("read", "TraceCache", gen, name, **kw)

def p25(tier):
    q = tier == "quick"
    s = [S(gen(260, 6000), "cache"), S(gen_bulk(12, 200), "bulk")]
    if not q:
        s += [S(gen(0, 400), "cache-tsan", variant="tsan"), S(gen(0, 400), "cache-asan", variant="asan")]
    return "model_checking", [MC("MCFileCache", "MCFileCache.cfg", expect_states=10000, timeout=120), MC("MCFileCache", "MCFileCacheNoIndex.cfg", expect_states=10000, timeout=120)], s

CHECKS = {"P25": p25}

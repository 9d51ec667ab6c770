"""Several files read together: P19 - driver mode multi, specifications MultiFile, MCMulti."""
from runner import MC, Suite
from p_read import n, simcfg, make_file, a_query, a_read, pieces, small, mixed, FLAVORS

EPOCH, SESSION = "capture_time_epoch", "session_id"

def mq(r, fs, files, tm):
    q = r.choice(["nthg", "nth", "nthty", "nthty", "last", "firstg", "lastg", "bt", "bt", "bts", "btsty", "near", "near", "near", "gi", "gi", "cnt", "cntty", "cntg",
                  "size", "stag", "sname", "splus", "ssn", "serial", "sty", "idx", "fl", "tag", "ftag", "uid", "uid", "total", "fmts", "chunks", "chunks"])
    if q == "near" and tm:  # distances are only meaningful where the clock is not rescaled
        q = "bts"
    recs = [x for f in fs for x in files[f]["recs"]]
    top = len(recs)
    ts = 10 * r.randint(-1, 31) + r.choice([0, 0, 0, 1, 5, -1])
    if recs and r.random() < .7:
        ts = r.choice(recs)[2] + r.choice([0, 0, 0, 1, -1, 5])
    s = 10 * r.randint(1, max(1, len(fs))) + r.choice([1, 2, 3, 4, 9])
    return {"op": "q", "q": q, "s": r.choice([0, s]) if q == "near" else s, "ty": r.choice([0, 1, 2, 3]) if q == "near" else r.choice([1, 2, 3, 3]),
            "n": r.randint(0, top + 1) if q != "splus" else r.randint(0, 5), "ts": ts, "eps": r.choice([-1, 0, 0, 1, 4, 5, 6, 10, 15, 100, 100000]),
            "t": r.choice([0, 200, 201, 65500, 300]) if q in ("stag", "sty") else r.choice([200, 201, 65500, 300]),
            "fl": r.choice(FLAVORS + ["f", "x/", "fab", "/y"] + ([""] if q == "sty" else [])), "key": r.choice(["k", "q", "z"]) if q != "ftag" else r.choice([EPOCH, SESSION, "z", "y"]), "val": r.choice(["v1", "v2", "zz", ""])}

def gen(quick, thorough, length=40):
    def g(ctx):
        r = ctx.rng("multi")
        hs = ctx.sim("MCReader", simcfg(length), n(ctx, quick, thorough), length + 2)
        out = []
        for h in hs:
            files, nid = {}, 0
            o = [{"op": "begin", "tm": r.choice([0, 0, 0, 1, 2, 3])}]
            nf = r.choice([2, 3, 4, 5])
            conflict = r.random() < .3
            for f in range(1, nf + 1):
                mf, nid = make_file(r, f, nid, mixed if r.random() < .15 else small, maxrec=r.choice([3, 8, 14]))
                ft = []
                if r.random() < .6:
                    ft.append([EPOCH, r.choice(["e1", "e2"]) if conflict and r.random() < .5 else r.choice(["e1", "e1", ""])])
                if r.random() < .5:
                    ft.append([SESSION, r.choice(["s1", "s2"]) if conflict and r.random() < .3 else "s1"])
                if r.random() < .6:
                    ft.append(["z", r.choice(["z1", "z2"])])
                if r.random() < .3:
                    ft.append(["y", "y%d" % f])
                mf["ftags"] = ft
                files[f] = mf
                o.append(mf)
            cur, dead = None, set()
            for x in h:
                if x["op"] == "open":
                    if r.random() < .05:
                        f = r.choice(list(files))
                        dead.add(f)
                        o.append({"op": "damage", "f": f})
                    fs = r.sample(list(files), r.randint(1, nf)) if r.random() < .93 else []
                    if r.random() < .08:
                        fs.insert(r.randint(0, len(fs)), 9)
                    op = {"op": "mopen", "fs": fs, "fresh": r.random() < .2, "via": r.choice([0, 1, 2])}
                    if r.random() < .2:
                        op["related"] = r.choice([[], ["z"], [EPOCH], ["z", SESSION], [EPOCH, SESSION]])
                    o.append(op)
                    cur = [f for f in fs if f in files]
                    for k, f in enumerate(fs):
                        if f in files and r.random() < .8:
                            for s in files[f]["streams"]:
                                if r.random() < .7:
                                    o.append({"op": "player", "s": 10 * (k + 1) + s["s"], "p": r.choice([0, 1, 2, 3])})
                elif x["op"] == "close":
                    o.append({"op": "mclose"})
                    if r.random() < .5 and cur:
                        o.append(mq(r, cur, files, o[0]["tm"]))
                    if r.random() < .1:
                        o.append({"op": "mclose"})
                elif not cur:
                    continue
                elif x["op"] == "q":
                    c = r.random()
                    if c < .08:
                        o.append({"op": "conf", "what": r.choice(["stream", "type", "all"]), "s": 10 * r.randint(1, len(cur)) + x["s"], "t": r.choice([200, 201, 300]), "p": r.choice([0, 1, 2]), "ret": r.choice([0, 0, 6])})
                    elif c < .11:
                        o.append({"op": "caching", "n": r.randint(1, 5)})
                    elif c < .13:
                        o.append({"op": "mopen", "fs": r.sample(list(files), r.randint(1, nf)), "via": 0})
                    else:
                        o.append(mq(r, cur, files, o[0]["tm"]))
                elif x["op"] == "read":
                    total = sum(len(files[f]["recs"]) for f in cur)
                    if r.random() < .5 or not total:
                        o.append(mq(r, cur, files, o[0]["tm"]))
                    else:
                        y = {"op": "read", "i": r.randrange(total), "kind": r.choice(["full", "full", "two", "req", "decline"]), "p": r.choice([0, 0, 1, 2, 3]), "n": 0, "ret": r.choice([0, 0, 0, 77]), "setup": r.random() < .3}
                        if y["kind"] == "req":
                            y["n"] = r.choice([0, 1, 8, 30, 100])
                            y["pieces"] = pieces(r, 30)
                        elif y["kind"] == "two":
                            y["n"] = 0
                        if r.random() < .06:
                            y["alien"] = True
                        o.append(y)
            out.append(o)
        return out
    return g

MCS = lambda tier: [MC("MCMulti", "MCMulti.cfg" if tier == "quick" else "MCMultiT.cfg", expect_states=50000, timeout=300 if tier == "quick" else 3000, mem="6g"),
                    MC("MCMulti", "MCMulti2.cfg", expect_states=50000, timeout=300)]
R = lambda gen, name, **kw: Suite("multi", "TraceMulti", gen, name, **kw)

def p19(tier):
    return "model_checking", MCS(tier), [R(gen(260, 6000), "multi")]

CHECKS = {"P19": p19}

"""Reading finished files: P10 (lookups), P11 (contents) - driver mode read, specification Reader."""
from runner import MC, Suite
from p_rec import PRESETS, SLOW

def n(ctx, quick, thorough):
    return quick if ctx.quick else thorough

def simcfg(length):
    return """SPECIFICATION SimSpec
CONSTANTS
  MaxRecs = 8
  Streams = {1, 2, 3}
  Types = {1, 2, 3}
  MaxSize = 6
  MaxLen = %d
  KeepHist = TRUE
  Reset = TRUE
CHECK_DEADLOCK FALSE
""" % length

TYPES = {1: 200, 2: 201, 3: 200, 4: 65500}
FLAVORS = ["fa", "fb", "x/y"]

FORMATS = [("custom", 0, [0]), ("image/raw", 1, [0]), ("image/jpg", 1, [0]), ("audio/pcm", 2, [0]), ("data_layout", 0, [1, 2]), ("data_layout+image/raw", 1, [1, 2]),
           ("custom/size=10+data_layout", 0, [0]), ("image/png+custom", 1, [0]), ("data_layout+audio", 2, [2, 1]), ("empty", 0, [0])]

def formats(r):
    out = []
    for ty, ver in r.sample([(t, v) for t in (1, 2, 3) for v in (0, 1, 4000000000)], r.choice([0, 1, 1, 2, 4])):
        f, w, l = r.choice(FORMATS)
        out.append({"ty": ty, "ver": ver, "f": f, "im": w == 1, "au": w == 2, "l": [r.choice(l), r.choice([1, 2]) if "+data_layout" in f else 0]})
    return out

def make_file(r, f, nid, sizes, maxrec=14, presets=PRESETS, heavy=False):
    """a random file"""
    ss = []
    for s in sorted(r.sample([1, 2, 3, 4], r.choice([1, 2, 3, 3, 4]))):
        st = {"s": s, "t": TYPES[s], "fl": r.choice(FLAVORS), "tags": [[r.choice(["k", "q"]), r.choice(["v1", "v2", ""])] for _ in range(r.randint(0, 2))]}
        if r.random() < .4:
            st["fmts"] = formats(r)
        if r.random() < .85:
            st["preset"] = r.choice(presets + (SLOW if heavy and r.random() < .2 else []))
        ss.append(st)
    recs = []
    span = r.choice([2, 5, 30])
    for _ in range(r.choice([0, 1, 2, maxrec // 2, maxrec, maxrec])):
        nid += 1
        recs.append([r.choice(ss)["s"], r.choice([1, 2, 3, 3, 3]), 10 * r.randint(0, span), nid, sizes(r), r.randint(0, 2)])
    op = {"op": "make", "f": f, "streams": ss, "recs": recs, "mode": r.choice(["sync", "async", "batches", "batches"]), "batch": r.choice([1, 2, 3, 5]), "pool": r.choice([0, 0, 2]), "reset": r.random() < .7}
    return op, nid

def small(r):
    return r.choice([0, 1, 8, 30])
def mixed(r):
    return r.choice([0, 1, 2, 31, 100, 199, 200, 250, 300, 1000, 4095, 4096, 4097, 5000, 9000, 20000, 70000, 200000])

TELL = ["stag", "sff", "sname", "sty", "fl", "tag", "tag", "fmts", "fmts", "fmts"]   # queries on the description of streams

def a_query(r, mf, kinds=None):
    q = r.choice(kinds or ["nthg", "nth", "nthty", "nthty", "nthty", "last", "bt", "btty", "bts", "btsty", "near", "near", "near", "gi", "gsi", "cnt", "cntty", "cntg",
                  "ft", "lt", "size", "size", "sft", "sff", "stag", "sname", "splus", "ssn", "ssnx", "sty", "idx", "fl", "tag", "names", "fmts", "fmts", "chunks"])
    top = len(mf["recs"])
    ts = 10 * r.randint(-1, 31) + r.choice([0, 0, 0, 1, 5, -1])
    if mf["recs"] and r.random() < .7:
        ts = r.choice(mf["recs"])[2] + r.choice([0, 0, 0, 1, -1, 5])
    return {"op": "q", "q": q, "s": r.choice([0, 1, 2, 3, 4, 9]) if q == "near" else r.choice([1, 2, 3, 4, 1, 2, 9]),
            "ty": r.choice([0, 1, 2, 3]) if q == "near" else r.choice([1, 2, 3, 3]), "n": r.randint(0, top + 1) if q not in ("sft", "sff", "splus") else r.randint(0, 3),
            "ts": ts, "eps": r.choice([-1, 0, 0, 1, 4, 5, 6, 10, 15, 100, 100000]), "t": r.choice([0, 200, 201, 65500, 300]) if q in ("stag", "sty") else r.choice([200, 201, 65500, 300]),
            "fl": r.choice(FLAVORS + ["f", "x/", "fab", "/y"] + ([""] if q == "sty" else [])), "key": r.choice(["k", "q", "z"]), "val": r.choice(["v1", "v2", "zz", ""]), "ub": True}

def burst(r, mf):
    """the same few kinds of records asked again and again, forward and backward"""
    have = [(x[0], x[1]) for x in mf["recs"]]
    if not have: return []
    kinds = r.sample(have, min(len(have), r.choice([1, 1, 2, 3])))
    out, at = [], 0
    for _ in range(r.randint(4, 12)):
        k = r.choice(kinds)
        c = have.count(k)
        at = r.choice([at + 1, at + 1, at, at - 1, r.randint(0, c), r.randint(0, c), c - 1, 0])
        at = max(0, min(at, c))
        out.append({"op": "q", "q": r.choice(["nthty"] * 8 + ["nth", "last"]), "s": k[0], "ty": k[1], "n": at})
    return out

def pieces(r, left):
    out = []
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        k = r.choice([0, 1, left // 3, left // 2, max(left - 1, 0), left, left + 1, left + 1000, min(left, 4096), min(left, 7)])
        out.append([r.choice(["p", "v", "2"]), k])
        if k <= left:
            left -= k
    return out

def a_read(r, mf, i):
    size = sorted_sizes(mf)[i]
    kind = r.choice(["full", "two", "req", "req", "req", "decline"])
    op = {"op": "read", "i": i, "kind": kind, "p": r.choice([0, 1, 2, 3]), "n": 0, "ret": r.choice([0, 0, 0, 0, 77]), "setup": r.random() < .3}
    if kind == "two":
        op["n"] = r.randint(0, size)
    if kind == "req":
        op["n"] = r.choice([0, 1, size // 2, size, size + 1, max(0, size - 1), min(size, 32)])
        op["pieces"] = pieces(r, max(0, size - op["n"]))
    elif kind == "full":
        op["pieces"] = pieces(r, 0)[:1]
    if r.random() < .08:   # reads in the header callback, then declines
        op.update(kind="decline", n=0, pieces=[], hread=r.choice([0, 1, size // 2, size]))
    return op

def sorted_sizes(mf):
    """sizes in the order in which records are presented (approximate for ties between streams: only used to choose sizes)"""
    return [x[4] for x in sorted(mf["recs"], key=lambda x: x[2])]

def gen(quick, thorough, what, length=40):
    def g(ctx):
        r = ctx.rng("read" + what)
        hs = ctx.sim("MCReader", simcfg(length), n(ctx, quick, thorough), length + 2)
        out = []
        for h in hs:
            files, nid = {}, 0
            o = [{"op": "begin", "tm": 0 if what != "content" else r.choice([0, 1, 2, 3])}]
            for f in (1, 2, 3):
                mf, nid = make_file(r, f, nid, small if what != "content" else mixed, maxrec=r.choice([8, 14, 30]) if what != "content" else 8)
                files[f] = mf
                o.append(mf)
            cur, rd = None, None
            for x in h:
                if x["op"] == "open":
                    if r.random() < .04:
                        o.append({"op": "open", "f": 9})
                    cur = files[x["f"]]
                    o.append({"op": "open", "f": x["f"], "fresh": r.random() < .15})
                    if what != "content":
                        if r.random() < .5: o += burst(r, cur) if what == "lookup" else []
                    else:
                        for s in cur["streams"]:
                            if r.random() < .8:
                                o.append({"op": "player", "s": s["s"], "p": r.choice([0, 1, 2, 3])})
                elif x["op"] == "close":
                    o.append({"op": "close"})
                    if r.random() < .3:
                        o.append(a_query(r, cur, TELL if what == "describe" else None))
                    cur = None
                elif x["op"] == "q":
                    if what != "content":
                        if r.random() < .25:
                            o.append({"op": "q", "q": "nthty", "s": x["s"], "ty": x["ty"], "n": x["n"]})
                        elif r.random() < .2:
                            o += burst(r, cur) if what == "lookup" else []
                        else:
                            o.append(a_query(r, cur, TELL if what == "describe" else None))
                    else:
                        c = r.random()
                        if c < .25:
                            o.append({"op": "player", "s": r.choice(cur["streams"])["s"], "p": r.choice([0, 1, 2, 3])})
                        elif c < .35:
                            o.append({"op": "all", "ret": r.choice([0, 0, 5]), "kind": "full"})
                        elif c < .5:
                            o.append({"op": "conf", "what": r.choice(["stream", "type", "all"]), "s": x["s"], "t": r.choice([200, 201, 300]), "p": r.choice([0, 1, 2]), "ret": r.choice([0, 0, 6])})
                        elif c < .55:
                            o.append({"op": "caching", "n": r.randint(1, 5)})
                        elif c < .58:
                            o.append({"op": "clearplayers"})
                elif x["op"] == "read":
                    if what != "content":
                        o.append(a_query(r, cur, TELL if what == "describe" else None))
                    elif cur["recs"]:
                        o.append(a_read(r, cur, x["i"] % len(cur["recs"])))
            out.append(o)
        return out
    return g

MCS = lambda tier: [MC("MCReader", "MCReader.cfg" if tier == "quick" else "MCReaderT.cfg", expect_states=50000, timeout=200 if tier == "quick" else 3000, mem="6g")]
R = lambda gen, name, **kw: Suite("read", "TraceReader", gen, name, **kw)

def p10(tier):
    return "model_checking", MCS(tier), [R(gen(260, 6000, "lookup", 60), "lookup")]
def p11(tier):
    return "model_checking", MCS(tier), [R(gen(260, 6000, "content", 40), "content")]

CHECKS = {"P10": p10, "P11": p11}

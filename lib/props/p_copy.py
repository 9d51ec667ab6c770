"""Filtered reading, copies, merges, checksums, comparisons: P16, P17, P18, P27 - driver mode copy, specification Copy."""
import p_format
from runner import MC, Suite
from p_rec import PRESETS

def n(ctx, quick, thorough):
    return quick if ctx.quick else thorough

def simcfg(length):
    return """SPECIFICATION SimSpec
CONSTANTS
  MaxRecs = 1
  Times = {0}
  KeepHist = TRUE
  MaxLen = %d
CHECK_DEADLOCK FALSE
""" % length

FLAVORS = ["fa", "fb", "x/y"]
VERSIONS = [0, 1, 2, 4000000000]
KEYS = ["a", "a_merged", "b", "k", "a_merged-1"]
VALS = ["1", "2", "3", ""]

def tags(r, most=2):
    return [[k, r.choice(VALS)] for k in sorted(r.sample(KEYS, r.choice([0, 0, 1, most, r.randint(0, most)])))]

class Lib:
    """what is known of the files made, to choose parameters which matter"""
    def __init__(self, r, sizes):
        self.r, self.sizes, self.nid, self.files = r, sizes, 0, {}

    def fresh(self, f):
        r = self.r
        ss = []
        for t in sorted(r.choice([200, 200, 201, 65500]) for _ in range(r.choice([1, 2, 2, 3, 4]))):
            ss.append({"t": t, "fl": r.choice(FLAVORS), "gap": r.choice([0, 0, 0, 1, 3]), "tags": tags(r), "sn": r.choice(["sn", "sn", "sn2"]),
                       "vt": [["DL", r.choice(["x", "y"])]] if r.random() < .4 else [], "preset": r.choice(PRESETS)})
        recs = []
        span = r.choice([1, 3, 6, 20])
        for _ in range(r.choice([0, 1, 2, 4, 8, 12])):
            recs.append(self.rec(r.randint(1, len(ss)), span))
        return {"op": "make", "f": f, "streams": ss, "recs": recs, "ft": tags(r, 3), "sync": r.random() < .3, "pool": r.choice([0, 0, 2]), "mb": r.choice([0, 0, 0, 1])}

    def rec(self, k, span):
        r = self.r
        self.nid += 1
        return [k, r.choice([1, 2, 3, 3, 3]), 10 * r.randint(-1, span), r.choice(VERSIONS), self.nid, self.sizes(r), r.randint(0, 2)]

    WHAT = ["same", "ver", "ts", "ty", "pay", "size", "drop", "add", "ftag", "tag", "vtag", "flavor", "stream", "more", "less", "swap", "move", "type", "dup", "last"]

    def variant(self, f, base, what=None):
        """the same file, written in another way, or with one thing altered"""
        import copy
        r = self.r
        m = copy.deepcopy(base)
        m.update(f=f, sync=r.random() < .5, pool=r.choice([0, 2]))
        for s in m["streams"]:
            s["preset"] = r.choice(PRESETS)
        gaps = r.random() < .5
        if gaps:
            for s in m["streams"]:
                s["gap"] = r.choice([0, 2])
        what = what or r.choice(["same"] + self.WHAT)
        recs, ss = m["recs"], m["streams"]
        i = r.randrange(len(recs)) if recs else None
        s = r.choice(ss)
        if what == "ftag":
            m["ft"] = m["ft"][:-1] if m["ft"] and r.random() < .5 else m["ft"] + [["zz", "1"]]
        elif what == "tag":
            s["tags"] = s["tags"][:-1] if s["tags"] and r.random() < .5 else s["tags"] + [["zz", "1"]]
        elif what == "vtag":
            s["vt"] = [] if s["vt"] else [["DL", "x"]]
        elif what == "flavor":
            s["fl"] = r.choice(FLAVORS)
        elif what == "stream":
            ss.append({"t": 65501, "fl": "fa", "gap": 0, "tags": [], "sn": "sn", "vt": [], "preset": "none"})
        elif what == "more":
            ss.append(dict(copy.deepcopy(ss[-1]), gap=r.choice([0, 1])))
        elif what == "less" and len(ss) > 1:
            ss.pop()
            m["recs"] = recs = [x for x in recs if x[0] <= len(ss)]
        elif what == "type" and len(set(x["t"] for x in ss)) == 1:
            for x in ss:
                x["t"] += 1
        elif i is not None:
            if what == "ver":
                recs[i][3] = r.choice(VERSIONS)
            elif what == "ts":
                recs[i][2] += r.choice([1, -1, 10])
            elif what == "ty":
                recs[i][1] = r.choice([1, 2, 3])
            elif what == "pay":
                self.nid += 1
                recs[i][4] = self.nid
            elif what == "size":
                recs[i][5] += r.choice([1, -1]) if recs[i][5] else 1
            elif what == "drop":
                del recs[i]
            elif what == "last":
                recs.append(self.rec(r.randint(1, len(ss)), 30))
            elif what == "add":
                recs.insert(i, self.rec(r.randint(1, len(ss)), 6))
            elif what == "dup":
                recs.insert(i, list(recs[i]))
            elif what == "move":
                recs[i][0] = r.randint(1, len(ss))
            elif what == "swap" and len(recs) > 1:
                j = (i + 1) % len(recs)
                if recs[i][0] == recs[j][0]:
                    recs[i][4:], recs[j][4:] = recs[j][4:], recs[i][4:]
        return m

    def make(self, f):
        made = [x for x in self.files.values() if x]
        m = self.variant(f, self.r.choice(made)) if made and self.r.random() < .5 else self.fresh(f)
        self.files[f] = m
        return m

def a_filter(r, lib, f, tm, simple=.4, times=None):
    if r.random() < simple:
        return {}
    base = lib.files.get(f)
    flt = {}
    if r.random() < .5:
        st = []
        for _ in range(r.choice([1, 1, 2, 3])):
            t = r.choice(base["streams"])["t"] if base and r.random() < .8 else r.choice([200, 201, 300])
            x = {"sign": r.choice("+-"), "k": r.choice(["id", "plus", "type", "dash", "flavor"]), "t": t, "n": r.randint(1, 4), "fl": r.choice(FLAVORS), "bare": r.random() < .5}
            st.append(x)
        flt["st"] = st
        flt["joined"] = r.random() < .3
    if r.random() < .4:
        flt["ty"] = []
        for _ in range(r.choice([1, 1, 2])):
            ty = r.choice([1, 2, 3])
            name = {1: "state", 2: "configuration", 3: "data"}[ty]
            flt["ty"].append([r.choice("+-"), name[:r.choice([1, 2, 99])], ty])
    if r.random() < .7 if times is None else times:
        ts = [x[2] for x in base["recs"]] if base else []
        def t():
            return (r.choice(ts) if ts and r.random() < .7 else 10 * r.randint(-2, 7)) + r.choice([0, 0, 0, 0, 1, -1])
        linear = tm in (0, 3)
        rel = linear and r.random() < .35
        def v(rl):
            k = t()
            if rl:
                k = r.choice([10 * r.randint(-6, 6), k, 5])
                k = 1 if k == 0 else k
            return [k, rl]
        c = r.random()
        if c < .8:
            flt["min"] = v(rel)
        if c > .35:
            flt["max"] = v(linear and r.random() < .3)
            if "min" in flt and linear and r.random() < .15:
                flt["around"], flt["max"] = True, [2 * r.randint(0, 15) * r.choice([1, -1]), False]
        flt["text"] = r.random() < .5
    if r.random() < .1:
        flt["first"] = True
    if tm in (0, 3) and r.random() < .25:
        flt["dec"] = [{"t": r.choice(base["streams"])["t"] if base and r.random() < .9 else r.choice([200, 300]), "k": r.choice(["id", "plus", "type", "dash", "flavor"]),
                       "n": r.choice([1, 1, 2, 3]), "fl": r.choice(FLAVORS), "iv": r.choice([0, 1, 5, 10, 10, 11, 20, 30])} for _ in range(r.choice([1, 1, 2, 3]))]
    return flt

def an_opt(r, lib, f, merge=False):
    o = {"pool": r.choice([0, 1, 1, 4]), "mb": r.choice([0, 0, 0, 1]), "pre": r.random() < .6, "grace": r.choice([0, 0, 0, 5, 1000])}
    if r.random() < .8:
        o["preset"] = r.choice(PRESETS)
    if r.random() < .2:
        o["dup"] = True
    elif r.random() < .2:
        o["assign"] = True
    if not merge and r.random() < .2:
        o["verbatim"] = True
    if r.random() < .25:
        o["ov"] = {"ft": tags(r), "st": []}
        if not merge and lib.files.get(f):
            o["ov"]["st"] = [[r.choice(lib.files[f]["streams"])["t"], r.randint(1, 2), k, v] for k, v in tags(r)]
    if merge:
        o["merge"] = r.random() < .6
    return o

def small(r):
    return r.choice([0, 1, 8, 30, 300])
def mixed(r):
    return r.choice([0, 1, 31, 300, 4096, 5000, 70000, 300000])

WEIGHT = {"filter": {"iterate": 1, "copy": .1, "merge": .05, "sum": .1, "cmp": 0},
          "copy": {"iterate": .1, "copy": 1, "merge": .1, "sum": .1, "cmp": .1},
          "merge": {"iterate": .05, "copy": .3, "merge": 1, "sum": 0, "cmp": .1},
          "equal": {"iterate": .05, "copy": .3, "merge": .1, "sum": 1, "cmp": 1}}

def gen(quick, thorough, what, length=14, big=False):
    def g(ctx):
        r = ctx.rng("copy" + what + str(big))
        out = []
        for h in ctx.sim("MCCopy", simcfg(length), n(ctx, quick, thorough), length + 2):
            tm = r.choice([0, 0, 0, 3, 3, 1, 2])
            o = [{"op": "begin", "tm": tm}]
            lib = Lib(r, mixed if big else small)
            for f in (1, 2, 3):
                o.append(lib.make(f))
            for x in h:
                op, f = x["op"], x.get("f")
                if op != "make" and r.random() > WEIGHT[what][op]:
                    continue
                if op == "make":
                    o.append(lib.make(f))
                elif op == "iterate":
                    o.append({"op": "iterate", "f": f, "flt": a_filter(r, lib, f, tm, .1), "how": r.choice(["safe", "func"])})
                elif op == "copy":
                    c = {"op": "copy", "f": f, "g": x["g"], "flt": a_filter(r, lib, f, tm, .5), "opt": an_opt(r, lib, f)}
                    if r.random() < .03:
                        c["bad"] = True
                    elif f in lib.files:
                        lib.files[x["g"]] = lib.files[f]
                    o.append(c)
                elif op == "merge":
                    fs = x["fs"]
                    o.append({"op": "merge", "fs": fs, "g": x["g"], "flts": [{"flt": a_filter(r, lib, q, tm, .6)} for q in fs], "opt": an_opt(r, lib, fs[0], True)})
                    if all(q in lib.files for q in fs):
                        lib.files[x["g"]] = lib.files[fs[0]]
                elif op == "sum":
                    flt = a_filter(r, lib, f, tm, .7)
                    for q in r.sample([1, 2, 3, 4, 5], r.choice([1, 2, 3])) + [f]:
                        o.append({"op": "sum", "f": q, "flt": flt, "how": r.choice(["one", "one", "many", "json", "check"])})
                elif op == "cmp":
                    flt = a_filter(r, lib, f, tm, .6)
                    flt.pop("dec", None)
                    flt.pop("first", None)   # first records only: of the first file alone
                    o.append({"op": "cmp", "f": f, "g": x["g"], "flt": flt})
            out.append(o)
        return out
    return g

def pairs(quick, thorough):
    """a file, and the same one otherwise written or with one thing altered: checksums and comparisons both ways"""
    def g(ctx):
        r = ctx.rng("pairs")
        out = []
        for k in range(n(ctx, quick, thorough)):
            for what in Lib.WHAT:
                tm = r.choice([0, 3])
                lib = Lib(r, small)
                base = lib.fresh(1)
                while not base["recs"]:
                    base = lib.fresh(1)
                lib.files[1] = base
                o = [{"op": "begin", "tm": tm}, base, lib.variant(2, base, what)]
                for flt in ({}, a_filter(r, lib, 1, tm, 0)):
                    for f, q in ((1, 2), (2, 1)):
                        o.append({"op": "cmp", "f": f, "g": q, "flt": {k: v for k, v in flt.items() if k not in ("first", "dec")}})
                    for f in (1, 2):
                        o.append({"op": "sum", "f": f, "flt": flt, "how": r.choice(["one", "many", "json"])})
                out.append(o)
        return out
    return g

def ambiguous(ctx):
    """checksums of tags: names and values that read the same when strung together"""
    def mk(f, ft):
        return {"op": "make", "f": f, "streams": [{"t": 200, "fl": "fa", "gap": 0, "tags": [], "sn": "sn", "vt": [], "preset": "none"}], "recs": [], "ft": ft}
    return [[{"op": "begin", "tm": 0, "finding": "checksum-tags-separators"}, mk(1, [["a", "b/c=d"]]), mk(2, [["a", "b"], ["c", "d"]]),
             {"op": "sum", "f": 1, "how": "one"}, {"op": "sum", "f": 2, "how": "one"}]]

def decimated(quick, thorough):
    """streams with clusters of records and holes between them, decimated: intervals shorter and longer than both"""
    def g(ctx):
        r = ctx.rng("decimated")
        out = []
        for k in range(n(ctx, quick, thorough)):
            tm = r.choice([0, 0, 3])
            o = [{"op": "begin", "tm": tm}]
            lib = Lib(r, small)
            base = lib.fresh(1)
            base["recs"] = []
            t = 10 * r.randint(-3, 3)
            step, hole = r.choice([[0, 10], [10], [10, 20], [1, 10, 11], [5]]), r.choice([20, 50, 200])
            for _ in range(r.choice([10, 20, 40])):
                x = lib.rec(r.randint(1, len(base["streams"])), 1)
                x[1] = r.choice([3, 3, 3, 3, 3, 1, 2])
                x[2] = t
                base["recs"].append(x)
                t += r.choice(step) if r.random() < .85 else hole
            lib.files[1] = base
            o.append(base)
            for _ in range(6):
                flt = a_filter(r, lib, 1, tm, .5, .3)
                flt["dec"] = [{"t": r.choice(base["streams"])["t"], "k": r.choice(["id", "plus", "type", "dash", "flavor"]), "n": r.choice([1, 1, 2]),
                               "fl": r.choice(base["streams"])["fl"], "iv": r.choice([1, 5, 9, 10, 11, 15, 20, 30, 50, 100])} for _ in range(r.choice([1, 1, 2]))]
                o.append({"op": "iterate", "f": 1, "flt": flt, "how": r.choice(["safe", "func"])} if r.random() < .8 else
                         {"op": "copy", "f": 1, "g": 2, "flt": flt, "opt": an_opt(r, lib, 1)})
            out.append(o)
        return out
    return g

BLOCK = 4 << 20   # files are read in blocks of this many bytes
def raws(quick, thorough):
    """files compared as bytes, and their checksums"""
    def g(ctx):
        r = ctx.rng("raws")
        out = []
        for k in range(n(ctx, quick, thorough)):
            o = [{"op": "begin", "tm": 0}]
            for i in range(8):
                size = r.choice([0, 1, 17, 4096, 100000]) if i else r.choice([BLOCK - 1, BLOCK, BLOCK + 1, 2 * BLOCK, 2 * BLOCK + 5, r.randrange(3 * BLOCK)])
                def flips(m):
                    at = {r.choice([0, size - 1, size // 2, min(BLOCK, size) - 1, min(BLOCK, size - 1), r.randrange(size)]) for _ in range(m)} if size else []
                    return [[x, r.choice([1, 128, 255])] for x in sorted(at)]
                def cuts():
                    return [r.randint(0, size) if j else r.randint(1, size) for j in range(r.choice([0, 0, 1, 2]))] if size > 1 else []
                a = {"n": size, "flips": flips(r.choice([0, 0, 2])), "cuts": cuts()}
                b = dict(a, cuts=cuts())
                c = r.random()
                if c < .35 and size:
                    one = flips(1)
                    rest = [x for x in b["flips"] if x[0] != one[0][0]]
                    b["flips"] = sorted(rest + one) if r.random() < .7 or len(rest) == len(b["flips"]) else rest
                elif c < .5 and size:
                    b["n"] = size + r.choice([-1, 1, 1])
                    b["flips"] = [x for x in b["flips"] if x[0] < b["n"]]
                    b["cuts"] = []
                elif c < .6:
                    r.choice([a, b])["absent"] = True
                o.append({"op": "raw", "a": a, "b": b, "show": r.random() < .2})
            out.append(o)
        return out
    return g

MCS = lambda tier: [MC("MCCopy", "MCCopy.cfg" if tier == "quick" else "MCCopyT.cfg", expect_states=40000, timeout=200 if tier == "quick" else 3000, mem="6g")]
C = lambda gen, name, **kw: Suite("copy", "TraceCopy", gen, name, **kw)

def p16(tier):
    return "model_checking", MCS(tier), [C(gen(200, 5000, "filter"), "filter"), C(decimated(30, 500), "decimated")]
def p17(tier):
    return "model_checking", MCS(tier), [C(gen(120, 3000, "copy"), "copy"), C(gen(24, 500, "copy", 10, True), "copybig")] + p_format.copies(tier)
def p18(tier):
    return "model_checking", MCS(tier), [C(gen(140, 4000, "merge"), "merge"), C(gen(16, 400, "merge", 10, True), "mergebig")]
def p27(tier):
    return "model_checking", MCS(tier), [C(gen(160, 4000, "equal", 12), "equal"), C(pairs(8, 120), "pairs"), C(ambiguous, "ambiguous"), C(raws(12, 200), "raws")]

CHECKS = {"P16": p16, "P17": p17, "P18": p18, "P27": p27}

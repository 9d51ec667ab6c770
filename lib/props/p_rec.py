"""Recording: P01 P02 P03 P04 P07 P08 P14 - driver mode rec, specification Recorder."""
from runner import MC, Suite

PRESETS = ["none", "lz4fast", "lz4tight", "zfaster", "zfast", "zlight", "zmedium", "default", "undef"]
SLOW = ["zheavy", "zhigh", "ztight", "zmax"]
BASE = {1: 200, 2: 201, 3: 200}   # stream -> type, as in MCRecorder
STRINGS = ["", "a", "v 1", "\u00e9\u4e16\U0001F600", "line\nbreak\ttab", "{\"json\":[1,2]}", "a/b;c=d&e%20", "x" * 300, "\u0001\u007f", "VRS", "0", "nul\u0000inside", "\u0000", "\u0001hex:c328ff80fe2265", "\u0001hex:eda080"]
KEYS = ["k", "\u952e", "a.b c", "K" * 90, "vrs", "tag=1", "", "k\u0000", "k\u0000b", "\u0001hex:6bff"]

def simcfg(ops, n=24, recs=14, files=3, times="{1, 2, 3, 4}", types="{1, 2, 3}", streams="{1, 2, 3}"):
    return """SPECIFICATION Spec
CONSTANTS
  Streams = %s
  Times = %s
  Types = %s
  MaxLen = %d
  MaxRecs = %d
  MaxFiles = %d
  Ops = {%s}
  KeepHist = TRUE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
""" % (streams, times, types, n, recs, files, ", ".join('"%s"' % o for o in ops.split()))

ALL = "create cbegin purge spurge active attach open write close wait sync"

class Gen:
    """makes a driver script out of an abstract behaviour"""
    def __init__(self, rng, sizes="mixed", tms=(0, 0, 1, 2, 3, 4, 5), gate=.3, modes=("async", "async", "chunk"),
                 presets=PRESETS, srcs=(0, 0, 0, 1, 2, 3, 4, 5, 6), mbs=(0, 1), pools=(0, 0, 1, 2, 4, 7)):
        self.r, self.sizes, self.tms, self.gate, self.modes, self.presets = rng, sizes, tms, gate, modes, presets
        self.srcs, self.mbs, self.pools = srcs, mbs, pools
        self.fault = None
    def size(self, block=False):
        r = self.r
        if block:
            return r.choice([992, 993, 1500, 4096, 20000])
        if self.sizes == "small":
            return r.choice([0, 1, 7, 10, 40])
        if self.sizes == "big":
            return r.choice([0, 10, 1000, 100000, 200000, 349000, 524288, 700000, 1048448, 1048576 - 128, 1100000])
        return r.choice([0, 0, 1, 3, 10, 31, 32, 33, 100, 198, 199, 200, 201, 249, 250, 251, 300, 700, 991, 992, 993, 1024, 2000, 4096, 9000]
                        + ([70000, 131072, 300001] if r.random() < .2 else [300]))
    def begin(self):
        return {"op": "begin", "tm": self.r.choice(self.tms)}
    def streams(self, att=(1, 2), autos=True, base=None):
        r, ops = self.r, []
        base = base or BASE
        for s, t in base.items():
            op = {"op": "stream", "s": s, "t": t, "fl": r.choice(["f", "fl/a", "x" * 60])}
            if r.random() < .8:
                op["preset"] = r.choice(self.presets)
            ops.append(op)
        nid = 5000
        for s in base:
            if autos and r.random() < .8:
                op = {"op": "auto", "s": s}
                for k in ("c", "st"):
                    op[k] = []
                    for _ in range(r.randint(0, 4)):
                        nid += 1
                        op[k].append([10 * r.randint(0, 6), nid, r.choice([0, 5, 20, 300])])
                ops.append(op)
        for s in att:
            ops.append({"op": "attach", "s": s})
        ops.append({"op": "pool", "n": r.choice(self.pools)})
        return ops
    def open_op(self):
        r = self.r
        mode = r.choice(self.modes)
        ops = []
        if mode == "async" and r.random() < .25:
            ops.append({"op": "prealloc", "n": r.choice([0, 1, 5, 50, 300])})
        op = {"op": "open", "mode": mode, "mb": r.choice(self.mbs)}
        if mode == "async" and r.random() < .15:
            op["async"] = True
        return ops + [op]
    def key(self, k):
        return KEYS[(k * 3 + self.koff) % len(KEYS)]
    def val(self, v):
        return STRINGS[(v + self.voff) % len(STRINGS)]
    def from_hist(self, hist):
        r = self.r
        self.koff, self.voff = r.randint(0, 9), r.randint(0, 14)
        out = [self.begin()] + self.streams()
        nblocked, auto, fopen = 0, False, 0
        mode, gated, blocked = "idle", False, set()
        def ungate():
            nonlocal gated
            if gated:
                out.append({"op": "gate", "b": False})
                gated = False
        def settle():
            if auto and mode == "writing":
                ungate()
                out.append({"op": "autowait"})
        for o in hist:
            op = dict(o)
            k = op["op"]
            if 0 <= op.get("ts", -1) < 100:
                op["ts"] *= 10
                if k == "cbegin":   # creations that overlap others never share a time with them
                    nblocked += 1
                    op["ts"] += nblocked % 9 + 1
            if k == "create":
                op.update(sz=self.size(), k=r.randint(0, 2), src=r.choice(self.srcs))
                if mode != "idle" and op["src"] > 4:
                    op["src"] = 1
            elif k == "cbegin":
                op.update(sz=self.size(True), k=r.randint(0, 2))
                blocked.add(op["id"])
            elif k == "cend":
                blocked.discard(op["id"])
            elif k in ("ftag", "stag"):
                op.update(key=self.key(op["key"]), val=self.val(op["val"]), how=r.randint(0, 2))
            elif k == "open":
                ungate()
                if mode == "idle":
                    if r.random() < .12:
                        out.append({"op": "badopen", "mode": r.choice(["async", "chunk"])})
                    out.extend(self.open_op())
                    mode, auto = "writing", False
                    if r.random() < self.gate:
                        out.append({"op": "gate", "b": True})
                        gated = True
                    continue
                op.update(mode=r.choice(["async", "chunk"]), mb=r.choice([0, 1]))
            elif k == "autow":
                auto = True
            elif k == "close":
                settle()
                mode = "closing"
            elif k in ("wait", "sync"):
                settle()
                ungate()
                if k == "wait":
                    mode = "idle"
                elif self.sizes == "big":
                    op["mb"] = r.choice(self.mbs)
                out.append(op)
                out.append({"op": "read"})
                if r.random() < .5 or self.sizes == "big":
                    out.append({"op": "layout"})
                continue
            elif k in ("purge", "spurge", "active", "attach", "autopset", "autop"):
                settle()
                if k in ("purge", "spurge"):
                    op["r"] = r.random() < .7
            out.append(op)
            if gated and r.random() < .3:
                ungate()
        settle()
        ungate()
        for b in sorted(blocked):
            out.append({"op": "cend", "id": b})
        out += self.finish(mode)
        return out
    def finish(self, mode):
        """close what's open, then record what's left, and read everything again"""
        out = []
        if mode != "idle":
            out += [{"op": "wait"}, {"op": "read"}]
        for s in BASE:
            out.append({"op": "active", "s": s, "b": True})
        for s in BASE:
            out.append({"op": "attach", "s": s})
        if self.r.random() < .5:
            out += [{"op": "sync"}, {"op": "read"}]
        else:
            out += self.open_op() + [{"op": "wait"}, {"op": "read"}]
        return out

def n(ctx, quick, thorough):
    return quick if ctx.quick else thorough

def gen_tlc(cfg, quick, thorough, depth=None, **kw):
    def gen(ctx):
        r = ctx.rng(cfg)
        hs = ctx.sim("MCRecorder", cfg, n(ctx, quick, thorough), depth or 40, 1)
        g = Gen(r, **kw)
        return [g.from_hist([o for o in h if o]) for h in hs]
    return gen

# ---------------------------------------------------------------- wider recordings, not limited to the model's parameters
def gen_wide(quick, thorough, heavy=True):
    def gen(ctx):
        r = ctx.rng("wide")
        res = []
        for i in range(n(ctx, quick, thorough)):
            ns = r.choice([1, 2, 3, 6, 12, 40])
            h = [{"op": "begin", "tm": r.choice([0, 1, 2, 3, 4, 5])}]
            ids = list(range(1, ns + 1))
            for s in ids:
                t = r.choice([200, 200, 201, 202, 203, 1202, 65534, 1, 300])
                op = {"op": "stream", "s": s, "t": t, "fl": "fl%d" % r.randint(0, 3)}
                if r.random() < .9:
                    op["preset"] = r.choice(PRESETS + (SLOW if i % 4 == 0 else []))
                h.append(op)
                h.append({"op": "attach", "s": s})
            h.append({"op": "pool", "n": r.choice([0, 0, 1, 2, 3, 8, 64])})
            rid = 1
            for f in range(r.randint(1, 3)):
                nr = r.choice([0, 1, 2, 5, 30, 120])
                dist = r.choice(["inc", "rand", "rev", "same"])
                big = heavy and i % 5 == 0
                sync = r.random() < .4
                if not sync:
                    op = {"op": "open", "mode": r.choice(["async", "async", "chunk"]), "mb": r.choice([0, 1])}
                    if op["mode"] == "async":
                        if r.random() < .3:
                            h.append({"op": "prealloc", "n": r.choice([1, nr, 2 * nr, 1000])})
                        if r.random() < .3:
                            op["async"] = True
                    h.append(op)
                for k in range(nr):
                    ts = {"inc": k, "rand": r.randint(0, 50), "rev": nr - k, "same": 7}[dist]
                    sz = r.choice([0, 1, 40, 199, 200, 250, 251, 992, 3000, 20000])
                    if big and r.random() < .1:
                        sz = r.choice([100000, 524287, 1 << 20, 3000001])
                    op = {"op": "create", "s": r.choice(ids), "t": r.choice([1, 2, 3, 3, 3]), "ts": ts, "id": rid, "sz": sz,
                          "k": r.randint(0, 2), "src": r.choice([0, 1, 2, 3, 4] + ([5, 6] if sync else []))}
                    h.append(op)
                    rid += 1
                    if not sync and r.random() < .08:
                        h.append({"op": "write", "ts": r.randint(0, 60)})
                    if r.random() < .04:
                        h.append({"op": "many", "s": r.choice(ids), "t": 3, "ts": r.randint(0, 40), "dt": r.choice([0, 1, 3]), "id": rid,
                                  "sz": r.choice([0, 30, 300]), "k": r.randint(0, 2), "n": 25})
                        rid += 25
                if sync:
                    h.append({"op": "sync", "mb": r.choice([0, 0, 1])})
                else:
                    if r.random() < .3:
                        h.append({"op": "close"})
                    h.append({"op": "wait"})
                h += [{"op": "read"}, {"op": "layout"}]
            res.append(h)
        return res
    return gen

def gen_rounds(quick, thorough):
    """several batches in one file, each written before the next is made; equal times within and across batches"""
    def gen(ctx):
        r = ctx.rng("rounds")
        res = []
        for i in range(n(ctx, quick, thorough)):
            h = [{"op": "begin", "tm": r.choice([0, 1, 2, 3])}]
            ids = [1, 2, 3]
            for s in ids:
                h += [{"op": "stream", "s": s, "t": r.choice([200, 200, 201]), "fl": "f", "preset": r.choice(PRESETS)}, {"op": "attach", "s": s}]
            h.append({"op": "pool", "n": r.choice([0, 0, 2, 3])})
            h.append({"op": "open", "mode": r.choice(["async", "async", "chunk"]), "mb": 0})
            rid, low = 1, 0
            for k in range(r.randint(2, 6)):
                late = r.random() < .25
                times = [max(0, low - (r.randint(0, 20) if late else 0)) + 10 * j for j in range(r.choice([1, 1, 2, 3]))]
                for _ in range(r.randint(1, 4)):
                    h.append({"op": "create", "s": r.choice(ids), "t": r.choice([1, 2, 3, 3]), "ts": r.choice(times), "id": rid, "sz": r.choice([0, 20, 300, 2000]), "k": r.randint(0, 2), "src": 0})
                    rid += 1
                h += [{"op": "write", "ts": 1000000}, {"op": "settle"}]
                low = max([low] + times) if r.random() < .8 else low
            h += [{"op": "wait"}, {"op": "read"}, {"op": "layout"}]
            res.append(h)
        return res
    return gen

def gen_long(quick, thorough):
    """many records in one file"""
    def gen(ctx):
        r = ctx.rng("long")
        res = []
        for i in range(n(ctx, quick, thorough)):
            h = [{"op": "begin", "tm": 0, "limit": 120}] + Gen(r, pools=(0, 2, 4)).streams(autos=False)
            rid = 1
            mode = r.choice(["async", "chunk"])
            h.append({"op": "open", "mode": mode, "mb": r.choice([0, 1])})
            for k in range(r.randint(3, 6)):
                c = r.choice([150, 400, 700])
                h.append({"op": "many", "s": r.choice([1, 2]), "t": 3, "ts": r.randint(0, 800), "dt": r.choice([0, 1, 1]), "id": rid,
                          "sz": r.choice([0, 17, 600, 2500]), "k": r.randint(0, 2), "n": c})
                rid += c
                if r.random() < .6:
                    h.append({"op": "write", "ts": r.randint(0, 1500)})
            h += [{"op": "wait"}, {"op": "read"}, {"op": "layout"}]
            res.append(h)
        return res
    return gen

# ---------------------------------------------------------------- threads at work
def gen_stress(quick, thorough, maxsz=3000):
    def gen(ctx):
        r = ctx.rng("stress")
        res = []
        for i in range(n(ctx, quick, thorough)):
            h = [{"op": "begin", "tm": 0}]
            for s in (1, 2, 3):
                h.append({"op": "stream", "s": s, "t": BASE[s], "fl": "f", "preset": r.choice(["none", "lz4fast", "zfaster", "zfast"])})
                h.append({"op": "attach", "s": s})
            h.append({"op": "pool", "n": r.choice([0, 1, 2, 4, 7])})
            rid = 1
            for f in range(2):
                h.append({"op": "open", "mode": r.choice(["async", "async", "chunk"]), "mb": r.choice([0, 1])})
                nn = r.choice([20, 60, 120])
                if r.random() < .4:
                    h.append({"op": "autow", "ts": r.randint(0, nn)})
                h.append({"op": "stress", "nt": 3, "n": nn, "id": rid, "maxsz": r.choice([10, maxsz]), "seed": r.randint(1, 10 ** 6)})
                rid += 3 * nn
                if r.random() < .5:
                    h.append({"op": "close"})
                h += [{"op": "wait"}, {"op": "read"}]
            h += [{"op": "isw"}, {"op": "sync"}, {"op": "read"}]
            res.append(h)
        return res
    return gen

# ---------------------------------------------------------------- storage failures
def gen_fault(quick, thorough):
    def gen(ctx):
        r = ctx.rng("fault")
        total = n(ctx, quick, thorough)
        hs = ctx.sim("MCRecorder", simcfg("create active open write wait close", n=14, recs=8, files=1), total, 30, 7)
        res = []
        for i, h0 in enumerate(hs):
            g = Gen(r, gate=0, tms=(0,), sizes="big" if i % 6 == 0 else "mixed", srcs=(0, 1, 2), modes=("async", "chunk", "sync"))
            h = [g.begin()] + g.streams()
            rid = 1
            # records, then a faulty recording of them
            mode = g.r.choice(g.modes)
            creates = [dict(o, sz=g.size(), k=r.randint(0, 2), ts=10 * o["ts"]) for o in h0 if o and o["op"] == "create"]
            pre = r.randint(0, len(creates))
            h += creates[:pre]
            kinds = r.choice(["w", "w", "w", "w", "o", "c", "t", "f", "wtcf"])
            async_file = mode == "async" and r.random() < .25
            if async_file:
                kinds = r.choice(["p", "a", "pa", "w", "c", "t"])
            fault = {"op": "fault", "kinds": kinds, "n": 1 + (i * 7 + r.randint(0, 3)) % (30 if kinds == "w" else 5),
                     "sticky": r.random() < .5, "partial": r.choice([0, 0, 1, 5, 31, 33, 100, 1000])}
            late = r.random() < .5
            if not late:
                h.append(fault)
            if mode == "sync":
                if late:
                    h.append(fault)
                h.append({"op": "sync"})
            else:
                if r.random() < .3 and mode == "async":
                    h.append({"op": "prealloc", "n": r.choice([1, 4, 40])})
                op = {"op": "open", "mode": mode, "mb": r.choice([0, 1])}
                if async_file:
                    op["async"] = True
                h.append(op)
                if late:
                    fault["n"] = 1 + fault["n"] % 9
                    h.append(fault)
                for o in creates[pre:]:
                    h.append(o)
                    if r.random() < .4:
                        h.append({"op": "write", "ts": r.choice([5, 15, 25, 35, 45])})
                if r.random() < .3:
                    h.append({"op": "close"})
                h.append({"op": "wait"})
            h += [{"op": "nofault"}, {"op": "isw"}]
            if mode == "sync" or True:
                h.append({"op": "read"})
            # the same objects can record again
            for k in range(r.randint(0, 3)):
                h.append({"op": "create", "s": r.choice([1, 2]), "t": 3, "ts": 10 * r.randint(0, 5), "id": 900 + k, "sz": g.size(), "k": 1})
            g.modes = ("async", "chunk")
            h += g.finish("idle")
            res.append(h)
        return res
    return gen

# ---------------------------------------------------------------- crash images
def gen_crash(quick, thorough, images=(40, 250), modes=("async", "async", "prealloc", "chunk", "chunk", "sync"), big=False, what="images", presets=PRESETS):
    def gen(ctx):
        r = ctx.rng("crash")
        hs = ctx.sim("MCRecorder", simcfg("create ftag stag open write", n=18, recs=12, files=1), n(ctx, quick, thorough) * 2, 30, 3)
        res = []
        for i, h0 in enumerate(hs[:n(ctx, quick, thorough)]):
            g = Gen(r, gate=0, tms=(0, 0, 1, 2), sizes="big" if big or i % 8 == 7 else "mixed", srcs=(0, 1, 4), presets=presets)
            g.koff, g.voff = r.randint(0, 6), r.randint(0, 10)
            mode = modes[i % len(modes)]
            h = [g.begin()] + g.streams()
            h[0]["limit"] = 120
            ops = []
            for o in h0:
                if not o:
                    continue
                o = dict(o)
                if 0 <= o.get("ts", -1) < 100:
                    o["ts"] *= 10
                if o["op"] == "create":
                    o.update(sz=g.size(), k=r.randint(0, 2), src=r.choice(g.srcs))
                elif o["op"] in ("ftag", "stag"):
                    o.update(key=g.key(o["key"]), val=g.val(o["val"]))
                ops.append(o)
            start = next((k for k, o in enumerate(ops) if o["op"] == "open"), len(ops))
            h += ops[:start]
            h.append({"op": "log"})
            if mode == "sync":
                h += [o for o in ops[start:] if o["op"] == "create"] + [{"op": "sync", "mb": 0}]
            else:
                if mode == "prealloc":
                    h.append({"op": "prealloc", "n": r.choice([0, 1, 5, 50, 300])})
                h.append({"op": "open", "mode": "chunk" if mode == "chunk" else "async", "mb": r.choice([0, 1])})
                h += [o for o in ops[start:] if o["op"] != "open"]
                if i % 3 == 0:   # more records, so that index batches matter
                    h.append({"op": "many", "s": 1, "t": 3, "ts": 0, "dt": 1, "id": 7000, "sz": r.choice([0, 30, 300]), "k": 1, "n": r.choice([20, 60])})
                h.append({"op": "wait"})
            h.append({"op": "log", "b": False})
            h += [{"op": "read"}, {"op": what, "n": images[0] if ctx.quick else images[1], "seed": r.randint(1, 10 ** 6), "split": mode == "chunk"}]
            res.append(h)
        return res
    return gen

def gen_edges(quick, thorough):
    """chunks filled to within a few bytes of the limit"""
    def gen(ctx):
        r = ctx.rng("edges")
        res = []
        for i in range(n(ctx, quick, thorough)):
            h = [{"op": "begin", "tm": 0, "limit": 60}]
            for s in (1, 2):
                h += [{"op": "stream", "s": s, "t": BASE[s], "fl": "f", "preset": "none"}, {"op": "attach", "s": s}]
            h += [{"op": "pool", "n": r.choice([0, 0, 2])}, {"op": "open", "mode": "chunk", "mb": 1}]
            rid = 0
            for c in range(r.choice([1, 2, 3])):
                k = r.choice([1, 2, 3, 5])
                total = (1 << 20) + r.choice([-65, -64, -33, -32, -31, -2, -1, 0, 1, 2, 16, 31, 32, 33, 64]) - 32 * k
                cuts = sorted(r.randint(0, total) for _ in range(k - 1))
                for a, b in zip([0] + cuts, cuts + [total]):
                    rid += 1
                    h.append({"op": "create", "s": r.choice([1, 2]), "t": 3, "ts": rid, "id": rid, "sz": b - a, "k": 0, "src": r.choice([0, 1, 2])})
                if r.random() < .4:
                    h.append({"op": "write", "ts": rid})
            h += [{"op": "wait"}, {"op": "read"}, {"op": "layout"}]
            res.append(h)
        return res
    return gen

# ---------------------------------------------------------------- very many records
def gen_bulk(quick, thorough, what="images"):
    """images: more records than an index batch holds, and crash images; race: closing while the writer sorts"""
    def gen(ctx):
        r = ctx.rng("bulk" + what)
        res = []
        for i in range(n(ctx, quick, thorough)):
            race = what == "race"
            h = [{"op": "begin", "limit": 200, "ns": r.choice([1, 2, 3]), "sz": r.choice([0, 1, 5, 12]),
                  "preset": "none" if not race or r.random() < .8 else "lz4fast", "pool": r.choice([0, 0, 2, 4]) if race else 0}]
            mode = ("async" if i % 2 else "chunk") if race else ("chunk", "chunk", "async", "prealloc")[i % 4]
            for f in range(2 if race else 1):
                op = {"op": "open", "mode": "chunk" if mode == "chunk" else "async", "mb": r.choice([0, 1]), "log": not race}
                if mode == "prealloc":
                    op["prealloc"] = r.choice([1, 150000])
                h.append(op)
                if race:
                    for k in range(r.choice([1, 2])):
                        h += [{"op": "add", "n": r.randint(20000, 60000)}, {"op": "write", "upto": 10 ** 6},
                              {"op": "pause", "us": r.choice([500, 1000, 2000, 4000, 8000, 12000, 16000, 24000])},
                              {"op": "add", "n": r.choice([1, 3])}]
                        if r.random() < .5:
                            h += [{"op": "write", "upto": 10 ** 6}, {"op": "pause", "us": 50000}]
                else:
                    h += [{"op": "add", "n": r.choice([100001, 130000, 199999, 200000, 200001, 230000] if mode == "chunk" else [100000, 130000, 230000])},
                          {"op": "add", "n": r.choice([1, 5000])}]
                h += [{"op": "wait"}, {"op": "read"}]
            if not race:
                for k in range(3):
                    h.append({"op": "image", "hd": r.choice([0, 1000, 900, r.randint(0, 1000)]), "d": r.choice([1000, r.randint(100, 1000), r.randint(450, 1000)])})
            res.append(h)
        return res
    return gen

MCS = lambda tier: [MC("MCRecorder", "MCRecorder.cfg" if tier == "quick" else "MCRecorderT.cfg", expect_states=100000,
                       timeout=200 if tier == "quick" else 3000, mem="8g")]
IMG = lambda tier: [MC("MCImage", "MCImage.cfg", expect_states=10000)]
B = lambda gen, name, **kw: Suite("bulk", "TraceBulk", gen, name, **kw)
S = lambda gen, name, **kw: Suite("rec", "TraceRecorder", gen, name, **kw)

def p01(tier):
    return "model_checking", MCS(tier), [
        S(gen_tlc(simcfg(ALL), 160, 4000), "tlc"), S(gen_wide(60, 1500), "wide"), S(gen_long(8, 60), "long")]

def p02(tier):
    return "model_checking", MCS(tier), [
        S(gen_tlc(simcfg("create cbegin open write wait sync", n=26, recs=18, files=2), 200, 5000, gate=.5, sizes="small"), "order"),
        S(gen_tlc(simcfg("create open write wait", n=26, recs=20, files=1, times="{1, 2}"), 100, 2500, gate=.5, pools=(0, 2, 4, 7)), "ties"),
        S(gen_rounds(60, 1200), "rounds"),
        S(gen_wide(30, 600, heavy=False), "wide")]

def p03(tier):
    return "model_checking", MCS(tier), [
        S(gen_tlc(simcfg("create purge spurge active open write wait sync attach", n=24, recs=16), 200, 5000), "purge"),
        S(gen_tlc(simcfg("create cbegin purge autop active open wait sync", n=24, recs=14), 90, 1500), "autopurge")]

def p04(tier):
    ss = [S(gen_tlc(simcfg("create cbegin purge active open write close wait autow attach", n=28, recs=14, files=3), 160, 4000, gate=.6), "gated"),
          S(gen_stress(24, 600), "stress"), B(gen_bulk(16, 300, "race"), "race")]
    return "model_checking", MCS(tier), ss

def p07(tier):
    return "model_checking", MCS(tier), [S(gen_fault(280, 6000), "fault")]

def p08(tier):
    return "model_checking", MCS(tier), [
        S(gen_tlc(simcfg("create active open write close wait sync attach", n=20, recs=14, files=2), 60, 1200, sizes="big", modes=("chunk", "chunk", "chunk", "async"),
                  mbs=(1, 1, 1, 0), presets=["none", "lz4fast", "zfaster"]), "chunks"),
        S(gen_tlc(simcfg("create open write wait", n=16, recs=10, files=2), 60, 1200, modes=("chunk",), mbs=(0, 1)), "split"),
        S(gen_edges(32, 600), "edges"),
        S(gen_long(8, 60), "long")]

def p14(tier):
    import p_desc, p_read
    return "model_checking", MCS(tier), p_desc.suites(tier) + [
        p_read.R(p_read.gen(60, 2000, "describe", 40), "described"),
        S(gen_tlc(simcfg("create ftag stag attach active open write wait sync", n=30, recs=6, files=3), 240, 6000, gate=.1), "tags")]

def p05(tier):
    return "model_checking", IMG(tier), [S(gen_crash(48, 800), "crash")]

def p06(tier):
    return "model_checking", IMG(tier), [S(gen_crash(36, 800), "crash"), S(gen_crash(24, 400, what="forms"), "forms")]

def p09(tier):
    return "model_checking", IMG(tier), [S(gen_wide(40, 900, heavy=False), "wide"), S(gen_crash(32, 700, what="forms"), "forms"), B(gen_bulk(8, 100), "bulk")]

def p12(tier):
    return "model_checking", IMG(tier), [S(gen_crash(48, 900, images=(40, 300), what="damage", presets=["none", "lz4fast", "lz4tight", "zfaster", "zmedium"]), "damage")]

CHECKS = {"P06": p06, "P09": p09, "P12": p12, "P05": p05, "P01": p01, "P02": p02, "P03": p03, "P04": p04, "P07": p07, "P08": p08, "P14": p14}

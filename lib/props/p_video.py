"""P24: video frames are decoded in sequence."""
from runner import MC, Suite

SIM = """SPECIFICATION SimSpec
CONSTANTS
  MaxRecs = %d
  MaxReads = 1000
  Streams = %s
  FailSets = {{}}
  KeepHist = TRUE
  MaxLen = %d
INVARIANT LongEnough
CHECK_DEADLOCK FALSE
"""
n = lambda ctx, q, t: q if ctx.tier == "quick" else t

def gen(quick, thorough, recs, streams, length):
    def g(ctx):
        r = ctx.rng("video%d" % recs)
        out = []
        for h in ctx.sim("MCVideo", SIM % (recs, streams, length), n(ctx, quick, thorough), length + 2):
            o = [{"op": "begin"}]
            api = r.choice([0, 1, 2, 3, None])
            late = r.random() < .3
            for x in h:
                if x["op"] == "rec":
                    x["len"] = r.choice([3, 4, 20, 400, 5000])
                elif x["op"] == "open":
                    x.update(one=r.random() < .5, hw=r.random() < .5, comp=r.choice([0, 0, 1, 4, 7]))
                elif x["op"] == "read":
                    x.update(api=r.randrange(4) if api is None else api, late=late)
                elif x["op"] == "reset" and r.random() < .3:
                    x["s"] = 0
                o.append(x)
            out.append(o)
        return out
    return g

def findings(ctx):
    """known findings"""
    def rec(ty, ts, g, ix):
        return {"op": "rec", "r": {"s": 1, "ty": ty, "ts": ts, "g": g, "ix": ix, "short": False}, "len": 20}
    def read(k):
        return {"op": "read", "n": k, "catch": 1, "fails": [], "api": 0, "late": False}
    op = {"op": "open", "one": True, "hw": True, "comp": 0}
    return [[{"op": "begin", "finding": "video-other-data"}, rec(3, 0, 0, 0), rec(3, 1, 0, 1), rec(3, 2, -1, -1), rec(3, 3, 0, 2), op, read(4)],
            [{"op": "begin", "finding": "video-first-frame"}, rec(3, 0, 0, 0), rec(3, 1, 0, 1), dict(op, selecting=True), read(1)]]

S = lambda gen, name, **kw: Suite("video", "TraceVideo", gen, name, **kw)

def p24(tier):
    q = tier == "quick"
    s = [S(gen(800, 8000, 8, "{1}", 40), "one"), S(gen(600, 6000, 20, "{1, 2, 3}", 80), "several"), S(findings, "findings")]
    if not q:
        s += [S(gen(0, 2000, 14, "{1, 2}", 60), "asan", variant="asan")]
    return "model_checking", [MC("MCVideo", "MCVideo.cfg" if q else "MCVideoT.cfg", expect_states=10000, timeout=200 if q else 900)], s

CHECKS = {"P24": p24}

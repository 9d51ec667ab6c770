"""Job queues and event channels: P20 - driver mode sync, specifications MCJobQueue, MCEventChannel, Sync."""
from runner import MC, Suite

def n(ctx, quick, thorough):
    return quick if ctx.quick else thorough

def simcfg(kinds, workers, length):
    return """SPECIFICATION SimSpec
CONSTANTS
  Workers = {%s}
  MaxSends = 1000
  Kinds = {%s}
  KeepHist = TRUE
  MaxLen = %d
CHECK_DEADLOCK FALSE
""" % (", ".join(str(k + 1) for k in range(workers)), ", ".join('"%s"' % k for k in kinds), length)

def gen_calls(kinds, quick, thorough):
    def g(ctx):
        r = ctx.rng("sync")
        out = []
        for w in (1, 2, 3, 4):
            for h in ctx.sim("MCSync", simcfg(kinds, w, 30), n(ctx, quick, thorough) // 4, 33):
                o = [{"op": "begin", "kind": h["kind"], "workers": w, "via": r.randrange(12)}]
                for x in h["ops"]:
                    y = dict(x)
                    if y["op"] == "cancelnone" and r.random() < .5:
                        y["op"] = "cancelall"
                    o.append(y)
                if not out and h["kind"] == "queue":  # a wait without limit lasts longer than any internal one
                    o[0]["via"] = 2
                    o[1:] = [{"op": "wait", "how": "long", "all": False}, {"op": "wakeall", "ms": 5300}, {"op": "send", "vs": [1, 2]}, {"op": "wait", "how": "no", "all": False}]
                o.append({"op": "end", "clear": True} if h["kind"] == "queue" else {"op": "destroy"})
                out.append(o)
        return out
    return g

def gen_free(quick, thorough):
    def g(ctx):
        r = ctx.rng("syncfree")
        out = []
        for k in range(n(ctx, quick, thorough)):
            kind = ["queue", "unicast", "broadcast", "thread"][k % 4]
            b = {"op": "begin", "kind": "queue" if kind == "thread" else kind, "free": "thread" if kind == "thread" else "race", "seed": r.randrange(1 << 30),
                 "producers": r.choice([1, 2, 4]), "workers": r.choice([1, 2, 4, 6]), "n": r.choice([20, 100, 300]) if kind != "thread" else r.choice([1, 3, 20])}
            if kind == "queue":
                b["cancel"] = r.choice(["", "", "some", "all"])
            out.append([b])
        return out
    return g

S = lambda gen, name, **kw: Suite("sync", "TraceSync", gen, name, **kw)

def p20(tier):
    q = tier == "quick"
    mcs = [MC("MCJobQueue", "MCJobQueue.cfg" if q else "MCJobQueueT.cfg", expect_states=1000, timeout=120 if q else 1500),
           MC("MCEventChannel", "MCEventChannel.cfg", expect_states=5000, timeout=300),
           MC("MCEventChannel", "MCEventChannelB.cfg", expect_states=5000, timeout=300),
           MC("MCSync", "MCSync.cfg", expect_states=800)]
    s = [S(gen_calls(("queue",), 160, 4000), "queue"), S(gen_calls(("unicast", "broadcast"), 240, 6000), "channel"), S(gen_free(120, 2400), "free")]
    if not q:
        s.append(S(gen_free(0, 600), "free-tsan", variant="tsan"))
    return "model_checking", mcs, s

CHECKS = {"P20": p20}

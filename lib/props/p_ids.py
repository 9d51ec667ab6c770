"""Stream identifiers: P15 - driver mode ids, specifications StreamIds, MCStreamIds."""
import itertools
from runner import MC, Suite

def n(ctx, quick, thorough):
    return quick if ctx.quick else thorough

SIM = """SPECIFICATION SimSpec
CONSTANTS
  Threads = {1}
  Types = {200, 201, 65500}
  MaxCreate = 1000
  MaxScopes = 3
  KeepHist = TRUE
  MaxLen = 40
CHECK_DEADLOCK FALSE
"""

def gen_calls(quick, thorough):
    def g(ctx):
        r = ctx.rng("ids")
        out = []
        for h in ctx.sim("MCStreamIds", SIM, n(ctx, quick, thorough), 42):
            o = [{"op": "begin"}]
            for x in h:
                if x["op"] == "race":
                    x = dict(x, seed=r.randrange(1 << 30), n=r.choice([5, 20, 60]))
                o.append(x)
            out.append(o)
        return out
    return g

def gen_race(quick, thorough):
    def g(ctx):
        r = ctx.rng("idrace")
        return [[{"op": "begin"}] + [{"op": "race", "threads": r.choice([2, 3, 4, 8]), "n": r.choice([20, 50, 100]), "seed": r.randrange(1 << 30)} for _ in range(4)] for _ in range(n(ctx, quick, thorough))]
    return g

def codes(s):
    return [ord(c) & 255 for c in s]

def number(r):
    c = r.random()
    if c < .5:
        return str(r.choice([0, 1, 2, 9, 10, 99, 100, 200, 999, 6553, 9999, 10000, 32767, 32768, 65534, 65535]))
    if c < .8:
        return str(r.choice([65536, 65537, 65736, 99999, 100000, 131071, 131072, 131273, 655360, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 4294967496, 4295032833,
                             18446744073709551616, 18446744073709551817, 99999999999999999999999]))
    return "".join(r.choice("0123456789") for _ in range(r.randint(1, 24)))

def text(r):
    sep = r.choice("---+++ _:\x00")
    s = number(r) + sep + number(r)
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        k = r.randint(0, len(s))
        c = r.random()
        if c < .3 and s:
            s = s[:k] + s[k + 1:]
        elif c < .6:
            s = s[:k] + r.choice("0159-+-+ ax.\x00\xff/:") + s[k:]
        elif c < .75:
            s = s[:k]
        elif c < .9:
            s = s[k:]
        else:
            s = s + r.choice(["-", "+", "-1", "+2", " ", "\x00", "0"])
    return s

def gen_text(quick, thorough, deep=False):
    def g(ctx):
        r = ctx.rng("idtext")
        out = []
        tails = [None, "", "7", "-1", "+1", "123-45", "\x00", " "]
        # every text of up to 4 (thorough: 5) characters of a small alphabet
        small = [list(codes("".join(t))) for k in range(5 if ctx.quick else 6) for t in itertools.product("019-+x", repeat=k)]
        for plus in (False, True):
            for i in range(0, len(small), 400):
                o = [{"op": "begin"}]
                for j in range(i, min(i + 400, len(small)), 100):
                    y = {"op": "parse", "plus": plus, "texts": small[j:j + 100]}
                    t = r.choice(tails)
                    if t is not None:
                        y["tail"] = codes(t)
                    o.append(y)
                out.append(o)
        for _ in range(n(ctx, quick, thorough)):
            o = [{"op": "begin"}]
            for _ in range(4):
                y = {"op": "parse", "plus": r.random() < .5, "texts": [codes(text(r)) for _ in range(40)]}
                t = r.choice(tails)
                if t is not None:
                    y["tail"] = codes(t)
                o.append(y)
            v = lambda: r.choice([r.randrange(65536), r.choice([0, 1, 2, 9, 10, 99, 100, 255, 256, 999, 1000, 9999, 10000, 65534, 65535])])
            o.append({"op": "form", "ids": [[v(), v()] for _ in range(60)]})
            o.append({"op": "less", "ids": [[a, v(), r.choice([a, v()]), v()] for a in [v() for _ in range(60)]]})
            out.append(o)
        return out
    return g

S = lambda gen, name, **kw: Suite("ids", "TraceIds", gen, name, **kw)

def p15(tier):
    q = tier == "quick"
    s = [S(gen_calls(120, 3000), "calls"), S(gen_race(60, 1500), "race"), S(gen_text(60, 2000), "text")]
    if not q:
        s += [S(gen_text(40, 600), "text-asan", variant="asan"), S(gen_race(10, 300), "race-tsan", variant="tsan")]
    return "model_checking", [MC("MCStreamIds", "MCStreamIds.cfg" if q else "MCStreamIdsT.cfg", expect_states=5000, timeout=200 if q else 1800)], s

CHECKS = {"P15": p15}

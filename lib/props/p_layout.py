"""Data layouts: P21 - driver mode layout, specifications DataLayout, MCDataLayout."""
from runner import MC, Suite

def n(ctx, quick, thorough):
    return quick if ctx.quick else thorough

SIM = """SPECIFICATION SimSpec
CONSTANTS
  Labels = {1}
  Types = {1}
  MaxStored = 0
  MaxExpected = 0
  MaxVar = 0
  KeepHist = TRUE
  MaxLen = %d
CHECK_DEADLOCK FALSE
"""

NSTR = 20                      # strings of the driver
BOOL, FLOATS, STRING = 0, (2, 3), 30
def tsize(ty):
    return 2 if ty == BOOL else 11 if ty in FLOATS else NSTR if ty == STRING else 6
LABELS = [5, 6, 7, 8, 9, 10, 11, 0, 4, 15, 1, 12, 16, 17]

def value(r, f, maxlen=6):
    one = lambda: r.choice([0, r.randrange(tsize(f["ty"]))])
    k = f["k"]
    if k == "v":
        return [one()]
    if k == "s":
        return [r.choice([0, 0, r.randrange(NSTR)])]
    if k == "a":
        return [one() for _ in range(r.choice([0, 1, f["n"], f["n"], f["n"] + 1, max(f["n"] - 1, 0)]))]
    if k == "V":
        return [one() for _ in range(r.choice([0, 0, 1, 2, 3, maxlen, 40 if r.random() < .1 else 1]))]
    return [x for key in sorted(r.sample(range(NSTR), r.choice([0, 0, 1, 2, 5]))) for x in (key, one())]

def field(r):
    k = r.choice("vvvaaVVsssm")
    f = {"lab": r.choice(LABELS[:6]) if r.random() < .85 else r.choice(LABELS), "k": k, "ty": 0 if k == "s" else r.choice([STRING, STRING, r.randrange(30)]) if k in "Vm" else r.choice([5, 6, 11, 1, r.randrange(30), r.randrange(30)]),
         "n": r.choice([1, 2, 3, 7]) if k == "a" else 0, "req": r.random() < .15, "def": [], "tags": [], "props": []}
    if r.random() < .6:
        f["def"] = value(r, f)
    if r.random() < .3:
        f["tags"] = [x for key in sorted(r.sample(range(NSTR), r.randint(1, 3))) for x in (key, r.randrange(NSTR))]
    if k in "va" and r.random() < .3:
        f["props"] = [x for p in sorted(r.sample([1, 2, 3], r.randint(1, 3))) for x in (p, r.randrange(tsize(f["ty"])))]
    return f

def key(f):
    return (f["lab"], f["k"], f["ty"], f["n"])

def order(fs):
    return [f for f in fs if f["k"] in "va"] + [f for f in fs if f["k"] not in "va"]

def fields(r, like, room):
    """a new layout, or a variation of another"""
    fs = []
    if like is not None and r.random() < .85:
        for f in like:
            c = r.random()
            if c < .12:
                continue
            g = dict(f)
            if c < .3:
                g["def"] = value(r, g) if r.random() < .8 else []
            elif c < .36:
                g["req"] = not g["req"]
            elif c < .42 and g["k"] == "a":
                g["n"] = r.choice([1, 2, 3])
            elif c < .48 and g["k"] != "s":
                h = field(r)
                h["lab"] = g["lab"]
                g = h
            elif c < .54:
                g["lab"] = r.choice(LABELS)
            fs.append(g)
        if r.random() < .6:
            r.shuffle(fs)
    for _ in range(r.choice([0, 1, 2, 4, room])):
        fs.insert(r.randint(0, len(fs)), field(r))
    seen, out = set(), []
    for f in fs:
        if key(f) not in seen:
            seen.add(key(f))
            out.append(f)
    return out

def sets(r, fs, p):
    o = order(fs)
    out = [{"i": i + 1, "v": value(r, f), "how": r.randint(0, 2)} for i, f in enumerate(o) if r.random() < p]
    r.shuffle(out)
    return out

def gen(quick, thorough, length=30):
    def g(ctx):
        r = ctx.rng("layout")
        out = []
        for h in ctx.sim("MCDataLayout", SIM % length, n(ctx, quick, thorough), length + 2):
            o, lay, lastE = [{"op": "begin"}], {}, 0
            room = r.choice([2, 4, 8, 20])
            for x in h:
                x = dict(x, fill=r.randrange(30))
                op = x["op"]
                if op == "layout":
                    x["fields"] = lay[x["L"]] = fields(r, lay.get(x.pop("like")), room)
                elif op == "write":
                    x.update(init=r.random() < .4, sets=sets(r, lay[x["L"]], r.choice([0, .3, .7, 1])))
                elif op == "read":
                    x.update(fresh=r.random() < .3, early=r.random() < .5)
                    if lastE and r.random() < .4:
                        x["E"] = lastE
                    lastE = x["E"]
                elif op == "find":
                    x["asked"] = lay[x["L"]]
                    o.append({"op": "like", "L": x["L"], "E": x["E"]})
                elif op == "copy":
                    x.update(init=r.random() < .5, sets=sets(r, lay[x["E"]], .5))
                elif op == "patch":
                    x["sets"] = sets(r, lay[x["E"]], .5)
                elif op == "edit":
                    base = lay[x["E"]] if x["E"] else lay[x["from"]]
                    seen, extra = {key(f) for f in base}, []
                    for _ in range(r.choice([0, 0, 1, 2, 5])):
                        f = field(r)
                        if key(f) not in seen:
                            seen.add(key(f))
                            extra.append(f)
                    x["extra"] = extra
                    lay[x["L"]] = order(order(base) + extra)
                    x.update(init=r.random() < .5, sets=sets(r, lay[x["L"]], .3))
                o.append(x)
            out.append(o)
        return out
    return g

def gen_threads(quick, thorough):
    def g(ctx):
        r = ctx.rng("layoutthreads")
        return [[{"op": "begin"}] + [{"op": "auto", "threads": r.choice([1, 2, 4, 8]), "n": r.choice([3, 10]), "seed": r.randrange(1 << 30)} for _ in range(6)] for _ in range(n(ctx, quick, thorough))]
    return g

S = lambda gen, name, **kw: Suite("layout", "TraceLayout", gen, name, **kw)

def p21(tier):
    q = tier == "quick"
    s = [S(gen(1500, 12000), "layouts"), S(gen_threads(20, 300), "threads")]
    if not q:
        s += [S(gen(0, 1500), "layouts-asan", variant="asan"), S(gen_threads(10, 200), "threads-tsan", variant="tsan")]
    return "model_checking", [MC("MCDataLayout", "MCDataLayout.cfg" if q else "MCDataLayoutT.cfg", expect_states=200000, timeout=200 if q else 900)], s

CHECKS = {"P21": p21}

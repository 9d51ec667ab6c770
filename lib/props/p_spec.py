"""P23: file specifications as text, and who opens them."""
import itertools, json
from runner import MC, Suite

B = lambda s: list(s if isinstance(s, bytes) else s.encode())
n = lambda ctx, q, t: q if ctx.tier == "quick" else t
REGS = [("handler", "vone", ""), ("handler", "vtwo", ""), ("delegator", "vdel", ""), ("delegator", "vtwo", ""), ("extra", "loader", "x"), ("extra", "loader", "y")]

def reg(r, x=None, on=True):
    k, a, b = x or r.choice(REGS)
    return {"op": "reg", "kind": k, "name": B(a), "value": B(b), "on": on}

def chunked(ops, size, begin=None):
    return [[begin or {"op": "begin"}] + ops[k:k + size] for k in range(0, len(ops), size)]

def short(ctx):
    """every short string"""
    A = b"a:?=&%4/{" if ctx.tier == "quick" else b"a:?=&%4/{;\xc3\n"
    ops = [{"op": "parse", "s": list(s), "d": []} for k in range(n(ctx, 5, 5)) for s in itertools.product(A, repeat=k)]
    return chunked(ops, 400)

def word(r, m=6):
    k = r.random()
    if k < .5: return "".join(r.choice("abcXYZ019._-+ ~@#$!,") for _ in range(r.randint(1, m))).encode()
    if k < .75: return bytes(r.choice(b"a4%:?=&;/{\\\"' ") for _ in range(r.randint(1, m)))
    if k < .9: return "".join(r.choice("aé日\U0001F600ß") for _ in range(r.randint(1, m))).encode()
    return bytes(r.randrange(256) for _ in range(r.randint(1, m)))
def esc(r, w):
    """sometimes percent-encoded"""
    k = r.random()
    if k < .4: return w
    if k < .8: return b"".join(b"%%%02x" % c if r.random() < .5 else bytes([c]) for c in w)
    return b"".join(b"%%%02X" % c for c in w)
NAMES = [b"diskfile", b"asyncdiskfile", b"vone", b"vtwo", b"vdel", b"http", b"a", b"ab", b"A-b.c+d_e"]
KEYS = [b"loader", b"loader", b"fail", b"k", b"key", b"K 2", b"prefetch_cache"]
VALS = [b"x", b"y", b"z", b"1", b"true", b"-12"]
def uri(r):
    s = b""
    k = r.random()
    if k < .6: s = r.choice(NAMES) + b":"
    elif k < .7: s = word(r, 4) + b":"
    if s and r.random() < .3: s += b"/" * r.randint(1, 3)
    s += r.choice([b"/", b"", b"//h/"]) + esc(r, word(r, 8)) + (b"" if r.random() < .6 else b"/" + word(r))
    if r.random() < .7:
        ps = []
        for _ in range(r.randint(0, 3)):
            key = r.choice(KEYS) if r.random() < .6 else word(r)
            val = r.choice(VALS) if r.random() < .6 else word(r)
            p = esc(r, key) + b"=" + esc(r, val)
            if r.random() < .1: p = r.choice([b"", b"=", key, key + b"=", b"=" + val, p + b"=1"])
            ps.append(p)
        s += b"?" + b"".join(p + (b"" if i == len(ps) - 1 else r.choice([b"&", b"&", b";"])) for i, p in enumerate(ps))
        if r.random() < .1: s += r.choice([b"&", b";", b"?", b":"])
    return s
def mangle(r, s):
    s = bytearray(s)
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        k = r.randrange(3)
        if k == 0 and s: del s[r.randrange(len(s))]
        elif k == 1: s.insert(r.randint(0, len(s)), r.choice(b"a:?=&;%4/\x1f\x20\x7f\x80"))
        elif s: s[r.randrange(len(s))] = r.choice(b"a:?=&;%4/\xff")
    return bytes(s[1:] if s[:1] == b"{" else s)

def fields(r, ext=True):
    """any fields"""
    ch = [word(r, 12) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 5]))]
    if r.random() < .2: ch = [r.choice([uri(r), b"{a", b"{\"chunks\":[\"a\"]}", b"", b"C:/x?b=c", b"/a?b=c", b"diskfile:z"])]
    e = {}
    for _ in range(r.choice([0, 0, 1, 2, 4]) if ext else 0):
        key = r.choice(KEYS) if r.random() < .5 else word(r) + (b"\x00b" if r.random() < .1 else b"")
        e[key] = r.choice(VALS) if r.random() < .4 else b"" if r.random() < .1 else word(r, 20) + (b"\x00z" if r.random() < .1 else b"")
    return {"fh": list(r.choice(NAMES + [b"", b"", b"diskfile", b"diskfile"])), "fn": list(word(r, 10)) if r.random() < .4 else [],
            "uri": list(uri(r)) if r.random() < .4 else [], "chunks": [list(c) for c in ch],
            "sizes": [r.choice([0, 1, 7, 300, 70000, 1 << 28]) for _ in range(len(ch) if r.random() < .7 else r.randint(0, 4))] if r.random() < .6 else [],
            "extras": [[list(k), list(e[k])] for k in e]}

def jtext(r, s):
    """json string of a text, in some notation"""
    t = json.dumps(s, ensure_ascii=r.random() < .5)
    return t.replace("/", "\\/") if r.random() < .2 else t
def jdoc(r):
    doc, parts = [], []
    ks = ["chunks", "chunk_sizes", "storage", "filename", "source_uri", "k", "loader", "", "é", "a\u0000b", "k"]
    sp = lambda: r.choice(["", "", "", " ", "\n\t"])
    W = lambda: "".join(r.choice("ab/:?%é日\U0001F600\"\\\n\u0001\u0000{}[],") for _ in range(r.randint(0, 8)))
    NUM = ["0", "1.5", "true", "false", "null", "{}", "{\"a\":\"b\"}", "[]", "-7", "1e3"]
    for k in r.sample(ks, r.randint(0, len(ks))):
        kind = "a" if k in ("chunks", "chunk_sizes") else "s"
        if r.random() < .12: kind = r.choice("ao") if k not in ("chunks", "chunk_sizes") else "o"
        if kind == "s":
            w = W(); v = B(w); t = jtext(r, w)
        elif kind == "a":
            v, ts = [], []
            for _ in range(r.randint(0, 4)):
                x = r.random()
                e = "s" if (k == "chunks") == (x < .85) else "i"
                if x > .95: e = "o"
                if e == "s":
                    w = W(); v.append(["s", B(w)]); ts.append(jtext(r, w))
                elif e == "i":
                    w = r.choice([0, 1, -1, 12345, (1 << 31) - 1]); v.append(["i", w]); ts.append(str(w))
                else:
                    v.append(["o", []]); ts.append(r.choice(["1.5", "null", "true", "{}", "[1]"]))
            t = "[" + sp() + (sp() + "," + sp()).join(ts) + sp() + "]"
        else:
            v = []; t = r.choice([x for x in NUM if not (x == "[]")])
        doc.append([B(k), kind, v])
        parts.append(jtext(r, k) + sp() + ":" + sp() + t)
    return doc, "{" + sp() + (sp() + "," + sp()).join(parts) + sp() + "}"

def texts(quick, thorough):
    def g(ctx):
        r = ctx.rng("spec")
        out = []
        for _ in range(n(ctx, quick, thorough)):
            o = [{"op": "begin"}]
            for _ in range(r.randint(0, 3)): o.append(reg(r))
            for _ in range(40):
                k = r.random()
                if k < .45:
                    o.append({"op": "parse", "s": list(mangle(r, uri(r))), "d": list(r.choice([b"", b"", b"", b"diskfile", b"vone", b"http", b"asyncdiskfile"]))})
                elif k < .65: o.append({"op": "spec", "f": fields(r)})
                elif k < .8:
                    doc, t = jdoc(r)
                    t = t.encode("utf-8", "surrogatepass")
                    bad = False
                    if r.random() < .25:
                        bad = True
                        t = r.choice([t[:r.randrange(1, len(t))], t + b"x", t + t, b"[" + t + b"]", b"{" + t, t.replace(b"}", b"]") if b"}" in t[-1:] and t.count(b"}") == 1 else t[:-1]])
                    o.append({"op": "json", "doc": doc, "s": list(t), "bad": bad, "any": t[:1] == b"{" and r.random() < .4})
                elif k < .87: o.append({"op": "query", "s": list(mangle(r, esc(r, word(r)) + b"=" + esc(r, word(r))))})
                elif k < .92: o.append({"op": "decode", "s": list(mangle(r, esc(r, word(r, 12))))})
                elif k < .97:
                    v = r.choice(["", "0", "1", "true", "false", "-", "+1", " 1", "1 ", "1.5", "0x10", "-0", "007", str(r.choice([31, 32, 63, 64]) and (1 << r.choice([31, 32, 63, 64])) + r.choice([-2, -1, 0, 1])),
                                  "-" + str((1 << r.choice([31, 63])) + r.choice([-1, 0, 1])), str(r.randrange(10 ** 6)), "-" + str(r.randrange(10 ** 9)), "9" * 30])
                    o.append({"op": "num", "s": B(v)})
                else: o.append({"op": "set", "s": B(str(r.choice([0, 1, -1, r.randrange(-10 ** 18, 10 ** 18)])))})
            out.append(o)
        return out
    return g

def opens(quick, thorough):
    def g(ctx):
        r = ctx.rng("open")
        out = []
        for _ in range(n(ctx, quick, thorough)):
            o, on = [{"op": "begin"}], set()
            for _ in range(30):
                if r.random() < .25:
                    x = r.choice(REGS)
                    o.append(reg(r, x, x not in on)); on ^= {x}
                    continue
                f = {"fh": list(r.choice([b"", b"", b"diskfile", b"asyncdiskfile", b"vone", b"vtwo", b"vdel", b"http"])), "fn": [], "uri": list(uri(r)) if r.random() < .2 else [],
                     "chunks": [B(r.choice("fffg")) for _ in range(r.choice([0, 1, 1, 1, 2]))], "sizes": [], "extras": []}
                if r.random() < .4: f["extras"].append([B("loader"), B(r.choice(["x", "y", "z", ""]))])
                if r.random() < .2: f["extras"].append([B("fail"), B("1")])
                via = r.choice(["factory", "factory", "make", "handler"])
                o.append({"op": "open", "f": f, "via": via, "given": list(r.choice([b"", b"", b"diskfile", b"vone", b"vtwo", b"other"])) if via != "make" else [],
                          "own": list(r.choice([b"vone", b"own"]))})
            out.append(o)
        return out
    return g

S = lambda gen, name, **kw: Suite("spec", "TraceFileSpec", gen, name, **kw)

def p23(tier):
    q = tier == "quick"
    s = [S(short, "short"), S(texts(300, 4000), "texts"), S(opens(150, 2000), "open"), S(texts(40, 1000), "asan", variant="asan")]
    return "model_checking", [MC("MCFileSpec", "MCFileSpec.cfg" if q else "MCFileSpecT.cfg", expect_states=100000, timeout=200 if q else 900)], s

CHECKS = {"P23": p23}

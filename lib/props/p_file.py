"""Files in chunks: P13 (DiskFile), P26 (asynchronous disk file) - driver mode file, specification DiskFile."""
from runner import MC, Suite

def n(ctx, quick, thorough):
    return quick if ctx.quick else thorough

def simcfg(length, chunks, chunk, total, maxn, reads):
    return """SPECIFICATION SimSpec
CONSTANTS
  MaxChunks = %d
  MaxChunk = %d
  MaxTotal = %d
  MaxN = %d
  Vals = {1}
  MaxLen = %d
  KeepHist = TRUE
  CanRead = %s
CHECK_DEADLOCK FALSE
""" % (chunks, chunk, total, maxn, length, "TRUE" if reads else "FALSE")

UNITS = [1, 1, 3, 7, 512, 1000, 4096, 4097]

def script(r, h, handler, units, opts=None, fault=None):
    u = r.choice(units)
    mod = 250 if u == 1 else 60000
    b = {"op": "begin", "handler": handler, "u": u, "mod": mod, "mode": "w" if h["ch"]["op"] == "create" else "ro", "ch": h["ch"]["ch"],
         "name": r.choice(["f", "f_1", "f.vrs"])}
    if opts is not None:
        b["opts"] = opts
    if fault:
        b["fault"] = fault
    if r.random() < .2:   # files that can't be opened are tried first: chunks are missing, or there are none
        b["before"] = [r.choice([[], [0], [1, 0], [0, 1], [1, 2, 0], [1, 0, 2]]) for _ in range(r.randint(1, 2))]
    o, v = [b], 1000 if u > 1 else 1
    for x in h["ops"]:
        y = dict(x)
        if x["op"] in ("write", "overwrite"):
            y["v"], y["mod"] = v, mod
            v += x["n"]
        o.append(y)
        if handler == "asyncdiskfile" and r.random() < .05:
            o.append({"op": "sleep", "ms": r.choice([0, 1, 3])})
    o.append({"op": "close"})
    return o

def histories(ctx, num, length, chunks, chunk, total, maxn, reads=False):
    return ctx.sim("MCDiskFile", simcfg(length, chunks, chunk, total, maxn, reads), num, length + 3)

def gen_plain(quick, thorough):
    def g(ctx):
        r = ctx.rng("file")
        out = []
        for (c, k, t, m, w) in ((3, 3, 10, 5, 3), (5, 8, 30, 12, 2), (6, 2, 12, 9, 1)):
            for h in histories(ctx, n(ctx, quick, thorough) * w // 6, 40, c, k, t, m):
                opts = {"io_buffer_size": r.choice(["0", "1", "100", "5000"])} if r.random() < .2 else None
                out.append(script(r, h, "diskfile", UNITS, opts))
        return out
    return g

def async_opts(r):
    al = r.choice(["512", "512", "1024", "4096", "1", "512"])
    o = {"ioengine": r.choice(["aio", "aio", "psync", "sync"]), "direct": r.choice(["0", "1", "true", "false"]),
         "buffer_size": r.choice(["512", "1024", "4096", "8192", "12288"]), "buffer_count": r.choice(["1", "2", "3", "8"]),
         "offset_align": al, "mem_align": r.choice(["512", "512", "4096", "1"])}
    if o["direct"] in ("1", "true"):   # what the file system needs for direct I/O
        o["offset_align"] = r.choice(["512", "512", "1024", "4096"])
    if r.random() < .5:
        o["iodepth"] = r.choice(["1", "2", "8"])
    a, m, b = max(1, int(o["offset_align"])), int(o["mem_align"]), int(o["buffer_size"])
    if b % a or b % m:
        o["buffer_size"] = "4096" if r.random() < .5 else "8192"
    if int(o["mem_align"]) < 8:   # posix_memalign wants at least the size of a pointer
        o["mem_align"] = "512"
    if r.random() < .1:
        del o["ioengine"]
    return o

AUNITS = [1, 100, 100, 333, 512, 700, 1024, 4096]

def gen_async(quick, thorough):
    def g(ctx):
        r = ctx.rng("async")
        out = []
        for (c, k, t, m, w) in ((1, 6, 60, 20, 3), (3, 8, 60, 20, 3)):
            for h in histories(ctx, n(ctx, quick, thorough) * w // 6, 40, c, k, t, m, True):
                out.append(script(r, h, "asyncdiskfile", AUNITS, async_opts(r)))
        return out
    return g

def gen_async_fault(quick, thorough):
    def g(ctx):
        r = ctx.rng("asyncfault")
        out = []
        for h in histories(ctx, n(ctx, quick, thorough), 25, 3, 8, 60, 20, True):
            f = {"kinds": r.choice(["a", "c", "c", "p", "ap", "cp"]), "at": r.choice([1, 1, 2, 3, 5, 9]), "sticky": r.random() < .5, "err": r.choice([28, 5, 11]), "partial": r.choice([0, 10, 512])}
            out.append(script(r, h, "asyncdiskfile", AUNITS, async_opts(r), fault=f))
        return out
    return g

MCS = lambda tier: [MC("MCDiskFile", "MCDiskFile.cfg" if tier == "quick" else "MCDiskFileT.cfg", expect_states=10000, timeout=200 if tier == "quick" else 3000, mem="6g")]
F = lambda gen, name, **kw: Suite("file", "TraceDiskFile", gen, name, **kw)

def p13(tier):
    s = [F(gen_plain(700, 20000), "chunks")]
    if tier != "quick":
        s.append(F(gen_plain(0, 4000), "chunks-asan", variant="asan"))
    return "model_checking", MCS(tier), s
def p26(tier):
    s = [F(gen_async(500, 12000), "async"), F(gen_async_fault(200, 5000), "fault")]
    if tier != "quick":
        s += [F(gen_async(0, 4000), "async-asan", variant="asan"), F(gen_async_fault(0, 2000), "fault-asan", variant="asan")]
    return "model_checking", MCS(tier), s

CHECKS = {"P13": p13, "P26": p26}

#!/usr/bin/env python3
"""Common machinery of the checks: model checking with TLC, generating behaviours, driving the real
library, validating the recorded traces against the specification, evidence and verdict."""
import os, sys, json, time, random, subprocess, tempfile, shutil, re, hashlib, signal, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as builder

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)

class CheckError(Exception):
    pass

# ------------------------------------------------------------------ TLC
def tlc(work, module, cfg, args=(), env=None, workers=1, timeout=600, mem="3g"):
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(workers, 4)), "-Xss16m", "-Xmx" + mem,
           "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
           "-config", cfg] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        rc, out = -9, "TIMEOUT " + str(x.stdout or b"")[-2000:]
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out

def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))

class MC:
    """An exhaustive check of a design model with its invariants and properties."""
    def __init__(self, module, cfg, timeout=400, mem="4g", expect_states=1):
        self.module, self.cfg, self.timeout, self.mem, self.expect = module, cfg, timeout, mem, expect_states
    def run(self, work, workers):
        rc, out = tlc(work, self.module, self.cfg, workers=workers, timeout=self.timeout, mem=self.mem)
        st, tr = tlc_counts(out)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model checking of %s failed (rc %d)\n%s" % (self.cfg, rc, out[-3000:]))
        if st < self.expect:
            raise CheckError("model %s explored only %d states" % (self.cfg, st))
        return {"model": self.module, "cfg": self.cfg, "states": st, "transitions": tr}

def simulate(work, module, cfg, num, depth, seed, timeout=300):
    """behaviours of the model, as lists of operations (TLC -simulate)"""
    rc, out = tlc(work, module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], timeout=timeout)
    res = []
    for line in out.splitlines():
        if line.startswith('"HIST '):
            s = line[6:].rstrip()
            if s.endswith('"'):
                s = s[:-1]
            res.append(json.loads(s.replace('\\"', '"').replace("\\\\", "\\")))
    if len(res) < num:
        print("note: %d behaviours of %d generated from %s: %s" % (len(res), num, module, "; ".join(l for l in out.splitlines() if "Error" in l or "violated" in l)[:300] or rc))
    if not res:
        raise CheckError("no behaviour generated from %s\n%s" % (cfg, out[-3000:]))
    return res

class Suite:
    """Histories driven through the real library in one driver mode, checked by one trace module."""
    def __init__(self, mode, module, gen, name=None, env=None, variant="plain", limit=None, per_tlc=None):
        self.mode, self.module, self.gen, self.name = mode, module, gen, name or mode
        self.env, self.variant, self.limit = env or {}, variant, limit

# ------------------------------------------------------------------ driving and validating
def write_script(path, hists):
    with open(path, "w") as f:
        for h in hists:
            for op in h:
                f.write(json.dumps(op, separators=(",", ":")) + "\n")

def drive(exe, suite, script, trace, scratch, errfile, timeout):
    env = dict(os.environ)
    env.update(suite.env)
    env["LSAN_OPTIONS"] = "detect_leaks=0"
    with open(errfile, "wb") as ef:
        p = subprocess.Popen([exe, suite.mode, script, trace, scratch], stdout=ef, stderr=ef, env=env, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 99
    shutil.rmtree(scratch, ignore_errors=True)
    return rc

def split_trace(trace):
    """trace lines by history"""
    hs, cur = [], None
    try:
        with open(trace, errors="replace") as f:
            for line in f:
                if line.startswith('{"ev":"begin"'):
                    cur = []
                    hs.append(cur)
                if cur is not None:
                    cur.append(line)
    except OSError:
        pass
    return hs

def validate(work, suite, trace, timeout):
    """-> (verdict, message, states, transitions); verdict accepted|rejected|error"""
    rc, out = tlc(work, suite.module, suite.module + ".cfg", env={"TRACE": trace}, timeout=timeout, mem="3g")
    st, tr = tlc_counts(out)
    mism = [l for l in out.splitlines() if l.startswith('"MISMATCH')]
    if rc == 0 and "No error has been found" in out and not mism:
        return "accepted", "", st, tr
    if mism or "is false" in out or "is violated" in out or "Evaluating" in out or "The error occurred when" in out or "exception" in out.lower():
        if "OutOfMemory" in out or "StackOverflow" in out:
            return "error", out[-2000:], st, tr
        msg = mism[-1] if mism else "EVALUATION " + out[out.find("Error:"):][:1500]
        return "rejected", msg, st, tr
    return "error", "rc %d\n%s" % (rc, out[-2000:]), st, tr

class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.violations, self.samples, self.models, self.notes = [], [], [], []
        self.ops = {}
        self.known, self.listed = {}, {}

def known_findings(prop):
    """name -> (mismatch, description) of the findings recorded, not repaired, in KNOWN_FINDINGS.txt"""
    res = {}
    for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) (\S+) \[(\S+)\] (.*)", line.strip())
        if m and m.group(1) == prop:
            res[m.group(2)] = (m.group(3), m.group(4))
    return res

def tail(path, n=1500):
    try:
        with open(path, errors="replace") as f:
            return re.sub(r"\x1b\[[0-9;]*m", "", f.read())[-n:]
    except OSError:
        return ""

def run_one(exe, suite, hist, work, tag, timeout):
    """one history alone -> (verdict, message, tracefile)"""
    sc, tr, er = [os.path.join(work, tag + x) for x in (".script", ".trace", ".err")]
    write_script(sc, [hist])
    rc = drive(exe, suite, sc, tr, os.path.join(work, tag + ".scratch"), er, timeout)
    if rc != 0:
        return "crash", "driver ended with %d: %s" % (rc, tail(er, 600)), tr
    if not split_trace(tr):
        return "error", "no trace", tr
    v, msg, _, _ = validate(work, suite, tr, timeout)
    return v, msg, tr

def check_shard(exe, suite, hists, work, tag, res, lock, timeout):
    """drive + validate a list of histories; on trouble isolate the histories at fault"""
    todo = list(hists)
    rounds = 0
    while todo and rounds < 6:
        rounds += 1
        sc, tr, er = [os.path.join(work, "%s-%d%s" % (tag, rounds, x)) for x in (".script", ".trace", ".err")]
        write_script(sc, todo)
        rc = drive(exe, suite, sc, tr, os.path.join(work, "%s-%d.scratch" % (tag, rounds)), er, timeout)
        ht = split_trace(tr)
        culprit, kind, msg = None, None, ""
        if rc != 0:
            culprit = max(0, len(ht) - 1)
            kind, msg = "crash", "driver ended with %d: %s" % (rc, tail(er, 600))
            good = ht[:culprit]
            with open(tr, "w") as f:
                for h in good:
                    f.writelines(h)
        else:
            good = ht
        if good:
            v, m, st, tn = validate(work, suite, tr, timeout)
            with lock:
                res.states += st
                res.transitions += tn
            if v == "error":
                # infrastructure trouble: once more, then give up
                v, m, st, tn = validate(work, suite, tr, timeout)
                if v == "error":
                    raise CheckError("trace validation failed: " + m)
            if v == "rejected":
                # number of accepted events = states - 1: find the history
                n, k = max(0, st - 1), 0
                for k, h in enumerate(good):
                    if n < len(h):
                        break
                    n -= len(h)
                culprit, kind, msg = k, "rejected", m
                good = good[:k]
        with lock:
            res.traces += len(good)
            res.events += sum(len(h) for h in good)
            if good and len(res.samples) < 3:
                res.samples.append([json.loads(x) for x in good[len(good) // 2][:12]])
        if culprit is None:
            return
        hist = todo[culprit] if culprit < len(todo) else todo[-1]
        confirm(exe, suite, hist, work, "%s-%d-c" % (tag, rounds), kind, msg, tr, ht[culprit] if culprit < len(ht) else [], res, lock, timeout)
        todo = todo[culprit + 1:]
        with lock:
            if res.violations:
                return

def confirm(exe, suite, hist, work, tag, kind, msg, tr, lines, res, lock, timeout):
    again, last = 0, msg
    for k in range(3):
        v, m, t = run_one(exe, suite, hist, work, "%s%d" % (tag, k), min(timeout, 200))
        if v in ("rejected", "crash"):
            again += 1
            last = m
            break
    # a mismatch of observed data is a fact even if another schedule hides it; crashes, hangs and
    # timing dependent observations must repeat
    soft = kind == "crash" or "MISMATCH timing" in msg or "MISMATCH auto" in msg
    if again == 0 and soft:
        with lock:
            res.notes.append("not repeated: %s %s" % (kind, msg[:300]))
        return
    # a history made to show a listed finding, failing just as listed
    f = res.listed.get(hist[0].get("finding"))
    if f and again and kind == "rejected" and "MISMATCH %s" % f[0] in last.split("\n")[0]:
        with lock:
            res.known[hist[0]["finding"]] = f[1]
        return
    with lock:
        res.violations.append({"suite": suite.name, "mode": suite.mode, "module": suite.module, "variant": suite.variant,
                               "kind": kind, "message": (msg if again == 0 else last)[:3000], "repeated": again > 0, "script": hist, "trace": lines})

# ------------------------------------------------------------------ a whole check
class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.quick = tier == "quick"
    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, salt))
    def sim(self, module, cfg, num, depth, salt=0):
        if not cfg.endswith(".cfg"):   # the text of a configuration
            path = os.path.join(self.work, "sim-%s.cfg" % hashlib.sha256(cfg.encode()).hexdigest()[:12])
            with open(path, "w") as f:
                f.write(cfg)
            cfg = path
        return simulate(self.work, module, cfg, num, depth, self.seed * 1000 + salt)

def plain(text):
    """printable text, whatever strings a message quotes"""
    return "".join(c if " " <= c <= "~" else ascii(c)[1:-1] for c in text)

def run_check(prop, level, mcs, suites, tier, seed, out_json=None, assumptions=()):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vrs-%s-" % prop)
    ctx = Ctx(prop, tier, seed, work)
    res, lock = Result(), threading.Lock()
    res.listed = known_findings(prop)
    code = 2
    try:
        # models first while the library builds: both use all cores, but the model checks are short
        hists = {}
        with ThreadPoolExecutor(max_workers=3) as ex:
            bf = {v: ex.submit(builder.build, v, *VARIANTS[v]) for v in sorted({s.variant for s in suites})}
            for k, s in enumerate(suites):
                hs = s.gen(ctx)
                for i, h in enumerate(hs):
                    h[0]["h"] = i + 1
                hists[k] = hs
            exes = {v: f.result() for v, f in bf.items()}
        if any(x is None for x in exes.values()):
            print("ERROR: /repo does not build")
            return 2
        tb = time.time()
        for k, s in enumerate(suites):
            hs = hists[k]
            exe = exes[s.variant]
            n = max(1, min(NCPU, (len(hs) + 3) // 4))
            shards = [hs[i::n] for i in range(n)]
            with ThreadPoolExecutor(max_workers=n) as ex:
                fs = [ex.submit(check_shard, exe, s, sh, work, "%s-%d-%d" % (s.name, k, i), res, lock, s.limit or (240 if tier == "quick" else 3000))
                      for i, sh in enumerate(shards) if sh]
                for f in fs:
                    f.result()
            for h in hs:
                for op in h:
                    o = op.get("op")
                    res.ops[o] = res.ops.get(o, 0) + 1
            if res.violations:
                break
        td = time.time()
        for mc in mcs:
            if res.violations:
                break
            r = mc.run(work, NCPU)
            res.models.append(r)
            res.states += r["states"]
            res.transitions += r["transitions"]
        code = 1 if res.violations else 0
        replays = []
        for i, v in enumerate(res.violations):
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%d.json" % (prop, i + 1))
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            replays.append(p)
        total = sum(len(x) for x in hists.values())
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
              "coverage": {"states": res.states, "transitions": res.transitions,
                           "traces_validated_against_impl": res.traces,
                           "events_validated": res.events,
                           "evaluations": total,
                           "distinct_nontrivial": len({json.dumps(h[1:], sort_keys=True) for x in hists.values() for h in x if len(h) > 2}),
                           "rule": "histories made from TLC behaviours of the specification and seeded random choices; non-trivial: more than two operations, distinct scripts",
                           "models": res.models, "operations": res.ops, "samples": res.samples or [[]]},
              "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(res.violations)}
        if res.known:
            ev["coverage"]["known_findings"] = sorted(res.known)
        if res.notes:
            ev["coverage"]["notes"] = res.notes[:20]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for name, what in sorted(res.known.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, name, what))
        for v, p in list(zip(res.violations, replays))[:4]:
            print("  %s/%s: %s" % (v["suite"], v["kind"], plain(v["message"][:400])))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        print("%s %s: %d histories, %d accepted, %d events, %d model states; build %.0fs, drive+validate %.0fs, models %.0fs%s" %
              (prop, "VIOLATED" if code else "ok", total, res.traces, res.events, sum(m["states"] for m in res.models),
               tb - t0, td - tb, time.time() - td, "; notes: %d" % len(res.notes) if res.notes else ""))
        return code
    except CheckError as e:
        print("CHECK ERROR (%s): %s" % (prop, e))
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)

VARIANTS = {"plain": ((),), "asan": (("-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all"),), "tsan": (("-fsanitize=thread",),)}

#!/usr/bin/env python3
"""Builds the conformance driver from /repo's current working tree, outside /repo.

Every object is keyed by the hash of its preprocessed-input dependencies (own content-addressed cache,
no reliance on mtimes): a patched source is always recompiled, an unchanged one is reused if an
earlier build is still there.
"""
import os, sys, glob, hashlib, subprocess, shutil, time, json
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
GUARD = "VRS_VERIF_HOOKS"
FLAGS = ["-std=c++17", "-O0", "-g0", "-w", "-fPIC", "-pthread", "-DOPUS_IS_AVAILABLE", "-DOSS_BUILD_MODE",
         "-DFMT_SHARED", "-DNDEBUG", "-D" + GUARD, "-I" + REPO, "-I" + REPO + "/vrs/oss", "-isystem", "/usr/include/opus"]
WRAP = ["fopen", "fwrite", "fclose", "fflush", "ftruncate", "pwrite", "aio_write"]
LIBS = ["-Wl,--wrap=" + w for w in WRAP] + ["-lfmt", "-lzstd", "-llz4", "-lxxhash", "-lpng", "-ljpeg", "-lturbojpeg", "-lopus", "-lz", "-lrt", "-lpthread", "-ldl"]
CXX = shutil.which("clang++") or "g++"

def sources():
    pats = ["vrs/*.cpp", "vrs/helpers/*.cpp", "vrs/os/*.cpp", "vrs/oss/logging/*.cpp", "vrs/utils/*.cpp",
            "vrs/utils/xxhash/*.cpp", "vrs/utils/cli/*.cpp", "vrs/utils/converters/*.cpp", "tools/vrs/VrsCommand.cpp"]
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, p))
    return sorted(s for s in out if not s.endswith(("Ocean.cpp", "PixelFrameOptions.cpp")))

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()

_fh = {}
def fhash(path):
    if path not in _fh:
        try:
            with open(path, "rb") as f:
                _fh[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _fh[path] = "absent"
    return _fh[path]

def parse_deps(dfile):
    with open(dfile) as f:
        s = f.read().replace("\\\n", " ")
    return s.split(":", 1)[1].split()

def compile_one(src, objdir, flags):
    base = sha(src, CXX, " ".join(flags))[:24]
    meta = os.path.join(objdir, base + ".json")
    if os.path.exists(meta):
        try:
            m = json.load(open(meta))
            key = sha(*[d + "=" + fhash(d) for d in m["deps"]])
            obj = os.path.join(objdir, base + "-" + key[:24] + ".o")
            if os.path.exists(obj):
                return obj, False, ""
        except Exception:
            pass
    tmp = os.path.join(objdir, base + ".tmp%d" % os.getpid())
    r = subprocess.run([CXX] + flags + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"], capture_output=True, text=True)
    if r.returncode != 0:
        return None, True, r.stderr[-4000:]
    deps = [d for d in parse_deps(tmp + ".d") if not d.startswith("/usr/") and not d.endswith(".pch")]
    key = sha(*[d + "=" + fhash(d) for d in deps])
    obj = os.path.join(objdir, base + "-" + key[:24] + ".o")
    for old in glob.glob(os.path.join(objdir, base + "-*.o")):
        os.unlink(old)
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    with open(meta + ".tmp", "w") as f:
        json.dump({"src": src, "deps": deps}, f)
    os.replace(meta + ".tmp", meta)
    return obj, True, ""

def build(variant="plain", extra=(), log=print):
    t0 = time.time()
    objdir = os.path.join(BUILD, "obj-" + variant)
    os.makedirs(objdir, exist_ok=True)
    flags = FLAGS + list(extra)
    # one precompiled header made only of system headers (faster); without it if that fails
    pch = os.path.join(objdir, "pch-" + sha(CXX, " ".join(flags), fhash(os.path.join(VERIF, "harness", "pch.h")))[:24] + ".pch")
    if not os.path.exists(pch) and "clang" in CXX:
        r = subprocess.run([CXX] + flags + ["-fpch-instantiate-templates", "-x", "c++-header",
                           os.path.join(VERIF, "harness", "pch.h"), "-o", pch + ".tmp%d" % os.getpid()], capture_output=True, text=True)
        if r.returncode == 0:
            os.replace(pch + ".tmp%d" % os.getpid(), pch)
    if os.path.exists(pch):
        flags = flags + ["-include-pch", pch]
    srcs = sources() + sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp")))
    srcs.sort(key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        res = list(ex.map(lambda s: compile_one(s, objdir, flags), srcs))
    bad = [(s, r[2]) for s, r in zip(srcs, res) if r[0] is None]
    if bad:
        for s, e in bad[:3]:
            log("BUILD FAILED: %s\n%s" % (s, e))
        return None
    objs = [r[0] for r in res]
    exe = os.path.join(BUILD, "vdrv-" + variant + "-" + sha(*objs)[:24])
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(BUILD, "vdrv-" + variant + "-*")):
            os.unlink(old)
        ld = ["-fuse-ld=gold"] if shutil.which("ld.gold") else []
        r = subprocess.run([CXX] + list(extra) + ld + objs + ["-o", exe + ".tmp"] + LIBS, capture_output=True, text=True)
        if r.returncode != 0:
            log("LINK FAILED\n" + r.stderr[-4000:])
            return None
        os.replace(exe + ".tmp", exe)
    log("build[%s]: %d sources, %d compiled, %.1fs" % (variant, len(srcs), sum(1 for r in res if r[1]), time.time() - t0))
    return exe

if __name__ == "__main__":
    sys.exit(0 if build() else 2)

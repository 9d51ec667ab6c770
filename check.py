#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] | --replay FILE"""
import os, sys, json, argparse, tempfile, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "lib", "props")]
import runner

def registry():
    import importlib, glob
    reg = {}
    for p in sorted(glob.glob(os.path.join(VERIF, "lib", "props", "p_*.py"))):
        reg.update(importlib.import_module(os.path.basename(p)[:-3]).CHECKS)
    return reg

def replay(path):
    v = json.load(open(path))
    exe = runner.builder.build(v.get("variant", "plain"), *runner.VARIANTS[v.get("variant", "plain")])
    s = runner.Suite(v["mode"], v["module"], None)
    work = tempfile.mkdtemp(prefix="vrs-replay-")
    verdict, msg, tr = runner.run_one(exe, s, v["script"], work, "r", 300)
    print(open(tr, errors="replace").read()[-6000:] if os.path.exists(tr) else "")
    print(verdict, msg)
    shutil.rmtree(work, ignore_errors=True)
    return 0 if verdict == "accepted" else 1

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    level, mcs, suites = registry()[a.property](a.tier)
    return runner.run_check(a.property, level, mcs, suites, a.tier, a.seed)

if __name__ == "__main__":
    sys.exit(main())

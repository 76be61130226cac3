#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE]
Decides one property of the library in /repo against the TLA+ specification in /verif/spec.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run."""
import argparse, json, os, random, subprocess, sys, time, traceback, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine as en
from engine import Harness, Violation, ToolError, V, BUILD
import parts

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
args = ap.parse_args()
seed = int(os.environ.get("VERIF_SEED", "1"))
t0 = time.time()

def report(pid, viol, tmp):
    d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    json.dump({"property": pid, "seed": seed, "tier": args.tier, "violations": viol[:20]}, open(path, "w"), indent=1)
    for v in viol[:5]: print("  " + json.dumps(v)[:1500])
    print("VIOLATION property=%s replay=%s" % (pid, path))

def main():
    pid = args.prop
    tmp = os.path.join(BUILD, "run_%s_%d" % (pid, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    ctx = parts.Ctx(pid, args.tier, seed, tmp)
    try:
        if args.replay:
            r = json.load(open(args.replay)); ctx.seed, ctx.tier = r["seed"], r["tier"]   # the random types are the seed's
            parts.replay(ctx, args.replay)
        else: parts.run(ctx)
    except Violation as e: ctx.viol.append({"what": e.what, **e.info})
    finally: shutil.rmtree(tmp, ignore_errors=True)
    for l in ctx.known: print("KNOWN-FINDING: property=%s %s" % (pid, l))
    cov = ctx.coverage()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": args.tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": len(ctx.viol),
               "assumptions": ["the harness's native abstraction functions (harness/src/zoo.rs, gen/zoo.py) describe the Rust values correctly", "bounds: see coverage"]},
              open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if ctx.viol: report(pid, ctx.viol, tmp); return 1
    print("OK property=%s states=%d transitions=%d histories=%d wall=%.0fs" % (pid, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0))
    return 0

try: sys.exit(main())
except SystemExit: raise
except ToolError as e: print("TOOL ERROR:", e); sys.exit(2)
except Exception: traceback.print_exc(); sys.exit(2)

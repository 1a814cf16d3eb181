#!/usr/bin/env python3
"""check.py <property id>      decide one property on /repo's current tree (tier from VERIF_TIER, seed from VERIF_SEED)
   check.py --replay <file>    repeat the calls of a replay file on the current tree and judge them
Exit 0: held on everything explored.  Exit 1: violated (VIOLATION line).  Exit 2: the check itself failed."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import runner, trace, props
def main():
    if sys.argv[1] == "--replay": return props.do_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = props.Ctx(pid, tier, seed)
    props.PROPS[pid](ctx)
    v = runner.report(pid, tier, ctx.rejected)
    runner.write_evidence(pid, tier, seed, ctx.level, ctx.coverage(), time.time() - t0, v, ctx.assumptions)
    print("%s %s: %d calls of the real code recorded, %d judged by the specification, %d rejected, %.0f s" % (pid, tier, ctx.calls, ctx.judged, v, time.time() - t0))
    return 1 if v else 0
if __name__ == "__main__":
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)

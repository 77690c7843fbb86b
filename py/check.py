#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import runner

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(runner.replay(a[1]))
    if a and a[0] == "--setup":
        import simlib
        simlib.setup()
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import build
    try:
        rc = runner.check(a[0], tier, seed)
    except build.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)

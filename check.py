#!/usr/bin/env python3
import os, subprocess, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
def main():
    ID = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    try: seed = str(int(seed))
    except ValueError: seed = "1"
    exe = build.build("release")
    extra = sys.argv[3:]
    os.chdir(VERIF)
    r = subprocess.run([exe, "run", ID, "--tier", tier, "--seed", seed, "--dir", VERIF] + extra)
    return r.returncode if r.returncode in (0, 1) else 2
sys.exit(main())

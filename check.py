#!/usr/bin/env -S python3-vt -u
"""check.py C01 [quick|thorough] | replay FILE : run one property's check."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import engine
if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(engine.replay(sys.argv[2]))
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    sys.exit(engine.run_check(sys.argv[1].lower()))

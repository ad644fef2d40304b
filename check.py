#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of /repo's working tree. Exit status 0: held, 1: violated, 2: no answer."""
import os, sys, traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent / "tools"))
sys.dont_write_bytecode = True
import lib, props  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = lib.Check(prop, tier, seed)
    try:
        getattr(props, prop)(c)
        return c.finish()
    except lib.Broken as e:
        print(f"no answer: {e}", flush=True)
        if c.violations:
            return c.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.cleanup()


sys.exit(main())

#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]: runs one check. Exit 0 held, 1 violation, 2 the check could not run."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from mc import core
    mod = importlib.import_module("checks." + pid.lower())
    try:
        chk = core.Check(pid, tier, getattr(mod, "LEVEL", "model_checking"))
        return mod.run(chk)
    except core.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s" % pid)
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)

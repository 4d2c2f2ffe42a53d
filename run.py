#!/opt/venv/bin/python
"""run.py <property> [quick|thorough] [--replay FILE]"""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            d = json.load(f)
        replay, tier = (d["section"], d["index"]), d["tier"]
    # hash randomisation would make sets iterate differently from run to run
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    from mc import core

    # checks that replace parts of the standard library do so before ttp is imported
    mod = importlib.import_module("checks." + pid.lower())
    ck = core.Checker(pid, tier, mod.LEVEL, seed=int(os.environ.get("VERIF_SEED", "1") or 1), replay=replay)
    ck.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    mod.check(ck)
    from mc import corpus, sizes

    sizes.explore(ck)
    corpus.explore(ck)
    sys.exit(ck.finish())


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)

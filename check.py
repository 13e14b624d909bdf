"""check.py <property> [quick|thorough] | check.py <property> --replay FILE"""
import importlib
import os
import pathlib
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))


def main(argv):
    from mc import core
    prop = argv[1]
    mod = importlib.import_module("mc.props." + prop.lower())
    if "--replay" in argv:
        return core.replay(mod, argv[argv.index("--replay") + 1])
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return core.run_check(mod, tier)


if __name__ == "__main__":
    code = main(sys.argv)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)

"""Entry point: python -m vf.main <property> [--replay FILE]"""
import importlib
import sys
import warnings

warnings.simplefilter("ignore")


def main(argv):
    from . import harness

    pid = argv[0]
    mod = importlib.import_module("vf.props." + pid.lower())
    if len(argv) > 2 and argv[1] == "--replay":
        return harness.replay(mod, pid, argv[2])
    return harness.run(mod, pid)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

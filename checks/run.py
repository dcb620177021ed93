import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    return vlib.run_property(pid, mod.SUBS, mod.RULE, level="exploration",
                             assumptions=getattr(mod, "ASSUMPTIONS", ()), argv=sys.argv[2:])


if __name__ == "__main__":
    sys.exit(main())

"""python3 -m vf.main <property>: run one check."""
import importlib
import os
import shutil
import sys
import traceback

from . import build as B
from .check import Check, Stop


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("vf.checks." + prop.lower())
    c = Check(prop)
    try:
        try:
            mod.run(c)
        except Stop:
            pass
        rc = c.finish(mod.RULE)
    except B.BuildError as e:
        print("BUILD ERROR: " + str(e)[-3000:])
        rc = 2
    except Exception:
        traceback.print_exc()
        if c.violations:
            rc = c.finish(mod.RULE)
        else:
            rc = 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the same cases for the same seed
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, sys.orig_argv)
    main()

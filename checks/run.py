#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: runs one check; exit 0 / 1, 2 on a failure of the machinery itself."""
import importlib, os, sys, pathlib, traceback
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT)); sys.path.insert(0, str(ROOT / "checks"))
sys.dont_write_bytecode = True
if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
from lib import common  # noqa: E402


def main():
    prop = sys.argv[1]
    import registry
    fn = registry.CHECKS[prop]
    chk = common.Check(prop)
    try:
        mod, name, args = fn
        return getattr(importlib.import_module(mod), name)(chk, *args)
    except common.CheckError as e:
        print(f"{prop}: the check could not run: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)

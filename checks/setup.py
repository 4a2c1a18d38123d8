#!/usr/bin/env python3
"""Builds what the checks share (they build it themselves as well if it is missing or out of date)."""
import pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.dont_write_bytecode = True
from lib import common  # noqa: E402
common.build_explorer(); common.build_explorer(True)
for v, n in (("plain", 1), ("plain", 2), ("aux", 1), ("asan", 1)):
    common.build_monitor(v, n)
common.build_rust()
common.build_cli(True); common.build_cli(False)
print("ready")

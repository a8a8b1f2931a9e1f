#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current working tree."""
import os, sys
VT = "/opt/veriftools/pyvenv/bin/python"
if "z3" not in sys.modules:
    try: import z3  # noqa
    except ImportError:
        for c in (VT, "/usr/local/bin/python3-vt", "python3-vt"):
            if os.environ.get("VC_REEXEC") is None:
                os.environ["VC_REEXEC"] = "1"
                try: os.execvp(c, [c] + sys.argv)
                except OSError: os.environ.pop("VC_REEXEC")
        raise
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vc"))
import driver
sys.exit(driver.main(sys.argv[1:]))

#!/opt/venv/bin/python
"""run.py <property>: run the check of one property (see MANIFEST.json)."""
import importlib
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from mc import base  # noqa

if __name__ == "__main__":
    prop = sys.argv[1]
    os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
    base.setup_imports()
    mod = importlib.import_module("checks." + prop.lower())
    chk = base.Check(prop)
    try:
        mod.main(chk)
    except Exception as e:
        import traceback
        traceback.print_exc()
        # the harness drives only public behaviour: a failure of it under a
        # changed tree means the tree no longer behaves as the property needs
        chk.violation("harness:exception", f"{type(e).__name__}: {e}", {"traceback": traceback.format_exc()})
    sys.exit(chk.finish())

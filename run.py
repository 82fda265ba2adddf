#!/opt/venv/bin/python
"""run.py <property id>: decide one property (see DESIGN.md)."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")

from lib import core  # noqa: E402


def main():
    prop = sys.argv[1]
    ctx = core.Ctx(prop)
    try:
        core.setup_impl()
        importlib.import_module("checks." + prop.lower()).run(ctx)
        rc = ctx.finish()
    except core.MachineryError as e:
        print(f"ERROR: {e}")
        rc = 2
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    os._exit(rc)


main()

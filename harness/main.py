"""Entry point of every check: python -m harness.main <property> [tier]."""
import importlib
import os
import sys
import traceback


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from harness import core
    ctx = core.Ctx(prop, tier)
    rc = 2
    try:
        mod = importlib.import_module("harness.checks." + prop.lower())
        mod.run(ctx)
        rc = ctx.finish()
    except core.MachineryError as e:
        print("MACHINERY-ERROR property=%s %s" % (prop, e))
    except Exception:
        traceback.print_exc()
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()

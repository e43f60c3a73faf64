"""check.py PROPERTY: decides one property; see DESIGN.md."""
import os
import random
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import report


def registry():
    import e_reader
    R = dict(e_reader.CHECKS)
    for m in ("e_text", "e_schema", "e_writer", "e_declare"):
        try:
            mod = __import__(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        for k, f in mod.CHECKS.items():
            R.setdefault(k, []).extend(f)
    return R


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = None
    try:
        fs = registry()[prop]
        ctx = report.Ctx(prop, tier, seed)
        for i, f in enumerate(fs):
            f(ctx, random.Random("%s-%d-%d" % (prop, seed, i)))
        if not ctx.viol and ctx.traces == 0:
            raise lib.ToolError("nothing was validated")
        sys.exit(ctx.finish())
    except SystemExit:
        raise
    except BaseException as e:
        if isinstance(e, lib.ToolError):
            print("ERROR: %s" % e)
        else:
            traceback.print_exc()
        # What was found before the rest could not be checked stands.
        sys.exit(ctx.finish() if ctx and ctx.viol else 2)


main()

"""Entry point: ./check <property> [--thorough] [--replay FILE]."""
import importlib
import os
import sys
import traceback

from . import core


def main(argv):
    if not argv:
        print("usage: ./check <property> [--thorough] [--replay FILE]")
        return 2
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import mizarlabs
    if not os.path.realpath(mizarlabs.__file__).startswith("/repo/"):
        print("machinery: mizarlabs is not imported from /repo:", mizarlabs.__file__)
        return 2
    mod = importlib.import_module("harness." + prop.lower())
    if "--replay" in argv:
        return core.replay_file(mod, argv[argv.index("--replay") + 1])
    ctx = core.Ctx(prop, tier, seed)
    try:
        mod.run(ctx)
        return ctx.finish()
    except core.Machinery as e:
        print("MACHINERY-ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        print("MACHINERY-ERROR unexpected exception in the harness")
        return 2
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay <case>]"""
import os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    if "--tier" in sys.argv:
        os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
    import vlib

    vlib.invalidate()
    if prop in ("C01", "C02", "C03"):
        import lib_checks as m

        if "--replay" in sys.argv:
            return m.replay_case(sys.argv[sys.argv.index("--replay") + 1])
        return m.check(prop).finish()
    if prop in ("C04", "C05"):
        import corpus_checks
        import law_checks as m

        if "--replay" in sys.argv:
            return m.replay_case(prop, sys.argv[sys.argv.index("--replay") + 1])
        return m.check(prop).finish()
    if prop in ("C08", "C09", "C10", "C12"):
        import corpus_checks as m

        if "--replay" in sys.argv:
            return m.replay_case(prop, sys.argv[sys.argv.index("--replay") + 1])
        return m.check(prop).finish()
    if prop in ("C06", "C07", "C18"):
        import meta_checks as m

        return m.check(prop).finish()
    if prop == "C11":
        import bounds_checks as m

        return m.check().finish()
    if prop in ("C13", "C14"):
        import neg_checks as m

        return m.check(prop).finish()
    if prop == "C15":
        import opts_checks as m

        return m.check().finish()
    if prop == "C16":
        import drop_checks as m

        return m.check().finish()
    if prop == "C17":
        import effect_checks as m

        return m.check().finish()
    print("no check for " + prop)
    return 2


try:
    sys.exit(main())
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.exit(2)

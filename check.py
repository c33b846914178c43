#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree. See DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    from vp import MODULES, core
    mods = [__import__("vp." + name, fromlist=["x"]) for name in MODULES]
    for m in mods:
        if hasattr(m, prop):
            c = core.Check(prop)
            try:
                getattr(m, prop)(c)
            except Exception as e:
                # violations that were found before are no less true
                if c.unlisted():
                    print("(stopped early: %s)" % str(e)[:500])
                    return c.finish()
                if not isinstance(e, core.MachineryError):
                    raise
                print("CHECK ERROR property=%s: %s" % (prop, e))
                return 3
            return c.finish()
    print("no such property")
    return 4


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 5
    sys.exit(rc)

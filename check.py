#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree by static analysis."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build, driver, checks
def main():
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    ctx = driver.Ctx(prop, tier)
    try:
        driver.engine_ok()
        return checks.CHECKS[prop](ctx)
    except build.BuildError as e:
        print("cannot analyse: /repo does not compile: %s" % e, file=sys.stderr)
        return 2
    except driver.NoAnswer as e:
        print("cannot analyse: %s" % e, file=sys.stderr)
        return 2
    except Exception as e:
        import traceback
        traceback.print_exc()
        return 2
    finally: ctx.close()
sys.exit(main())

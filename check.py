#!/usr/bin/env python3
"""check.py <property id>: decide one property (VERIF_TIER, VERIF_SEED from the environment).
check.py --setup: verify the toolchain and parse every specification."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

from lib.harness import Ctx, Machinery  # noqa: E402


def setup():
    import glob
    import subprocess
    from lib.harness import CP, PYPY
    bad = 0
    for p in (PYPY,):
        if not os.path.exists(p):
            print("missing", p)
            bad = 1
    specs = sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla")))
    out = subprocess.run(["java", "-cp", CP, "-DTLA-Library=" + os.path.join(ROOT, "spec"), "tla2sany.SANY"] + specs,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=os.path.join(ROOT, "spec"))
    text = out.stdout.decode("utf-8", "replace")
    if out.returncode != 0 or "*** Errors" in text or "Fatal errors" in text:
        print(text[-4000:])
        bad = 1
    print("setup", "failed" if bad else "ok", len(specs), "specifications")
    return bad


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    prop = sys.argv[1]
    from checks import CHECKS
    ctx = Ctx(prop)
    try:
        CHECKS[prop](ctx)
        return ctx.finish()
    except Machinery as e:
        if ctx.violations:
            ctx.log("machinery failure after a violation:", str(e)[:2000])
            return ctx.finish()
        print("MACHINERY FAILURE", str(e)[:6000], file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main())

"""Runs the check of one property:  run.py C02   (VERIF_SEED, VERIF_TIER as in MANIFEST.json)

Exit 0: held on everything explored; 1: VIOLATION lines; 2: the check itself failed.
"""
import sys
import traceback
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent / "harness"))

import checks  # noqa: E402
from ctx import Ctx  # noqa: E402


def main() -> int:
    prop = sys.argv[1]
    if prop == "setup":
        import tlc

        return tlc.parse_all()
    ctx = Ctx(prop)
    try:
        checks.CHECKS[prop](ctx)
        return ctx.finish()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        if ctx.fails:
            return ctx.finish()
        return 2
    finally:
        ctx.close()


sys.exit(main())

"""Command line: check <ID> | replay <FILE> | one <ID> <INDEX> | selftest [IDS]"""

from __future__ import annotations

import json
import os
import sys

sys.dont_write_bytecode = True


def main(argv):
    from . import harness

    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = str(int(seed))
    except ValueError:
        seed = "1"
    tier = os.environ.get("VERIF_TIER", "quick")
    cmd = argv[0]
    if cmd == "check":
        if len(argv) > 2:
            tier = argv[2]
        return harness.run_check(argv[1], tier, seed)
    if cmd == "replay":
        return harness.replay(argv[1])
    if cmd == "one":
        check = harness.load_check(argv[1])
        check.TIER = tier
        harness.warm()
        scn = check.gen(harness.rng_for(seed, check.ID, int(argv[2])), tier)
        from . import gen
        for k in sorted(scn):
            if k.startswith("prog"):
                print(gen.render(scn[k]))
        print(json.dumps(scn))
        print(json.dumps(harness.execute(check, scn), indent=1))
        return 0
    if cmd == "selftest":
        from . import selftest
        return selftest.main(argv[1:])
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)

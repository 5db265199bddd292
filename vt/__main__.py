import json
import os
import sys

from . import core
from .checks import load


def main(argv):
    if argv and argv[0] == "replay":
        with open(argv[1], encoding="utf-8") as f:
            r = json.load(f)
        check = load()[r["property"]]
        st = next((s for s in check.streams if s.name == r["stream"]), None)
        if st is None:
            print(r["message"])
            return 1
        import tempfile
        ctx = core.Ctx(r["property"], r["tier"], r["seed"], tempfile.mkdtemp(dir=os.environ.get("VT_TMP")))
        if check.setup:
            check.setup(ctx)
        core.run_case(ctx, st, r["i"])
        for f in ctx.fails:
            print(json.dumps(f, indent=1, default=str))
        print("REPRODUCED" if ctx.fails else "not reproduced", ctx.errors or "")
        return 1 if ctx.fails else 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return core.run(prop, tier, seed, load()[prop])


sys.exit(main(sys.argv[1:]))

import importlib
import json
import os
import sys


def main():
    prop, tier, seed, tmp, wid = sys.argv[1:6]
    try:
        mod = importlib.import_module("checks." + prop)
        lookup = dict(mod.cases(tier, int(seed)))
        with open(os.path.join(tmp, "cases.json")) as f:
            order = json.load(f)
        if hasattr(mod, "setup"):
            mod.setup()
        from vlib.core import run_one
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(97)
    with open(os.path.join(tmp, "journal%s" % wid), "a") as j:
        for n, cid in enumerate(order):
            try:
                os.close(os.open(os.path.join(tmp, "claim%d" % n), os.O_CREAT | os.O_EXCL))
            except FileExistsError:
                continue
            with open(os.path.join(tmp, "cur%s" % wid), "w") as f:
                f.write(cid)
            run_one(mod, prop, tier, int(seed), cid, lookup[cid], j)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --replay <file>"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import engine  # noqa: E402
import props   # noqa: E402
import vp      # noqa: E402


def replay(path):
    r = json.load(open(path))
    ctx = engine.Ctx(r["property"], "quick", 1, props.DRIVERS)
    try:
        engine.build_drivers(ctx, [r["driver"]])
        trace, err = ctx.run(r["driver"], r["ops"])
        ok, m, _ = ctx.judge(r["driver"], trace, "replay")
        print(json.dumps(trace[m] if m < len(trace) else trace[-1], indent=1))
        print(err[-3000:])
        print("accepted" if ok else "VIOLATION property=%s replay=%s (event %d)" % (r["property"], path, m))
        return 0 if ok else 1
    finally:
        engine.shutil.rmtree(ctx.work, ignore_errors=True)


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return engine.check(props.PROPS[pid], pid, tier, seed, props.DRIVERS)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except vp.Broken as e:
        print("ERROR: %s" % e)
        sys.exit(3)

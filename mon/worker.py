"""One worker process: runs its share of the cases of a check and writes what was observed."""
import errno
import importlib
import json
import os
import sys
import traceback

from mon import core


def main():
    job = json.load(open(sys.argv[1]))
    block = os.environ.get("MON_BLOCK")
    if block:
        core.block_imports(block.split(","))
    ctx = core.Ctx(job)
    chk = importlib.import_module("mon.checks." + job["pid"].lower())
    err = None
    try:
        core.run(ctx, chk)
    except BaseException as e:  # harness failure
        traceback.print_exc()
        err = f"{type(e).__name__}: {e}"
        ctx.errors.append(traceback.format_exc()[-1500:])
    ctx.write()
    sys.stdout.flush()
    sys.stderr.flush()
    # skip interpreter teardown: destructors are not under test
    os._exit(0 if err is None else 3)


if __name__ == "__main__":
    main()

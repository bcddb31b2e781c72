"""Run recorded cases on the real, uninstrumented code (under /opt/venv).

stdin: JSON list of {property, case, params, inputs, observed?, message?}
stdout: one JSON result per line.
"""

import asyncio
import importlib
import json
import logging
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Hung(BaseException):
    pass


def run_one(item):
    from sx import plainctx, registry

    ctx = plainctx.PlainCtx(item["inputs"])
    fn = registry.CASES[item["property"]][item["case"]].fn

    def alarm(*_):
        raise Hung()

    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(item.get("timeout", 20)))
    try:
        fn(ctx, **item["params"])
    except plainctx.Failed as exc:
        return {"status": "failed", "message": str(exc)}
    except plainctx.Mismatch as exc:
        return {"status": "mismatch", "message": str(exc)}
    except Hung:
        return {"status": "hung", "message": "no result in time"}
    except (Exception, SystemExit, asyncio.CancelledError) as exc:  # escaped
        return {"status": "exception", "message": "%s: %s" % (type(exc).__name__, exc),
                "trace": traceback.format_exc(limit=-8)}
    finally:
        signal.alarm(0)
    return {"status": "ok", "observed": ctx.observed, "checks": ctx.checks}


def main():
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get("SX_REPO", "/repo"))
    logging.disable(logging.CRITICAL)
    items = json.load(sys.stdin)
    mods = set()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # keep prints of the code under test apart
    for item in items:
        mod = item["module"]
        if mod not in mods:
            importlib.import_module(mod)
            mods.add(mod)
        sys.stdout.flush()
        out.write(json.dumps(run_one(item)) + "\n")
        out.flush()


if __name__ == "__main__":
    main()

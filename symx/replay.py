"""Replays harness inputs against the plain, uninstrumented rocketry package.

  replay.py FILE.json             replay one counterexample, exit 1 if it still fails
  replay.py --batch IN.json OUT.json
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    os.environ["TZ"] = "UTC"
    import time
    time.tzset()
    sys.dont_write_bytecode = True
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    if True:
        sys.path.insert(1, os.environ.get("SYMX_REPO", "/repo"))


def run_one(prop, case, inputs, tier, known_ids=()):
    from symx.concrete import ConcreteCtx, Skip
    from symx.engine import jsonable
    from symx.check import load, quiet
    quiet()
    mod = load(prop)
    fn = None
    for c in list(mod.cases(tier)) + list(mod.cases("thorough")) + list(mod.cases("quick")):
        if c.name == case:
            fn = c.fn
            break
    if fn is None:
        return {"error": f"no case {case}", "failures": [], "observed": []}
    ctx = ConcreteCtx(inputs, known_ids)
    res = {"failures": [], "observed": []}
    try:
        fn(ctx)
    except Skip:
        res["skip"] = True
    except Exception as e:      # harnesses catch what they specify; anything else is a harness error
        import traceback
        tb = e.__traceback__
        last = None
        while tb is not None:
            last = tb.tb_frame.f_code.co_filename
            tb = tb.tb_next
        if last and last.startswith(HERE):
            res["error"] = traceback.format_exc()[-1500:]
        else:
            ctx.failures.append(["exception", traceback.format_exc()[-600:]])
    res["failures"] = ctx.failures
    res["observed"] = [[n, jsonable(v)] for n, v in ctx.observed]
    return res


def main(argv):
    setup()
    if argv[0] == "--batch":
        jobs = json.load(open(argv[1]))
        out = []
        import signal

        class TO(BaseException):
            pass

        def onalarm(*a):
            raise TO()
        signal.signal(signal.SIGALRM, onalarm)
        for j in jobs:
            signal.alarm(int(j.get("timeout", 60)))
            try:
                out.append(run_one(j["property"], j["case"], j["inputs"], j.get("tier", "quick"), j.get("known_ids", ())))
            except TO:
                out.append({"error": "timeout", "failures": [["timeout", "did not finish"]], "observed": [], "timeout": True})
            finally:
                signal.alarm(0)
            with open(argv[2] + ".tmp", "w") as f:
                json.dump(out, f)
        os.replace(argv[2] + ".tmp", argv[2]) if out else json.dump(out, open(argv[2], "w"))
        sys.stdout.flush()
        os._exit(0)
    d = json.load(open(argv[0]))
    r = run_one(d["property"], d["case"], d["inputs"], d.get("tier", "quick"), d.get("known_ids", ()))
    print(json.dumps(r, indent=1))
    bad = any(l == d["label"] for l, _ in r["failures"])
    print("REPRODUCED" if bad else "not reproduced")
    sys.stdout.flush()
    os._exit(1 if bad else 0)


if __name__ == "__main__":
    main(sys.argv[1:])

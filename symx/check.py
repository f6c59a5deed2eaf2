"""Check driver: solve every case of a property, replay, report, write evidence."""
import importlib
import json
import logging
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class Case:
    def __init__(self, name, fn, budget=60.0, max_paths=200000, max_depth=5000, query_ms=10000, weight=1.0,
                 min_checks=1):
        self.name, self.fn, self.budget = name, fn, budget
        self.max_paths, self.max_depth, self.query_ms = max_paths, max_depth, query_ms
        self.weight = weight
        self.min_checks = min_checks


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def quiet():
    warnings.simplefilter("ignore")
    logging.disable(logging.NOTSET)


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    d = json.load(open(p))
    return [f for f in d["known"] if f["property"] == prop]


def solve_case(args):
    prop, i, tier, seed, known_ids, deadline = args
    from symx import engine, shims
    mod = load(prop)
    case = list(mod.cases(tier))[i]
    t0 = time.monotonic()
    budget = min(case.budget, max(5.0, deadline - time.time()))
    ex = engine.Explorer(case.fn, budget_s=budget, max_paths=case.max_paths, max_depth=case.max_depth,
                         query_timeout_ms=case.query_ms, seed=seed, known_ids=known_ids, path_s=min(90.0, max(10.0, deadline - time.time())))
    signal.signal(signal.SIGALRM, engine._hang)
    err = None
    try:
        ex.run()
    except Exception:
        import traceback
        err = traceback.format_exc()[-3000:]
        # an exception of the harness/engine itself: hand the path over for a concrete replay
        ctx = engine.CTX
        if ctx is not None:
            try:
                m = ctx._ensure_model()
                if m is not None:
                    ex.samples.append({"inputs": ctx.model_inputs(m), "observed": None})
            except BaseException:
                pass
        engine.CTX = None
    return dict(name=case.name, stats=ex.stats, labels=ex.labels, incomplete=ex.incomplete or err is not None,
                aborts=ex.abort_reasons, samples=ex.samples, error=err, wall=time.monotonic() - t0,
                violations=[(v.label, v.inputs, v.detail) for v in ex.violations],
                pending=len(ex.stack), funcs=[f"{f}:{q}" for (f, q) in shims.FUNCS])


def replay_batch(jobs, scratch):
    """Run jobs on the plain package in parallel subprocesses."""
    if not jobs:
        return []
    n = min(6, max(1, len(jobs) // 8 + 1))
    chunks = [jobs[k::n] for k in range(n)]
    procs = []
    env = dict(os.environ, TZ="UTC", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    for k, ch in enumerate(chunks):
        fi, fo = os.path.join(scratch, f"in{k}.json"), os.path.join(scratch, f"out{k}.json")
        json.dump(ch, open(fi, "w"))
        if os.path.exists(fo):
            os.remove(fo)
        procs.append((subprocess.Popen([PY, os.path.join(HERE, "symx", "replay.py"), "--batch", fi, fo],
                                       cwd=scratch, env=env, stdout=subprocess.DEVNULL,
                                       stderr=open(os.path.join(scratch, f"err{k}.txt"), "w")), fo, len(ch)))
    res = [None] * len(jobs)
    for k, (p, fo, n_) in enumerate(procs):
        try:
            p.wait(timeout=240)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        r = []
        for f in (fo, fo + ".tmp"):
            if os.path.exists(f):
                try:
                    r = json.load(open(f))
                    break
                except ValueError:
                    pass
        for idx, j in enumerate(range(k, len(jobs), n)):
            res[j] = r[idx] if idx < len(r) else {"error": "replay process died", "failures": [], "observed": []}
    return res


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["TZ"] = "UTC"
    time.tzset()
    quiet()
    kf = known_findings(prop)
    known_ids = [f["id"] for f in kf]
    mod = load(prop)
    cases = list(mod.cases(tier))
    total = 420.0 if tier == "quick" else 3000.0
    deadline = time.time() + getattr(mod, "TOTAL", {}).get(tier, total)
    only = os.environ.get("SYMX_ONLY")  # development only
    order = sorted((i for i in range(len(cases)) if not only or re.search(only, cases[i].name)), key=lambda i: -cases[i].weight)
    import multiprocessing as mp
    mpctx = mp.get_context("fork")
    results = []
    jobs = [(prop, i, tier, seed, known_ids, deadline) for i in order]
    nproc = min(8, len(jobs))
    pool = mpctx.Pool(nproc, maxtasksperchild=1)
    try:
        for r in pool.imap_unordered(solve_case, jobs):
            results.append(r)
    finally:
        pool.terminate()
        pool.join()
    results.sort(key=lambda r: [c.name for c in cases].index(r["name"]))

    scratch = tempfile.mkdtemp(prefix=f"symx_{prop}_")
    reported = []
    nonrepro = []
    kf_lines = []
    try:
        jobs = []
        for r in results:
            for (label, inputs, detail) in r["violations"]:
                jobs.append(dict(property=prop, case=r["name"], inputs=inputs, label=label, tier=tier, kind="cex",
                                 detail=detail, known_ids=known_ids))
            ns = 4 if tier == "quick" else 8
            for s in r["samples"][:ns] + ([r["samples"][-1]] if r["error"] and r["samples"] else []):
                jobs.append(dict(property=prop, case=r["name"], inputs=s["inputs"], tier=tier, kind="sample",
                                 observed=s["observed"], known_ids=known_ids))
        for f in kf:
            jobs.append(dict(property=prop, case=f["case"], inputs=f["inputs"], label=f["label"], tier=tier,
                             kind="known", fid=f["id"], known_ids=[k for k in known_ids if k != f["id"]]))
        res = replay_batch(jobs, scratch)
        validated = 0
        mismatches = []
        for j, r in zip(jobs, res):
            if j["kind"] == "cex":
                hit = [x for x in r["failures"]]
                if hit:
                    reported.append((j, r))
                else:
                    nonrepro.append(dict(case=j["case"], label=j["label"], inputs=j["inputs"], detail=j["detail"],
                                         error=r.get("error")))
            elif j["kind"] == "sample":
                if r["failures"]:
                    # a concrete run of the real code that breaks the property
                    j["label"] = r["failures"][0][0]
                    reported.append((j, r))
                elif r.get("error") or r.get("skip"):
                    mismatches.append(dict(case=j["case"], inputs=j["inputs"], error=r.get("error"), skip=r.get("skip")))
                elif j["observed"] is not None and json.loads(json.dumps(j["observed"])) != r["observed"]:
                    mismatches.append(dict(case=j["case"], inputs=j["inputs"], sym=j["observed"], real=r["observed"]))
                else:
                    validated += 1
            else:
                f = next(x for x in kf if x["id"] == j["fid"])
                if any(l == f["label"] for l, _ in r["failures"]):
                    kf_lines.append(f"KNOWN-FINDING: property={prop} {f['id']}: {f['what']}")
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)

    # ------------------------------------------------------------ evidence
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    undecided = [dict(case=r["name"], aborts=r["aborts"], pending=r["pending"],
                      error=(r["error"] or "").strip().splitlines()[-1:] or None)
                 for r in results if r["incomplete"] or r["stats"]["inconclusive"]]
    vacuous = [r["name"] for r in results if r["stats"]["checks"] + r["stats"]["trivial_checks"] == 0]
    funcs = sorted({f for r in results for f in r["funcs"]})
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            samples.append(dict(case=r["name"], **s))
    cov = dict(
        states=tot.get("paths", 0), transitions=tot.get("forks", 0) + tot.get("queries", 0),
        traces_validated_against_impl=validated, samples=samples[:6],
        exhaustive=not undecided and not nonrepro,
        paths_explored=tot.get("paths", 0), solver_queries=tot.get("queries", 0),
        assertions_discharged_by_solver=tot.get("discharged", 0),
        assertions_true_on_path=tot.get("trivial_checks", 0),
        solver_seconds=round(tot.get("solver_s", 0), 2), solver="z3 " + _z3v(),
        solver_unknown=tot.get("unknown", 0), inconclusive=tot.get("inconclusive", 0),
        concretised_values=tot.get("concretised", 0), infeasible_paths=tot.get("infeasible", 0),
        bounds=getattr(mod, "BOUNDS", ""), outside_bounds=getattr(mod, "OUTSIDE", ""),
        functions_encoded=funcs, functions_encoded_count=len(funcs),
        cases=[dict(case=r["name"], paths=r["stats"]["paths"], queries=r["stats"]["queries"],
                    discharged=r["stats"]["discharged"], on_path=r["stats"]["trivial_checks"],
                    wall=round(r["wall"], 1), complete=not r["incomplete"]) for r in results],
        assertions={k: sum(r["labels"].get(k, 0) for r in results) for r in results for k in r["labels"]},
        undecided=undecided, vacuous_cases=vacuous, unreproduced_counterexamples=nonrepro[:10],
        model_mismatches=mismatches[:10],
        known_findings_reproduced=len(kf_lines))
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"), coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(reported))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for line in kf_lines:
        print(line)
    print(f"{prop} [{tier}] cases={len(results)} paths={cov['states']} queries={cov['solver_queries']} "
          f"discharged={cov['assertions_discharged_by_solver']} on-path={cov['assertions_true_on_path']} "
          f"solver={cov['solver_seconds']}s validated={validated} undecided={len(undecided)} "
          f"unreproduced={len(nonrepro)} mismatches={len(mismatches)} wall={ev['wall_s']}s")
    if os.environ.get("SYMX_DEBUG"):
        for r in results:
            st = r["stats"]
            print(f"   {r['name']:32s} wall={r['wall']:.1f} solver={st['solver_s']:.1f} paths={st['paths']} q={st['queries']} "
                  f"disc={st['discharged']} triv={st['trivial_checks']} unk={st.get('unknown', 0)} "
                  f"inc={st['inconclusive']} conc={st.get('concretised', 0)} ab={r['aborts']} pend={r['pending']}",
                  r["labels"] if os.environ["SYMX_DEBUG"] == "2" else "")
            if r["error"]:
                print(r["error"])
        for n in nonrepro:
            print("  UNREPRODUCED", n)
        for n in mismatches:
            print("  MISMATCH", n)
    if reported:
        rdir = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for k, (j, r) in enumerate(reported):
            key = (j["case"], j["label"])
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 8:
                continue
            path = os.path.join(rdir, f"{prop}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, case=j["case"], label=r["failures"][0][0], inputs=j["inputs"], tier=tier,
                               failures=r["failures"], observed=r["observed"], known_ids=known_ids,
                               how=f"{PY} {HERE}/symx/replay.py {path}"), f, indent=1)
            print(f"  counterexample {j['case']}: {r['failures'][0]} inputs={json.dumps(j['inputs'])[:400]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    decided = cov["assertions_discharged_by_solver"] + cov["assertions_true_on_path"]
    if decided == 0:
        print("ERROR: nothing was decided")
        for r in results:
            if r["error"]:
                print(r["error"])
        return 2
    return 0


def _z3v():
    import z3
    return z3.get_version_string()


COMMON_ASSUMPTIONS = [
    "Python semantics of the executed rocketry source are those of the running CPython; datetime/timedelta/calendar/re/"
    "dateutil calls on symbolic values are modelled by symx (exact integer microseconds), validated on sampled path models "
    "against the plain package on every run",
    "floats are exact rationals; the machine clock ticks in whole microseconds; process time zone is UTC",
]


def cli():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.path.insert(1, os.environ.get("SYMX_REPO", "/repo"))
    from symx import shims
    shims.install()
    shims.trace_functions()
    if prop == "--selftest":
        import z3
        import rocketry
        s = z3.Solver()
        x = z3.Int("x")
        s.add(x > 1, x < 3)
        ok = s.check() == z3.sat and rocketry.__file__.startswith(shims.REPO + "/")
        print("selftest", "ok" if ok else "failed", z3.get_version_string(), rocketry.__file__)
        sys.exit(0 if ok else 2)
    sys.exit(main(prop, tier))

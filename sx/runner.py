"""Decide one property: explore its cases, replay what the solver found."""

from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import logging
import os
import pickle
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
VENV = "/opt/venv"
SITE = VENV + "/lib/python3.12/site-packages"
WORKERS = int(os.environ.get("SX_WORKERS", "8"))


def setup_symbolic():
    """Make imports of the code under test (and of the harness) symbolic."""
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.path.append(SITE)
    sys.setrecursionlimit(5000)
    logging.disable(logging.CRITICAL)
    from sx import transform
    transform.install(["runtimepy", "vcorelib", "harness"])
    from sx import extra_models
    extra_models.install()


def harness_modules():
    d = os.path.join(HERE, "harness")
    return sorted(f[:-3] for f in os.listdir(d)
                  if f.endswith(".py") and f[0] == "p" and f[1:3].isdigit())


def module_of(prop):
    for m in harness_modules():
        if m.startswith(prop.lower() + "_") or m == prop.lower():
            return "harness." + m
    raise SystemExit("no harness for %s" % prop)


class Coverage:
    """Which functions of the repository a worker ran symbolically."""

    def __init__(self):
        self.seen = set()
        mon = sys.monitoring
        self.tool = 3
        try:
            mon.use_tool_id(self.tool, "sx")
        except ValueError:
            return
        root = os.path.join(REPO, "runtimepy") + os.sep

        def start(code, _off):
            if code.co_filename.startswith(root):
                self.seen.add("%s:%s" % (code.co_filename[len(REPO) + 1:],
                                         code.co_qualname))
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.PY_START, start)
        mon.set_events(self.tool, mon.events.PY_START)


def run_job(job, deadline, seed):
    """One case with one set of parameters, in this process."""
    from sx import core, registry
    from sx.symctx import SymCtx

    case = registry.CASES[job["property"]][job["case"]]
    limit = min(deadline, time.monotonic() + job["budget"])
    opts = {k: v for k, v in case.opts.items()
            if k in ("query_ms", "max_paths", "conc_limit", "witnesses")}
    engine = core.Engine(limit, seed=seed, **opts)
    cov = Coverage()
    beg = time.monotonic()
    engine.run(lambda e: case.fn(SymCtx(e), **job["params"]))
    st = engine.stats
    if st.paths == 0 and not engine.violations and not st.cuts:
        st.cuts["vacuous: no path reached the end"] = 1
        engine.complete = False
    return {
        "job": job, "complete": engine.complete, "violations": engine.violations,
        "witnesses": engine.witnesses, "paths": st.paths,
        "infeasible": st.infeasible, "queries": st.queries,
        "solver_s": st.solver_s, "unknown": st.unknown, "cuts": st.cuts,
        "obligations": st.obligations, "discharged": st.discharged,
        "decisions": st.decisions, "concretised": st.concretised,
        "reached": st.reached, "functions": sorted(cov.seen),
        "wall_s": time.monotonic() - beg,
    }


def fork_jobs(jobs, deadline, seed, stop_on_violation=True):
    """Run the jobs in forked workers, at most WORKERS at a time."""
    pending = list(reversed(jobs))
    live = {}
    results = []
    stop = False
    while pending or live:
        while pending and len(live) < WORKERS and not stop:
            job = pending.pop()
            if time.monotonic() > deadline - 1:
                results.append({"job": job, "error": "not started: out of time"})
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    os.setsid()
                    lim = 3500 * 1024 * 1024
                    resource.setrlimit(resource.RLIMIT_AS, (lim * 3, lim * 3))
                    devnull = os.open(os.devnull, os.O_RDWR)
                    if not os.environ.get("SX_DEBUG"):
                        os.dup2(devnull, 1)
                    try:
                        res = run_job(job, deadline, seed)
                    except BaseException as exc:  # noqa
                        res = {"job": job, "error": "%s: %s\n%s" % (
                            type(exc).__name__, exc, traceback.format_exc(limit=-14))}
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(res, f)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (pid, job, b"", time.monotonic())
        if stop and not live:
            break
        ready, _, _ = select.select(list(live), [], [], 0.5)
        for r in ready:
            pid, job, buf, beg = live[r]
            data = os.read(r, 1 << 20)
            if data:
                live[r] = (pid, job, buf + data, beg)
                continue
            os.close(r)
            del live[r]
            os.waitpid(pid, 0)
            try:
                res = pickle.loads(buf)
            except Exception:
                res = {"job": job, "error": "not finished: stopped early"
                       if stop else "worker died"}
            results.append(res)
            if stop_on_violation and res.get("violations"):
                stop = True
        now = time.monotonic()
        for r, (pid, job, buf, beg) in list(live.items()):
            if now > deadline + 8 or now > beg + job["budget"] + 30:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
            elif stop:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
    for job in pending:
        results.append({"job": job, "error": "not started: stopped early"})
    return results


def replay_items(items, timeout=300):
    """Run items for real; returns one result each."""
    if not items:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPYCACHEPREFIX="/nonexistent-pycache")
    out = b""
    try:
        p = subprocess.run(
            [VENV + "/bin/python", os.path.join(HERE, "sx", "replay.py")],
            input=json.dumps(items).encode(), stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=HERE)
        out = p.stdout
        err = p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as exc:
        out = exc.stdout or b""
        err = "timeout"
    res = [json.loads(x) for x in out.decode().splitlines() if x.strip()]
    while len(res) < len(items):
        res.append({"status": "error", "message": "replay died: " + err[-1500:]})
    return res


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {"findings": [], "fixed": []}
    with open(path) as f:
        return json.load(f)


def main(argv=None):
    """Run a check with a scratch directory of its own, for harnesses that need one."""
    scratch = tempfile.mkdtemp(prefix="sx-")
    os.environ["TMPDIR"] = tempfile.tempdir = scratch
    try:
        return run(argv)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    if args.replay:
        return do_replay(args.replay)
    if args.selftest:
        return selftest()
    prop = args.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    beg = time.monotonic()
    budget = 240 if args.tier == "quick" else 780
    budget = float(os.environ.get("SX_BUDGET", budget))
    deadline = beg + budget
    mod = module_of(prop)
    setup_symbolic()
    try:
        hm = importlib.import_module(mod)
    except Exception:
        traceback.print_exc()
        print("ERROR: the code under test cannot be imported", flush=True)
        return 2
    import_s = time.monotonic() - beg
    from sx import registry
    jobs = []
    for name, case in registry.CASES[prop].items():
        if args.case and name != args.case:
            continue
        for p in case.params(args.tier):
            b = case.budget * (1 if args.tier == "quick" else 4)
            jobs.append({"property": prop, "case": name, "params": p,
                         "budget": b, "module": mod})
    results = fork_jobs(jobs, deadline, seed)
    return conclude(prop, args, seed, jobs, results, beg, import_s, registry, hm)


def selftest():
    """The tools this needs are here."""
    import z3
    v = subprocess.run([VENV + "/bin/python", "-V"], stdout=subprocess.PIPE)
    print("z3 %s, %s, real code under %s" % (
        z3.get_version_string(), sys.version.split()[0], v.stdout.decode().strip()))
    return 0


def conclude(prop, args, seed, jobs, results, beg, import_s, registry, hm):
    broken = []      # the check itself is at fault
    inconclusive = []
    confirmed = []
    items = []
    refs = []
    for r in results:
        job = r["job"]
        if "error" in r:
            if "stopped early" not in r["error"]:
                inconclusive.append("%s %s: %s" % (job["case"], job["params"],
                                                   r["error"]))
            continue
        if not r["complete"] and not r["violations"]:
            inconclusive.append("%s %s: %s" % (job["case"], job["params"], r["cuts"]))
        for v in r["violations"]:
            items.append(dict(job, inputs=v["inputs"], message=v["message"]))
            refs.append(("v", r, v))
        for w in r["witnesses"]:
            items.append(dict(job, inputs=w["inputs"]))
            refs.append(("w", r, w))
    validated = 0
    outcomes = replay_items(items)
    for (kind, r, v), item, res in zip(refs, items, outcomes):
        job = r["job"]
        where = "%s %s" % (job["case"], json.dumps(job["params"], sort_keys=True))
        if kind == "w":
            if res["status"] == "ok":
                want = [[k, x] for k, x in v["observed"]]
                got = [[k, x] for k, x in res["observed"]]
                if want == got:
                    validated += 1
                else:
                    broken.append("%s: witness observed %s for real, %s symbolically"
                                  % (where, got, want))
            elif res["status"] in ("failed", "exception", "hung"):
                # the real code breaks the property on an input the encoding
                # passed: real, and also a fault of the encoding
                confirmed.append((item, "%s (found while validating a witness)"
                                  % res["message"]))
            else:
                broken.append("%s: witness: %s" % (where, res))
            continue
        if res["status"] in ("failed", "exception", "hung"):
            confirmed.append((item, res["message"] if res["status"] == "failed"
                              else "%s (%s)" % (v["message"], res["message"])))
        elif v["kind"] == "exception":
            inconclusive.append("%s: unsupported on this path: %s" % (where, v["message"]))
            if args.v:
                print(v.get("trace"))
        else:
            broken.append("%s: counterexample does not reproduce: %s -> %s %s"
                          % (where, v["message"], res, v["inputs"]))
    lines = []
    for item, msg in confirmed:
        path = save_replay(prop, item, msg)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        lines.append("  %s %s: %s" % (item["case"], item["params"], msg))
        lines.append("  inputs: %s" % json.dumps(item["inputs"])[:600])
    known_lines = []
    for k in load_known().get("findings", []):
        if k["property"] == prop:
            still = finding_status(k)
            known_lines.append("KNOWN-FINDING: property=%s %s%s" % (
                prop, k["what"], "" if still else " (no longer reproduces)"))
    write_evidence(prop, args.tier, seed, jobs, results, beg, import_s, validated,
                   inconclusive, broken, confirmed, registry, hm, known_lines)
    ok = [r for r in results if "error" not in r]
    print("%s %s: %d cases, %d complete, %d paths, %d/%d obligations, %d queries "
          "(%.1f s solver), %d witnesses validated, %.1f s"
          % (prop, args.tier, len(jobs), sum(bool(r["complete"]) for r in ok),
             sum(r["paths"] for r in ok), sum(r["discharged"] for r in ok),
             sum(r["obligations"] for r in ok), sum(r["queries"] for r in ok),
             sum(r["solver_s"] for r in ok), validated, time.monotonic() - beg))
    if args.v:
        for r in sorted(ok, key=lambda r: -r["wall_s"])[:40]:
            print("   %-34s %-50s %s paths=%d %.1fs q=%d conc=%s cuts=%s" % (
                r["job"]["case"], str(r["job"]["params"])[:50],
                "ok " if r["complete"] else "INC", r["paths"], r["wall_s"],
                r["queries"], r["concretised"], r["cuts"]))
    for x in known_lines + ["INCONCLUSIVE: " + x for x in inconclusive] + lines:
        print(x)
    for x in broken:
        print("ENCODING: " + x)
    sys.stdout.flush()
    if confirmed:
        return 1
    # nothing shows the property broken: a counterexample that does not
    # reproduce is dropped (and reported above), never an alarm
    return 2 if broken and os.environ.get("SX_STRICT") else 0


def finding_status(k):
    """Whether a listed finding still fails for real."""
    res = replay_items([{"property": k["property"], "case": k["replay_case"],
                         "module": module_of(k["property"]),
                         "params": k.get("replay_params", {}),
                         "inputs": k.get("inputs", {})}])[0]
    return res["status"] in ("failed", "exception", "hung")


def save_replay(prop, item, msg):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(item, failure=msg), indent=1, sort_keys=True)
    name = "%s-%s-%s.json" % (prop, item["case"],
                              hashlib.sha1(body.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def do_replay(path):
    with open(path) as f:
        item = json.load(f)
    res = replay_items([item])[0]
    print(json.dumps(res, indent=1))
    return 0 if res["status"] == "ok" else 1


def write_evidence(prop, tier, seed, jobs, results, beg, import_s, validated,
                   inconclusive, broken, confirmed, registry, hm, known):
    ok = [r for r in results if "error" not in r]
    funcs = sorted({f for r in ok for f in r["functions"]})
    cases = registry.CASES[prop]
    samples = []
    for r in ok:
        for w in r["witnesses"][:1]:
            samples.append({"case": r["job"]["case"], "params": r["job"]["params"],
                            "inputs": w["inputs"]})
    conc = {}
    for r in ok:
        for k, v in r["concretised"].items():
            conc[k] = conc.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] for r in ok),
            "transitions": sum(r["decisions"] for r in ok),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "exhaustive": not inconclusive and not broken and bool(ok),
            "explanation": "states are complete symbolic paths through the real "
            "code, transitions the branch decisions taken on them; exhaustive "
            "means every feasible path within the bounds was followed to its end",
            "cases": len(jobs),
            "cases_complete": sum(bool(r["complete"]) for r in ok),
            "assertions": sum(r["obligations"] for r in ok),
            "assertions_discharged": sum(r["discharged"] for r in ok),
            "solver_queries": sum(r["queries"] for r in ok),
            "solver_s": round(sum(r["solver_s"] for r in ok), 3),
            "solver_unknown": sum(r["unknown"] for r in ok),
            "infeasible_paths": sum(r["infeasible"] for r in ok),
            "functions_encoded": funcs,
            "bounds": {n: c.bounds for n, c in cases.items()},
            "concretisations": conc,
            "reached": {k: v for r in ok for k, v in r["reached"].items()},
            "inconclusive": inconclusive[:50],
            "encoding_faults": broken[:20],
            "known_findings": known,
            "import_s": round(import_s, 2),
        },
        "assumptions": list(getattr(hm, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - beg, 2),
        "violations": len(confirmed),
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())

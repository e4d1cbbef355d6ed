"""Run the check of one property: build the library from /repo's working tree,
drive it with generated workloads in worker processes while the monitors watch,
give a three-valued verdict, write evidence/<id>.json.

exit 0  held on everything observed
exit 1  violated (VIOLATION line, replay file)
exit 2  inconclusive (nothing observed, build failure, watchdog)
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)

from vbmon import build as vbuild  # noqa: E402
from vbmon import catalog  # noqa: E402

PY = "/opt/venv/bin/python"


def worker_env(so, scratch, san=False):
    env = dict(os.environ)
    env.update(
        {
            "VB_FKERNEL_SO": so,
            "VB_REPO": vbuild.REPO,
            "PYTHONPATH": os.pathsep.join([os.path.join(HERE, "bootstrap"), vbuild.REPO, ROOT]),
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONHASHSEED": "0",
            "OMP_NUM_THREADS": "1",
            "OPENBLAS_NUM_THREADS": "1",
            "MKL_NUM_THREADS": "1",
            "NUMBA_CACHE_DIR": os.path.join(scratch, "numba"),
            "MPLBACKEND": "Agg",
            "TMPDIR": scratch,
            "HOME": scratch,
            "JOBLIB_TEMP_FOLDER": scratch,
            "VB_SCRATCH": scratch,
            "LOKY_MAX_CPU_COUNT": "8",
            "PYTHONWARNINGS": "ignore",
        }
    )
    if san:
        env.update(vbuild.san_env())
        # gfortran run-time checks end the process through exit(2)
    return env


def crash_report(path):
    """The useful lines of a sanitizer report, or the end of the log."""
    log = open(path, errors="replace").read()[-30000:]
    start = max(log.rfind("ERROR: AddressSanitizer"), log.rfind("Fortran runtime error"), log.rfind("runtime error:"))
    if start < 0:
        return log[-600:]
    keep = [ln.strip() for ln in log[max(0, start - 80) : start + 2500].splitlines() if "rror" in ln or ln.strip().startswith("#") or "line" in ln]
    return " / ".join(keep[:12])


def load_known():
    path = os.path.join(ROOT, "known_findings.txt")
    known = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                fields = dict(p.split("=", 1) for p in line[len("known: "):].split(" | ")[0].split() if "=" in p)
                what = line.split(" | ", 1)[1] if " | " in line else ""
                known.setdefault(fields["property"], {})[fields["key"]] = what
    return known


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VB_WORKERS", "8")))
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--case", type=int, default=None, help="replay one case only")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args(argv)
    if args.replay:
        rep = json.load(open(args.replay))
        args.property, args.tier, args.seed, args.case = rep["property"], rep["tier"], rep["seed"], rep["case"]
    prop, tier = args.property, "thorough" if args.tier == "thorough" else "quick"
    spec = catalog.CHECKS[prop]
    t0 = time.time()
    evidence = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence) and args.case is None:
        os.remove(evidence)
    san = spec.get("sanitizer", False)
    try:
        so = vbuild.build("san" if san else "normal")
    except vbuild.BuildError as e:
        print("INCONCLUSIVE property={}: cannot compile fkernel.f90\n{}".format(prop, e))
        return 2
    scratch = tempfile.mkdtemp(prefix="vbmon-{}-".format(prop), dir=os.environ.get("VB_TMP", "/tmp"))
    try:
        return _run(args, prop, tier, spec, so, san, scratch, evidence, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(args, prop, tier, spec, so, san, scratch, evidence, t0):
    total = args.cases or spec["cases"][tier]
    soft = spec.get("soft", {"quick": 300.0, "thorough": 2400.0})[tier]
    hard = soft + 280.0
    workers = max(1, min(args.workers, total, spec.get("max_workers", 8)))
    known = load_known().get(prop, {})
    env = worker_env(so, scratch, san)

    def launch(w, first, step, last):
        out = os.path.join(scratch, "w{}.jsonl".format(w))
        log = open(os.path.join(scratch, "w{}.log".format(w)), "ab")
        d = os.path.join(scratch, "cwd{}".format(w))
        os.makedirs(d, exist_ok=True)
        p = subprocess.Popen([PY, "-m", "vbmon.worker", prop, tier, str(args.seed), out, str(first), str(step), str(last), str(max(5.0, soft - (time.time() - t0))), json.dumps(sorted(known))], env=env, cwd=d, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        return {"p": p, "out": out, "w": w, "log": log.name, "step": step, "last": last, "t": time.time(), "stuck": False}

    if args.case is not None:
        jobs = [launch(0, args.case, 1, args.case + 1)]
    else:
        jobs = [launch(w, w, workers, total) for w in range(workers)]
    results, crashes, fatals, lines = {}, [], [], set()
    timed_out = False
    restarts = 0
    while jobs:
        time.sleep(0.05)
        if time.time() - t0 > hard:
            timed_out = True
            for j in jobs:
                _kill(j["p"])
        for j in list(jobs):
            rc = j["p"].poll()
            if rc is None:
                # a line is written before and after each case: an old file is a case that does not return
                try:
                    idle = time.time() - max(os.path.getmtime(j["out"]), j["t"])
                except OSError:
                    idle = time.time() - j["t"]
                if idle > 240.0:
                    j["stuck"] = True
                    _kill(j["p"])
                continue
            jobs.remove(j)
            _kill(j["p"])
            started, done, fatal = None, False, None
            with open(j["out"], "a+") as f:
                f.seek(0)
                for line in f:
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in rec:
                        started = rec["start"]
                    elif "end" in rec:
                        results[rec["end"]] = rec["res"]
                        started = None
                    elif "lines" in rec:
                        lines.update(map(tuple, rec["lines"]))
                    elif "done" in rec:
                        done = True
                    elif "fatal" in rec:
                        fatal = rec["fatal"]
            if fatal:
                fatals.append(fatal)
            elif not done and not timed_out:
                tail = "the call did not return in 240 s" if j["stuck"] else crash_report(j["log"])
                if j["stuck"]:
                    rc = "stuck"
                if started is None:
                    fatals.append("worker died (rc={}) outside a case\n{}".format(rc, tail))
                else:
                    crashes.append((started, rc, tail))
                    restarts += 1
                    if restarts <= 3 and args.case is None:
                        jobs.append(launch(j["w"], started + j["step"], j["step"], j["last"]))
    # ---- aggregate ---------------------------------------------------------
    agg = {"counters": {}, "cover": set(), "worst": {}}
    viol, known_hit, harness = [], {}, []
    n_eval = n_events = skipped = 0
    for idx in sorted(results):
        r = results[idx]
        n_eval += r["n_eval"]
        n_events += r["n_events"]
        skipped += bool(r["skipped"])
        for k, v in r["counters"].items():
            agg["counters"][k] = agg["counters"].get(k, 0) + v
        agg["cover"].update(r["cover"])
        for k, v in r["worst"].items():
            agg["worst"][k] = max(v, agg["worst"].get(k, 0))
        for k, v in r["known"].items():
            known_hit[k] = known_hit.get(k, 0) + v
        for v in r["violations"]:
            viol.append((idx, v))
        if r["harness_error"]:
            harness.append((idx, r["harness_error"]))
    for idx, rc, tail in crashes:
        if -9 == rc:
            fatals.append("worker killed during case {} (out of memory?)".format(idx))
            continue
        kind = "does-not-return" if rc == "stuck" else "process-ended"
        if kind in known:
            known_hit[kind] = known_hit.get(kind, 0) + 1
        else:
            viol.append((idx, {"kind": kind, "msg": "the process ended (code {}) while the library ran: {}".format(rc, tail[:1200].strip()), "data": {}}))
    # an oracle that cannot even read the result: the output lost its documented form
    for idx, tb in harness:
        viol.append((idx, {"kind": "malformed-output", "msg": "the monitor could not interpret what the library returned: " + tb.strip().splitlines()[-1], "data": {"tb": tb}}))
    missing = [c for c in spec.get("required", []) if not agg["counters"].get(c)]
    samples = []
    for idx in sorted(results)[:: max(1, len(results) // 4)][:4]:
        r = results[idx]
        samples.append({"case": idx, "desc": r["desc"], "events": r["events"][:12], "evaluations": r["n_eval"]})
    if args.verbose or args.case is not None:
        print(json.dumps({"counters": agg["counters"], "worst": agg["worst"], "cover": len(agg["cover"]), "skipped": skipped, "slowest": sorted(((r["t"], i) for i, r in results.items()), reverse=True)[:5]}, indent=1))
        if args.case is not None:
            for r in results.values():
                print(json.dumps(r, indent=1))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len({tuple(r["cover"]) for r in results.values() if r["cover"] and not r["skipped"] and r["n_eval"]}),
            "rule": spec["rule"],
            "samples": samples,
            "oracle_evaluations": n_eval,
            "client_events": n_events,
            "skipped_cases": skipped,
            "monitors": {k[4:]: v for k, v in sorted(agg["counters"].items()) if k.startswith("mon:")},
            "calls": {k[6:]: v for k, v in sorted(agg["counters"].items()) if k.startswith("event:")},
            "distinct_situations": len(agg["cover"]),
            "distinct_examples": sorted(agg["cover"])[:12],
            "largest_error_over_tolerance": {k: float("%.3g" % v) for k, v in sorted(agg["worst"].items())},
            "library_lines_executed": {f: sum(1 for g, _ in lines if g == f) for f in sorted({f for f, _ in lines})},
            "sanitizers": spec.get("sanitizer_note", "none") if san else "none",
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if os.environ.get("VB_LINES"):
        with open(os.path.join(os.environ["VB_LINES"], prop + ".json"), "w") as f:
            json.dump(sorted(lines), f)
    if args.case is None:
        with open(evidence, "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k, n in sorted(known_hit.items()):
        print("KNOWN-FINDING: property={} {} ({} observations)".format(prop, known.get(k, k), n))
    if viol:
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        idx, v = viol[0]
        path = os.path.join(rdir, "{}-{}-{}.json".format(prop, args.seed, idx))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": args.seed, "case": idx, "violation": v, "all": [{"case": i, "kind": w["kind"], "msg": w["msg"]} for i, w in viol[:30]], "desc": results.get(idx, {}).get("desc"), "events": results.get(idx, {}).get("events"), "replay_cmd": "./check {} --replay {}".format(prop, path)}, f, indent=1)
        kinds = {}
        for i, w in viol:
            kinds[w["kind"]] = kinds.get(w["kind"], 0) + 1
        for k, n in sorted(kinds.items()):
            first = next((i, w) for i, w in viol if w["kind"] == k)
            print("  {} x{} first case {}: {}".format(k, n, first[0], first[1]["msg"][:500]))
            if args.verbose and first[1]["data"]:
                print(json.dumps(first[1]["data"], indent=1).replace("\\n", "\n"))
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    if fatals:
        print("INCONCLUSIVE property={}: {}".format(prop, fatals[0]))
        return 2
    if timed_out:
        print("INCONCLUSIVE property={}: watchdog".format(prop))
        return 2
    if args.case is None and not args.cases and (missing or not results or n_eval == 0):
        print("INCONCLUSIVE property={}: monitors never reached: {}".format(prop, missing))
        return 2
    print("HELD property={} tier={} seed={} cases={} oracle_evaluations={} distinct={} wall={:.1f}s".format(prop, tier, args.seed, len(results), n_eval, len(agg["cover"]), time.time() - t0))
    return 0


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


if __name__ == "__main__":
    sys.exit(main())

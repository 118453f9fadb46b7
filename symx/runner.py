"""Runs one check: explores all its cases on a process pool, replays what the
solver found against the real code, writes the evidence file."""

import concurrent.futures as cf
import hashlib
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import time

from . import env

TOOL_FAIL = 2
SPLIT_AFTER = 10  # seconds after which the rest of a case is shared out
MAX_SPURIOUS = 80  # counterexamples replayed in vain before giving up on replays


def _tuple(x):
    return tuple(_tuple(i) for i in x) if isinstance(x, (list, tuple)) else x


_MOD = None


def _init(name):
    global _MOD
    env.setup_path()
    _MOD = importlib.import_module("checks." + name)
    if hasattr(_MOD, "setup"):
        _MOD.setup(True)
    from checks.common import install_int_shim

    install_int_shim()


def _work(args):
    from .engine import Engine

    case, deadline, opts, work = args
    t = time.time()
    eng = Engine(path_timeout=opts.get("path_timeout", 30))
    eng.note = None
    eng.explore(
        lambda x: _MOD.harness(x, case),
        deadline=deadline,
        max_cex=opts.get("max_cex", 2),
        max_paths=opts.get("max_paths"),
        work=work,
        until=time.time() + SPLIT_AFTER,
    )
    return {
        "left": eng.left if len(eng.cex) < opts.get("max_cex", 2) else [],
        "case": case,
        "stats": dict(eng.stats),
        "cex": [{"inputs": c.inputs, "msg": c.msg, "kind": c.kind} for c in eng.cex],
        "sample": eng.sample,
        "note": eng.note,
        "wall": time.time() - t,
    }


def replay(check, items, timeout=60):
    """Run harness cases on the real code in the repository's interpreter."""
    if not items:
        return []
    d = tempfile.mkdtemp(prefix="symx-replay-", dir=os.environ.get("SYMX_SCRATCH"))
    try:
        f = os.path.join(d, "req.json")
        with open(f, "w") as fh:
            json.dump({"check": check, "items": items, "timeout": timeout}, fh)
        e = dict(os.environ)
        e.update(
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONPYCACHEPREFIX=os.path.join(d, "pyc"),
            PYTHONPATH=env.VERIF + os.pathsep + env.REPO,
            SYMX_REPO=env.REPO,
            SYMX_SCRATCH=d,
        )
        try:
            r = subprocess.run(
                [env.VENV_PY, "-m", "symx.replay_main", f],
                capture_output=True,
                text=True,
                env=e,
                cwd=env.VERIF,
                timeout=timeout * (len(items) + 1) + 60,
            )
            out = r.stdout
            err = r.stderr[-2000:]
        except subprocess.TimeoutExpired as ex:
            out = (ex.stdout or b"").decode() if isinstance(ex.stdout, bytes) else ""
            err = "replay process timed out"
        res = [json.loads(x[7:]) for x in out.splitlines() if x.startswith("REPLAY ")]
        while len(res) < len(items):
            res.append({"status": "error", "detail": err})
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(pid):
    p = os.path.join(env.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d["property"] == pid and d["status"] == "known":
                    out.append(d)
    return out


def main(argv):
    if argv and argv[0] == "--replay":
        return replay_file(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    # one scratch directory for the whole run, removed at the end
    base = tempfile.mkdtemp(prefix="symx-run-")
    os.environ["SYMX_SCRATCH"] = base
    sys.pycache_prefix = os.path.join(base, "pyc")
    try:
        return decide(pid, tier, seed)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def decide(pid, tier, seed):
    t0 = time.time()
    name = pid.lower()
    env.setup_path()
    mod = importlib.import_module("checks." + name)
    cases = [_tuple(c) for c in mod.cases(tier)]
    opts = getattr(mod, "OPTS", {})
    limit = float(os.environ.get("SYMX_LIMIT", 720 if tier == "quick" else 7200))
    deadline = t0 + limit
    from .engine import Stats

    total = Stats()
    results, cexs, samples, notes = [], [], [], set()
    tool_errors = []
    nproc = int(os.environ.get("SYMX_PROCS", os.cpu_count() or 4))
    known = known_findings(pid)
    violations, spurious, known_hit = [], [], {}

    def handle(r):
        """Replay the counterexamples of one case at once."""
        if len(spurious) >= MAX_SPURIOUS:
            # the engine misjudges this code: do not spend the run on replays
            spurious.extend(dict(case=r["case"], solver_message=c["msg"], replay=None) for c in r["cex"])
            return
        items = [{"case": r["case"], "inputs": c["inputs"]} for c in r["cex"]]
        for c, it, rep in zip(r["cex"], items, replay(name, items)):
            st = rep["status"]
            if st == "violated" or (st == "hang" and c["kind"] == "hang"):
                rec = dict(it, property=pid, solver_message=c["msg"], real=rep["detail"] or st)
                k = match_known(known, rec)
                if k is not None:
                    known_hit.setdefault(k["id"], k)
                else:
                    violations.append(rec)
            else:
                spurious.append(dict(it, solver_message=c["msg"], replay=rep))

    with cf.ProcessPoolExecutor(nproc, initializer=_init, initargs=(name,)) as ex:
        futs, ended, parts = {}, queue.SimpleQueue(), {}

        def submit(i, work):
            fut = ex.submit(_work, (cases[i], deadline, opts, work))
            futs[fut] = i
            parts[i] = parts.get(i, 0) + 1
            fut.add_done_callback(ended.put)

        try:
            for i in range(len(cases)):
                submit(i, None)
            for fut in iter(lambda: ended.get() if parts else None, None):
                i = futs.pop(fut)
                try:
                    r = fut.result()
                except cf.process.BrokenProcessPool:
                    raise
                except Exception as e:
                    tool_errors.append("%r on case %r" % (e, cases[i]))
                    parts[i] -= 1
                    if not parts[i]:
                        del parts[i]
                    continue
                total.merge(r["stats"])
                for k in range(min(len(r["left"]), nproc)):
                    submit(i, r["left"][k::nproc])
                parts[i] -= 1
                if not parts[i]:
                    del parts[i]
                    results.append(r)
                if r["note"]:
                    notes.add(r["note"])
                if r["sample"] is not None:
                    samples.append({"case": r["case"], "inputs": r["sample"]})
                if r["cex"]:
                    handle(r)
                    if violations:
                        break
        except cf.process.BrokenProcessPool as e:
            tool_errors.append("worker died: %r" % e)
        if violations or tool_errors:
            procs = list((getattr(ex, "_processes", None) or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                p.kill()

    # validate the engine: passing samples must pass on the real code as well
    validated = 0
    if not violations:
        step = max(1, len(samples) // 24)
        vs = samples[::step][:24]
        for s, rep in zip(vs, replay(name, vs)):
            if rep["status"] == "ok":
                validated += 1
            elif rep["status"] in ("violated", "hang"):
                # the real code breaks the property where the engine said it holds
                rec = dict(s, property=pid, solver_message="(sample)", real=rep["detail"])
                if match_known(known, rec) is None:
                    violations.append(rec)
            elif rep["status"] == "error":
                tool_errors.append("sample replay: " + rep["detail"][-500:])

    missing = [l for l in getattr(mod, "REACH", []) if not total["reach"].get(l)]
    exhaustive = (
        not violations
        and not total["incomplete"]
        and not total["unknown"]
        and len(results) == len(cases)
        and not spurious
    )
    wall = time.time() - t0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": total["paths"],
            "transitions": total["branches"] + total["forks"],
            "traces_validated_against_impl": validated,
            "samples": samples[:3],
            "technique": "symbolic execution of the real code, branches and assertions decided by z3",
            "functions_encoded": getattr(mod, "FUNCTIONS", []),
            "bounds": mod.BOUNDS(tier) if callable(mod.BOUNDS) else mod.BOUNDS,
            "outside": getattr(mod, "OUTSIDE", ""),
            "cases": len(results),
            "cases_total": len(cases),
            "paths": total["paths"],
            "paths_infeasible": total["aborted"],
            "forks": total["forks"],
            "assertions": total["checks"],
            "assertions_discharged": total["discharged"],
            "assertions_decided_without_query": total["trivial"],
            "solver_queries": total["queries"],
            "solver_seconds": round(total["solver_s"], 2),
            "solver_unknown": total["unknown"],
            "counterexamples_not_reproduced": len(spurious),
            "incomplete_paths": total["incomplete"],
            "incomplete_notes": sorted(notes),
            "reached": total["reach"],
            "exhaustive": exhaustive,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(
        "%s %s: %d/%d cases, %d paths, %d assertions (%d discharged), %d queries, "
        "%.1fs solver, %.1fs wall, exhaustive=%s"
        % (
            pid, tier, len(results), len(cases), total["paths"], total["checks"],
            total["discharged"], total["queries"], total["solver_s"], wall, exhaustive,
        )
    )
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violations:
        d = os.path.join(env.VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        for v in violations[:3]:
            v["check"] = name
            h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
            p = os.path.join(d, "%s-%s.json" % (pid, h))
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print("  case %r inputs %r" % (v["case"], v["inputs"]))
            print("  solver: %s" % v["solver_message"])
            print("  real code: %s" % v["real"])
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    for s in spurious[:3]:
        print("NOT REPRODUCED on the real code (path not decided): %r" % (s,))
    if spurious and len(spurious) * 10 > 9 * total["paths"]:
        print("TOOL ERROR: %d counterexamples do not reproduce" % len(spurious))
        return TOOL_FAIL
    if tool_errors:
        for e in tool_errors[:5]:
            print("TOOL ERROR: " + e)
        return TOOL_FAIL
    if missing:
        print("VACUOUS: never reached: %s" % ", ".join(missing))
        return TOOL_FAIL
    if not exhaustive:
        print(
            "INCOMPLETE: %d cases not finished, %d paths unexplored, %d solver unknowns, %d not reproduced (%s)"
            % (
                len(cases) - len(results), total["incomplete"], total["unknown"], len(spurious),
                "; ".join(sorted(notes)),
            )
        )
    return 0


def match_known(known, rec):
    for k in known:
        m = k["match"]
        if json.loads(json.dumps(rec["case"])) == m.get("case"):
            return k
    return None


def replay_file(path):
    v = json.load(open(path))
    env.setup_path()
    os.environ.pop("SYMX_SCRATCH", None)
    r = replay(v["check"], [{"case": v["case"], "inputs": v["inputs"]}])[0]
    print(json.dumps(r, indent=1))
    if r["status"] in ("violated", "hang"):
        print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1
    return 0

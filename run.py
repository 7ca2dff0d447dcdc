"""
run.py <property> [--replay FILE] [--one WORKLOAD INDEX]

Runs the check of one property, at the tier of VERIF_TIER and seed of VERIF_SEED.
Exit code: 0 held on everything explored, 1 violation, 2 inconclusive or harness error.
"""
import contextlib
import importlib
import io
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, VERIF)
sys.path.insert(0, "/repo/src")

from vf.core import Case, Hang, known_findings  # noqa: E402


def on_alarm(*_):
    raise Hang("the execution does not end")


def run_chunk(prop, seed, tier, wl_name, indices, deadline):
    """runs in a worker process"""
    mod = importlib.import_module(f"checks.{prop.lower()}")
    wl = next(w for w in mod.WORKLOADS if w.name == wl_name)
    out = dict(
        n=0, events=Counter(), fps=set(), samples=[], violations=[], error=None
    )
    devnull = open(os.devnull, "w")
    for i in indices:
        if time.time() > deadline:
            out["events"]["_cut_by_time"] += 1
            break
        case = Case(prop, seed, tier, wl_name, i)
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(wl.timeout)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                with contextlib.redirect_stderr(io.StringIO()):
                    case.run(wl.fn)
        except BaseException:
            out["error"] = f"{wl_name}/{i}: " + traceback.format_exc()
            break
        finally:
            signal.alarm(0)
        out["n"] += 1
        out["events"].update(case.events)
        out["fps"] |= case.fingerprints
        if len(out["samples"]) < 2:
            out["samples"].extend(case.samples)
        for key, text in case.violations:
            out["violations"].append((wl_name, i, key, text, case.notes))
        if case.hung or sum(1 for v in out["violations"] if v[2] is None) >= 3:
            break
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
    except Exception:
        traceback.print_exc()
        print("ERROR: the check cannot be loaded against /repo")
        return 2

    if "--replay" in sys.argv:
        data = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        todo = [(data["workload"], [data["index"]])]
        seed, tier = data["seed"], data["tier"]
        single = True
    elif "--one" in sys.argv:
        k = sys.argv.index("--one")
        todo = [(sys.argv[k + 1], [int(sys.argv[k + 2])])]
        single = True
    else:
        single = False
        todo = [
            (w.name, list(range(w.quick if tier == "quick" else w.thorough)))
            for w in mod.WORKLOADS
        ]
    budget = 600 if tier == "quick" else 3000
    deadline = t0 + budget

    results = []
    if single:
        results.append(run_chunk(prop, seed, tier, *todo[0], deadline))
    else:
        workers = int(os.environ.get("VERIF_WORKERS", "8"))
        jobs = []
        for name, indices in todo:
            wl = next(w for w in mod.WORKLOADS if w.name == name)
            n_chunks = 1 if wl.serial else max(1, min(len(indices), workers * 2))
            for c in range(n_chunks):
                jobs.append((name, indices[c::n_chunks]))
        ctx = multiprocessing.get_context("fork")
        with ProcessPoolExecutor(max_workers=workers, mp_context=ctx) as pool:
            futs = [
                pool.submit(run_chunk, prop, seed, tier, n, idx, deadline)
                for n, idx in jobs
            ]
            for f in futs:
                try:
                    results.append(f.result())
                except Exception:
                    results.append(
                        dict(
                            n=0,
                            events=Counter(),
                            fps=set(),
                            samples=[],
                            violations=[],
                            error=traceback.format_exc(),
                        )
                    )

    events, fps, samples, violations, errors, n = Counter(), set(), [], [], [], 0
    for r in results:
        n += r["n"]
        events.update(r["events"])
        fps |= r["fps"]
        samples.extend(r["samples"])
        violations.extend(r["violations"])
        if r["error"]:
            errors.append(r["error"])

    known = known_findings(prop)
    seen_known = {}
    unknown = []
    for v in violations:
        if v[2] is not None and v[2] in known:
            seen_known.setdefault(v[2], v)
        else:
            unknown.append(v)
    for key in seen_known:
        print(f"KNOWN-FINDING: property={prop} key={key} {known[key]}")

    code = 0
    if unknown:
        code = 1
        os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
        for k, (wl, i, key, text, notes) in enumerate(unknown[:3]):
            path = f"{VERIF}/evidence/replay/{prop}-{k}.json"
            with open(path, "w") as f:
                json.dump(
                    dict(
                        property=prop,
                        seed=seed,
                        tier=tier,
                        workload=wl,
                        index=i,
                        key=key,
                        what=text,
                        notes=notes,
                        replay_cmd=f"/opt/venv/bin/python {VERIF}/run.py {prop} --replay {path}",
                    ),
                    f,
                    indent=1,
                    default=str,
                )
            print(f"--- {prop} {wl}/{i} {key or ''}\n{text[:800]}")
            print(f"VIOLATION property={prop} replay={path}")
    elif errors:
        code = 2
        for e in errors[:3]:
            print("ERROR in the check:", e)
    elif not single:
        for name, minimum in mod.REQUIRE.items():
            if events[name] < minimum:
                print(
                    f"INCONCLUSIVE: monitor event {name!r} observed {events[name]} times,"
                    f" at least {minimum} expected"
                )
                code = 2

    if not single:
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        ev = dict(
            property=prop,
            tier=tier,
            seed=seed,
            level="exploration",
            coverage=dict(
                evaluations=n,
                distinct_nontrivial=len(fps),
                rule=mod.RULE,
                samples=samples[:6] or ["none"],
                observed_events=dict(sorted(events.items())),
                known_findings_reproduced=sorted(seen_known),
            ),
            assumptions=mod.ASSUMPTIONS,
            wall_s=round(time.time() - t0, 2),
            violations=len(unknown),
        )
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(
            f"{prop} tier={tier} seed={seed}: {n} executions, {len(fps)} distinct, "
            f"{sum(events.values())} monitored events, {len(unknown)} violations, "
            f"{ev['wall_s']} s"
        )
    return code


if __name__ == "__main__":
    sys.exit(main())

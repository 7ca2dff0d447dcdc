import contextlib
import io
import json
import math
import os
import re
import shutil
import subprocess
import sys
from pathlib import Path

import yaml

from vf import antares as A
from vf import libs as LB
from vf import lp as L
from vf import shipped as H
from vf import sysgen as G
from vf import tree as T
from vf.core import Workload, close

PROPERTY = "C26"
RULE = (
    "a case is a study run from the command line, a refused command line, or a sequence of"
    " runs of an external command; distinct by study and arguments, or by sequence"
)
ASSUMPTIONS = [
    "the expected status and cost come from equations written or evaluated independently,"
    " solved by SCIP",
    "external solvers are stand-ins written in a scratch directory, which the code runs as"
    " bin/benders and bin/merge_mps",
    "a missing executable counts as return code 0, as the code documents; whether the"
    " solution of an earlier run is then read again is not judged",
]
REQUIRE = {
    "study computed": 100, "optimum compared": 60, "study layout": 30, "file arguments": 30,
    "refused": 100, "external run": 200, "run failed": 60, "run succeeded": 60,
    "solution read": 40, "could not start": 20, "missing executable": 20,
    "separate process": 4, "shorter than the series": 20,
}
SRC = "/repo/src"


# ------------------------------------------------------------------- the command line


class Study:
    """files of a study, and its expected result"""

    def __init__(self, libs, system, series, T, S, lp, desc):
        self.libs, self.system, self.series = libs, system, series
        self.T, self.S, self.lp, self.desc = T, S, lp, desc
        self.horizon = self.scenarios = None


def own_study(r):
    while True:
        spec = G.SysGen(r, T=r.choice([1, 2, 3, 4]), S=r.choice([1, 2, 3]), yaml=True,
                        max_models=3, max_components=4).system()
        Lb = LB.partition(r, spec, r.randint(1, 4))
        docs = LB.documents(r, spec, Lb)
        series = {}
        system = G.yaml_system(spec, r, lambda m: Lb.models[m], series)
        T = r.choice([spec.horizon, spec.horizon, r.randint(1, spec.horizon)])
        S = r.choice([spec.scenarios, spec.scenarios, r.randint(1, spec.scenarios)])
        try:
            ref = L.reference(spec, list(range(T)), S)
        except L.Infeasible:
            continue
        if ref.duplicates or any(
                k and math.isfinite(lo) and math.isfinite(hi) and math.ceil(lo) > math.floor(hi)
                for lo, hi, k in ref.vars.values()):
            continue  # SCIP takes an integer variable fixed to 1/4
        st = Study(list(docs.values()), system, series, T, S, own_proto(ref), repr((spec, docs)))
        st.short = T < spec.horizon or S < spec.scenarios
        return st


def own_proto(ref):
    from ortools.linear_solver import linear_solver_pb2

    m = linear_solver_pb2.MPModelProto()
    at = {}
    for n, (lo, hi, integer) in ref.vars.items():
        at[n] = len(m.variable)
        m.variable.add(name=n, lower_bound=float(lo), upper_bound=float(hi),
                       is_integer=integer, objective_coefficient=float(ref.obj.get(n, 0)))
    for lo, hi, c in ref.cons.values():
        x = m.constraint.add(lower_bound=float(lo), upper_bound=float(hi))
        for k, v in c.items():
            x.var_index.append(at[k])
            x.coefficient.append(float(v))
    m.objective_offset = float(ref.offset)
    return m


def shipped_study(r):
    g = H.Gen(r)
    sy = g.historic()
    while sy.start:
        sy = g.historic()
    eqs = H.equations(sy)
    series = {}
    for c, (_, _, params) in sy.comps.items():
        for n, x in params.items():
            if isinstance(x, list):
                series[f"{c}-{n}"] = x
    with A.scratch() as d:
        system = H.document(sy, d, r)
    used = {c[0] for c in sy.comps.values()}
    names = {H.HIST: "antares_historic/antares_historic.yml",
             H.REF: "reference_models/andromede_v1_models.yml"}
    import andromede

    libs = []
    for i, f in names.items():
        if i in used or r.random() < 0.5:
            with open(Path(andromede.__file__).parent / "libs" / f) as h:
                libs.append(yaml.safe_load(h))
    from checks.c25 import reference

    st = Study(libs, system, series, sy.T, sy.S, reference(sy, eqs), repr(sy))
    st.short = sy.horizon > sy.T
    return st


def layout(st, d, r, as_study):
    """writes the files; returns (arguments, files)"""
    if as_study:
        root = os.path.join(d, r.choice(["étude", "study 1", "s"]))
        models = os.path.join(root, "input", "models")
        comps = os.path.join(root, "input", "components", "components.yml")
        series = os.path.join(root, "input", "components", "series")
    else:
        root = d
        models = os.path.join(d, r.choice(["models", "lib"]))
        comps = os.path.join(d, r.choice(["system.yml", "composants.yml"]))
        series = os.path.join(d, r.choice(["series", "data"]))
    os.makedirs(models)
    os.makedirs(os.path.dirname(comps), exist_ok=True)
    files = []
    for i, doc in enumerate(st.libs):
        f = os.path.join(models, r.choice([f"lib{i}.yml", f"{9 - i}.yml", f"Modèles {i}.yml"]))
        with open(f, "w") as h:
            yaml.safe_dump(doc, h)
        files.append(f)
    r.shuffle(files)
    with open(comps, "w") as h:
        yaml.safe_dump(st.system, h)
    if st.series or as_study or r.random() < 0.5:
        G.write_series(r, series, st.series)
    else:
        series = None
    if as_study:
        args = [["--study", root]]
    else:
        args = [["--models"] + files, ["--component", comps]]
        if series:
            args.append(["--timeseries", series])
    if st.T != 1 or r.random() < 0.5:
        args.append(["--duration", str(st.T)])
    if st.S != 1 or r.random() < 0.5:
        args.append(["--scenario", str(st.S)])
    r.shuffle(args)
    return args, dict(models=files, component=comps, series=series, root=root)


def relative(args, d, r):
    """some paths relative to d"""
    return [[os.path.relpath(x, d) if x.startswith(d) and r.random() < 0.5 else x
             for x in a] for a in args]


def cli(args, cwd):
    """(stdout, exception or None)"""
    from andromede.main.main import main_cli

    argv, here = sys.argv, os.getcwd()
    out = io.StringIO()
    err = None
    sys.argv = ["andromede-simulator"] + [x for a in args for x in a]
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            main_cli()
    except SystemExit as e:
        err = e if e.code not in (0, None) else None
    except Exception as e:  # noqa
        err = e
    finally:
        sys.argv = argv
        os.chdir(here)
    return out.getvalue(), err


def process(args, cwd):
    env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-m", "andromede.main.main"]
                       + [x for a in args for x in a], cwd=cwd, env=env,
                       capture_output=True, text=True)
    return p.stdout, (RuntimeError(p.stderr) if p.returncode else None)


def printed(out):
    a = re.search(r"status\s*:\s*(\S+)", out)
    b = re.search(r"cost\s*:\s*(\S+)", out)
    return (a and a.group(1), b and b.group(1))


def draw(r):
    return own_study(r) if r.random() < 0.4 else shipped_study(r)


def compute(case, how):
    r = case.rng
    st = draw(r)
    case.note(study=st.desc, T=st.T, S=st.S)
    with A.scratch() as d:
        d = os.path.realpath(d)
        as_study = r.random() < 0.5
        args, _ = layout(st, d, r, as_study)
        args = relative(args, d, r)
        case.note(arguments=args)
        out, err = how(args, d)
    if err is not None and not isinstance(err, RuntimeError):
        raise err  # of the code, on a valid study
    case.check(err is None, "a valid study is refused", error=err)
    case.ev("study layout" if as_study else "file arguments")
    case.ev("study computed")
    if st.short:
        case.ev("shorter than the series")
    from checks.c25 import solve

    s, want = solve(st.lp, True)
    status, cost = printed(out)
    case.check(status is not None and cost is not None,
               "the status and the cost are not printed", got=out)
    if want == s.OPTIMAL:
        case.check(status == str(want), "another status is printed", got=status,
                   expected=want)
        best = s.Objective().Value()
        # the solver of the command line stops at a relative gap of 1e-4
        scale = max(abs(best), abs(float(cost)), abs(best - st.lp.objective_offset))
        case.check(near(float(cost), best) or 0 <= float(cost) - best <= 1.1e-4 * scale,
                   "another cost is printed", got=cost, expected=best)
        case.ev("optimum compared")
        case.distinct((st.desc, st.T, st.S))
    elif want == s.INFEASIBLE:
        case.check(status != str(s.OPTIMAL), "an infeasible study is said optimal")
        case.ev("infeasible")
    else:
        case.ev(f"status {want}")
    case.sample(dict(arguments=[a[0] for a in args], T=st.T, S=st.S, cost=cost))


def near(a, b):
    return close(a, b, 1e-5) or abs(a - b) < 1e-5


def studies(case):
    compute(case, cli)


def processes(case):
    compute(case, process)
    case.ev("separate process")


def drop(args, opt):
    return [a for a in args if a[0] != opt]


def refusals(case):
    r = case.rng
    kind = r.choice([
        "study and models", "study and component", "study and timeseries", "no models",
        "no component", "nothing", "no model file", "no component file", "no series file",
        "no study", "library twice", "two libraries, one id", "not a number",
        "unknown model", "too long", "too long", "too many scenarios", "too many scenarios",
        "unknown option"])
    # all the series of the shipped models are read for every hour and scenario
    st = shipped_study(r) if kind.startswith("too") else draw(r)
    case.note(study=st.desc, kind=kind)
    with A.scratch() as d:
        d = os.path.realpath(d)
        as_study = kind in ("no study",) or kind.startswith("study and") or (
            kind not in ("no models", "no component", "nothing", "library twice")
            and r.random() < 0.5)
        args, f = layout(st, d, r, as_study)
        if kind == "study and models":
            args.append(["--models"] + f["models"])
        elif kind == "study and component":
            args.append(["--component", f["component"]])
        elif kind == "study and timeseries":
            args.append(["--timeseries", f["series"]])
        elif kind == "no models":
            args = drop(args, "--models")
        elif kind == "no component":
            args = drop(args, "--component")
        elif kind == "nothing":
            args = drop(drop(args, "--models"), "--component")
        elif kind == "no model file":
            if as_study:
                shutil.rmtree(os.path.dirname(f["models"][0]))
            else:
                os.remove(r.choice(f["models"]))
        elif kind == "no component file":
            os.remove(f["component"])
        elif kind == "no series file":
            if not st.series:
                return
            os.remove(os.path.join(f["series"], r.choice(sorted(st.series)) + ".txt"))
        elif kind == "no study":
            shutil.rmtree(f["root"])
        elif kind == "library twice":
            a = next(a for a in args if a[0] == "--models")
            a.append(r.choice(a[1:]))
        elif kind == "two libraries, one id":
            x = {"library": {"id": r.choice(st.libs)["library"]["id"]}}
            n = os.path.join(os.path.dirname(f["models"][0]), "0.yml")
            with open(n, "w") as h:
                yaml.safe_dump(x, h)
            if not as_study:
                a = next(a for a in args if a[0] == "--models")
                a.insert(r.randint(1, len(a)), n)
        elif kind == "not a number":
            o = r.choice(["--duration", "--scenario"])
            args = drop(args, o) + [[o, r.choice(["two", "1.5", ""])]]
        elif kind == "unknown model":
            c = r.choice(st.system["system"].get("components") or [None])
            if c is None:
                return
            c["model"] = r.choice([c["model"] + "x", "nolib." + c["model"].split(".")[1],
                                   c["model"].split(".")[0] + ".none"])
            with open(f["component"], "w") as h:
                yaml.safe_dump(st.system, h)
        elif kind in ("too long", "too many scenarios"):
            if kind == "too long":
                o, n = "--duration", [len(x) for x in st.series.values()]
            else:
                o, n = "--scenario", [len(x[0]) for x in st.series.values()
                                      if len(x[0]) > 1]
            if not n:
                return
            n = min(n) + r.randint(1, 3)
            args = drop(args, o) + [[o, str(n)]]
        elif kind == "unknown option":
            args.append([r.choice(["--years", "--Study", "--nothing"]), "3"])
        args = relative(args, d, r)
        case.note(arguments=args)
        out, err = cli(args, d)
    case.check(err is not None, "a command line is not refused", kind=kind)
    case.check("cost" not in out, "a refused command line prints a cost", kind=kind, got=out)
    case.ev("refused")
    case.ev("refused: " + kind)
    case.distinct((kind, st.desc))


# ---------------------------------------------------------------- the external commands

STANDIN = """#!{python}
import json, os, sys
spec = json.load(open({spec!r}))
rec = dict(cwd=os.getcwd(), args=sys.argv[1:], argv0=sys.argv[0], files=sorted(os.listdir(".")))
opt = None
try:
    opt = json.load(open("options.json"))
except Exception:
    pass
rec["options"] = opt
log = json.load(open({log!r})) if os.path.exists({log!r}) else []
log.append(rec)
json.dump(log, open({log!r}, "w"))
print("working", flush=True)
if spec["write"] is not None:
    p = (opt or dict(JSON_FILE="expansion/out.json"))["JSON_FILE"]
    os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
    open(p, "w").write(spec["write"])
if spec["signal"]:
    os.kill(os.getpid(), spec["signal"])
sys.exit(spec["code"])
"""


class External:
    """a command under our control"""

    def __init__(self, path, d):
        self.path, self.d = path, d
        self.spec = os.path.join(d, os.path.basename(path) + ".spec.json")
        self.log = os.path.join(d, os.path.basename(path) + ".log.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)

    def set(self, kind, code=0, signal=0, write=None):
        if os.path.isdir(self.path):
            os.rmdir(self.path)
        elif os.path.lexists(self.path):
            os.remove(self.path)
        if kind == "missing":
            return
        if kind == "directory":
            os.mkdir(self.path)
            return
        with open(self.spec, "w") as f:
            json.dump(dict(code=code, signal=signal, write=write), f)
        text = STANDIN.format(python=sys.executable + " -SE", spec=self.spec, log=self.log)
        if kind == "bad interpreter":
            text = "#!/nonexistent/interpreter\n" + text
        with open(self.path, "w") as f:
            f.write(text)
        os.chmod(self.path, 0o644 if kind == "not executable" else 0o755)

    def runs(self):
        if not os.path.exists(self.log):
            return []
        with open(self.log) as f:
            return json.load(f)


@contextlib.contextmanager
def where(d):
    """the current directory, and a real file for the standard output"""
    here, out = os.getcwd(), sys.stdout
    os.chdir(d)
    try:
        with open(os.path.join(d, "stdout.txt"), "w") as f:
            sys.stdout = f
            yield
    finally:
        sys.stdout = out
        os.chdir(here)


START_FAILS = ("not executable", "bad interpreter")
NO_COMMAND = ("missing", "directory")


def behaviour(r, written):
    kind = r.choices(["runs", "missing", "directory", "not executable", "bad interpreter"],
                     [12, 2, 1, 2, 1])[0]
    kw = {}
    if kind == "runs":
        kw["code"] = r.choice([0, 0, 0, 0, 0, 1, 2, 77, 127, 255])
        if r.random() < 0.12:
            kw["signal"] = r.choice([9, 15, 6])
        if r.random() < 0.7:
            kw["write"] = written
    return kind, kw


def commands(case):
    """CommandRunner alone"""
    from andromede.simulation.runner import CommandRunner

    r = case.rng
    with A.scratch() as d:
        d = os.path.realpath(d)
        work = os.path.join(d, "outputs", r.choice(["lp", "étude 1"]))
        os.makedirs(work)
        with where(d):
            for _ in range(r.randint(1, 3)):
                name = r.choice(["bin/tool", "tool", "bin/deep/x"])
                ext = External(os.path.join(d, name), d)
                kind, kw = behaviour(r, "{}")
                ext.set(kind, **kw)
                n = len(ext.runs())
                args = [r.choice(["options.json", "-v", "a b", "", "é", "$HOME", "*"])
                        for _ in range(r.randint(0, 3))]
                path = Path(name if r.random() < 0.6 else os.path.join(d, name))
                place = Path(r.choice([work, os.path.relpath(work, d)]))
                gone = r.random() < 0.1
                if gone:
                    place = Path(os.path.join(d, "nowhere"))
                case.note(kind=kind, args=args, path=str(path), place=str(place), spec=kw)
                err = rc = None
                try:
                    rc = CommandRunner(path, list(args), place).run()
                except OSError as e:
                    err = e
                here = os.getcwd()
                os.chdir(d)
                case.check(here == d, "the working directory is not restored", got=here,
                           kind=kind, gone=gone)
                case.ev("external run")
                new = ext.runs()[n:]
                if kind in NO_COMMAND:
                    case.check(rc == 0 and err is None, "a missing executable does not give"
                               " return code 0", got=rc, error=err, kind=kind)
                    case.ev("missing executable")
                elif gone or kind in START_FAILS:
                    case.check(err is not None or (rc is not None and rc != 0),
                               "a command which cannot be started is said to have succeeded",
                               got=rc, kind=kind, gone=gone)
                    case.check(not new, "a command was run elsewhere", runs=new)
                    case.ev("could not start")
                else:
                    case.check(err is None, "a command could not be run", error=err)
                    case.check(len(new) == 1, "the command was not run once", runs=new)
                    case.check(new[0]["cwd"] == work, "the command ran in another directory",
                               got=new[0]["cwd"], expected=work)
                    case.check(new[0]["args"] == args, "the command had other arguments",
                               got=new[0]["args"], expected=args)
                    want = -kw["signal"] if kw.get("signal") else kw["code"]
                    case.check(rc == want, "another return code", got=rc, expected=want)
                    case.ev("run succeeded" if rc == 0 else "run failed")
                case.distinct((name, kind, tuple(sorted(kw.items())), tuple(args),
                               path.is_absolute(), place.is_absolute(), gone))


def data(r, i):
    cost = r.randint(1, 10 ** 6) / 8
    return {"solution": {
        "investment_cost": cost / 2, "operational_cost": cost / 2, "overall_cost": cost,
        "values": {f"invest_{j}": r.randint(0, 99) / 4 for j in range(r.randint(0, 3))},
        "problem_status": r.choice(["OPTIMAL", "ERROR"]), "optimality_gap": 0.0,
        "relative_gap": 0.0, "stopping_criterion": "absolute gap", "lb": cost, "ub": cost,
        "iteration": i}, "run_duration": 1.5}


DEFAULTS = dict(solver_name="XPRESS", log_level=0, should_merge=False, show_debug=False)


def benders(case):
    """a sequence of runs of a decomposed problem"""
    from andromede.simulation.benders_decomposed import build_benders_decomposed_problem
    from andromede.simulation.output_values import (
        BendersDecomposedSolution, BendersMergedSolution)

    r = case.rng
    ts = T.draw(r)
    objs, db = T.build_nodes(ts)
    T.add_couplings(ts, objs)
    b = build_benders_decomposed_problem(objs[0], db)
    hist = []
    with A.scratch() as d:
        d = os.path.realpath(d)
        if r.random() < 0.5:
            b.emplacement = Path(r.choice(["outputs/here", "a b"]))
        if r.random() < 0.3:
            b.output_path = Path(r.choice(["results", "x/y"]))
        work = os.path.join(d, b.emplacement)
        with where(d):
            ext = {m: External(os.path.join(d, "bin", "merge_mps" if m else "benders"), d)
                   for m in (False, True)}
            file = False  # a solution file lies there
            for i in range(r.randint(1, 4)):
                merge = r.random() < 0.4
                ext[not merge].set("runs", code=3)
                x = data(r, i)
                bad = r.random() < 0.05
                kind, kw = behaviour(r, "{oops" if bad else json.dumps(x))
                ext[merge].set(kind, **kw)
                solver, level = r.choice(["XPRESS", "COIN"]), r.randint(0, 3)
                debug = r.random() < 0.3
                n = {m: len(ext[m].runs()) for m in ext}
                before = b.solution
                hist.append((merge, kind, tuple(sorted((k, str(v)) for k, v in kw.items()
                                                       if k != "write")), "write" in kw))
                case.note(history=hist)
                err = res = None
                try:
                    given = dict(solver_name=solver, log_level=level, should_merge=merge,
                                 show_debug=debug)
                    # left out when it is the default
                    for k, v in DEFAULTS.items():
                        if given[k] == v and r.random() < 0.5:
                            del given[k]
                    res = b.run(**given)
                except Exception as e:  # noqa
                    err = e
                here = os.getcwd()
                os.chdir(d)
                case.check(here == d, "the working directory is not restored", got=here,
                           history=hist)
                case.ev("external run")
                case.check(len(ext[not merge].runs()) == n[not merge],
                           "the other command was run", merge=merge)
                new = ext[merge].runs()[n[merge]:]
                if kind in START_FAILS:
                    case.check(err is not None or res is False,
                               "a run which could not start is said to have succeeded",
                               got=res, kind=kind)
                    case.check(b.solution is before, "a failed run changed the solution",
                               history=hist)
                    case.ev("could not start")
                    continue
                if kind in NO_COMMAND:
                    case.check(err is None and res is True, "a missing executable is an"
                               " error", got=res, error=err)
                    if not file:
                        case.check(b.solution is before,
                                   "a solution appears, which nothing wrote", history=hist)
                    case.ev("missing executable")
                    continue
                case.check(len(new) == 1 and new[0]["cwd"] == work,
                           "the command was not run once in the directory of the study",
                           runs=new, expected=work)
                opt = new[0]["options"]
                case.check(new[0]["args"] == ["options.json"] and opt is not None
                           and opt["SOLVER_NAME"] == solver and opt["LOG_LEVEL"] == level,
                           "the command was not given the options of the run",
                           args=new[0]["args"], options=opt, solver=solver, level=level)
                need = {b.master.name + ".mps", b.structure_filename} | {
                    s.name + ".mps" for s in b.subproblems}
                if debug:
                    need |= {p.name + ".lp" for p in [b.master] + b.subproblems}
                case.check(need <= set(new[0]["files"]),
                           "files of the problem are missing where the command runs",
                           missing=sorted(need - set(new[0]["files"])))
                ok = kw["code"] == 0 and not kw.get("signal")
                wrote = "write" in kw
                file = file or wrote
                if wrote and bad:
                    if ok:
                        case.check(b.solution is before or b.solution is None,
                                   "a solution was made of a file which is none")
                    break
                case.check(err is None, "a run ends with an error", error=err, history=hist)
                case.check(res is ok, "the result of a run is not that of the command",
                           got=res, spec=kw)
                case.ev("run succeeded" if ok else "run failed")
                if not ok:
                    case.check(b.solution is before, "a failed run changed the solution",
                               history=hist)
                elif wrote:
                    kindof = BendersMergedSolution if merge else BendersDecomposedSolution
                    case.check(type(b.solution) is kindof, "the solution read is of another"
                               " kind", got=type(b.solution), expected=kindof, history=hist)
                    case.check(b.solution.data == x, "another solution is read",
                               got=b.solution.data, expected=x, history=hist)
                    case.ev("solution read")
                elif not file:
                    case.check(b.solution is before, "a solution appears, which nothing"
                               " wrote", history=hist)
    case.distinct((tuple(hist), len(b.subproblems)))
    case.sample(dict(history=hist))


WORKLOADS = [
    Workload("studies", studies, 200, timeout=200),
    Workload("processes", processes, 8, 100, timeout=200),
    Workload("refusals", refusals, 250, timeout=100),
    Workload("commands", commands, 150, timeout=100),
    Workload("benders", benders, 160, timeout=100),
]

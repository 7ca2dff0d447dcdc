import io
import os
import shutil
import tempfile
from fractions import Fraction as F
from pathlib import Path

import yaml

from vf import lp as L
from vf import problem as P
from vf import sysgen as G
from vf.core import Workload, raises
from vf.expr import VALUES

PROPERTY = "C13"
RULE = (
    "a case is a set of parameters with files, groups and a scenario builder, or one fault"
    " in it; distinct by the values read or the fault, non-trivial if a file is read"
)
ASSUMPTIONS = [
    "files are white-space separated numbers without header, one line per time step",
    "names of scenario groups are words (the builder file is read by a CSV reader which"
    " turns numeric names into numbers)",
]
REQUIRE = {
    "value read": 20000, "file loaded": 1500, "value read through a group": 3000,
    "value of a node": 2000, "group of the parameter": 200, "group of the component": 200,
    "fault refused": 800, "consistent data accepted": 300, "inconsistent data refused": 300,
    "value after a change": 1000, "value in the problem": 1000, "value of data made in Python": 5000,
}


class Scratch:
    def __enter__(self):
        self.dir = Path(tempfile.mkdtemp(prefix="vf-c13-"))
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def same(a, b):
    """up to the last digits, which the parser of numbers of pandas may round"""
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def number(r):
    x = r.random()
    if x < 0.4:
        return float(r.randint(-50, 50))
    if x < 0.7:
        return r.randint(-4000, 4000) / 8
    if x < 0.8:
        return r.uniform(-1, 1) * 10 ** r.randint(-9, 9)
    return float(r.choice([0, 1e-9, 123456789.25, -0.125, 1e12, 3]))


def fmt(r, v):
    if v == int(v) and abs(v) < 1e9 and r.random() < 0.4:
        return str(int(v))
    if r.random() < 0.2:
        return f"{v:.17e}"
    return repr(v)


def write(r, path, rows):
    sep = r.choice(["\t", " ", "   "])
    end = r.choice(["\n", ""])
    lead = r.choice(["", "", " "])
    nl = r.choice(["\n", "\n", "\r\n"])
    text = nl.join(lead + sep.join(fmt(r, v) for v in row) for row in rows)
    path.write_bytes((text + end).encode())


def draw(r, d, groups):
    """-> yaml system, truth {(comp, par): (kind, data, group)}"""
    H, N = r.randint(1, 6), r.randint(1, 5)
    truth, system = {}, {"nodes": [], "components": []}
    shared = {}
    for i in range(r.randint(1, 4)):
        c = {"id": f"{r.choice(['N', 'G-', 'zone '])}{i}", "model": "lib.m"}
        cg = r.choice([None, *groups])
        if cg:
            c["scenario-group"] = cg
        c["parameters"] = []
        for j in range(r.randint(1, 6)):
            k = r.choice(["const", "ts", "ss", "tss", "tss"])
            p = {"id": f"p{j}"}
            pg = r.choice([None, None, *groups])
            if pg:
                p["scenario-group"] = pg
            if k == "const":
                v = number(r)
                p["value"] = int(v) if v == int(v) and r.random() < 0.5 else v
                data = v
            else:
                if k in shared and r.random() < 0.3:
                    p["value"], data = shared[k]
                else:
                    name = f"{r.choice(['s', 'série', 'a.b', 'x y', '2030'])}_{i}_{j}"
                    if name[0] == "2":
                        name = "2030_" + f"{i}{j}x"
                    rows = {"ts": (H, 1), "ss": (1, N), "tss": (H, N)}[k]
                    data = [[number(r) for _ in range(rows[1])] for _ in range(rows[0])]
                    write(r, d / (name + ".txt"), data)
                    p["value"] = name
                    shared[k] = (name, data)
                for f, on in (("time-dependent", k in ("ts", "tss")),
                              ("scenario-dependent", k in ("ss", "tss"))):
                    if on or r.random() < 0.3:
                        p[f] = on
            truth[(c["id"], p["id"])] = (k, data, pg, cg)
            c["parameters"].append(p)
        system["nodes" if r.random() < 0.4 else "components"].append(c)
    return {"system": {k: v for k, v in system.items() if v}}, truth, H, N


def expect(entry, t, s, year_of):
    k, data, pg, cg = entry
    col = s
    if year_of is not None and (pg or cg) and s is not None:
        col = year_of[pg or cg][s]
    if k == "const":
        return data
    if k == "ts":
        return data[t][0]
    if k == "ss":
        return data[0][col]
    return data[t][col]


def parse(system):
    from andromede.study.parsing import parse_yaml_components

    return parse_yaml_components(io.StringIO(yaml.safe_dump(system, allow_unicode=True)))


def values(case):
    from andromede.study.data import ComponentParameterIndex
    from andromede.study.parsing import parse_scenario_builder
    from andromede.study.resolve_components import (
        build_data_base,
        build_scenarized_data_base,
    )

    r = case.rng
    scenarized = r.random() < 0.6
    groups = r.sample(["load", "wind", "hydro group", "A", "coal", "é-2", "#x"],
                      r.randint(1, 3))
    with Scratch() as d:
        system, truth, H, N = draw(r, d, groups)
        inp = parse(system)
        years, Y = None, N
        if scenarized:
            Y = r.randint(1, 5)
            years = {g: [r.randrange(N) for _ in range(Y)] for g in groups}
            rows = [(g, y, c) for g in groups for y, c in enumerate(years[g])]
            r.shuffle(rows)
            sep = r.choice([",", ", "])
            (d / "sb.dat").write_text("".join(sep.join(map(str, x)) + "\n" for x in rows))
            sb = parse_scenario_builder(d / "sb.dat")
            db = build_scenarized_data_base(inp, sb, d)
        else:
            db = build_data_base(inp, d)
        case.note(system=system, years=str(years), truth=str(truth))
        nodes = {c["id"] for c in system["system"].get("nodes", [])}
        for (c, p), e in truth.items():
            if e[0] != "const":
                case.ev("file loaded")
            if scenarized and e[2]:
                case.ev("group of the parameter")
            elif scenarized and e[3]:
                case.ev("group of the component")
            for t in range(H):
                for s in range(min(Y, N) if not (scenarized and (e[2] or e[3])) else Y):
                    want = expect(e, t, s, years)
                    a = db.get_data(c, p).get_value(t, s)
                    b = db.get_value(ComponentParameterIndex(c, p), t, s)
                    case.check(same(a, want) and same(b, want),
                               "a parameter does not have the value of its data",
                               parameter=(c, p, e[0]), time=t, scenario=s, got=(a, b),
                               expected=want, groups=e[2:], years=years)
                    case.ev("value read")
                    if scenarized and (e[2] or e[3]) and e[0] in ("ss", "tss"):
                        case.ev("value read through a group")
                    if c in nodes:
                        case.ev("value of a node")
            # an index which the data need cannot be left out
            if e[0] in ("ts", "tss"):
                case.check(raises(lambda: db.get_data(c, p).get_value(None, 0)) is not None,
                           "a time series was read without time step", parameter=(c, p))
                case.check(raises(lambda: db.get_data(c, p).get_value(H + 3, 0)) is not None,
                           "a time series was read after its end", parameter=(c, p))
            if e[0] in ("ss", "tss"):
                case.check(raises(lambda: db.get_data(c, p).get_value(0, None)) is not None,
                           "a scenario series was read without scenario", parameter=(c, p))
                case.check(raises(lambda: db.get_data(c, p).get_value(0, N + Y)) is not None,
                           "a scenario series was read after its last scenario or year",
                           parameter=(c, p))
        case.distinct((str(system), str(years), str(truth)))
        case.sample(dict(system=system, years=years))


# ------------------------------------------------------------------ data made in Python


def direct(case):
    """every data structure made in Python, scenarized or not, in any order of its values"""
    import pandas as pd

    from andromede.study import data as D

    r = case.rng
    H, N, Y = r.randint(1, 5), r.randint(1, 4), r.randint(1, 4)
    years = {y: r.randrange(N) for y in range(Y)}

    def scenarization():
        if r.random() < 0.5:
            return None, None
        ys = list(years.items())
        r.shuffle(ys)
        k = r.randint(0, len(ys))
        sc = D.Scenarization(dict(ys[:k]))
        for y, c in ys[k:]:
            sc.add_year(y, c)
        y, c = r.choice(ys)
        case.check(raises(lambda: sc.add_year(y, (c + 1) % 7)) is not None,
                   "a year is defined twice", year=y)
        for y, c in ys:
            case.check(sc.get_scenario_for_year(y) == c, "wrong scenario of a year")
        return sc, dict(years)

    def make(depth=0):
        """data, value(t, s, node)"""
        k = r.choice(["const", "ts", "ss", "tss", "tss"] + ([] if depth else ["tree"]))
        rows = [[number(r) for _ in range(N)] for _ in range(H)]
        if k == "const":
            v = number(r)
            return k, D.ConstantData(v), lambda t, s, n: v
        if k == "ts":
            ts = list(range(H))
            r.shuffle(ts)
            return k, D.TimeSeriesData({D.TimeIndex(t): rows[t][0] for t in ts}), \
                lambda t, s, n: rows[t][0]
        sc, ys = scenarization()
        col = (lambda s: s) if ys is None else (lambda s: ys[s])
        if k == "ss":
            cs = list(range(N))
            r.shuffle(cs)
            return k, D.ScenarioSeriesData({D.ScenarioIndex(c): rows[0][c] for c in cs},
                                           *([] if sc is None else [sc])), \
                lambda t, s, n: rows[0][col(s)]
        if k == "tss":
            df = pd.DataFrame(rows)
            x = r.random()
            if x < 0.2:  # labels which are not positions
                df.columns = [f"mc{i}" for i in range(N)]
            elif x < 0.3:
                df.columns = list(range(N))[::-1]
            elif x < 0.4:
                df.index = pd.RangeIndex(3, 3 + H)
            elif x < 0.5:
                df.index = list(range(H))[::-1]
            return k, D.TimeScenarioSeriesData(df, *([] if sc is None else [sc])), \
                lambda t, s, n: rows[t][col(s)]
        parts = {n: make(1) for n in ("", "n1", "2030", "n 2")[: r.randint(1, 4)]}
        return k, D.TreeData({n: p[1] for n, p in parts.items()}), \
            {n: p[2] for n, p in parts.items()}

    db = D.DataBase()
    truth = {}
    ids = ["c", "c.p", "c_p", "p"]
    for _ in range(r.randint(1, 6)):
        c, p = r.choice(ids), r.choice(["p", "p.p", "c", "q"])
        k, d, f = make()
        db.add_data(c, p, d)  # possibly instead of a former one
        truth[(c, p)] = (k, f)
    case.note(truth=str({k: v[0] for k, v in truth.items()}), H=H, N=N, years=years)
    for (c, p), (k, f) in truth.items():
        for t in range(H):
            for s in range(min(N, Y)):
                for n in (f if k == "tree" else ("", "n1")):
                    want = f[n](t, s, n) if k == "tree" else f(t, s, n)
                    got = db.get_data(c, p).get_value(t, s, n)
                    case.check(same(got, want),
                               "a parameter does not have the value of its data",
                               parameter=(c, p, k), time=t, scenario=s, node=n, got=got,
                               expected=want, years=years)
                    case.ev("value of data made in Python")
        if k == "tree":
            n = next(iter(f))
            case.check(raises(lambda: db.get_data(c, p).get_value(0, 0, "nowhere"))
                       is not None, "data of a tree were read for an unknown node")
        else:
            want = f(0, 0, "")
            got = db.get_value(D.ComponentParameterIndex(c, p), 0, 0)
            case.check(same(got, want), "the database returns another value",
                       got=got, expected=want)
    missing = next((c, p) for c in ids + ["zz"] for p in ("p", "zz") if (c, p) not in truth)
    case.check(raises(lambda: db.get_data(*missing)) is not None
               and raises(lambda: db.get_value(D.ComponentParameterIndex(*missing), 0, 0))
               is not None, "data which are missing were read", missing=missing)
    case.distinct((case.seed, case.index, "direct"))


def changed(case):
    """files written again, data replaced: what is read next is the new state"""
    from andromede.expression import param
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model import float_parameter, float_variable, model
    from andromede.model.library import library
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study import data as D
    from andromede.study.resolve_components import (
        build_data_base, build_network, resolve_system,
    )

    r = case.rng
    T, S = r.randint(1, 4), r.randint(1, 3)
    st = {"c": (False, False), "t": (True, False), "s": (False, True), "ts": (True, True)}
    m = model(
        id="m",
        parameters=[float_parameter(n, IndexingStructure(*x)) for n, x in st.items()],
        variables=[float_variable("x" + n, lower_bound=param(n),
                                  structure=IndexingStructure(*x)) for n, x in st.items()],
    )
    libs = {"lib": library("lib", [], [m])}
    truth = {}
    with Scratch() as d:
        ids = ["u", "v"][: r.randint(1, 2)]

        def draw_value(c, n):
            t, s = st[n]
            truth[(c, n)] = [[number(r) for _ in range(S if s else 1)]
                             for _ in range(T if t else 1)]

        def save(c, n):
            draw_value(c, n)
            if n != "c":
                write(r, d / f"{c}{n}.txt", truth[(c, n)])

        def load():
            comps = [{"id": c, "model": "lib.m", "parameters": [
                {"id": n, "value": truth[(c, n)][0][0] if n == "c" else c + n,
                 "time-dependent": x[0], "scenario-dependent": x[1]}
                for n, x in st.items()]} for c in ids]
            inp = parse({"system": {"components": comps}})
            return build_network(resolve_system(inp, libs)), build_data_base(inp, d)

        def replace(db, c, n):
            draw_value(c, n)
            rows = truth[(c, n)]
            db.add_data(c, n, {
                "c": lambda: D.ConstantData(rows[0][0]),
                "t": lambda: D.TimeSeriesData({D.TimeIndex(t): rows[t][0] for t in range(T)}),
                "s": lambda: D.ScenarioSeriesData(
                    {D.ScenarioIndex(s): rows[0][s] for s in range(S)}),
                "ts": lambda: D.TimeScenarioSeriesData(__import__("pandas").DataFrame(rows)),
            }[n]())

        for c in ids:
            for n in st:
                save(c, n)
        net, db = load()
        log = []
        block = list(range(T))
        for _ in range(r.randint(2, 4)):
            p = build_problem(net, db, TimeBlock(0, block), S, solver_id="GLOP")
            got = L.readback(p.solver)
            for (c, n), rows in truth.items():
                for t in range(T if st[n][0] else 1):
                    for s in range(S if st[n][1] else 1):
                        name = L.var_name((c, "x" + n, t if st[n][0] else None,
                                           s if st[n][1] else None), T, S)
                        want = rows[t][s]
                        read = db.get_data(c, n).get_value(t, s)
                        case.check(same(got.vars[name][0], want)
                                   and same(read, want),
                                   "values changed since are read, not the present ones",
                                   variable=name, got=(got.vars[name][0], read),
                                   expected=want, history=log)
                        case.ev("value after a change")
            c, n = r.choice(ids), r.choice(list(st))
            if r.random() < 0.5:
                log.append(("file", c, n))
                truth_before = {k: v for k, v in truth.items()}
                save(c, n)
                # what is loaded already does not change; what is loaded now does
                old = db.get_data(c, n).get_value(0, 0)
                case.check(L.near(old, truth_before[(c, n)][0][0], 0.0),
                           "loaded data changed with the file", got=old)
                # former replacements in the database are not in the files
                for k in truth:
                    if k in replaced(log):
                        save(*k)
                net, db = load()
            else:
                log.append(("data", c, n))
                replace(db, c, n)
        case.distinct((log, str(truth)))


def replaced(log):
    return {(c, n) for what, c, n in log if what == "data"}


# ------------------------------------------------------------------ faults


def faults(case):
    """one fault in valid data: refused, when loading or when building the problem"""
    from andromede.model import float_parameter, float_variable, model, Constraint
    from andromede.expression import param, var
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model.library import library
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study.parsing import parse_scenario_builder
    from andromede.study.resolve_components import (
        build_data_base,
        build_network,
        build_scenarized_data_base,
        resolve_system,
    )

    r = case.rng
    T, S = r.randint(2, 4), r.randint(2, 3)
    st = {"c": (False, False), "t": (True, False), "s": (False, True), "ts": (True, True)}
    m = model(
        id="m",
        parameters=[float_parameter(n, IndexingStructure(*x)) for n, x in st.items()],
        variables=[float_variable("x", lower_bound=param("ts"))],
        constraints=[Constraint("k", var("x") + param("c") >= param("t") + param("s"))],
    )
    libs = {"lib": library("lib", [], [m])}
    groups = ["g1", "g2"]
    with Scratch() as d:
        comps = []
        for i in range(r.randint(1, 3)):
            c = {"id": f"u{i}", "model": "lib.m", "scenario-group": groups[i % 2],
                 "parameters": []}
            for n, (t, s) in st.items():
                p = {"id": n}
                if not (t or s):
                    p["value"] = number(r)
                else:
                    p["value"] = f"u{i}{n}"
                    write(r, d / f"u{i}{n}.txt",
                          [[r.randint(1, 9) for _ in range(S if s else 1)]
                           for _ in range(T if t else 1)])
                    if t:
                        p["time-dependent"] = True
                    if s:
                        p["scenario-dependent"] = True
                c["parameters"].append(p)
            comps.append(c)
        node = r.random() < 0.4
        rows = [(g, y, r.randrange(S)) for g in groups for y in range(S)]
        scenarized = r.random() < 0.5

        victim = r.choice(comps)
        par = lambda n: next(p for p in victim["parameters"] if p["id"] == n)
        file = lambda n: d / f"{victim['id']}{n}.txt"
        fault = r.choice(FAULTS)
        late = False
        if fault == "none":
            pass
        elif fault == "missing parameter":
            victim["parameters"].remove(par(r.choice(list(st))))
        elif fault == "no parameters":
            del victim["parameters"]
        elif fault == "missing file":
            file(r.choice(["t", "s", "ts"])).unlink()
        elif fault == "empty file":
            file(r.choice(["t", "s", "ts"])).write_text("")
        elif fault == "several columns":
            write(r, file("t"), [[1, 2]] * T)
        elif fault == "several lines":
            write(r, file("s"), [[1] * S] * 2)
        elif fault == "transposed":
            n = r.choice(["t", "s"])
            write(r, file(n), [[1] * T] if n == "t" else [[1]] * S)
        elif fault == "missing value":
            rows_ = [["1"] * S for _ in range(T)]
            rows_[-1].pop()
            file("ts").write_text("\n".join(" ".join(x) for x in rows_))
        elif fault == "extra value":
            rows_ = [["1"] * S for _ in range(T)]
            rows_[r.randrange(1, T)].append("1")
            file("ts").write_text("\n".join(" ".join(x) for x in rows_))
        elif fault == "not a number":
            scenarized = False
            n = r.choice(["t", "s", "ts"])
            nt, ns = (T if "t" in n else 1), (S if "s" in n else 1)
            rows_ = [["1"] * ns for _ in range(nt)]
            rows_[r.randrange(nt)][r.randrange(ns)] = r.choice(["x", "1,5", "--"])
            file(n).write_text("\n".join(" ".join(x) for x in rows_))
        elif fault == "series too short":
            n = r.choice(["t", "ts"])
            write(r, file(n), [[1] * (S if n == "ts" else 1)] * (T - 1))
        elif fault == "too few scenarios":
            n = r.choice(["s", "ts"])
            write(r, file(n), [[1] * (S - 1)] * (T if n == "ts" else 1))
            # only an index of the missing column is a fault
            for g in groups:
                rows[:] = [x for x in rows if x[0] != g] + [(g, y, S - 1) for y in range(S)]
        elif fault == "constant given as a name":
            par("c")["value"] = r.choice(["12 MW", f"{victim['id']}t", "abc"])
        elif fault == "series given as a number":
            n = r.choice(["t", "s", "ts"])
            par(n)["value"] = 3
        elif fault == "constant with a flag":
            par("c")["time-dependent" if r.random() < 0.5 else "scenario-dependent"] = True
        elif fault == "series for a constant parameter":
            p = par("c")
            n = r.choice(["t", "s", "ts"])
            p.update({k: v for k, v in par(n).items() if k != "id"})
        elif fault == "matrix for a time parameter":
            n = r.choice(["t", "s"])
            par(n).update({"value": f"{victim['id']}ts", "time-dependent": True,
                           "scenario-dependent": True})
        elif fault == "swapped series":
            a, b = par("t"), par("s")
            for k in ("value", "time-dependent", "scenario-dependent"):
                x, y = a.pop(k, None), b.pop(k, None)
                if y is not None:
                    a[k] = y
                if x is not None:
                    b[k] = x
        elif fault == "year twice":
            scenarized = True
            rows.insert(r.randrange(len(rows)), (victim["scenario-group"], r.randrange(S),
                                                 r.randrange(S)))
        elif fault == "year missing":
            scenarized = True
            y = r.randrange(S)
            rows = [x for x in rows if x[:2] != (victim["scenario-group"], y)]
        elif fault == "unknown group":
            scenarized = True
            if r.random() < 0.5:
                victim["scenario-group"] = "g3"
            else:
                par(r.choice(["s", "ts"]))["scenario-group"] = "g3"
        elif fault == "no series directory":
            late = True
        system = {"system": {"nodes": [], "components": []}}
        for c in comps:
            system["system"]["nodes" if node and c is victim else "components"].append(c)
        r.shuffle(rows)
        case.note(fault=fault, system=system, rows=rows, scenarized=scenarized)

        def load():
            inp = parse(system)
            dd = None if late else d
            if scenarized:
                (d / "sb.dat").write_text("".join(f"{a},{b},{c}\n" for a, b, c in rows))
                db = build_scenarized_data_base(
                    inp, parse_scenario_builder(d / "sb.dat"), dd)
            else:
                db = build_data_base(inp, dd)
            net = build_network(resolve_system(inp, libs))
            return build_problem(net, db, TimeBlock(0, list(range(T))), S, solver_id="GLOP")

        if fault == "none":
            load()
            case.ev("faultless accepted")
            return
        e = raises(load)
        case.check(e is not None, f"data were accepted although faulty: {fault}",
                   component=victim, rows=rows if scenarized else None)
        case.ev("fault refused")
        case.ev(f"fault: {fault}")
        case.distinct((fault, str(system)))


FAULTS = [
    "none", "missing parameter", "no parameters", "missing file", "empty file",
    "several columns", "several lines", "transposed", "missing value", "extra value",
    "not a number", "series too short", "too few scenarios", "constant given as a name",
    "series given as a number", "constant with a flag", "series for a constant parameter",
    "matrix for a time parameter", "swapped series", "year twice", "year missing",
    "unknown group", "no series directory",
]


def consistency(case):
    """data of every structure against parameters of every structure"""
    r = case.rng
    T, S = r.choice([1, 2, 3]), r.choice([1, 2])
    spec = G.Spec(horizon=T, scenarios=S)
    m = G.ModelSpec("m", variables=[G.VarSpec("x")])
    for i in range(r.randint(1, 4)):
        m.params[f"p{i}"] = (r.random() < 0.5, r.random() < 0.5)
    spec.models["m"] = m
    v = lambda: r.choice(VALUES)
    ok = True
    why = []

    def data(t, s, depth=0):
        k = r.choice(["const", "const", "ts", "ss", "tss"] + ([] if depth else ["tree"]))
        if r.random() < 0.6 and k != "tree":
            k = "const" if not (t or s) else \
                r.choice(["const"] + ["ts"] * t + ["ss"] * s + ["tss"] * (2 * (t and s)))
        good = {"const": True, "ts": t, "ss": s, "tss": t and s, "tree": True}[k]
        if k == "const":
            return ("const", v()), good
        if k == "ts":
            return ("ts", [v() for _ in range(T)]), good
        if k == "ss":
            return ("ss", [v() for _ in range(S)]), good
        if k == "tss":
            return ("tss", [[v() for _ in range(S)] for _ in range(T)]), good
        parts = {n: data(t, s, 1) for n in ("n0", "n1", "n2")[: r.randint(1, 3)]}
        return ("tree", {n: x[0] for n, x in parts.items()}), all(x[1] for x in parts.values())

    for i in range(r.randint(1, 3)):
        c = G.CompSpec(f"c{i}", "m", r.random() < 0.4)
        spec.components.append(c)
        for n, (t, s) in m.params.items():
            d, good = data(t, s)
            spec.data[(c.id, n)] = d
            if not good:
                ok = False
                why.append((c.id, n, (t, s), d[0], "node" if c.node else "component"))
    if r.random() < 0.15:
        k = r.choice(list(spec.data))
        del spec.data[k]
        ok = False
        why.append((k, "missing"))
    st = P.Setup(spec, list(range(T)), S, tree="n0")
    case.note(**st.text(), faults=why)
    net, db, _ = G.build_python(spec, r)
    e1 = raises(lambda: db.requirements_consistency(net))
    e2 = raises(lambda: P.build(st, net, db))
    if ok:
        case.check(e1 is None and e2 is None, "consistent data were refused",
                   error=repr(e1 or e2))
        case.ev("consistent data accepted")
    else:
        case.check(e1 is not None, "inconsistent data pass the consistency check", faults=why)
        case.check(e2 is not None, "a problem was built on inconsistent data", faults=why)
        case.ev("inconsistent data refused")
    case.distinct((repr(spec),))


def in_problem(case):
    """values arrive in the problem: one bound per parameter, time step and scenario"""
    from andromede.expression import param, var
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model import float_parameter, float_variable, model
    from andromede.model.library import library
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study.parsing import parse_scenario_builder
    from andromede.study.resolve_components import (
        build_data_base, build_network, build_scenarized_data_base, resolve_system,
    )

    r = case.rng
    groups = ["g1", "g2"]
    with Scratch() as d:
        system, truth, H, N = draw(r, d, groups)
        scenarized = r.random() < 0.5
        Y = r.randint(1, 4) if scenarized else N
        years = {g: [r.randrange(N) for _ in range(Y)] for g in groups} if scenarized else None
        if scenarized and any(e[0] in ("ss", "tss") and not (e[2] or e[3]) for e in truth.values()):
            Y = min(Y, N)
        models = {}
        for c in system["system"].get("nodes", []) + system["system"].get("components", []):
            c["model"] = "lib.m" + str(len(models))
            ps = {p["id"]: truth[(c["id"], p["id"])][0] for p in c["parameters"]}
            structure = {n: IndexingStructure(k in ("ts", "tss"), k in ("ss", "tss"))
                         for n, k in ps.items()}
            models[c["id"]] = model(
                id=c["model"].split(".")[1],
                parameters=[float_parameter(n, structure[n]) for n in ps],
                variables=[float_variable(f"x{n}", lower_bound=param(n), structure=structure[n])
                           for n in ps],
            )
        inp = parse(system)
        if scenarized:
            (d / "sb.dat").write_text("".join(
                f"{g},{y},{c}\n" for g in groups for y, c in enumerate(years[g])))
            db = build_scenarized_data_base(inp, parse_scenario_builder(d / "sb.dat"), d)
        else:
            db = build_data_base(inp, d)
        net = build_network(resolve_system(inp, {"lib": library("lib", [], list(models.values()))}))
        case.note(system=system, truth=str(truth), years=str(years))
        block = sorted(r.sample(range(H), r.randint(1, H)))
        p = build_problem(net, db, TimeBlock(0, block), Y, solver_id="GLOP")
        got = L.readback(p.solver)
        want = {}
        for (c, n), e in truth.items():
            ts = range(len(block)) if e[0] in ("ts", "tss") else [None]
            ss = range(Y) if e[0] in ("ss", "tss") else [None]
            for t in ts:
                for s in ss:
                    want[L.var_name((c, "x" + n, t, s), len(block), Y)] = expect(
                        e, None if t is None else block[t], s, years)
        for n, w in want.items():
            case.check(n in got.vars and same(got.vars[n][0], w),
                       "a bound does not have the value of its data", variable=n,
                       got=got.vars.get(n), expected=w)
            case.ev("value in the problem")
        case.distinct((sorted(want.items()),))


# ------------------------------------------------------------------ long series


def long_series(case):
    """series over several years, many scenarios, many years of scenarization, and problems
    on blocks which lie far from the start of the series"""
    from andromede.expression import param
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model import float_parameter, float_variable, model
    from andromede.model.library import library
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study.parsing import parse_scenario_builder
    from andromede.study.resolve_components import (
        build_data_base, build_network, build_scenarized_data_base, resolve_system,
    )

    r = case.rng
    H = r.choice([300, 1100, 8736, 8760, 8784, 9000, 17520, 20000, 40000])
    N = r.choice([1, 12, 40, 150, 300, 1100]) if H < 2000 else r.choice([1, 2, 3])
    Y = r.choice([1, 12, 60, 150, 400])
    structure = {"ts": (True, False), "ss": (False, True), "tss": (True, True)}
    M = model(
        id="m",
        parameters=[float_parameter(k, IndexingStructure(*v)) for k, v in structure.items()],
        variables=[float_variable("x" + k, lower_bound=param(k), structure=IndexingStructure(*v))
                   for k, v in structure.items()],
    )
    with Scratch() as d:
        shape = {"ts": (H, 1), "ss": (1, N), "tss": (H, N)}
        # every value differs from all the others of its file
        base = {k: r.randint(-500000, 500000) for k in shape}
        data = {k: [[base[k] + (i * cols + j) / 8 for j in range(cols)] for i in range(rows)]
                for k, (rows, cols) in shape.items()}
        for k, rows in data.items():
            (d / (k + ".txt")).write_text(
                "\n".join("\t".join(map(repr, row)) for row in rows) + r.choice(["", "\n"]))
        scenarized = r.random() < 0.5
        system = {"system": {"components": [{"id": "c", "model": "lib.m", "parameters": [
            {"id": k, "value": k, "time-dependent": t, "scenario-dependent": s}
            for k, (t, s) in structure.items()]}]}}
        years = list(range(N))
        if scenarized:
            system["system"]["components"][0]["scenario-group"] = "g"
            years = [r.randrange(N) for _ in range(Y)]
            rows = list(enumerate(years))
            r.shuffle(rows)
            (d / "sb.dat").write_text("".join(f"g,{y},{c}\n" for y, c in rows))
        inp = parse(system)
        db = (build_scenarized_data_base(inp, parse_scenario_builder(d / "sb.dat"), d)
              if scenarized else build_data_base(inp, d))
        case.note(H=H, N=N, years=years if scenarized else None, base=base)
        ts = sorted({t for t in (0, 1, 255, 256, 999, 8735, 8736, 8759, 8760, 8761, 8783, 8784,
                                 H // 2, H - 2, H - 1, *r.sample(range(H), 20)) if t < H})
        ss = sorted({s for s in (0, 1, 9, 10, 31, 32, 99, 100, 255, 256, len(years) - 1,
                                 *(r.randrange(len(years)) for _ in range(6)))
                     if s < len(years)})
        for k, (tv, sv) in structure.items():
            for t in ts if tv else ts[-1:]:
                for s in ss if sv else ss[-1:]:
                    want = data[k][t if tv else 0][years[s] if sv else 0]
                    got = db.get_data("c", k).get_value(t, s)
                    case.check(got == want, "a parameter does not have the value of its data",
                               parameter=k, time=t, scenario=s, got=got, expected=want,
                               lines=H, columns=N)
                    case.ev("value of a long series")
            if tv:
                case.check(raises(lambda: db.get_data("c", k).get_value(H, 0)) is not None,
                           "a time series was read after its end", parameter=k, lines=H)
            if sv:
                case.check(
                    raises(lambda: db.get_data("c", k).get_value(0, len(years))) is not None,
                    "a scenario series was read after its last scenario or year",
                    parameter=k, columns=N, years=len(years))
        block = ts[-r.randint(1, 6):]
        S = min(len(years), 40)
        net = build_network(resolve_system(inp, {"lib": library("lib", [], [M])}))
        p = build_problem(net, db, TimeBlock(0, block), S, solver_id="GLOP")
        got = L.readback(p.solver)
        for k, (tv, sv) in structure.items():
            for t in range(len(block)) if tv else [None]:
                for s in range(S) if sv else [None]:
                    n = L.var_name(("c", "x" + k, t, s), len(block), S)
                    want = data[k][block[t] if tv else 0][years[s] if sv else 0]
                    case.check(n in got.vars and got.vars[n][0] == want,
                               "a bound does not have the value of its data", variable=n,
                               got=got.vars.get(n), expected=want, block=block)
                    case.ev("value of a long series in the problem")
        case.distinct((H, N, tuple(years), tuple(block)))


WORKLOADS = [
    Workload("values", values, 800),
    Workload("direct", direct, 800),
    Workload("changed", changed, 200),
    Workload("long_series", long_series, 24),
    Workload("faults", faults, 1200),
    Workload("consistency", consistency, 1500),
    Workload("in_problem", in_problem, 500),
]

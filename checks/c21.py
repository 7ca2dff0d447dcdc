import math
import os
from fractions import Fraction as F
from pathlib import Path

from vf import antares as A
from vf.core import Workload, raises

PROPERTY = "C21"
RULE = (
    "a case is a thermal cluster with its series, modulation and period, or an operation,"
    " or a study whose objects a template reads; distinct by input, non-trivial if the"
    " series are not constant"
)
ASSUMPTIONS = [
    "clusters of positive unit capacity, as many hours of modulation as of availability",
    "powers whose quotient by the unit capacity is an integer only up to float errors are"
    " not drawn (their rounding up is not determined)",
    "one value of a template is a maximum, a product or a quotient, not several of them",
]
REQUIRE = {
    "series written": 5000, "hour judged": 100000, "several scenarios": 500,
    "several periods": 400, "several clusters": 200, "incomplete period": 200, "default period": 100,
    "forward variation": 2000, "backward variation": 2000, "limited by the availability": 3000,
    "limited by the modulation": 3000, "operation": 1500, "operation refused": 100,
    "template value": 400, "template series": 150, "year": 1,
}
PARAMS = ["p_min_cluster", "nb_units_min", "nb_units_max",
          "nb_units_max_variation_forward", "nb_units_max_variation_backward"]


class Service:
    """gives the matrices of a cluster"""

    def __init__(self, series, modulation):
        self.series, self.modulation = series, modulation

    def get_thermal_matrix(self, cluster, name):
        from antares.craft.model.thermal import ThermalClusterMatrixName as N

        return {N.SERIES: self.series, N.PREPRO_MODULATION: self.modulation}[name].copy()


def draw(r, H):
    g = A.StudyGen(r, hours=H)
    while True:
        t = g.thermal("fr", "gas")
        k = r.random()
        S = len(t.series[0])
        if k < 0.3:  # integers
            t.props["nominal_capacity"] = float(r.choice([1, 2, 5, 10]))
            t.series = [[float(r.randint(0, 40)) for _ in range(S)] for _ in range(H)]
            t.modulation = [float(r.choice([0, 0, 1])) if r.random() < 0.5 else 0.5
                            for _ in range(H)]
        elif k < 0.5:
            cap = t.props["nominal_capacity"]
            t.series = [[round(r.random() * 5 * cap, 3) for _ in range(S)] for _ in range(H)]
        if not A.rounding_sensitive(t):
            return t


def thermal(case, H=None):
    import pandas as pd
    from antares.craft.model.thermal import ThermalCluster, ThermalClusterProperties

    from andromede.input_converter.src.data_preprocessing.thermal import (
        ThermalDataPreprocessing,
    )

    r = case.rng
    year = H is not None
    H = H or r.choice([1, 2, 3, 7, 8, 24, 25, 48, 50])
    ids = [("fr", "gas"), ("fr", "gas 2"), ("fr", "gas_3"), ("de", "gas"), ("fr", "gas 2 bis")]
    r.shuffle(ids)
    ids = ids[:1 if year else r.choice([1, 1, 2, 3])]
    period = r.choice([None, 1, 2, 3, 7, 24, H, H + 1, max(1, H - 1), 168])
    clusters = {i: draw(r, H) for i in ids}
    case.note(clusters=repr(clusters), period=period)
    case.ev("several clusters", len(ids) > 1)
    with A.scratch() as d:
        tdps = {}
        for (area, name), t in clusters.items():
            series = pd.DataFrame(t.series)
            if r.random() < 0.5 and all(x == int(x) for row in t.series for x in row):
                series = series.astype(int)  # as read from a file of integers
            others = [[r.random() for _ in range(3)] for _ in range(H)]
            mod = pd.DataFrame([o + [m] for o, m in zip(others, t.modulation)])
            cluster = ThermalCluster(Service(series, mod), area, name,
                                     ThermalClusterProperties(**t.props))
            os.makedirs(Path(d) / "input" / "thermal" / "series" / area / cluster.id)
            tdps[area, name] = ThermalDataPreprocessing(cluster, Path(d))
        order = [(i, name) for i in ids for name in PARAMS]
        r.shuffle(order)
        written = []
        for i, name in order:
            args = [name] if period is None else [name, period]
            p = tdps[i].generate_component_parameter(*args)
            case.check(p.id == name and p.time_dependent and p.scenario_dependent,
                       "the parameter is not the series asked for", got=repr(p))
            written.append((i, name, p.value))
        # judged once the series of all the clusters are written
        wants = {i: A.thermal_series(t, period or 168) for i, t in clusters.items()}
        for i, name, value in written:
            t, want = clusters[i], wants[i]
            got = A.read_matrix(value + ".txt")
            case.ev("series written")
            m = want[name]
            case.check(len(got) == H and all(len(x) == len(m[0]) for x in got),
                       "the series has not the hours and scenarios of the cluster",
                       parameter=name, got=(len(got), len(got[0]) if got else 0),
                       expected=(H, len(m[0])))
            for h in range(H):
                for s in range(len(m[0])):
                    case.ev("hour judged")
                    case.check(A.near(got[h][s], m[h][s]),
                               "the series has not the documented value", parameter=name,
                               hour=h, scenario=s, got=got[h][s], expected=float(m[h][s]),
                               period=period)
                    if "variation" in name and m[h][s]:
                        case.ev(name.rsplit("_", 1)[1] + " variation")
                    if name == "p_min_cluster":
                        case.ev("limited by the availability" if m[h][s] == F(t.series[h][s])
                                else "limited by the modulation")
    case.ev("several scenarios", any(len(t.series[0]) > 1 for t in clusters.values()))
    case.ev("default period", period is None)
    n = period or 168
    case.ev("several periods", H > n)
    case.ev("incomplete period", H > n and H % n != 0)
    if any(len({x for row in t.series for x in row}) > 1 for t in clusters.values()):
        case.distinct((repr(clusters), period))
    case.sample(dict(properties=[t.props for t in clusters.values()], hours=H,
                     clusters=ids, period=period))


def year(case):
    case.ev("year")
    thermal(case, H=8760)


def operations(case):
    import pandas as pd

    from andromede.input_converter.src.data_preprocessing.dataclasses import Operation

    r = case.rng
    val = lambda: r.choice([1.0, -1.0, 2.0, 0.5, 3.0, -7.25, 100.0, 4])
    xs = [r.choice([0.0, 1.0, -2.5, 8.0, 3.75, -100.0, 1e6]) for _ in range(r.randint(1, 9))]
    scalar = r.random() < 0.4
    x = val() if scalar else pd.Series(xs, index=r.choice([None, range(5, 5 + len(xs))]))
    known = {"a": val(), "b": val(), "other": 999.0}
    kind = r.choice(["max", "mul", "mul", "div", "div", "missing", "nothing"])
    case.ev("operation")
    items = [x] if scalar else xs
    key = r.choice(["a", "b"])
    arg, num = (key, known[key]) if r.random() < 0.5 else (known[key], known[key])
    if kind == "max":
        if scalar:
            return
        op, want = Operation(type="max"), max(xs)
    elif kind == "mul":
        op, want = Operation(multiply_by=arg), [F(y) * F(num) for y in items]
    elif kind == "div":
        op, want = Operation(divide_by=arg), [F(y) / F(num) for y in items]
    else:
        op = Operation() if kind == "nothing" else r.choice(
            [Operation(multiply_by="missing"), Operation(divide_by="missing")])
        pre = r.choice([known, None, {}])
        e = raises(lambda: op.execute(x, pre))
        case.check(e is not None, "an operation which names nothing known is not refused",
                   operation=repr(op))
        case.ev("operation refused")
        return
    before = None if scalar else list(x)
    got = op.execute(x, known)
    if kind == "max":
        case.check(isinstance(got, float) and got == want, "the maximum differs", got=got,
                   expected=want)
    else:
        got = [got] if scalar else list(got)
        case.check(len(got) == len(want) and all(A.near(a, b) for a, b in zip(got, want)),
                   "the operation computes something else", operation=repr(op),
                   values=items, got=got, expected=[float(w) for w in want])
    if not scalar:
        case.check(list(x) == before, "the operation changed its operand")
    case.distinct((kind, repr(op), items))


def templates(case):
    """values read from a study, as the template of the batteries does"""
    from andromede.input_converter.src.data_preprocessing.binding_constraints import (
        BindingConstraintsPreprocessing,
    )

    r = case.rng
    while True:
        sp = A.StudyGen(r, hours=r.choice([3, 8, 24])).study(True)
        if not any(A.rounding_sensitive(t) for t in sp.thermals) and sp.links:
            break
    case.note(study=repr(sp))
    with A.scratch() as d:
        st = A.build(sp, d)
        root = os.path.join(d, "study")
        before = A.snapshot(root)
        bcp = BindingConstraintsPreprocessing(st)
        seen = {}
        for k in range(r.randint(3, 8)):
            name = f"value{k}"
            spec, want = template(r, sp, seen)
            if spec is None:
                continue
            case.note(template=repr(spec))
            got = bcp.convert_param_value(name, spec)
            case.ev("template value")
            if isinstance(want, list):
                case.check(isinstance(got, str), "a series became a constant",
                           template=spec, got=got)
                m = A.read_matrix(got + ".txt")
                case.check(len(m) == len(want)
                           and all(len(x) == 1 and A.near(x[0], y) for x, y in zip(m, want)),
                           "the series of a template differs", template=spec, got=m[:5],
                           expected=[float(x) for x in want][:5])
                case.ev("template series")
            else:
                case.check(not isinstance(got, str) and A.near(got, want),
                           "the value of a template differs", template=spec, got=got,
                           expected=float(want))
                if spec["type"] == "thermal" or "max" in repr(spec):
                    seen[name] = want
            case.distinct((repr(spec), want))
        after = A.snapshot(root)
        for f, h in before.items():
            case.check(after.get(f) == h, "a file of the study was changed", file=f)
        e = raises(lambda: bcp.convert_param_value("x", {"type": "unknown", "data": {}}))
        case.check(e is not None, "an unknown kind of value is accepted")


def template(r, sp, seen):
    kind = r.choice(["constant", "thermal", "thermal", "series", "series", "link", "link",
                     "link", "binding"])
    op, f = None, lambda xs: xs
    x = r.random()
    usable = [n for n, v in seen.items() if v]
    arg, num = None, None
    if usable and r.random() < 0.6:
        arg = r.choice(usable)
        num = F(seen[arg])
    else:
        num = F(r.choice([-1, 2, 4, -3]))
        arg = int(num)
    if x < 0.3:
        op, f = {"multiply_by": arg}, lambda xs: [y * num for y in xs]
    elif x < 0.6:
        op, f = {"divide_by": arg}, lambda xs: [y / num for y in xs]
    elif x < 0.8:
        op, f = {"type": "max"}, max
    if kind == "constant":
        v = r.choice([0, 1.5, -2])
        return {"type": "constant", "data": v}, F(v)
    if kind == "thermal":
        if not sp.thermals:
            return None, None
        t = r.choice(sp.thermals)
        field, key = r.choice([("nominalcapacity", "nominal_capacity"),
                               ("min-stable-power", "min_stable_power"),
                               ("min-up-time", "min_up_time"),
                               ("min-down-time", "min_down_time")])
        return {"type": "thermal", "data": {"area": A.aid(t.area), "cluster": t.id,
                                            "field": field}}, F(t.props[key])
    if kind == "series":
        if not sp.thermals:
            return None, None
        t = r.choice(sp.thermals)
        c = r.randrange(len(t.series[0]))
        data = {"area": A.aid(t.area), "cluster": t.id, "column": c,
                "timeseries_file_type": "thermal_series"}
        xs = [F(row[c]) for row in t.series]
        if op:
            data["operation"] = op
        return {"type": "thermal", "data": data}, f(xs)
    if kind == "link":
        a, b, direct, indirect, par = r.choice(sp.links)
        ft, m = r.choice([("links_capacities_direct", direct),
                          ("links_capacities_indirect", indirect), ("links_parameters", par)])
        c = r.randrange(len(m[0]))
        data = {"area_from": A.aid(a), "area_to": A.aid(b), "column": c,
                "timeseries_file_type": ft}
        xs = [F(row[c]) for row in m]
        if op:
            data["operation"] = op
        return {"type": "link", "data": data}, f(xs)
    if not sp.constraints:
        return None, None
    name = r.choice(list(sp.constraints))
    k, p, q, w = r.choice(sp.constraints[name])
    data = {"id": name, "field": f"{p}%{q}" if k == "link" else f"{p}.{q}"}
    v = F(w)
    if op and "type" not in op and not isinstance(arg, str):
        data["operation"] = op
        v = f([v])[0]
    return {"type": "binding_constraint", "data": data}, v


WORKLOADS = [
    Workload("thermal", thermal, 1500),
    Workload("year", year, 4, thorough=40),
    Workload("operations", operations, 2500),
    Workload("templates", templates, 120),
]

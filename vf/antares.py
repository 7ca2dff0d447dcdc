"""
Random Antares studies (built on disk with antares_craft, in a scratch directory), and
the system and series that their conversion should give.
"""
import contextlib
import hashlib
import io
import logging
import math
import os
import shutil
import tempfile
from dataclasses import dataclass, field
from fractions import Fraction as F
from pathlib import Path
from typing import Any, Dict, List, Optional, Tuple

AREAS = ["fr", "it", "at", "es", "area 1", "North", "be-2", "x_y", "b", "f", "fr2", "fr_", "area",
         "z", "z_batt", "y_x"]
FORMS = ["none", "zeros", "values", "values", "one", "negative"]


@dataclass
class Cluster:
    name: str
    area: str
    props: Dict[str, Any]
    series: List[List[float]]
    modulation: Optional[List[float]] = None

    @property
    def id(self):
        return self.name.lower()


@dataclass
class StudySpec:
    areas: Dict[str, Tuple[float, float]] = field(default_factory=dict)  # unsupplied, spilled
    thermals: List[Cluster] = field(default_factory=list)
    renewables: List[Cluster] = field(default_factory=list)
    storages: List[Any] = field(default_factory=list)  # Cluster, series: {name: matrix}
    links: List[Any] = field(default_factory=list)  # (a, b, direct, indirect, parameters)
    load: Dict[str, Any] = field(default_factory=dict)
    wind: Dict[str, Any] = field(default_factory=dict)
    solar: Dict[str, Any] = field(default_factory=dict)
    constraints: Dict[str, List[Any]] = field(default_factory=dict)  # name -> terms
    hours: int = 8


def aid(name):
    return name.lower()


STORAGE_FILES = {
    "inflows": "inflows", "lower_rule_curve": "lower-rule-curve",
    "upper_rule_curve": "upper-rule-curve", "p_max_injection_modulation": "PMAX-injection",
    "p_max_withdrawal_modulation": "PMAX-withdrawal",
}


class StudyGen:
    def __init__(self, r, hours=None, unique=True):
        self.r = r
        self.H = hours or r.choice([2, 5, 8, 24, 30] * 4 + [200])
        self.unique = unique
        self.names = set()

    def value(self):
        r = self.r
        return float(r.choice([0, 1, 2, 3.5, 7, 10, 12.25, 100, 0.125, r.randint(0, 500)]))

    def matrix(self, cols=None, rows=None):
        cols = cols or self.r.choice([1, 1, 2, 3])
        return [[self.value() for _ in range(cols)] for _ in range(rows or self.H)]

    def name(self, base):
        n = base + str(self.r.randint(1, 3)) if self.r.random() < 0.7 else base
        if self.unique:
            while n.lower() in self.names:
                n = base + " " + str(self.r.randint(1, 999))
        self.names.add(n.lower())
        return n

    def other(self, **values):
        """properties which the conversion does not read"""
        return {k: self.r.choice(v) for k, v in values.items() if self.r.random() < 0.3}

    def thermal(self, area, name=None):
        r = self.r
        H = self.H
        cap = r.choice([1.0, 2.0, 3.5, 10.0, 0.3, 250.0, 33.0])
        n = r.choice([1, 2, 3, 7, 1, 2, 3, 0])
        S = r.choice([1, 1, 2, 3])
        series = [[r.choice([0.0, cap, n * cap, n * cap * r.random(), cap * r.randint(0, n),
                             float(r.randint(0, 300))]) for _ in range(S)] for _ in range(H)]
        mod = [r.choice([0.0, 1.0, 0.5, r.random()]) for _ in range(H)]
        return Cluster(
            name or self.name(r.choice(["gas", "Coal", "oil x", "nuc_"])), area,
            dict(unit_count=n, nominal_capacity=cap, min_stable_power=r.choice([0.0, 1.5]),
                 marginal_cost=self.value(), fixed_cost=self.value(),
                 startup_cost=self.value(), min_up_time=r.choice([r.randint(1, 9), 150]),
                 min_down_time=r.choice([r.randint(1, 9), 168]),
                 efficiency=r.choice([100.0, 85.5, 250.0, 0.5]),
                 **self.other(must_run=[True], spinning=[10.0], market_bid_cost=[33.0],
                              spread_cost=[2.0], variable_o_m_cost=[4.0], co2=[0.5],
                              volatility_forced=[0.25])),
            series, mod)

    def study(self, batteries=None):
        r = self.r
        sp = StudySpec(hours=self.H)
        for a in r.sample(AREAS, r.randint(1, 5)):
            sp.areas[a] = (self.value(), self.value())
        if r.random() < 0.1:
            sp.areas["z_batteries_pcomp"] = (self.value(), self.value())
        for a in sp.areas:
            for _ in range(r.choice([0, 0, 1, 2])):
                sp.thermals.append(self.thermal(a))
            for _ in range(r.choice([0, 0, 1, 2])):
                sp.renewables.append(Cluster(
                    self.name(r.choice(["pv", "Wind on"])), a,
                    dict(unit_count=r.randint(0, 5), nominal_capacity=self.value()),
                    self.matrix()))
            for _ in range(r.choice([0, 0, 1, 2])):
                sp.storages.append(Cluster(
                    self.name(r.choice(["psp", "Sto a"])), a,
                    dict(efficiency=r.choice([1.0, 0.75, 0.9]), initial_level=r.choice([0.0, 0.5, 1.0]),
                         reservoir_capacity=self.value(),
                         injection_nominal_capacity=self.value(),
                         withdrawal_nominal_capacity=self.value(),
                         **self.other(initial_level_optim=[True])),
                    {k: self.matrix(1) for k in STORAGE_FILES}))
            for kind in ("load", "wind", "solar"):
                form = r.choice(FORMS)
                if form == "none":
                    continue
                cols = r.choice([1, 2, 3])
                if form == "zeros":
                    m = [[0.0] * cols for _ in range(self.H)]
                elif form == "values":
                    m = self.matrix(cols)
                elif form == "one":
                    m = [[0.0] * cols for _ in range(self.H)]
                    m[r.randrange(self.H)][r.randrange(cols)] = r.choice([1e-9, 5.0])
                else:
                    m = [[0.0] * cols for _ in range(self.H)]
                    m[r.randrange(self.H)] = [-3.0, 3.0, 0.0][:cols]
                getattr(sp, kind)[a] = m
        pairs = [(a, b) for a in sp.areas for b in sp.areas if aid(a) < aid(b)]
        r.shuffle(pairs)
        for a, b in pairs[: r.randint(0, 5)]:
            sp.links.append((a, b, self.matrix(), self.matrix(), self.matrix(6)))
        if r.random() < 0.5 if batteries is None else batteries:
            self.batteries(sp)
            r.shuffle(sp.thermals)
        return sp

    def batteries(self, sp):
        r = self.r
        sp.areas["z_batteries"] = (self.value(), self.value())
        for a in list(sp.areas):
            if a.startswith("z_batteries") or r.random() < 0.3:
                continue
            i = aid(a)
            miss = r.choice([None] * 6 + ["store", "inj", "link", "constraint"])

            def positive(m):
                m[r.randrange(len(m))][0] = r.choice([4.0, 7.5, 1000.0])
                return m

            if miss != "store":
                sp.thermals.append(self.thermal("z_batteries", f"z_batteries_batteries_{i}_1"))
                if r.random() < 0.5:
                    sp.thermals.append(
                        self.thermal("z_batteries", f"z_batteries_batteries_{i}_2"))
            if miss != "inj":
                sp.thermals.append(self.thermal(a, f"{i}_batteries_inj"))
            if miss != "link":
                sp.links.append((a, "z_batteries", positive(self.matrix()), self.matrix(),
                                 self.matrix(6)))
            if miss not in ("constraint", "link", "inj"):
                terms = [("link", i, "z_batteries", -r.choice([0.5, 0.9, 1.0, 0.875])),
                         ("cluster", i, f"{i}_batteries_inj", r.choice([1.0, 0.75, 1.25]))]
                r.shuffle(terms)
                sp.constraints[f"batteries_{i}"] = terms


@contextlib.contextmanager
def scratch(prefix="vfac"):
    d = tempfile.mkdtemp(prefix=prefix)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def logger():
    lg = logging.getLogger("vf-silent")
    lg.setLevel(logging.CRITICAL)
    lg.propagate = False
    return lg


def build(sp, where):
    """-> antares_craft study"""
    import pandas as pd
    from antares.craft.model.area import AreaProperties
    from antares.craft.model.binding_constraint import ClusterData, ConstraintTerm, LinkData
    from antares.craft.model.renewable import RenewableClusterProperties
    from antares.craft.model.st_storage import STStorageProperties
    from antares.craft.model.study import create_study_local
    from antares.craft.model.thermal import ThermalClusterProperties

    df = pd.DataFrame
    with contextlib.redirect_stdout(io.StringIO()):
        st = create_study_local("study", "880", Path(where))
    for a, (u, s) in sp.areas.items():
        st.create_area(a, properties=AreaProperties(energy_cost_unsupplied=u,
                                                    energy_cost_spilled=s))
    areas = st.get_areas()
    for t in sp.thermals:
        areas[aid(t.area)].create_thermal_cluster(
            t.name, ThermalClusterProperties(**t.props), prepro=None,
            modulation=df([[1.0, 1.0, 1.0, x] for x in t.modulation]), series=df(t.series),
            co2_cost=None, fuel_cost=None)
    for t in sp.renewables:
        areas[aid(t.area)].create_renewable_cluster(
            t.name, RenewableClusterProperties(**t.props), series=df(t.series))
    for t in sp.storages:
        s = areas[aid(t.area)].create_st_storage(t.name, STStorageProperties(**t.props))
        d = Path(where) / "study" / "input" / "st-storage" / "series" / aid(t.area) / t.id
        for k, f in STORAGE_FILES.items():
            df(t.series[k]).to_csv(d / (f + ".txt"), sep="\t", header=False, index=False)
    for a, b, direct, indirect, par in sp.links:
        st.create_link(area_from=a, area_to=b)
        # antares_craft only writes matrices of a year
        d = Path(where) / "study" / "input" / "links" / aid(a)
        for f, m in ((f"capacities/{aid(b)}_direct", direct),
                     (f"capacities/{aid(b)}_indirect", indirect),
                     (f"{aid(b)}_parameters", par)):
            df(m).to_csv(d / (f + ".txt"), sep="\t", header=False, index=False)
    for kind in ("load", "wind", "solar"):
        for a, m in getattr(sp, kind).items():
            getattr(areas[aid(a)], "set_" + kind)(df(m))
    for name, terms in sp.constraints.items():
        st.create_binding_constraint(name=name, terms=[
            ConstraintTerm(data=LinkData(area1=x, area2=y) if k == "link"
                           else ClusterData(area=x, cluster=y), weight=w, offset=0)
            for k, x, y, w in terms])
    return st


def snapshot(d):
    res = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                res[os.path.relpath(p, d)] = hashlib.sha1(fh.read()).hexdigest()
    return res


# ------------------------------------------------------------------ reference


def thermal_series(t, period):
    """{parameter: matrix} of a thermal cluster"""
    cap = F(t.props["nominal_capacity"])
    n = t.props["unit_count"]
    H, S = len(t.series), len(t.series[0])
    power = [[min(F(t.modulation[h]) * n * cap, F(t.series[h][s])) for s in range(S)]
             for h in range(H)]
    nmax = [[ceil(F(t.series[h][s]) / cap) for s in range(S)] for h in range(H)]
    prev = []
    for h in range(H):
        first = h - h % period
        prev.append(h - 1 if h > first else min(first + period, H) - 1)
    back = [[max(0, nmax[h][s] - nmax[prev[h]][s]) for s in range(S)] for h in range(H)]
    forw = [[max(0, nmax[prev[h]][s] - nmax[h][s]) for s in range(S)] for h in range(H)]
    return {
        "p_min_cluster": power,
        "nb_units_min": [[ceil(x / cap) for x in row] for row in power],
        "nb_units_max": nmax,
        "nb_units_max_variation_backward": back,
        "nb_units_max_variation_forward": forw,
    }


def ceil(x):
    return math.ceil(x)


def rounding_sensitive(t):
    """a quotient is so near an integer that its rounding depends on float errors"""
    cap = F(t.props["nominal_capacity"])
    n = t.props["unit_count"]
    for h, row in enumerate(t.series):
        lim = F(t.modulation[h]) * n * cap
        for x in row:
            for y in (F(x), min(lim, F(x))):
                q = y / cap
                if q != 0 and 0 < abs(q - round(q)) < F(1, 10**7):
                    return True
                # exact here, but the products and quotients of floats may not be
                if q == round(q) and (
                    math.ceil(float(y) / float(cap)) != round(q)
                    or (y == lim and any(
                        math.ceil(z / float(cap)) != round(q)
                        for z in (t.modulation[h] * float(cap) * n,
                                  t.modulation[h] * n * float(cap),
                                  n * float(cap) * t.modulation[h])))
                ):
                    return True
    return False


@dataclass
class Want:
    kind: str
    model: str
    id: Optional[str]  # None: judged by a known finding
    params: Dict[str, Any]  # constants, or ('series', matrix, path or None)
    links: List[Tuple[str, str, str]]  # (own port, other component, its port)


def expected(sp, root, period=168):
    """([Want] of nodes, [Want] of components)"""
    inp = Path(root) / "input"
    lib = "antares-historic."
    ids = [aid(a) for a in sp.areas]
    nodes = [
        Want("area", lib + "area", aid(a), {"ens_cost": u, "spillage_cost": s}, [])
        for a, (u, s) in sp.areas.items() if a != "z_batteries"
    ]
    gone_thermal = {(i, f"{i}_batteries_inj") for i in ids} | {
        ("z_batteries", f"z_batteries_batteries_{i}_{k}") for i in ids for k in (1, 2)}
    gone_links = {(i, "z_batteries") for i in ids}
    comps = []
    to_area = lambda a, port="balance_port": [(port, aid(a), "balance_port")]
    for t in sp.renewables:
        comps.append(Want("renewable", lib + "renewable", t.id, {
            "unit_count": t.props["unit_count"], "p_max_unit": t.props["nominal_capacity"],
            "generation": ("series", t.series,
                           inp / "renewables" / "series" / aid(t.area) / t.id / "series"),
        }, to_area(t.area)))
    for t in sp.thermals:
        if (aid(t.area), t.id) in gone_thermal:
            continue
        p = t.props
        d = inp / "thermal" / "series" / aid(t.area) / t.id
        params = {k: ("series", m, None) for k, m in thermal_series(t, period).items()}
        params.update(
            unit_count=p["unit_count"], p_min_unit=p["min_stable_power"],
            efficiency=p["efficiency"], p_max_unit=p["nominal_capacity"],
            generation_cost=p["marginal_cost"], fixed_cost=p["fixed_cost"],
            startup_cost=p["startup_cost"], d_min_up=p["min_up_time"],
            d_min_down=p["min_down_time"], p_max_cluster=("series", t.series, d / "series"))
        comps.append(Want("thermal", lib + "thermal", t.id, params, to_area(t.area)))
    for t in sp.storages:
        p = t.props
        d = inp / "st-storage" / "series" / aid(t.area) / t.id
        params = {k: ("series", t.series[k], d / f) for k, f in STORAGE_FILES.items()}
        params.update(
            efficiency_injection=p["efficiency"], efficiency_withdrawal=1,
            initial_level=p["initial_level"], reservoir_capacity=p["reservoir_capacity"],
            injection_nominal_capacity=p["injection_nominal_capacity"],
            withdrawal_nominal_capacity=p["withdrawal_nominal_capacity"])
        comps.append(Want("storage", lib + "short-term-storage", t.id, params,
                          to_area(t.area, "injection_port")))
    for kind in ("load", "wind", "solar"):
        for a, m in getattr(sp, kind).items():
            if any(x != 0 for row in m for x in row):
                comps.append(Want(kind, lib + kind, None, {
                    kind: ("series", m, inp / kind / "series" / f"{kind}_{aid(a)}")
                }, to_area(a)))
    for a, b, direct, indirect, _ in sp.links:
        if (aid(a), aid(b)) in gone_links:
            continue
        d = inp / "links" / aid(a) / "capacities"
        comps.append(Want("link", lib + "link", f"{aid(a)} / {aid(b)}", {
            "capacity_direct": ("series", direct, d / f"{aid(b)}_direct"),
            "capacity_indirect": ("series", indirect, d / f"{aid(b)}_indirect"),
        }, [("in_port", aid(a), "balance_port"), ("out_port", aid(b), "balance_port")]))
    for a in sp.areas:
        if a.startswith("z_batteries"):
            continue
        w = battery(sp, aid(a))
        if w:
            comps.append(w)
    return nodes, comps


def battery(sp, i):
    th = {(aid(t.area), t.id): t for t in sp.thermals}
    store = th.get(("z_batteries", f"z_batteries_batteries_{i}_1"))
    inj = th.get((i, f"{i}_batteries_inj"))
    link = next((x for x in sp.links if (aid(x[0]), x[1]) == (i, "z_batteries")), None)
    terms = sp.constraints.get(f"batteries_{i}")
    if None in (store, inj, link, terms):
        return None
    w = {k: x for k, _, _, x in terms}
    direct = [row[0] for row in link[2]]
    cap = store.props["nominal_capacity"]
    col = lambda xs: [[x] for x in xs]
    return Want("battery", "andromede-v1-models.battery", f"battery_{i}", {
        "reservoir_capacity": cap,
        "injection_nominal_capacity": max(direct),
        "withdrawal_nominal_capacity": inj.props["nominal_capacity"],
        "efficiency_injection": -w["link"],
        "efficiency_withdrawal": w["cluster"],
        "lower_rule_curve": 0.0,
        "upper_rule_curve": ("series", col(row[0] / cap for row in store.series), None),
        "p_max_injection_modulation": ("series", col(x / max(direct) for x in direct), None),
        "p_max_withdrawal_modulation": (
            "series",
            col(row[0] / inj.props["nominal_capacity"] for row in inj.series), None),
        "marginal_cost": ("series", col(row[0] for row in link[4]), None),
    }, [("injection_port", i, "balance_port")])


def read_matrix(path):
    with open(path) as f:
        return [[float(x) for x in line.rstrip("\n").split("\t")] for line in f if line.strip()]


def near(a, b):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))

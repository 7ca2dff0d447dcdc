"""
Random systems over the shipped libraries, and their equations written directly.
"""
import math
import os
from collections import Counter

from vf.lp import INF, var_name

HIST = "antares-historic"
REF = "andromede-v1-models"
PYPSA = "pypsa_models"

# parameters which may depend on time (t) and scenarios (s)
TS = {
    (HIST, "area"): {"spillage_cost": "", "ens_cost": ""},
    (HIST, "load"): {"load": "ts"},
    (HIST, "link"): {"capacity_direct": "ts", "capacity_indirect": "ts"},
    (HIST, "renewable"): {"nominal_capacity": "", "unit_count": "", "generation": "ts"},
    (HIST, "thermal"): {
        "p_min_cluster": "ts", "p_max_cluster": "ts", "p_min_unit": "", "p_max_unit": "",
        "generation_cost": "", "startup_cost": "", "fixed_cost": "", "d_min_up": "",
        "d_min_down": "", "nb_units_min": "ts", "nb_units_max": "ts",
        "nb_units_max_variation_forward": "ts", "nb_units_max_variation_backward": "ts"},
    (HIST, "short-term-storage"): {
        "reservoir_capacity": "", "injection_nominal_capacity": "",
        "withdrawal_nominal_capacity": "", "efficiency_injection": "",
        "efficiency_withdrawal": "", "lower_rule_curve": "ts", "upper_rule_curve": "ts",
        "p_max_injection_modulation": "ts", "p_max_withdrawal_modulation": "ts",
        "inflows": "ts", "initial_level": ""},
    (REF, "dsr"): {"max_load": "ts", "curtailment_price": ""},
    (REF, "electrolyser"): {"efficiency": "", "p_max": "ts"},
    (REF, "battery"): {
        "reservoir_capacity": "", "injection_nominal_capacity": "",
        "withdrawal_nominal_capacity": "", "efficiency_injection": "",
        "efficiency_withdrawal": "", "lower_rule_curve": "ts", "upper_rule_curve": "ts",
        "p_max_injection_modulation": "ts", "p_max_withdrawal_modulation": "ts",
        "marginal_cost": "t"},
    (PYPSA, "bus"): {"v_nom": "", "x": "", "y": "", "v_mag_pu_set": "t",
                     "v_mag_pu_min": "", "v_mag_pu_max": ""},
    (PYPSA, "load"): {"p_set": "ts", "q_set": "ts", "sign": ""},
    (PYPSA, "generator"): {
        "p_nom_min": "", "p_nom_max": "", "p_min_pu": "t", "p_max_pu": "t",
        "e_sum_min": "", "e_sum_max": "", "sign": "", "marginal_cost": "t",
        "capital_cost": "", "efficiency": "t", "emission_factor": ""},
    (PYPSA, "link"): {
        "efficiency": "t", "p_nom_min": "", "p_nom_max": "", "p_min_pu": "t",
        "p_max_pu": "t", "capital_cost": "", "marginal_cost": "t"},
    (PYPSA, "storage_unit"): {
        "p_nom_min": "", "p_nom_max": "", "p_min_pu": "t", "p_max_pu": "t", "sign": "",
        "spill_cost": "t", "marginal_cost": "t", "marginal_cost_storage": "t",
        "capital_cost": "", "max_hours": "", "efficiency_store": "t",
        "efficiency_dispatch": "t", "standing_loss": "t", "inflow": "ts",
        "emission_factor": ""},
    (PYPSA, "store"): {
        "e_nom_min": "", "e_nom_max": "", "e_min_pu": "t", "e_max_pu": "t", "sign": "",
        "marginal_cost": "t", "marginal_cost_storage": "t", "capital_cost": "",
        "standing_loss": "t", "emission_factor": ""},
    (PYPSA, "global_constraint_co2_max"): {"quota": ""},
    (PYPSA, "global_constraint_co2_eq"): {"quota": ""},
}


class Sys:
    def __init__(self, T, S, start, horizon):
        self.T, self.S, self.start, self.horizon = T, S, start, horizon
        self.comps = {}  # id -> (library, model, {param: data})
        self.links = []  # (component, port, component, port)

    def __repr__(self):
        return repr((self.T, self.S, self.start, self.comps, self.links))

    def val(self, c, p, t=None, s=None):
        """t: in the block"""
        d = self.comps[c][2][p]
        if isinstance(d, list):
            row = d[self.start + t]
            return row[s] if len(row) > 1 else row[0]
        return d


class Gen:
    def __init__(self, r):
        self.r = r

    def q(self, lo, hi, den=4):
        return self.r.randint(int(lo * den), int(hi * den)) / den

    def data(self, dep, f, p=0.5):
        """f(): a value"""
        if not dep or self.r.random() > p:
            return f()
        sy = self.sy
        n = sy.S if "s" in dep and self.r.random() < 0.7 else 1
        return [[f() for _ in range(n)] for _ in range(sy.horizon)]

    def map(self, f, *ds):
        """data made from data, value by value"""
        if not any(isinstance(d, list) for d in ds):
            return f(*ds)
        n = max(len(d[0]) for d in ds if isinstance(d, list))

        def at(d, t, s):
            return (d[t][s] if len(d[t]) > 1 else d[t][0]) if isinstance(d, list) else d

        return [[f(*(at(d, t, s) for d in ds)) for s in range(n)]
                for t in range(self.sy.horizon)]

    def add(self, lib, model, **params):
        i = f"{model[0]}{len(self.sy.comps)}"
        assert set(params) == set(TS[lib, model]), set(params) ^ set(TS[lib, model])
        self.sy.comps[i] = (lib, model, params)
        return i

    def connect(self, a, p, b, q):
        self.sy.links.append((a, p, b, q) if self.r.random() < 0.5 else (b, q, a, p))

    def frame(self, Ts):
        r = self.r
        T = r.choice(Ts)
        start = r.choice([0, 0, 0, 1, 3])
        self.sy = Sys(T, r.choice([1, 1, 2, 3]), start, start + T + r.choice([0, 0, 2]))

    # ------------------------------------------------------------ antares, reference

    def historic(self):
        r, q, d = self.r, self.q, self.data
        self.frame([1, 2, 3, 4, 5, 6])
        kinds = r.choices(["thermal", "short-term-storage", "renewable", "load", "dsr",
                           "battery", "electrolyser"], [4, 3, 2, 3, 2, 2, 1],
                          k=r.randint(1, 5))
        areas = [self.add(HIST, "area", spillage_cost=q(0, 20), ens_cost=q(0, 200))
                 for _ in range(r.choice([1, 1, 2, 3]))]
        for _ in range(r.choice([0, 1, 2]) if len(areas) > 1 else 0):
            a, b = r.sample(areas, 2)
            i = self.add(HIST, "link", capacity_direct=d("ts", lambda: q(0, 60)),
                         capacity_indirect=d("ts", lambda: q(0, 60)))
            self.connect(i, "out_port", a, "balance_port")
            self.connect(i, "in_port", b, "balance_port")
        if kinds.count("thermal") > 2:
            kinds = [k for k in kinds if k != "thermal"] + ["thermal"] * 2
        for k in kinds:
            a = r.choice(areas)
            if k == "electrolyser":
                i = self.add(REF, k, efficiency=q(0.25, 1.25), p_max=d("ts", lambda: q(0, 80)))
                self.connect(i, "power_port", a, "balance_port")
                self.connect(i, "hydrogen_port", r.choice(areas), "balance_port")
                continue
            i = getattr(self, k.replace("-", "_"))()
            port = "injection_port" if k in ("short-term-storage", "battery") else "balance_port"
            self.connect(i, port, a, "balance_port")
        return self.sy

    def units(self):
        """thermal clusters alone, with outages and long minimal durations"""
        r, q = self.r, self.q
        self.frame([3, 4, 5, 5, 6, 7])
        self.sy.S = r.choice([1, 1, 1, 2])
        a = self.add(HIST, "area", spillage_cost=q(0, 20), ens_cost=q(50, 500))
        for _ in range(r.choice([1, 1, 2])):
            self.connect(self.thermal(outages=True), "balance_port", a, "balance_port")
        self.connect(self.load(), "balance_port", a, "balance_port")
        return self.sy

    def load(self):
        return self.add(HIST, "load", load=self.data("ts", lambda: self.q(0, 150)))

    def renewable(self):
        return self.add(HIST, "renewable", nominal_capacity=self.q(0, 100),
                        unit_count=self.r.randint(1, 4),
                        generation=self.data("ts", lambda: self.q(0, 100)))

    def dsr(self):
        return self.add(REF, "dsr", max_load=self.data("ts", lambda: self.q(0, 100)),
                        curtailment_price=self.q(0, 50))

    def thermal(self, outages=False):
        r, q = self.r, self.q
        sy = self.sy
        pmax = q(5, 30)
        pmin = r.choice([0, pmax, q(0, pmax), q(0, pmax / 2)])
        n = r.choice([1, 1, 2, 3])
        avail = self.data("ts", lambda: r.choice([n, n, r.randint(0, n)]))
        hi = self.map(lambda a: a * pmax if r.random() < 0.8 else max(0, a * pmax - q(0, pmax)),
                      avail)
        lo = self.data("ts", lambda: r.choice([0, 0, 0, q(0, pmax)]))
        lo = self.map(min, lo, hi)
        if r.random() < 0.7:
            nmin = self.map(lambda x: math.ceil(x / pmax), lo)
            nmax = self.map(lambda x: math.ceil(x / pmax), hi)
        else:  # not consistent with the power of the cluster
            nmax = self.data("ts", lambda: r.randint(0, n))
            nmin = self.map(lambda x: r.randint(0, int(x)), nmax)
        x = r.random()
        if outages:
            x = 0 if r.random() < 0.5 else 1
        if x < 0.5:  # variations of the numbers of units over the block
            fw, bw = variations(sy, nmax)
        elif x < 0.7:
            fw, bw = 0, 0
        else:
            fw = self.data("ts", lambda: r.choice([0, 0, r.randint(0, n)]), 0.5 + outages)
            bw = self.data("ts", lambda: r.choice([0, 0, r.randint(0, n)]))
        return self.add(
            HIST, "thermal", p_min_cluster=lo, p_max_cluster=hi, p_min_unit=pmin,
            p_max_unit=pmax, generation_cost=q(0, 60), startup_cost=r.choice([0, q(0, 300)]),
            fixed_cost=r.choice([0, q(0, 50)]),
            d_min_up=r.randint(outages and min(2, sy.T) or 1, sy.T),
            d_min_down=r.randint(1, sy.T),
            nb_units_min=nmin, nb_units_max=nmax,
            nb_units_max_variation_forward=fw, nb_units_max_variation_backward=bw)

    def storage(self):
        r, q, d = self.r, self.q, self.data
        up = d("ts", lambda: r.choice([1, 1, q(0.5, 1, 8)]))
        low = self.map(lambda u: r.choice([0, 0, u * r.choice([0.25, 0.5])]), up)
        return dict(
            reservoir_capacity=q(10, 120), injection_nominal_capacity=q(0, 40),
            withdrawal_nominal_capacity=q(0, 40),
            efficiency_injection=r.choice([1, q(0.5, 1, 16)]),
            efficiency_withdrawal=r.choice([1, q(0.5, 1.5, 16)]),
            lower_rule_curve=low, upper_rule_curve=up,
            p_max_injection_modulation=d("ts", lambda: q(0, 1)),
            p_max_withdrawal_modulation=d("ts", lambda: q(0, 1)))

    def short_term_storage(self):
        r, q = self.r, self.q
        kw = self.storage()
        i = self.add(HIST, "short-term-storage", inflows=self.data(
            "ts", lambda: r.choice([0, 0, q(-3, 10)])), initial_level=0, **kw)
        lo = max(self.sy.val(i, "lower_rule_curve", 0, s) for s in range(self.sy.S))
        up = min(self.sy.val(i, "upper_rule_curve", 0, s) for s in range(self.sy.S))
        kw = self.sy.comps[i][2]
        kw["initial_level"] = r.choice([lo, up, (lo + up) / 2, (lo + up) / 2, 0.5, 1])
        return i

    def battery(self):
        return self.add(REF, "battery", marginal_cost=self.data(
            "t", lambda: self.q(0, 20)), **self.storage())

    # ---------------------------------------------------------------------- pypsa

    def pypsa(self):
        r, q, d = self.r, self.q, self.data
        self.frame([1, 2, 3, 4, 6])
        sy = self.sy
        buses = [self.add(PYPSA, "bus", v_nom=q(1, 400), x=q(0, 9), y=q(0, 9),
                          v_mag_pu_set=d("t", lambda: 1), v_mag_pu_min=0, v_mag_pu_max=1e20)
                 for _ in range(r.choice([1, 1, 2, 3]))]
        emitters = []
        backup = r.random() < 0.85

        def nom(lo=0, hi=60):
            x = r.random()
            if x < 0.4:
                v = q(lo, hi)
                return v, v
            a = r.choice([0, q(0, 10)])
            return a, r.choice([1e20, a + q(0, hi)])

        def generator(b, big=False):
            a, z = (0, 1e20) if big else nom()
            up = d("t", lambda: r.choice([1, q(0, 1)]))
            lowf = r.choice([0, 0, -0.5, 0.25]) if not big else -1
            i = self.add(
                PYPSA, "generator", p_nom_min=a, p_nom_max=z,
                p_min_pu=self.map(lambda u: u * lowf, up) if not big else -1,
                p_max_pu=up if not big else 1,
                e_sum_min=-1e20 if big else r.choice([-1e20, -1e20, q(0, 20)]),
                e_sum_max=1e20 if big else r.choice([1e20, 1e20, q(20, 200)]),
                sign=1 if big else r.choice([1, 1, 1, -1]),
                marginal_cost=d("t", lambda: q(0, 60)),
                capital_cost=q(10, 100) if big else r.choice([0, q(0, 60)]),
                efficiency=d("t", lambda: r.choice([1, 0.5, q(0.25, 1.25, 8)])),
                emission_factor=0 if big else r.choice([0, q(0, 2)]))
            emitters.append(i)
            self.connect(i, "p_balance_port", b, "p_balance_port")

        for b in buses:
            if backup:
                generator(b, True)
            for _ in range(r.choice([0, 1, 2])):
                generator(b)
            for _ in range(r.choice([0, 1, 1])):
                i = self.add(PYPSA, "load", p_set=d("ts", lambda: q(0, 100)),
                             q_set=d("ts", lambda: 0) if r.random() < 0.7 else 0,
                             sign=r.choice([-1, -1, -1, 1]))
                self.connect(i, "p_balance_port", b, "p_balance_port")
                if r.random() < 0.5:
                    self.connect(i, "q_balance_port", b, "q_balance_port")
            for _ in range(r.choice([0, 0, 1])):
                a, z = nom(0, 40)
                i = self.add(
                    PYPSA, "storage_unit", p_nom_min=a, p_nom_max=z,
                    p_min_pu=d("t", lambda: -q(0, 1)), p_max_pu=d("t", lambda: q(0, 1)),
                    sign=1, spill_cost=d("t", lambda: q(0, 5)),
                    marginal_cost=d("t", lambda: q(0, 20)),
                    marginal_cost_storage=d("t", lambda: q(0, 3)),
                    capital_cost=q(0, 30), max_hours=r.choice([1, 6, q(0.5, 4)]),
                    efficiency_store=d("t", lambda: r.choice([1, q(0.5, 1, 8)])),
                    efficiency_dispatch=d("t", lambda: r.choice([1, q(0.5, 1, 8)])),
                    standing_loss=d("t", lambda: r.choice([0, q(0, 0.5, 16)])),
                    inflow=d("ts", lambda: r.choice([0, q(0, 20)])),
                    emission_factor=r.choice([0, q(0, 2)]))
                emitters.append(i)
                self.connect(i, "p_balance_port", b, "p_balance_port")
            for _ in range(r.choice([0, 0, 1])):
                a, z = nom(0, 100)
                i = self.add(
                    PYPSA, "store", e_nom_min=a, e_nom_max=z,
                    e_min_pu=d("t", lambda: r.choice([0, q(-0.5, 0.5)])),
                    e_max_pu=d("t", lambda: q(0.5, 1)), sign=1,
                    marginal_cost=d("t", lambda: q(-2, 20)),
                    marginal_cost_storage=d("t", lambda: q(0, 3)), capital_cost=q(0, 30),
                    standing_loss=d("t", lambda: r.choice([0, q(0, 0.5, 16)])),
                    emission_factor=r.choice([0, q(0, 2)]))
                emitters.append(i)
                self.connect(i, "p_balance_port", b, "p_balance_port")
        for _ in range(r.choice([0, 1, 2]) if len(buses) > 1 else 0):
            a, z = nom()
            x, y = r.sample(buses, 2)
            i = self.add(
                PYPSA, "link", efficiency=d("t", lambda: r.choice([1, q(0.5, 1.5, 8)])),
                p_nom_min=a, p_nom_max=z, p_min_pu=d("t", lambda: r.choice([0, 0, -q(0, 1)])),
                p_max_pu=d("t", lambda: r.choice([1, q(0, 1)])), capital_cost=q(0, 60),
                marginal_cost=d("t", lambda: q(0, 5)))
            self.connect(i, "p0_port", x, "p_balance_port")
            self.connect(i, "p1_port", y, "p_balance_port")
        real = [e for e in emitters if sy.comps[e][2]["emission_factor"]]
        if real and r.random() < 0.5:
            kind = r.choice(["max", "max", "eq"])
            i = self.add(PYPSA, f"global_constraint_co2_{kind}",
                         quota=q(0, 150) if kind == "max" else q(0, 40))
            for e in emitters:
                if e in real or r.random() < 0.5:
                    self.connect(i, "emission_port", e, "emission_port")
        return sy


def variations(sy, nmax):
    """what the preprocessing of the clusters gives: the losses of units from an hour to
    the next, over the block"""
    if not isinstance(nmax, list):
        return 0, 0
    n = len(nmax[0])
    fw = [[0] * n for _ in range(sy.horizon)]
    bw = [[0] * n for _ in range(sy.horizon)]
    for s in range(n):
        for t in range(sy.T):
            d = nmax[sy.start + t][s] - nmax[sy.start + (t - 1) % sy.T][s]
            fw[sy.start + t][s] = max(0, -d)
            bw[sy.start + t][s] = max(0, d)
    return fw, bw


# ------------------------------------------------------------------------ equations


class Eqs:
    """vars: key -> (lo, hi, integer); rows: (lo, {key: coef}, hi, name); obj"""

    def __init__(self):
        self.vars, self.rows, self.obj = {}, [], Counter()
        self.const = 0.0

    def var(self, key, lo=-INF, hi=INF, integer=False):
        self.vars[key] = (lo, hi, integer)

    def row(self, name, lo, terms, hi):
        c = {}
        for k, v in terms:
            c[k] = c.get(k, 0) + v
        self.rows.append((lo, c, hi, name))


def inf(x):
    return INF if x > 1e17 else -INF if x < -1e17 else x


def equations(sy):
    e = Eqs()
    T, S = sy.T, sy.S
    inject = {}  # (component, port, t, s) -> (terms, constant)
    emit = {}

    for c, (lib, model, _) in sy.comps.items():
        w = 1 / S

        def p(name, t=None, s=None, c=c):
            return sy.val(c, name, t, s)

        def cost(key, v):
            e.obj[key] += v

        if lib == PYPSA and model in ("generator", "link", "storage_unit"):
            e.var((c, "p_nom", None, None), inf(p("p_nom_min")), inf(p("p_nom_max")))
            cost((c, "p_nom", None, None), p("capital_cost"))
        if model == "store":
            e.var((c, "e_nom", None, None), inf(p("e_nom_min")), inf(p("e_nom_max")))
            cost((c, "e_nom", None, None), p("capital_cost"))
        nom = (c, "p_nom", None, None)
        for s in range(S):
            if (lib, model) == (PYPSA, "generator"):
                e.row(f"{c} energy", inf(p("e_sum_min")),
                      [((c, "p", t, s), 1) for t in range(T)], inf(p("e_sum_max")))
            for t in range(T):
                def v(name, k=0, c=c, t=t, s=s):
                    return (c, name, (t + k) % T, s)

                def put(port, terms, const=0.0, c=c, t=t, s=s):
                    inject[c, port, t, s] = (terms, const)

                if lib == HIST and model == "area":
                    e.var(v("spillage"), 0)
                    e.var(v("unsupplied_energy"), 0)
                    cost(v("spillage"), w * p("spillage_cost"))
                    cost(v("unsupplied_energy"), w * p("ens_cost"))
                elif lib == HIST and model == "load":
                    put("balance_port", [], -p("load", t, s))
                elif lib == HIST and model == "renewable":
                    put("balance_port", [], p("generation", t, s))
                elif lib == HIST and model == "link":
                    e.var(v("flow_direct"), 0, p("capacity_direct", t, s))
                    e.var(v("flow_indirect"), 0, p("capacity_indirect", t, s))
                    e.var(v("flow"))
                    e.row(f"{c} flow {t} {s}", 0, [(v("flow"), 1), (v("flow_direct"), -1),
                                                   (v("flow_indirect"), 1)], 0)
                    put("out_port", [(v("flow"), 1)])
                    put("in_port", [(v("flow"), -1)])
                elif model == "thermal":
                    thermal(e, sy, c, t, s, v, p, cost, put)
                elif model in ("short-term-storage", "battery"):
                    cap = p("reservoir_capacity")
                    e.var(v("p_injection"), 0, p("p_max_injection_modulation", t, s)
                          * p("injection_nominal_capacity"))
                    e.var(v("p_withdrawal"), 0, p("p_max_withdrawal_modulation", t, s)
                          * p("withdrawal_nominal_capacity"))
                    e.var(v("level"), p("lower_rule_curve", t, s) * cap,
                          p("upper_rule_curve", t, s) * cap)
                    put("injection_port", [(v("p_withdrawal"), 1), (v("p_injection"), -1)])
                    inflow = 0
                    if model == "battery":
                        cost(v("p_injection"), w * p("marginal_cost", t, s))
                    else:
                        inflow = p("inflows", t, s)
                        if t == 0:
                            x = p("initial_level") * cap
                            e.row(f"{c} initial level {s}", x, [(v("level"), 1)], x)
                    e.row(f"{c} level {t} {s}", inflow, [
                        (v("level", 1), 1), (v("level"), -1),
                        (v("p_injection"), -p("efficiency_injection")),
                        (v("p_withdrawal"), p("efficiency_withdrawal"))], inflow)
                elif model == "dsr":
                    e.var(v("curtailment"), 0, p("max_load", t, s))
                    cost(v("curtailment"), w * p("curtailment_price"))
                    put("balance_port", [(v("curtailment"), 1)], -p("max_load", t, s))
                elif model == "electrolyser":
                    e.var(v("power"), 0, p("p_max", t, s))
                    put("power_port", [(v("power"), -1)])
                    put("hydrogen_port", [(v("power"), p("efficiency"))])
                elif lib == PYPSA and model == "load":
                    put("p_balance_port", [], p("sign") * p("p_set", t, s))
                    put("q_balance_port", [], p("sign") * p("q_set", t, s))
                elif model == "generator":
                    e.var(v("p"))
                    e.row(f"{c} max {t} {s}", -INF, [(v("p"), 1), (nom, -p("p_max_pu", t, s))], 0)
                    e.row(f"{c} min {t} {s}", 0, [(v("p"), 1), (nom, -p("p_min_pu", t, s))], INF)
                    put("p_balance_port", [(v("p"), p("sign"))])
                    emit[c, t, s] = [(v("p"), p("emission_factor") / p("efficiency", t, s))]
                    cost(v("p"), w * p("marginal_cost", t, s))
                elif lib == PYPSA and model == "link":
                    e.var(v("p0"))
                    e.row(f"{c} max {t} {s}", -INF, [(v("p0"), 1), (nom, -p("p_max_pu", t, s))], 0)
                    e.row(f"{c} min {t} {s}", 0, [(v("p0"), 1), (nom, -p("p_min_pu", t, s))], INF)
                    put("p0_port", [(v("p0"), -1)])
                    put("p1_port", [(v("p0"), p("efficiency", t, s))])
                    cost(v("p0"), w * p("marginal_cost", t, s))
                elif model == "storage_unit":
                    for n, f in (("p_store", -p("p_min_pu", t, s)),
                                 ("p_dispatch", p("p_max_pu", t, s)),
                                 ("state_of_charge", p("max_hours"))):
                        e.var(v(n), 0)
                        e.row(f"{c} {n} {t} {s}", -INF, [(v(n), 1), (nom, -f)], 0)
                    e.var(v("spill"), 0, p("inflow", t, s))
                    x = p("inflow", t, s)
                    e.row(f"{c} charge {t} {s}", x, [
                        (v("state_of_charge"), 1),
                        (v("state_of_charge", -1), -(1 - p("standing_loss", t, s))),
                        (v("p_store"), -p("efficiency_store", t, s)),
                        (v("p_dispatch"), 1 / p("efficiency_dispatch", t, s)),
                        (v("spill"), 1)], x)
                    put("p_balance_port", [(v("p_dispatch"), 1), (v("p_store"), -1)])
                    emit[c, t, s] = []
                    cost(v("p_dispatch"), w * p("marginal_cost", t, s))
                    cost(v("spill"), w * p("spill_cost", t, s))
                    cost(v("state_of_charge"), w * p("marginal_cost_storage", t, s))
                elif model == "store":
                    enom = (c, "e_nom", None, None)
                    e.var(v("e"))
                    e.var(v("p"))
                    e.row(f"{c} max {t} {s}", -INF, [(v("e"), 1), (enom, -p("e_max_pu", t, s))], 0)
                    e.row(f"{c} min {t} {s}", 0, [(v("e"), 1), (enom, -p("e_min_pu", t, s))], INF)
                    e.row(f"{c} energy {t} {s}", 0, [
                        (v("e"), 1), (v("e", -1), -(1 - p("standing_loss", t, s))),
                        (v("p"), 1)], 0)
                    put("p_balance_port", [(v("p"), 1)])
                    emit[c, t, s] = []
                    cost(v("p"), w * p("marginal_cost", t, s))
                    cost(v("e"), w * p("marginal_cost_storage", t, s))

    def ends(c, port):
        for a, p, b, q in sy.links:
            if (a, p) == (c, port):
                yield b, q
            if (b, q) == (c, port):
                yield a, p

    for c, (lib, model, _) in sy.comps.items():
        for s in range(S):
            if model.startswith("global"):
                terms = []
                for a, _ in ends(c, "emission_port"):
                    for t in range(T):
                        terms += emit[a, t, s]
                quota = sy.val(c, "quota")
                e.row(f"{c} emissions {s}", quota if model.endswith("eq") else -INF, terms,
                      quota)
            for t in range(T):
                if model == "area":
                    terms, const = [], 0.0
                    for a, q in ends(c, "balance_port"):
                        x, k = inject[a, q, t, s]
                        terms += x
                        const += k
                    terms += [((c, "spillage", t, s), -1), ((c, "unsupplied_energy", t, s), 1)]
                    e.row(f"{c} balance {t} {s}", -const, terms, -const)
                elif model == "bus":
                    for port in ("p_balance_port", "q_balance_port"):
                        terms, const = [], 0.0
                        for a, q in ends(c, port):
                            x, k = inject[a, q, t, s]
                            terms += x
                            const += k
                        e.row(f"{c} {port} {t} {s}", -const, terms, -const)
    return e


def thermal(e, sy, c, t, s, v, p, cost, put):
    T = sy.T
    w = 1 / sy.S
    nmax = p("nb_units_max", t, s)
    e.var(v("generation"), p("p_min_cluster", t, s), p("p_max_cluster", t, s))
    e.var(v("nb_units_on"), p("nb_units_min", t, s), nmax, True)
    e.var(v("nb_starting"), 0, nmax, True)
    e.var(v("nb_stopping"), 0, INF, True)
    e.var(v("nb_failing"), 0)
    put("balance_port", [(v("generation"), 1)])
    e.row(f"{c} pmax {t} {s}", -INF, [(v("generation"), 1), (v("nb_units_on"), -p("p_max_unit"))], 0)
    e.row(f"{c} pmin {t} {s}", 0, [(v("generation"), 1), (v("nb_units_on"), -p("p_min_unit"))], INF)
    e.row(f"{c} dynamics {t} {s}", 0, [
        (v("nb_units_on"), 1), (v("nb_units_on", -1), -1), (v("nb_starting"), -1),
        (v("nb_stopping"), 1)], 0)
    e.row(f"{c} failing {t} {s}", -INF, [(v("nb_failing"), 1), (v("nb_stopping"), -1)], 0)
    e.row(f"{c} failing variation {t} {s}", -INF, [(v("nb_failing"), 1)],
          p("nb_units_max_variation_forward", t, s))
    up = [(v("nb_units_on"), -1)]
    for k in range(int(p("d_min_up"))):
        up += [(v("nb_starting", -k), 1), (v("nb_failing", -k), -1)]
    e.row(f"{c} up {t} {s}", -INF, up, 0)
    d = int(p("d_min_down"))
    down = [(v("nb_units_on"), 1)]
    rhs = p("nb_units_max", (t - d) % T, s)
    for k in range(d):
        down.append((v("nb_stopping", -k), 1))
        rhs += p("nb_units_max_variation_backward", (t - k) % T, s)
    e.row(f"{c} down {t} {s}", -INF, down, rhs)
    cost(v("generation"), w * p("generation_cost"))
    cost(v("nb_starting"), w * p("startup_cost"))
    cost(v("nb_units_on"), w * p("fixed_cost"))


# ----------------------------------------------------------------------- the real code

_libs = {}


def libraries():
    if not _libs:
        from pathlib import Path

        import andromede
        from andromede.model.parsing import parse_yaml_library
        from andromede.model.resolve_library import resolve_library

        docs = []
        for f in ("antares_historic/antares_historic.yml",
                  "reference_models/andromede_v1_models.yml",
                  "pypsa_models/pypsa_models.yml"):
            with open(Path(andromede.__file__).parent / "libs" / f) as h:
                docs.append(parse_yaml_library(h))
        _libs[0] = resolve_library(docs)
    return _libs[0]


def document(sy, d, r):
    """system description; the series are written in d"""
    comps = []
    for c, (lib, model, params) in sy.comps.items():
        ps = []
        for n, x in params.items():
            if isinstance(x, list):
                f = f"{c}-{n}"
                sep = "\t"
                with open(os.path.join(d, f + ".txt"), "w") as h:
                    for row in x:
                        h.write(sep.join(repr(v) for v in row) + "\n")
                many = len(x[0]) > 1
                ps.append({"id": n, "time-dependent": True, "scenario-dependent": many,
                           "value": f})
            else:
                ps.append({"id": n, "time-dependent": False, "scenario-dependent": False,
                           "value": x})
        r.shuffle(ps)
        comps.append({"id": c, "model": f"{lib}.{model}", "parameters": ps})
    r.shuffle(comps)
    links = [dict(component1=a, port1=p, component2=b, port2=q) for a, p, b, q in sy.links]
    r.shuffle(links)
    return {"system": {"components": comps, "connections": links}}


def build(sy, d, r):
    import io
    from pathlib import Path

    import yaml
    from andromede.simulation.optimization import build_problem
    from andromede.simulation.time_block import TimeBlock
    from andromede.study.parsing import parse_yaml_components
    from andromede.study.resolve_components import (
        build_data_base, build_network, consistency_check, resolve_system)

    i = parse_yaml_components(io.StringIO(yaml.safe_dump(document(sy, d, r))))
    s = resolve_system(i, libraries())
    db = build_data_base(i, Path(d))
    block = TimeBlock(1, list(range(sy.start, sy.start + sy.T)))
    return build_problem(build_network(s), db, block, sy.S)


def name(sy, key):
    return var_name(key, sy.T, sy.S)

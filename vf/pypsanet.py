"""
Random PyPSA networks: a specification, the pypsa.Network made of it, the components its
conversion should give, and the linear problem PyPSA documents for it, written directly.

pypsa needs scipy (not installed) only for functions which are not used here: it is
imported with an empty stand-in.
"""
import importlib.machinery
import math
import sys
import types

from ortools.linear_solver import pywraplp


class _Stub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return type(n, (), {})


class _Finder:
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] == "scipy":
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = _Stub(spec.name)
        m.__path__ = []
        m.__version__ = "1.11.0"
        return m

    def exec_module(self, m):
        pass


def pypsa():
    if "pypsa" not in sys.modules:
        try:
            import scipy  # noqa
        except ImportError:
            sys.meta_path.insert(0, _Finder())
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.getLogger("pypsa").setLevel(logging.ERROR)
    import pypsa

    return pypsa


INF = math.inf
#: PyPSA class -> (list name, suffix of the converted id, model, capacity)
KINDS = {
    "Bus": ("buses", "", "bus", None),
    "Load": ("loads", "_load", "load", None),
    "Generator": ("generators", "_generator", "generator", "p_nom"),
    "Link": ("links", "", "link", "p_nom"),
    "StorageUnit": ("storage_units", "_storage", "storage_unit", "p_nom"),
    "Store": ("stores", "_store", "store", "e_nom"),
}
#: parameters of the documented library, with the default values of the PyPSA documentation
DEFAULTS = {
    "Bus": dict(v_nom=1.0, x=0.0, y=0.0, v_mag_pu_set=1.0, v_mag_pu_min=0.0,
                v_mag_pu_max=INF),
    "Load": dict(p_set=0.0, q_set=0.0, sign=-1.0),
    "Generator": dict(p_nom_min=0.0, p_nom_max=INF, p_min_pu=0.0, p_max_pu=1.0,
                      marginal_cost=0.0, capital_cost=0.0, e_sum_min=-INF, e_sum_max=INF,
                      sign=1.0, efficiency=1.0),
    "Link": dict(efficiency=1.0, p_nom_min=0.0, p_nom_max=INF, p_min_pu=0.0,
                 p_max_pu=1.0, marginal_cost=0.0, capital_cost=0.0),
    "StorageUnit": dict(p_nom_min=0.0, p_nom_max=INF, p_min_pu=-1.0, p_max_pu=1.0,
                        sign=1.0, efficiency_store=1.0, efficiency_dispatch=1.0,
                        standing_loss=0.0, max_hours=1.0, marginal_cost=0.0,
                        capital_cost=0.0, marginal_cost_storage=0.0, spill_cost=0.0,
                        inflow=0.0),
    "Store": dict(sign=1.0, e_nom_min=0.0, e_nom_max=INF, e_min_pu=0.0, e_max_pu=1.0,
                  standing_loss=0.0, marginal_cost=0.0, capital_cost=0.0,
                  marginal_cost_storage=0.0),
}
EMITTING = ("Generator", "StorageUnit", "Store")


class Obj:
    def __init__(self, cls, name, **kw):
        self.cls = cls
        self.name = name
        self.kw = kw  # what is given to n.add: numbers, lists (series), names

    def __repr__(self):
        return f"{self.cls}({self.name!r}, {self.kw})"

    @property
    def id(self):
        return self.name + KINDS[self.cls][1]

    def value(self, param):
        """constant or series of a parameter, as PyPSA reads it"""
        cap = KINDS[self.cls][3]
        if cap and not self.kw.get(cap + "_extendable", False):
            if param in (cap + "_min", cap + "_max"):
                return float(self.kw.get(cap, 0.0))
            if param == "capital_cost":
                return 0.0
        return self.kw.get(param, DEFAULTS[self.cls][param])

    def at(self, param, t):
        v = self.value(param)
        return v[t] if isinstance(v, list) else v


class Net:
    def __init__(self):
        self.name = "net"
        self.T = 3
        self.carriers = {}
        self.objs = []
        self.constraints = []  # (name, sense, constant)

    def of(self, cls):
        return [o for o in self.objs if o.cls == cls]

    def emission(self, o):
        return self.carriers.get(o.kw.get("carrier", ""), 0.0)

    def __repr__(self):
        return (f"Net({self.name!r}, T={self.T}, carriers={self.carriers},"
                f" constraints={self.constraints},\n  "
                + "\n  ".join(map(repr, self.objs)) + ")")


def q(r, lo, hi, den=8):
    """a dyadic number"""
    return r.randint(int(lo * den), int(hi * den)) / den


class NetGen:
    NAMES = ["north", "sud", "b 1", "île", "x-y", "a.b", "7", "wind farm", "g_1", "old",
             "H2", "pv", "n", "store", "load", "bus"]

    def __init__(self, r):
        self.r = r
        self.near = []

    def series(self, draw, p=0.35):
        """a constant or a series of values"""
        if self.r.random() < p:
            return [draw() for _ in range(self.net.T)]
        return draw()

    def name(self, cls, used):
        while True:
            n = self.r.choice(self.NAMES) + self.r.choice(["", "", "2", " b", "_c"])
            if self.near and self.r.random() < 0.35:  # close to another name
                n = self.r.choice(self.near)
                n = self.r.choice([n.swapcase(), n.upper(), n + n[-1], n[:-1] or n, n + "_",
                                   n, n.capitalize(), n.replace(" ", "_"),
                                   n.replace("_", " ")])
            o = Obj(cls, n)
            if o.id not in used:
                used.add(o.id)
                self.near.append(n)
                return n

    def some(self, kw, param, draw, p=0.6):
        if self.r.random() < p:
            kw[param] = draw()

    def capacity(self, kw, cap, top, endless=True):
        """a fixed or an extendable capacity"""
        r = self.r
        if r.random() < 0.45:
            kw[cap + "_extendable"] = True
            lo = q(r, 0, top / 2)
            self.some(kw, cap + "_min", lambda: lo, 0.5)
            if r.random() < 0.7 or not endless:
                kw[cap + "_max"] = kw.get(cap + "_min", 0.0) + q(r, 0, top)
            kw["capital_cost"] = q(r, 0.125, 12)
            if cap + "_max" not in kw:
                kw["capital_cost"] = q(r, 4, 12)
            self.some(kw, cap, lambda: q(r, 0, top), 0.3)
        else:
            kw[cap] = q(r, 0, top)
            # fields which play no role for a fixed capacity
            self.some(kw, "capital_cost", lambda: q(r, 0, 9), 0.3)
            self.some(kw, cap + "_min", lambda: q(r, 0, top), 0.15)
            self.some(kw, cap + "_max", lambda: q(r, 0, top), 0.15)
            self.some(kw, cap + "_extendable", lambda: False, 0.3)
        return kw.get(cap + "_extendable", False) and cap + "_max" not in kw

    def cost(self, kw, param, endless, hi=20):
        lo = 0 if endless else -3
        self.some(kw, param, lambda: self.series(lambda: q(self.r, lo, hi)), 0.8)

    def net_(self):
        r = self.r
        net = self.net = Net()
        net.name = r.choice(["net", "Demo", "a b", ""])
        net.T = r.choice([1, 2, 3, 3, 4, 5])
        used = set()
        carriers = r.sample(["gas", "coal", "wind", "AC", "oil"], r.randint(0, 4))
        for c in carriers:
            net.carriers[c] = r.choice([0.0, q(r, 0.125, 4), q(r, 0.125, 4), q(r, 0.125, 4),
                                        q(r, -2, 0)])
        use = carriers + ([r.choice(["biomass", "?"])] if r.random() < 0.3 else [])

        def carrier(kw):
            if use and r.random() < 0.7:
                kw["carrier"] = r.choice(use)

        buses = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            kw = {}
            self.some(kw, "v_nom", lambda: q(r, 1, 400), 0.4)
            self.some(kw, "x", lambda: q(r, -10, 10), 0.3)
            self.some(kw, "y", lambda: q(r, -10, 10), 0.3)
            self.some(kw, "v_mag_pu_set", lambda: self.series(lambda: q(r, 0.5, 2)), 0.2)
            self.some(kw, "v_mag_pu_max", lambda: q(r, 1, 2), 0.2)
            n = self.name("Bus", used)
            buses.append(n)
            net.objs.append(Obj("Bus", n, **kw))
        for b in buses:
            for _ in range(r.choice([0, 1, 1, 2])):
                kw = dict(bus=b)
                kw["p_set"] = self.series(lambda: q(r, 0, 12), 0.7)
                self.some(kw, "q_set", lambda: self.series(lambda: q(r, 0, 5)), 0.3)
                self.some(kw, "sign", lambda: r.choice([-1.0, 1.0]), 0.15)
                net.objs.append(Obj("Load", self.name("Load", used), **kw))
            # makes the network feasible nearly always
            if r.random() < 0.97:
                net.objs.append(Obj("Generator", self.name("Generator", used), bus=b,
                                    p_nom=1000.0, marginal_cost=200.0))
                net.objs.append(Obj("Generator", self.name("Generator", used), bus=b,
                                    p_nom=1000.0, marginal_cost=50.0, sign=-1.0))
        for _ in range(r.randint(0, 4)):
            kw = dict(bus=r.choice(buses))
            carrier(kw)
            endless = self.capacity(kw, "p_nom", 20)
            self.cost(kw, "marginal_cost", endless)
            if r.random() < 0.4:
                kw["p_max_pu"] = self.series(lambda: q(r, 0.5, 1.25), 0.6)
            if r.random() < 0.3:
                kw["p_min_pu"] = self.series(lambda: q(r, -0.5, 0.5), 0.6)
            if not endless and r.random() < 0.1:  # a consumption
                kw["p_max_pu"] = self.series(lambda: q(r, -0.5, 0.25), 0.6)
                kw["p_min_pu"] = self.series(lambda: q(r, -1.25, -0.5), 0.6)
            self.some(kw, "e_sum_max", lambda: q(r, 2, 40), 0.2)
            self.some(kw, "e_sum_min", lambda: q(r, -20, 1), 0.2)
            self.some(kw, "efficiency",
                      lambda: self.series(lambda: r.choice([0.25, 0.5, 1.0, 2.0]), 0.3), 0.4)
            self.some(kw, "sign", lambda: r.choice([-1.0, 1.0]), 0.15)
            net.objs.append(Obj("Generator", self.name("Generator", used), **kw))
        for _ in range(r.randint(0, 3) if len(buses) > 1 else 0):
            b0, b1 = r.sample(buses, 2)
            kw = dict(bus0=b0, bus1=b1)
            carrier(kw)
            endless = self.capacity(kw, "p_nom", 12)
            self.cost(kw, "marginal_cost", endless, 5)
            self.some(kw, "efficiency",
                      lambda: self.series(lambda: q(r, 0.25, 1.5), 0.3), 0.6)
            if r.random() < 0.4:
                kw["p_max_pu"] = self.series(lambda: q(r, 0.25, 1.25), 0.5)
            if r.random() < 0.4:
                if endless:
                    kw["marginal_cost"] = 0.0
                kw["p_min_pu"] = self.series(lambda: q(r, -1, 0.25), 0.5)
            net.objs.append(Obj("Link", self.name("Link", used), **kw))
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            kw = dict(bus=r.choice(buses), cyclic_state_of_charge=True)
            carrier(kw)
            endless = self.capacity(kw, "p_nom", 10)
            self.cost(kw, "marginal_cost", endless, 4)
            self.some(kw, "marginal_cost_storage",
                      lambda: self.series(lambda: q(r, 0, 2)), 0.3)
            self.some(kw, "spill_cost", lambda: self.series(lambda: q(r, 0, 4)), 0.4)
            self.some(kw, "max_hours", lambda: q(r, 0.5, 4), 0.7)
            self.some(kw, "efficiency_store", lambda: self.series(
                lambda: q(r, 0.5, 1), 0.3), 0.6)
            self.some(kw, "efficiency_dispatch", lambda: self.series(
                lambda: r.choice([0.5, 0.625, 0.8, 1.0]), 0.3), 0.6)
            self.some(kw, "standing_loss", lambda: self.series(
                lambda: q(r, 0, 0.5), 0.3), 0.5)
            self.some(kw, "inflow", lambda: self.series(lambda: q(r, 0, 6), 0.6), 0.5)
            self.some(kw, "p_max_pu", lambda: self.series(lambda: q(r, 0.25, 1.25), 0.4), 0.4)
            self.some(kw, "p_min_pu", lambda: self.series(lambda: q(r, -1.25, 0), 0.4), 0.4)
            self.some(kw, "state_of_charge_initial", lambda: q(r, 0, 4), 0.2)
            net.objs.append(Obj("StorageUnit", self.name("StorageUnit", used), **kw))
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            kw = dict(bus=r.choice(buses), e_cyclic=True)
            carrier(kw)
            self.capacity(kw, "e_nom", 20, endless=False)
            self.cost(kw, "marginal_cost", False, 3)
            self.some(kw, "marginal_cost_storage",
                      lambda: self.series(lambda: q(r, -1, 2)), 0.4)
            self.some(kw, "standing_loss", lambda: self.series(
                lambda: q(r, 0, 0.5), 0.3), 0.5)
            self.some(kw, "e_max_pu", lambda: self.series(lambda: q(r, 0.5, 1.25), 0.4), 0.4)
            self.some(kw, "e_min_pu", lambda: self.series(lambda: q(r, 0, 0.375), 0.4), 0.4)
            self.some(kw, "e_initial", lambda: q(r, 0, 4), 0.2)
            net.objs.append(Obj("Store", self.name("Store", used), **kw))
        if any(net.emission(o) for o in net.of("Generator")) and r.random() < 0.7:
            for i in range(r.choice([1, 1, 2])):
                net.constraints.append((f"co2_{i}", r.choice(["<=", "<=", "=="]),
                                        q(r, 0, 60) if r.random() < 0.85
                                        else q(r, -20, 0)))
        r.shuffle(net.objs)
        net.objs.sort(key=lambda o: o.cls != "Bus")
        return net


def build(net):
    """the pypsa network of a specification"""
    n = pypsa().Network(name=net.name, snapshots=list(range(net.T)))
    for c, e in net.carriers.items():
        n.add("Carrier", c, co2_emissions=e)
    for o in net.objs:
        n.add(o.cls, o.name, **o.kw)
    for name, sense, constant in net.constraints:
        n.add("GlobalConstraint", name, type="primary_energy",
              carrier_attribute="co2_emissions", sense=sense, constant=constant)
    return n


def clamp(v):
    return max(min(v, 1e20), -1e20)


def expected(net):
    """components: id -> (model, parameters); connections: list of 4-tuples (unordered)"""
    comps, links = {}, []
    for o in net.objs:
        params = {p: o.value(p) for p in DEFAULTS[o.cls]}
        if o.cls in EMITTING:
            params["emission_factor"] = net.emission(o)
        comps[o.id] = ("pypsa_models." + KINDS[o.cls][2],
                       {k: v if isinstance(v, list) else clamp(v)
                        for k, v in params.items()})
        if o.cls == "Link":
            links.append((o.kw["bus0"], "p_balance_port", o.id, "p0_port"))
            links.append((o.kw["bus1"], "p_balance_port", o.id, "p1_port"))
        elif o.cls != "Bus":
            links.append((o.kw["bus"], "p_balance_port", o.id, "p_balance_port"))
    for name, sense, constant in net.constraints:
        model = "co2_max" if sense == "<=" else "co2_eq"
        comps[name] = ("pypsa_models.global_constraint_" + model, {"quota": constant})
        for o in net.objs:
            if o.cls in EMITTING and o.kw.get("carrier"):
                links.append((name, "emission_port", o.id, "emission_port"))
    return comps, links


def optimum(net):
    """(status, cost) of the problem documented by PyPSA, without its converter"""
    s = pywraplp.Solver.CreateSolver("GLOP")
    inf = s.infinity()
    T = range(net.T)

    def big(v):
        return inf if v >= 1e20 else -inf if v <= -1e20 else v

    bal = {(b.name, t): s.Constraint(0, 0) for b in net.of("Bus") for t in T}
    load = {k: 0.0 for k in bal}
    obj = s.Objective()
    obj.SetMinimization()
    em = []  # (coefficient, variable)

    def row(lo, hi, terms):
        c = s.Constraint(lo, hi)
        for k, v in terms:
            c.SetCoefficient(v, c.GetCoefficient(v) + k)
        return c

    def cost(v, k):
        obj.SetCoefficient(v, obj.GetCoefficient(v) + k)

    def cap(o, c):
        v = s.NumVar(big(o.value(c + "_min")), big(o.value(c + "_max")), "")
        cost(v, o.value("capital_cost"))
        return v

    for o in net.objs:
        at = o.at
        if o.cls == "Load":
            for t in T:
                load[o.kw["bus"], t] += at("sign", t) * at("p_set", t)
        elif o.cls == "Generator":
            nom = cap(o, "p_nom")
            ps = []
            for t in T:
                p = s.NumVar(-inf, inf, "")
                ps.append(p)
                row(0, inf, [(1, p), (-at("p_min_pu", t), nom)])
                row(-inf, 0, [(1, p), (-at("p_max_pu", t), nom)])
                bal[o.kw["bus"], t].SetCoefficient(p, at("sign", t))
                cost(p, at("marginal_cost", t))
                em.append((net.emission(o) / at("efficiency", t), p))
            row(big(o.value("e_sum_min")), big(o.value("e_sum_max")), [(1, p) for p in ps])
        elif o.cls == "Link":
            nom = cap(o, "p_nom")
            for t in T:
                p = s.NumVar(-inf, inf, "")
                row(0, inf, [(1, p), (-at("p_min_pu", t), nom)])
                row(-inf, 0, [(1, p), (-at("p_max_pu", t), nom)])
                bal[o.kw["bus0"], t].SetCoefficient(p, -1)
                bal[o.kw["bus1"], t].SetCoefficient(p, at("efficiency", t))
                cost(p, at("marginal_cost", t))
        elif o.cls == "StorageUnit":
            nom = cap(o, "p_nom")
            soc = [s.NumVar(0, inf, "") for t in T]
            for t in T:
                h, f = s.NumVar(0, inf, ""), s.NumVar(0, inf, "")
                spill = s.NumVar(0, at("inflow", t), "")
                row(-inf, 0, [(1, f), (-at("p_max_pu", t), nom)])
                row(-inf, 0, [(1, h), (at("p_min_pu", t), nom)])
                row(-inf, 0, [(1, soc[t]), (-at("max_hours", t), nom)])
                i = at("inflow", t)
                row(i, i, [(1, soc[t]), (-(1 - at("standing_loss", t)), soc[t - 1]),
                           (-at("efficiency_store", t), h),
                           (1 / at("efficiency_dispatch", t), f), (1, spill)])
                b = bal[o.kw["bus"], t]
                b.SetCoefficient(f, 1)
                b.SetCoefficient(h, -1)
                cost(f, at("marginal_cost", t))
                cost(soc[t], at("marginal_cost_storage", t))
                cost(spill, at("spill_cost", t))
        elif o.cls == "Store":
            nom = cap(o, "e_nom")
            e = [s.NumVar(-inf, inf, "") for t in T]
            for t in T:
                p = s.NumVar(-inf, inf, "")
                row(0, inf, [(1, e[t]), (-at("e_min_pu", t), nom)])
                row(-inf, 0, [(1, e[t]), (-at("e_max_pu", t), nom)])
                row(0, 0, [(1, e[t]), (-(1 - at("standing_loss", t)), e[t - 1]), (1, p)])
                bal[o.kw["bus"], t].SetCoefficient(p, 1)
                cost(p, at("marginal_cost", t))
                cost(e[t], at("marginal_cost_storage", t))
    for k, v in load.items():
        bal[k].SetBounds(-v, -v)
    for _, sense, c in net.constraints:
        row(c if sense == "==" else -inf, c, em)
    st = s.Solve()
    return st, obj.Value() if st == s.OPTIMAL else None

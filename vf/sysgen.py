"""
Random systems: specification, construction with the Python API of /repo, and with
YAML files read by /repo.
"""
import os
from dataclasses import dataclass, field
from fractions import Fraction as F
from typing import Any, Dict, List, Optional, Tuple

from vf import expr as X
from vf.expr import VALUES, Gen, Renderer, to_nodes


@dataclass
class VarSpec:
    name: str
    kind: str = "continuous"  # integer, boolean
    lb: Any = None
    ub: Any = None
    time: bool = True
    scen: bool = True
    ctx: str = "operational"


@dataclass
class ConSpec:
    name: str
    expr: Any
    lb: Any = None
    ub: Any = None
    ctx: str = "operational"


@dataclass
class ModelSpec:
    id: str
    params: Dict[str, Tuple[bool, bool]] = field(default_factory=dict)
    variables: List[VarSpec] = field(default_factory=list)
    bindings: List[ConSpec] = field(default_factory=list)
    constraints: List[ConSpec] = field(default_factory=list)
    obj_op: Any = None
    obj_inv: Any = None
    ports: Dict[str, str] = field(default_factory=dict)
    defs: Dict[Tuple[str, str], Any] = field(default_factory=dict)
    int_consts: Dict[str, int] = field(default_factory=dict)

    def var(self, name):
        return next(v for v in self.variables if v.name == name)


@dataclass
class CompSpec:
    id: str
    model: str
    node: bool = False


@dataclass
class Spec:
    port_types: Dict[str, List[str]] = field(default_factory=dict)
    models: Dict[str, ModelSpec] = field(default_factory=dict)
    components: List[CompSpec] = field(default_factory=list)
    connections: List[Tuple[str, str, str, str]] = field(default_factory=list)
    # (comp, par) -> ('const', v) ('ts', [..]) ('ss', [..]) ('tss', [[..]])
    #                ('tree', {node: data})
    data: Dict[Tuple[str, str], Any] = field(default_factory=dict)
    horizon: int = 1
    scenarios: int = 1
    same_ids: bool = False  # (Python API) nothing says that the ids of models differ

    def ordered_components(self):
        return [c for c in self.components if c.node] + [
            c for c in self.components if not c.node
        ]

    def value(self, comp, name, t, s, tree=""):
        return data_value(self.data[(comp, name)], t, s, tree)


def data_value(d, t, s, tree=""):
    k = d[0]
    if k == "const":
        return d[1]
    if k == "ts":
        return d[1][t]
    if k == "ss":
        return d[1][s]
    if k == "tss":
        return d[1][t][s]
    if k == "tree":
        return data_value(d[1][tree], t, s)
    raise AssertionError(d)


# ------------------------------------------------------------------ generation


class SysGen:
    """
    options:
      ports      systems with ports and connections
      yaml       restrict to what YAML libraries can express
      invest     contexts other than operational, investment objectives
      ops        time and scenario operators
      kinds      integer and boolean variables
      feasible   add slack so that the problem is feasible and bounded
    """

    def __init__(self, rng, T=3, S=2, **opt):
        self.rng = rng
        self.T, self.S = T, S
        self.opt = dict(
            ports=True,
            yaml=False,
            invest=False,
            ops=True,
            kinds=True,
            max_models=3,
            max_components=4,
            depth=3,
            bound_ports=False,
            constant_bounds=False,
            horizon_extra=0,
            safe_names=True,
            nodes=True,
            no_vars=0.1,  # models without variables, as the nodes of a network
        )
        self.opt.update(opt)

    # -------------------------------------------------- models

    def model(self, mid, k):
        r, o = self.rng, self.opt
        m = ModelSpec(mid)
        for i in range(r.randint(1, 4)):
            m.params[f"p{i}"] = r.choice(
                [(False, False), (True, False), (False, True), (True, True)]
            )
        for i in range(r.randint(0, 2)):
            n = f"d{i}"
            m.params[n] = (False, False)
            m.int_consts[n] = r.choice([-2, -1, 0, 1, 2, 3])
        for i in range(0 if r.random() < o["no_vars"] else r.randint(1, 4)):
            kind = "continuous"
            if o["kinds"]:
                kind = r.choice(
                    ["continuous"] * 3
                    + ["integer"]
                    + ([] if o["yaml"] else ["boolean"])
                )
            v = VarSpec(f"x{i}", kind, time=r.random() < 0.7, scen=r.random() < 0.7)
            if o["invest"]:
                v.ctx = r.choice(["operational", "investment", "coupling"])
            m.variables.append(v)
        return m

    def usable_params(self, m, time, scen):
        return [
            n
            for n, (t, s) in m.params.items()
            if (time or not t) and (scen or not s) and n not in m.int_consts
        ]

    def bounds(self, m, v):
        """lower <= upper by construction: ub = lb + something positive"""
        r = self.rng
        if v.kind == "boolean":
            v.lb = v.ub = None
            return
        time, scen = v.time, v.scen
        if self.opt["constant_bounds"]:
            time = scen = False
        g = Gen(
            r, [], self.usable_params(m, time, scen), time_ops=False, scenario_ops=False
        )
        x = r.random()
        if x < 0.25:
            return
        # values of parameters are between -8 and 8; literals up to 10
        lb = g.const(r.randint(0, 2), ops=False)
        if x < 0.45:
            v.lb = lb
        elif x < 0.6:
            v.ub = lb
        else:
            gap = r.choice([F(0), F(1), F(5, 2), F(100)])
            v.lb = lb
            v.ub = ("add", lb, ("lit", gap))

    def gen_for(self, m, time, scen, ports=(), variables=None, ops=None, port_ctx=None):
        """expressions of a model; time/scen: what may be left free"""
        o = self.opt
        if ops is None:
            ops = o["ops"]
        if variables is None:
            variables = [v.name for v in m.variables]
        return Gen(
            self.rng,
            variables,
            [n for n in m.params if n not in m.int_consts],
            m.int_consts,
            ports,
            time_ops=ops,
            scenario_ops=ops,
            T=self.T,
            port_ctx=port_ctx,
        )

    def allowed_vars(self, m, ctx):
        if not self.opt["invest"] or ctx is None:
            return [v.name for v in m.variables]
        ok = {
            "operational": ("operational", "coupling"),
            "investment": ("investment", "coupling"),
            "coupling": ("coupling",),
        }[ctx]
        return [v.name for v in m.variables if v.ctx in ok]

    def constraint(self, m, name, ports, port_ctx):
        r = self.rng
        ctx = "operational"
        if self.opt["invest"]:
            ctx = r.choice(["operational", "operational", "investment", "coupling"])
        vs = self.allowed_vars(m, ctx)
        if not vs and ctx != "operational":
            return None
        master = ctx in ("investment", "coupling") and self.opt["invest"]
        g = self.gen_for(
            m,
            True,
            True,
            () if master else ports,
            vs,
            ops=False if master else None,
            port_ctx=port_ctx,
        )
        if master:
            g.variables = [
                n for n in vs if not m.var(n).time and not m.var(n).scen
            ]
            g.params = [n for n in g.params if m.params[n] == (False, False)]
            if not g.variables:
                return None
        d = self.opt["depth"]
        if r.random() < 0.5:
            op = r.choice(["=", "<=", ">="])
            c = ConSpec(name, ("cmp", op, g.linear(d), g.linear(d - 1)), ctx=ctx)
        else:
            c = ConSpec(name, g.linear(d), ctx=ctx)
            gb = self.gen_for(m, True, True, (), [], ops=False)
            gb.params = g.params
            lb = gb.const(r.randint(0, 2), ops=False)
            x = r.random()
            if x < 0.3:
                c.lb = lb
            elif x < 0.6:
                c.ub = lb
            elif x < 0.8:
                c.lb = lb
                c.ub = ("add", lb, ("lit", r.choice([F(0), F(3), F(100)])))
        return c

    def objective(self, m, ctx):
        """must not depend on time nor scenario: sums and expectations over parts"""
        r = self.rng
        if r.random() < 0.2:
            return None
        vs = self.allowed_vars(m, ctx) if self.opt["invest"] else None
        if self.opt["invest"] and not vs:
            return None
        res = None
        for _ in range(r.randint(1, 3)):
            if ctx == "investment":
                g = self.gen_for(m, False, False, (), vs, ops=False)
                g.variables = [n for n in vs if not m.var(n).time and not m.var(n).scen]
                g.params = [n for n in g.params if m.params[n] == (False, False)]
                if not g.variables:
                    return None
                part = g.linear(2)
            else:
                g = self.gen_for(m, True, True, (), vs)
                part = g.linear(self.opt["depth"])
                env = _StructEnv(m)
                ti, si = X.idx(part, env, None)
                if si and r.random() < 0.5:
                    part, si = ("expec", part), False
                if ti:
                    if X.contains(part, "eval", "asum") or r.random() < 0.7:
                        part = ("asum", part)
                    else:
                        part = ("eval", part, g.integer(0, self.T))
                if si:
                    part = ("expec", part)
            res = part if res is None else (r.choice(["add", "sub"]), res, part)
        return res

    # -------------------------------------------------- systems

    def system(self):
        r, o = self.rng, self.opt
        spec = Spec(horizon=self.T + o["horizon_extra"], scenarios=self.S)
        n_models = r.randint(1, o["max_models"])
        models = [self.model(f"m{k}", k) for k in range(n_models)]
        spec.models = {m.id: m for m in models}
        spec.same_ids = n_models > 1 and r.random() < 0.1
        n_comp = r.randint(1, o["max_components"])
        used = {}
        if o["ports"] and r.random() < 0.85:
            self.make_ports(spec, models)
        for i in range(n_comp):
            m = models[i % n_models] if i < n_models else r.choice(models)
            spec.components.append(
                CompSpec(self.comp_id(i), m.id, o["nodes"] and r.random() < 0.25)
            )
        self.connect(spec)
        for m in models:
            for v in m.variables:
                self.bounds(m, v)
            ports, ctx = self.readable_ports(spec, m)
            for i in range(r.randint(0, 3)):
                c = self.constraint(m, f"c{i}", ports, ctx)
                if c:
                    m.constraints.append(c)
            for i in range(r.randint(0, 1)):
                c = self.constraint(m, f"b{i}", ports, ctx)
                if c:
                    m.bindings.append(c)
            m.obj_op = self.objective(m, "operational" if o["invest"] else None)
            if o["invest"]:
                m.obj_inv = self.objective(m, "investment")
        for c in spec.components:
            m = spec.models[c.model]
            for n in m.params:
                spec.data[(c.id, n)] = self.data(spec, m, n)
        return spec

    def comp_id(self, i):
        if self.rng.random() < 0.2:  # names which differ by their case only
            return ("u" if i % 2 else "U") + str(i // 2)
        return self.rng.choice(["G", "N", "area", "c"]) + str(i)

    def data(self, spec, m, n):
        r = self.rng
        if n in m.int_consts:
            return ("const", F(m.int_consts[n]))
        t, s = m.params[n]
        H, S = spec.horizon, spec.scenarios
        kinds = ["const"]
        if t:
            kinds += ["ts"] * 3
        if s:
            kinds += ["ss"] * 3
        if t and s:
            kinds += ["tss"] * 4
        k = r.choice(kinds)
        v = lambda: r.choice(VALUES)
        if k == "const":
            return ("const", v())
        if k == "ts":
            return ("ts", [v() for _ in range(H)])
        if k == "ss":
            return ("ss", [v() for _ in range(S)])
        return ("tss", [[v() for _ in range(S)] for _ in range(H)])

    def make_ports(self, spec, models):
        r = self.rng
        for i in range(r.randint(1, 2)):
            spec.port_types[f"pt{i}"] = [f"f{j}" for j in range(r.randint(1, 3))]
        for m in models:
            for i in range(r.randint(1, 2)):
                m.ports[f"q{i}"] = r.choice(list(spec.port_types))
            for q, pt in m.ports.items():
                mode = r.random()
                for f in spec.port_types[pt]:
                    # some ports define all their fields, some none, some a part
                    if mode < 0.4 or (mode < 0.6 and r.random() < 0.5):
                        vs = self.allowed_vars(m, "operational")
                        g = self.gen_for(m, True, True, (), vs)
                        m.defs[(q, f)] = g.linear(2)

    def connect(self, spec):
        """all legal connections are candidates; some are drawn"""
        r = self.rng
        ends = [
            (c.id, q, pt, spec.models[c.model])
            for c in spec.components
            for q, pt in spec.models[c.model].ports.items()
        ]
        candidates = []
        for i, a in enumerate(ends):
            for b in ends[i + 1 :]:
                if a[2] != b[2]:
                    continue
                if a[0] == b[0]:
                    continue
                if all(
                    ((a[1], f) in a[3].defs) != ((b[1], f) in b[3].defs)
                    for f in spec.port_types[a[2]]
                ):
                    candidates.append((a, b))
        r.shuffle(candidates)
        for a, b in candidates[: r.randint(0, 6)]:
            if r.random() < 0.5:
                a, b = b, a
            spec.connections.append((a[0], a[1], b[0], b[1]))
        if spec.connections and r.random() < 0.06:  # a connection made twice counts twice
            a, p, b, q = r.choice(spec.connections)
            spec.connections.append(r.choice([(a, p, b, q), (b, q, a, p)]))

    def readable_ports(self, spec, m):
        """
        (port, field, kind) that a constraint of the model may use: `pf` only if every
        component of the model has exactly one connection on it
        """
        res, ctx = [], {}
        comps = [c.id for c in spec.components if c.model == m.id]
        by_id = {c.id: c for c in spec.components}
        for q, pt in m.ports.items():
            counts = []
            kinds = set()
            for c in comps:
                n = 0
                for c1, p1, c2, p2 in spec.connections:
                    for a, b in (((c1, p1), (c2, p2)), ((c2, p2), (c1, p1))):
                        if a == (c, q):
                            n += 1
                            for f in spec.port_types[pt]:
                                for cc, qq in (a, b):
                                    d = spec.models[by_id[cc].model].defs.get((qq, f))
                                    if d is not None:
                                        kinds |= {x[0] for x in X.walk(d)}
                counts.append(n)
            for f in spec.port_types[pt]:
                ctx[(q, f)] = kinds
                res.append((q, f, "psum"))
                if all(n == 1 for n in counts):
                    res.append((q, f, "pf"))
        return res, ctx


class _StructEnv:
    def __init__(self, m):
        self.m = m

    def structure(self, comp, kind, name):
        if kind == "var":
            v = self.m.var(name)
            return (v.time, v.scen)
        return self.m.params[name]

    def port(self, *a):
        return []


# ------------------------------------------------------------------ Python API


def contexts():
    from andromede.model.common import ProblemContext

    return {
        "operational": ProblemContext.OPERATIONAL,
        "investment": ProblemContext.INVESTMENT,
        "coupling": ProblemContext.COUPLING,
    }


def build_model(spec, m, rng=None, port_types=None, ids=None):
    from andromede.model import model

    return model(**model_args(spec, m, rng, port_types, ids))


def model_args(spec, m, rng=None, port_types=None, ids=None):
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model import (
        Constraint,
        ModelPort,
        PortField,
        PortType,
        float_parameter,
        float_variable,
        int_variable,
    )
    from andromede.model.parameter import int_parameter
    from andromede.model.port import port_field_def
    from andromede.model.variable import bool_var

    if port_types is None:
        port_types = build_port_types(spec)
    ctxs = contexts()

    def ex(e):
        return None if e is None else to_nodes(e, rng)

    variables = []
    for v in m.variables:
        st = IndexingStructure(v.time, v.scen)
        if v.kind == "boolean":
            variables.append(bool_var(v.name, st, ctxs[v.ctx]))
        else:
            f = int_variable if v.kind == "integer" else float_variable
            variables.append(
                f(
                    v.name,
                    lower_bound=ex(v.lb),
                    upper_bound=ex(v.ub),
                    structure=st,
                    context=ctxs[v.ctx],
                )
            )

    def con(c):
        kw = {}
        if c.lb is not None:
            kw["lower_bound"] = ex(c.lb)
        if c.ub is not None:
            kw["upper_bound"] = ex(c.ub)
        return Constraint(c.name, ex(c.expr), context=ctxs[c.ctx], **kw)

    op = ex(m.obj_op)
    inv = op if m.obj_inv is m.obj_op else ex(m.obj_inv)
    return dict(
        id=m.id if ids is None else ids[m.id],
        parameters=[
            (int_parameter if n in m.int_consts else float_parameter)(
                n, IndexingStructure(*st)
            )
            for n, st in m.params.items()
        ],
        variables=variables,
        constraints=[con(c) for c in m.constraints],
        binding_constraints=[con(c) for c in m.bindings],
        objective_operational_contribution=op,
        objective_investment_contribution=inv,
        ports=[
            ModelPort(port_type=port_types[pt], port_name=q)
            for q, pt in m.ports.items()
        ],
        port_fields_definitions=[
            port_field_def(q, f, ex(e)) for (q, f), e in m.defs.items()
        ],
    )


def build_port_types(spec):
    from andromede.model import PortField, PortType

    return {
        k: PortType(k, [PortField(f) for f in fields])
        for k, fields in spec.port_types.items()
    }


def build_data(d):
    import pandas as pd
    from andromede.study import (
        ConstantData,
        ScenarioIndex,
        ScenarioSeriesData,
        TimeIndex,
        TimeScenarioSeriesData,
        TimeSeriesData,
    )
    from andromede.study.data import TreeData

    k = d[0]
    if k == "const":
        return ConstantData(float(d[1]))
    if k == "ts":
        return TimeSeriesData({TimeIndex(i): float(v) for i, v in enumerate(d[1])})
    if k == "ss":
        return ScenarioSeriesData(
            {ScenarioIndex(i): float(v) for i, v in enumerate(d[1])}
        )
    if k == "tss":
        return TimeScenarioSeriesData(
            pd.DataFrame([[float(v) for v in row] for row in d[1]])
        )
    if k == "tree":
        return TreeData({n: build_data(x) for n, x in d[1].items()})
    raise AssertionError(d)


def build_python(spec, rng=None):
    """-> network, database, {model id: Model}"""
    from andromede.study import (
        DataBase,
        Network,
        Node,
        PortRef,
        create_component,
    )

    pts = build_port_types(spec)
    ids = {i: "model" for i in spec.models} if spec.same_ids else None
    models = {i: build_model(spec, m, rng, pts, ids) for i, m in spec.models.items()}
    net = Network("study")
    objs = {}
    for c in spec.components:
        if c.node:
            objs[c.id] = Node(model=models[c.model], id=c.id)
            net.add_node(objs[c.id])
        else:
            objs[c.id] = create_component(model=models[c.model], id=c.id)
            net.add_component(objs[c.id])
    for c1, p1, c2, p2 in spec.connections:
        net.connect(PortRef(objs[c1], p1), PortRef(objs[c2], p2))
    db = DataBase()
    for (c, n), d in spec.data.items():
        db.add_data(c, n, build_data(d))
    return net, db, models


# ------------------------------------------------------------------ YAML


def yaml_library(spec, rng, lib_id="lib", models=None, port_types=None, deps=()):
    """the library as plain data (to be dumped)"""
    rd = Renderer(rng)

    def tx(e):
        return rd.top(e)

    def flags(t, s, default, d):
        for name, v in (("time-dependent", t), ("scenario-dependent", s)):
            if v != default or rng.random() < 0.5:
                d[name] = v
        return d

    lib = {"id": lib_id}
    if deps:
        lib["dependencies"] = list(deps)
    lib["port-types"] = [
        {"id": k, "fields": [{"id": f} for f in fs]}
        for k, fs in spec.port_types.items()
        if port_types is None or k in port_types
    ]
    lib["models"] = []
    for m in spec.models.values():
        if models is not None and m.id not in models:
            continue
        y = {"id": m.id}
        y["parameters"] = [
            flags(t, s, False, {"id": n}) for n, (t, s) in m.params.items()
        ]
        y["variables"] = []
        for v in m.variables:
            d = flags(v.time, v.scen, True, {"id": v.name})
            if v.kind != "continuous" or rng.random() < 0.3:
                d["variable-type"] = v.kind
            for n, b in (("lower-bound", v.lb), ("upper-bound", v.ub)):
                if b is not None:
                    if b[0] == "lit" and rng.random() < 0.5:
                        d[n] = float(b[1])
                    else:
                        d[n] = tx(b)
            y["variables"].append(d)
        y["ports"] = [{"id": q, "type": pt} for q, pt in m.ports.items()]
        y["port-field-definitions"] = [
            {"port": q, "field": f, "definition": tx(e)}
            for (q, f), e in m.defs.items()
        ]
        for key, cs in (("binding-constraints", m.bindings), ("constraints", m.constraints)):
            y[key] = []
            for c in cs:
                d = {"id": c.name, "expression": tx(c.expr)}
                if c.lb is not None:
                    d["lower-bound"] = tx(c.lb)
                if c.ub is not None:
                    d["upper-bound"] = tx(c.ub)
                y[key].append(d)
        if m.obj_op is not None:
            y["objective"] = tx(m.obj_op)
        y = {k: v for k, v in y.items() if v != [] or rng.random() < 0.3}
        lib["models"].append(y)
    return {"library": lib}


def yaml_system(spec, rng, lib_of=lambda m: "lib", series=None):
    """the system as plain data; fills series {name: rows}"""
    out = {"nodes": [], "components": [], "connections": []}
    for c in spec.components:
        d = {"id": c.id, "model": f"{lib_of(c.model)}.{c.model}"}
        ps = []
        for n in spec.models[c.model].params:
            data = spec.data[(c.id, n)]
            p = {"id": n}
            if data[0] == "const":
                v = data[1]
                p["value"] = int(v) if v.denominator == 1 and rng.random() < 0.5 else float(v)
            else:
                name = f"{c.id}-{n}"
                p["value"] = name
                if data[0] == "ts":
                    p["time-dependent"] = True
                    rows = [[v] for v in data[1]]
                elif data[0] == "ss":
                    p["scenario-dependent"] = True
                    rows = [data[1]]
                else:
                    p["time-dependent"] = True
                    p["scenario-dependent"] = True
                    rows = data[1]
                series[name] = rows
            ps.append(p)
        if ps:
            d["parameters"] = ps
        (out["nodes"] if c.node else out["components"]).append(d)
    for c1, p1, c2, p2 in spec.connections:
        out["connections"].append(
            {"component1": c1, "port1": p1, "component2": c2, "port2": p2}
        )
    return {"system": {k: v for k, v in out.items() if v}}


def write_series(rng, dirname, series):
    os.makedirs(dirname, exist_ok=True)
    for name, rows in series.items():
        with open(os.path.join(dirname, name + ".txt"), "w") as f:
            for row in rows:
                sep = rng.choice(["\t", " ", "  "])
                f.write(sep.join(repr(float(v)) for v in row) + "\n")

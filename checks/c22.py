import math
import os
from collections import Counter
from pathlib import Path

from vf import antares as A
from vf import pypsanet as N
from vf.core import Workload, close, raises

PROPERTY = "C22"
RULE = (
    "a case is a random PyPSA network given to the converter, and solved; distinct by"
    " network, non-trivial if it has another object than buses and loads"
)
ASSUMPTIONS = [
    "real pypsa with a stand-in for scipy (not installed); the reference problem is written"
    " from the documentation of PyPSA and solved by GLOP",
    "names of links and buses do not collide; inflows are not negative; global constraints"
    " come with an emitting generator",
    "not drawn: ramp limits, fixed dispatch (p_set), modular capacities, links of more than"
    " two buses, which the converter does not read",
]
REQUIRE = {
    "network converted": 250, "bus": 400, "load": 300, "generator": 800, "link": 80,
    "storage_unit": 80, "store": 80, "global constraint": 50, "parameter": 8000,
    "series read": 400, "extendable": 150, "fixed capacity": 500, "infinite value": 500,
    "optimum compared": 250, "refused": 150, "written to YAML": 60,
    "undeclared carrier": 20, "connection": 1500,
}


def judge(case, net, system, series):
    comps, links = N.expected(net)
    got = Counter(c.id for c in system.components)
    case.check(not system.nodes, "the converted network has nodes", got=system.nodes)
    case.check(got == Counter(list(comps)), "there is not one component per object",
               too_many=list((got - Counter(list(comps))).elements()),
               missing=list((Counter(list(comps)) - got).elements()))
    for c in system.components:
        model, params = comps[c.id]
        case.check(c.model == model, "a component has another model", component=c.id,
                   got=c.model, expected=model)
        kind = model.split(".")[1]
        case.ev("global constraint" if kind.startswith("global") else kind)
        ids = [p.id for p in c.parameters]
        case.check(sorted(ids) == sorted(params),
                   "a component has not the parameters of its object, each once",
                   component=c.id, got=ids, expected=sorted(params))
        for p in c.parameters:
            want = params[p.id]
            case.ev("parameter")
            if isinstance(want, list):
                case.check(p.time_dependent is True and isinstance(p.value, str)
                           and not p.scenario_dependent, "a series became a constant",
                           component=c.id, parameter=p.id, got=repr(p))
                f = os.path.join(series, p.value + ".txt")
                case.check(os.path.isfile(f), "the series of a parameter was not written",
                           component=c.id, parameter=p.id, file=f)
                m = A.read_matrix(f)
                case.check(m == [[x] for x in want],
                           "the series of a parameter has not the values of the network",
                           component=c.id, parameter=p.id, got=m, expected=want)
                case.ev("series read")
            else:
                case.check(not p.time_dependent and not p.scenario_dependent
                           and isinstance(p.value, (int, float)) and p.value == want,
                           "a parameter has not the value of the network",
                           component=c.id, parameter=p.id, got=repr(p), expected=want)
                if abs(want) == 1e20:
                    case.ev("infinite value")

    def key(a, b, c, d):
        return tuple(sorted([(a, b), (c, d)]))

    a = Counter(key(c.component1, c.port1, c.component2, c.port2)
                for c in system.connections)
    b = Counter(key(*k) for k in links)
    case.check(a == b, "the connections are not those of the network",
               too_many=list((a - b).elements()), missing=list((b - a).elements()))
    case.ev("connection", len(links))


def convert(n, d):
    from andromede.pypsa_converter.pypsa_converter import PyPSAStudyConverter

    series = os.path.join(d, "series")
    os.makedirs(series, exist_ok=True)
    return PyPSAStudyConverter(n, A.logger(), Path(d), Path(series)).to_gems_study(), series


_lib = {}


def library():
    if not _lib:
        from andromede.model.parsing import parse_yaml_library
        from andromede.model.resolve_library import resolve_library

        import andromede

        p = Path(andromede.__file__).parent / "libs/pypsa_models/pypsa_models.yml"
        with open(p) as f:
            _lib[0] = resolve_library([parse_yaml_library(f)])
    return _lib[0]


def solve(system, series, T):
    from andromede.simulation.optimization import build_problem
    from andromede.simulation.time_block import TimeBlock
    from andromede.study.resolve_components import (
        build_data_base, build_network, resolve_system)

    s = resolve_system(system, library())
    db = build_data_base(system, Path(series))
    problem = build_problem(build_network(s), db, TimeBlock(1, list(range(T))), 1)
    return resolve(problem.solver)


def resolve(solver):
    """status and optimum of a problem, its 1e20 bounds replaced by infinite ones (the
    numerical troubles SCIP has with them are not those of the conversion)"""
    from ortools.linear_solver import linear_solver_pb2, pywraplp

    m = linear_solver_pb2.MPModelProto()
    solver.ExportModelToProto(m)
    for x in list(m.variable) + list(m.constraint):
        if x.lower_bound < -1e17:
            x.lower_bound = -math.inf
        if x.upper_bound > 1e17:
            x.upper_bound = math.inf
    s = pywraplp.Solver.CreateSolver("GLOP")
    s.LoadModelFromProto(m)
    return s, s.Solve()


def networks(case):
    r = case.rng
    net = N.NetGen(r).net_()
    case.note(network=repr(net))
    for o in net.objs:
        cap = N.KINDS[o.cls][3]
        if cap:
            case.ev("extendable" if o.kw.get(cap + "_extendable") else "fixed capacity")
        if o.kw.get("carrier") and o.kw["carrier"] not in net.carriers:
            case.ev("undeclared carrier")
    n = N.build(net)
    with A.scratch() as d:
        system, series = convert(n, d)
        case.ev("network converted")
        judge(case, net, system, series)
        if r.random() < 0.3:
            from andromede.pypsa_converter.utils import transform_to_yaml
            from andromede.study.parsing import parse_yaml_components

            out = os.path.join(d, "système.yml")
            transform_to_yaml(system, out)
            with open(out, encoding="utf-8") as f:
                system = parse_yaml_components(f)
            judge(case, net, system, series)
            case.ev("written to YAML")
        sv, st = solve(system, series, net.T)
    ref, cost = N.optimum(net)
    if ref == sv.OPTIMAL:
        case.check(st == sv.OPTIMAL, "the problem of the converted network has no optimum",
                   status=st, expected=cost)
        got = sv.Objective().Value()
        case.check(close(got, cost, 1e-5), "the converted network has another optimal cost",
                   got=got, expected=cost)
        case.ev("optimum compared")
    elif ref == sv.INFEASIBLE:
        case.check(st != sv.OPTIMAL, "the converted network of an infeasible one is feasible")
        case.ev("infeasible")
    else:
        case.ev(f"reference status {ref}")
    if len(net.objs) > len(net.of("Bus")) + len(net.of("Load")):
        case.distinct(repr(net))
    case.sample(dict(objects=Counter(o.cls for o in net.objs), T=net.T, cost=cost,
                     constraints=net.constraints))


def features(net):
    """ways to leave what the converter supports: name -> change of the pypsa network"""
    res = {}

    def setter(cls, col, value):
        lst = N.KINDS[cls][0]
        names = [o.name for o in net.of(cls)]
        if not names:
            return

        def f(n, r):
            getattr(n, lst).loc[r.choice(names), col] = value

        res[f"{cls} {col}"] = f

    for cls in ("Generator", "Link", "StorageUnit", "Store"):
        setter(cls, "marginal_cost_quadratic", 0.5)
        setter(cls, "active", False)
    setter("Load", "active", False)
    setter("Generator", "committable", True)
    setter("Link", "committable", True)
    for cls in ("StorageUnit", "Store"):
        setter(cls, "sign", -1.0)
    setter("StorageUnit", "cyclic_state_of_charge", False)
    setter("Store", "e_cyclic", False)

    def weighting(n, r):
        n.snapshot_weightings.loc[r.choice(list(n.snapshots)),
                                  r.choice(list(n.snapshot_weightings.columns))] = 2.0

    res["snapshot weighting"] = weighting
    res["investment periods"] = lambda n, r: n.set_investment_periods([2030, 2040])
    buses = [o.name for o in net.of("Bus")]
    if len(buses) > 1:
        res["line"] = lambda n, r: n.add("Line", "line", bus0=buses[0], bus1=buses[1],
                                         x=0.1, s_nom=10)
        res["transformer"] = lambda n, r: n.add("Transformer", "t", bus0=buses[0],
                                                bus1=buses[1], x=0.1, s_nom=10)

    def gc(**kw):
        a = dict(type="primary_energy", carrier_attribute="co2_emissions", sense="<=",
                 constant=10.0)
        a.update(kw)
        return lambda n, r: n.add("GlobalConstraint", "limit", **a)

    res["constraint sense"] = gc(sense=">=")
    res["constraint type"] = gc(type="tech_capacity_expansion_limit")
    res["constraint on lines"] = gc(type="transmission_volume_expansion_limit")
    res["constraint attribute"] = gc(carrier_attribute="nox_emissions")
    return res


def refusals(case):
    r = case.rng
    net = N.NetGen(r).net_()
    fs = features(net)
    name = r.choice(sorted(fs))
    n = N.build(net)
    fs[name](n, r)
    case.note(network=repr(net), feature=name)
    with A.scratch() as d:
        e = raises(lambda: convert(n, d), Exception)
    case.check(e is not None, "a network with a feature the converter does not support"
               " was converted", feature=name)
    case.ev("refused")
    case.distinct((name, repr(net)))
    case.ev("refused: " + name)


WORKLOADS = [
    Workload("networks", networks, 420, timeout=300),
    Workload("refusals", refusals, 200, timeout=300),
]

import math

from vf import antares as A
from vf import shipped as H
from vf.core import Workload
from vf.lp import INF

PROPERTY = "C25"
RULE = (
    "a case is a random system over the shipped libraries, built and solved by the code for"
    " its own cost and several other objectives; distinct by system, non-trivial if it has"
    " a variable"
)
ASSUMPTIONS = [
    "the equations of the libraries at the pinned commit are the reference, written anew in"
    " vf/shipped.py; both problems are solved by SCIP or GLOP",
    "variables are confined to a large box in both problems when other objectives than the"
    " cost are compared, so that optima exist",
    "minimal durations are at least one hour and at most the block",
]
REQUIRE = {
    "system built": 150, "area": 100, "load": 60, "link": 25, "renewable": 30,
    "thermal": 60, "short-term-storage": 50, "dsr": 30, "battery": 30, "electrolyser": 15,
    "bus": 80, "generator": 150, "storage_unit": 20, "store": 20, "emission limit": 15,
    "cost compared": 120, "objective compared": 400, "solution satisfies the equations": 500,
    "equation": 10000, "several scenarios": 50, "minimal duration binds": 20,
}
BOX = 1e3


def proto(solver):
    from ortools.linear_solver import linear_solver_pb2

    m = linear_solver_pb2.MPModelProto()
    solver.ExportModelToProto(m)
    return m


def reference(sy, eqs):
    from ortools.linear_solver import linear_solver_pb2

    m = linear_solver_pb2.MPModelProto()
    at = {}
    for k, (lo, hi, integer) in eqs.vars.items():
        at[k] = len(m.variable)
        m.variable.add(name=H.name(sy, k), lower_bound=lo, upper_bound=hi,
                       is_integer=integer, objective_coefficient=eqs.obj.get(k, 0))
    for lo, c, hi, _ in eqs.rows:
        x = m.constraint.add(lower_bound=lo, upper_bound=hi)
        for k, v in c.items():
            x.var_index.append(at[k])
            x.coefficient.append(v)
    return m


def solve(m, integer):
    from ortools.linear_solver import pywraplp

    s = pywraplp.Solver.CreateSolver("SCIP" if integer else "GLOP")
    s.LoadModelFromProto(m)
    if integer:
        p = pywraplp.MPSolverParameters()
        p.SetDoubleParam(p.RELATIVE_MIP_GAP, 0.0)
        s.SetTimeLimit(20000)
        return s, s.Solve(p)
    return s, s.Solve()


def boxed(m, B=BOX):
    from ortools.linear_solver import linear_solver_pb2

    x = linear_solver_pb2.MPModelProto()
    x.CopyFrom(m)
    for v in x.variable:
        v.lower_bound = max(v.lower_bound, -B)
        v.upper_bound = min(v.upper_bound, B)
    return x


def aim(m, obj, offset=0.0):
    for v in m.variable:
        v.objective_coefficient = obj.get(v.name, 0.0)
    m.objective_offset = offset


def satisfied(case, sy, eqs, values, what):
    """a point of the named variables against the equations"""
    tol = 1e-5
    for k, (lo, hi, integer) in eqs.vars.items():
        x = values[H.name(sy, k)]
        ok = lo - tol * max(1, abs(lo)) <= x <= hi + tol * max(1, abs(hi))
        if integer:
            ok = ok and abs(x - round(x)) < 1e-4
        case.check(ok, "a solution leaves the limits of a variable", variable=k, got=x,
                   low=lo, high=hi, integer=integer, solution=what)
    for lo, c, hi, n in eqs.rows:
        terms = [(v * values[H.name(sy, k)]) for k, v in c.items()]
        x = math.fsum(terms)
        t = tol * max([1.0] + [abs(v) for v in terms])
        case.check(lo - t <= x <= hi + t, "a solution does not satisfy an equation",
                   equation=n, low=lo, got=x, high=hi, terms=c, solution=what)
        case.ev("equation")
        if (" up " in n or " down " in n) and x > hi - 1e-6 and any(
                abs(v) > 0.5 for v in terms):
            case.ev("minimal duration binds")
    case.ev("solution satisfies the equations")


def values(m, s):
    return {v.name: x.solution_value() for v, x in zip(m.variable, s.variables())}


def same(a, b):
    return abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b)) + 1e-4


def systems(make, integer):
    def run(case):
        r = case.rng
        sy = getattr(H.Gen(r), make)()
        case.note(system=repr(sy))
        eqs = H.equations(sy)
        # a lower limit above the upper one: refused or infeasible, as the code likes
        empty = [k for k, (lo, hi, _) in eqs.vars.items() if lo > hi]
        for _, model, _ in sy.comps.values():
            case.ev("emission limit" if model.startswith("global") else model)
        if sy.S > 1:
            case.ev("several scenarios")
        with A.scratch() as d:
            problem = H.build(sy, d, r)
        case.ev("system built")
        got = proto(problem.solver)
        for x in list(got.variable) + list(got.constraint):
            if x.lower_bound < -1e17:
                x.lower_bound = -math.inf
            if x.upper_bound > 1e17:
                x.upper_bound = math.inf
        want = reference(sy, eqs)
        names = {H.name(sy, k): k for k in eqs.vars}
        have = {v.name for v in got.variable}
        case.check(set(names) <= have, "a variable of a model is missing",
                   missing=sorted(set(names) - have))
        assert not empty, empty
        real = {v.name: v.objective_coefficient for v in got.variable
                if v.objective_coefficient}
        cost = {H.name(sy, k): v for k, v in eqs.obj.items()}
        goals = [("cost", real, cost, got.objective_offset)]
        ns = sorted(names)
        for i in range(4):
            k = r.randint(1, min(6, len(ns))) if ns else 0
            o = {n: float(r.choice([-5, -3, -1, 1, 2, 4])) for n in r.sample(ns, k)}
            if r.random() < 0.5:
                for n, v in cost.items():
                    o[n] = o.get(n, 0.0) + v * r.choice([0.25, 1.0])
            goals.append((f"objective {i}", o, o, 0.0))
        box = [(boxed(got), boxed(want)), (got, want)]
        for what, o1, o2, off in goals:
            for free in ((True, False) if what == "cost" else (False,)):
                a, b = box[free]
                aim(a, o1, off)
                aim(b, o2, eqs.const)
                s1, st1 = solve(a, integer)
                s2, st2 = solve(b, integer)
                ok = (s1.OPTIMAL, s1.INFEASIBLE)
                if free:
                    if st1 == s1.OPTIMAL:
                        satisfied(case, sy, eqs, values(a, s1), what)
                    if st2 not in ok or st1 not in ok:
                        case.ev("no finite optimum")
                        continue
                elif st1 not in ok or st2 not in ok:
                    case.ev("solver gave up")
                    continue
                case.check(st1 == st2, "one of the problem and the equations is feasible,"
                           " not the other", problem=st1, equations=st2, objective=what,
                           terms=o2, boxed=not free)
                if st1 == s1.INFEASIBLE:
                    case.ev("infeasible")
                    continue
                x, y = s1.Objective().Value(), s2.Objective().Value()
                case.check(same(x, y), "the problem and the equations have other optima",
                           problem=x, equations=y, objective=what, terms=o2,
                           boxed=not free)
                case.ev("cost compared" if what == "cost" else "objective compared")
                if not free:
                    satisfied(case, sy, eqs, values(a, s1), what)
        if ns:
            case.distinct(repr(sy))
        case.sample(dict(T=sy.T, S=sy.S, models=[c[1] for c in sy.comps.values()],
                         variables=len(eqs.vars), equations=len(eqs.rows)))

    return run


WORKLOADS = [
    Workload("units", systems("units", True), 400, timeout=300),
    Workload("historic", systems("historic", True), 300, timeout=300),
    Workload("pypsa", systems("pypsa", False), 300, timeout=300),
]

import copy
import math
from fractions import Fraction as F

from vf import lp as L
from vf import problem as P
from vf import sysgen as G
from vf.core import Workload

PROPERTY = "C16"
RULE = (
    "a case is a solved problem whose outputs are read, or a sequence of operations on"
    " outputs; distinct by the values, non-trivial if some value is not null"
)
ASSUMPTIONS = [
    "values of size one are numbers: [v] and [[v]] read back as v, and the outputs of a"
    " problem of one time step and one scenario are numbers",
    "lists of scenarios have the same number of time steps",
    "solver tolerance 1e-6 on rows and objective",
]
REQUIRE = {
    "problem solved": 300, "value compared": 8000, "scenario and time value": 2000,
    "row satisfied": 2000, "objective reproduced": 300, "value set and read": 1500,
    "outputs equal": 300, "outputs different": 500, "ignored": 300, "close": 300,
    "benders solution": 200,
}


def shape(values, T, S, time, scen):
    """the documented shape, from {(t, s): value}"""
    nt, ns = (T if time else 1), (S if scen else 1)
    if nt == 1 and ns == 1:
        return values[(0, 0)]
    if nt == 1:
        return [values[(0, s)] for s in range(ns)]
    return [[values[(t, s)] for t in range(nt)] for s in range(ns)]


def compare_outputs(case, st, problem, got_values):
    """got_values: {solver name: value}"""
    from andromede.simulation import OutputValues

    out = OutputValues(problem)
    T, S = len(st.block), st.S
    for c in st.spec.components:
        m = st.spec.models[c.model]
        for v in m.variables:
            vals = {}
            for t in range(T) if v.time else [0]:
                for s in range(S) if v.scen else [0]:
                    n = L.var_name((c.id, v.name, t if v.time else None,
                                    s if v.scen else None), T, S)
                    vals[(t, s)] = got_values[n]
                    case.ev("value compared")
                    if v.time and v.scen and T > 1 and S > 1:
                        case.ev("scenario and time value")
            want = shape(vals, T, S, v.time, v.scen)
            got = out.component(c.id).var(v.name).value
            case.check(got == want, "the reported values are not those of the solver",
                       variable=(c.id, v.name, v.time, v.scen), got=got, expected=want)
    ids = {c.id for c in st.spec.components if st.spec.models[c.model].variables}
    # nothing else is reported: equal to what the solver says, set by hand
    other = OutputValues()
    for c in st.spec.components:
        m = st.spec.models[c.model]
        for v in m.variables:
            other.component(c.id).var(v.name).value = out.component(c.id).var(v.name).value
    case.check(out == other and other == out, "outputs have other components or variables",
               got=str(out), expected=str(other))
    case.distinct(str(out))
    case.sample(dict(block=st.block, scenarios=S, outputs=str(out)[:600]))
    return out


def fixed_values(case):
    """each variable instance is fixed to its own value"""
    r = case.rng
    T, S = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3])
    spec = G.Spec(horizon=T, scenarios=S)
    k = 0
    for i in range(r.randint(1, 2)):
        m = G.ModelSpec(f"m{i}")
        for j in range(r.randint(1, 5)):
            ti, sc = r.random() < 0.6, r.random() < 0.6
            m.params[f"p{j}"] = (ti, sc)
            m.variables.append(G.VarSpec(f"x{j}", r.choice(["continuous", "integer"]),
                                         ("par", f"p{j}"), ("par", f"p{j}"), ti, sc))
        spec.models[m.id] = m
    for i in range(r.randint(1, 4)):
        m = r.choice(list(spec.models.values()))
        c = G.CompSpec(f"{r.choice(['N', 'G '])}{i}", m.id, r.random() < 0.3)
        spec.components.append(c)
        for n, (ti, sc) in m.params.items():
            def nxt():
                nonlocal k
                k += 1
                return F(k if r.random() < 0.95 else 0)
            if ti and sc:
                d = ("tss", [[nxt() for _ in range(S)] for _ in range(T)])
            elif ti:
                d = ("ts", [nxt() for _ in range(T)])
            elif sc:
                d = ("ss", [nxt() for _ in range(S)])
            else:
                d = ("const", nxt())
            spec.data[(c.id, n)] = d
    st = P.Setup(spec, list(range(T)), S)
    case.note(**st.text())
    p = P.build(st, solver="SCIP")
    status = p.solver.Solve()
    assert status == p.solver.OPTIMAL, status
    case.ev("problem solved")
    vals = {n: float(v[0]) for n, v in st.reference().vars.items()}
    vals = {v.name(): v.solution_value() for v in p.solver.variables()}
    for n, b in st.reference().vars.items():
        case.check(abs(vals[n] - float(b[0])) < 1e-6, "a fixed variable has another value",
                   variable=n, got=vals[n], expected=float(b[0]))
    compare_outputs(case, st, p, vals)


def solved(case):
    """random feasible problems: values, rows and objective"""
    r = case.rng
    T, S = r.choice([1, 2, 3]), r.choice([1, 2, 3])
    g = G.SysGen(r, T=T, S=S, depth=2, kinds=r.random() < 0.5)
    spec = g.system()
    for m in spec.models.values():
        for v in m.variables:
            if v.kind != "boolean":
                v.lb, v.ub = ("lit", F(-r.randint(0, 20))), ("lit", F(r.randint(0, 20)))
        if m.obj_op is None and m.variables:
            v = r.choice(m.variables)
            m.obj_op = ("mul", ("lit", F(r.choice([-2, 3]))),
                        ("expec", ("asum", ("var", v.name))) if v.time and v.scen else
                        ("asum", ("var", v.name)) if v.time else
                        ("expec", ("var", v.name)) if v.scen else ("var", v.name))
    st = P.Setup(spec, list(range(T)), S)
    cons = [(m, x, c) for m in spec.models.values() for x in (m.constraints, m.bindings)
            for c in list(x)]
    while True:
        case.note(**st.text())
        ref = st.reference()
        p = P.build(st, rng=r, solver="SCIP")
        if p.solver.Solve() == p.solver.OPTIMAL:
            break
        if not cons:
            return
        m, x, c = cons.pop(r.randrange(len(cons)))
        x.remove(c)
    case.ev("problem solved")
    vals = {v.name(): v.solution_value() for v in p.solver.variables()}
    out = compare_outputs(case, st, p, vals)

    def value(name):
        return vals[name]

    # the reported values, not the solver's, satisfy the rows of the reference
    rep = {}
    for c in spec.components:
        for v in spec.models[c.model].variables:
            x = out.component(c.id).var(v.name).value
            for t in range(T) if v.time else [0]:
                for s in range(S) if v.scen else [0]:
                    y = x
                    if isinstance(y, list):
                        y = y[s]
                    if isinstance(y, list):
                        y = y[t]
                    rep[L.var_name((c.id, v.name, t if v.time else None,
                                    s if v.scen else None), T, S)] = y
    for n, (lb, ub, co) in ref.cons.items():
        x = sum(float(a) * rep[k] for k, a in co.items())
        tol = 1e-5 * max([1.0] + [abs(float(a) * rep[k]) for k, a in co.items()]
                         + [abs(float(b)) for b in (lb, ub) if abs(b) < 1e300])
        case.check(lb - tol <= x <= ub + tol, "the reported values violate a constraint",
                   row=n, value=x, bounds=(float(lb), float(ub)))
        case.ev("row satisfied")
    obj = float(ref.offset) + sum(float(a) * rep[k] for k, a in ref.obj.items())
    got = p.solver.Objective().Value()
    tol = 1e-5 * max([1.0, abs(got)] + [abs(float(a) * rep[k]) for k, a in ref.obj.items()])
    case.check(abs(obj - got) <= tol, "the reported values do not reproduce the objective",
               objective=got, recomputed=obj)
    case.ev("objective reproduced")


# ------------------------------------------------------------------ comparison


def val(r):
    return r.choice([0.0, 1.0, -1.0, 2.5, 100.0, 1e-12, 1e9, 3.0])


def make_value(r, depth=None):
    k = r.choice(["n", "s", "ts", "ts"])
    if k == "n":
        return val(r)
    if k == "s":
        return [val(r) for _ in range(r.randint(1, 3))]
    n = r.randint(1, 3)
    return [[val(r) for _ in range(n)] for _ in range(r.randint(1, 3))]


def normal(v):
    """size one means a number; [[a], [b]] is [a, b]"""
    if not isinstance(v, list):
        return v
    if isinstance(v[0], list):
        if len(v[0]) == 1:
            v = [x[0] for x in v]
        else:
            return [list(x) for x in v]
    return v[0] if len(v) == 1 else list(v)


def draw_outputs(r):
    comps = {}
    for c in r.sample(["a", "b", "c"], r.randint(0, 3)):
        comps[c] = [False, {v: [False, make_value(r)]
                            for v in r.sample(["x", "y", "z"], r.randint(0, 3))}]
    return comps


def build(r, d):
    from andromede.simulation import OutputValues

    o = OutputValues()
    cs = list(d.items())
    r.shuffle(cs)
    for c, (ign, vs) in cs:
        k = o.component(c)
        items = list(vs.items())
        r.shuffle(items)
        for v, (iv, x) in items:
            if r.random() < 0.3:
                k.var(v).value = make_value(r)  # replaced below
            k.var(v).value = copy.deepcopy(x)
            if iv:
                k.var(v).ignore = True
        if ign:
            k.ignore = True
    return o


def flat(v):
    v = normal(v)
    if not isinstance(v, list):
        return "n", [v]
    if not isinstance(v[0], list):
        return ("s", len(v)), v
    return ("ts", len(v), len(v[0])), [x for row in v for x in row]


def equal(a, b, close):
    def values(x, y):
        sx, fx = flat(x)
        sy, fy = flat(y)
        return sx == sy and all(close(p, q) for p, q in zip(fx, fy))

    for c in set(a) | set(b):
        if c not in a or c not in b:
            if not (a.get(c) or b.get(c))[0]:
                return False
            continue
        if a[c][0] or b[c][0]:
            continue
        va, vb = a[c][1], b[c][1]
        for v in set(va) | set(vb):
            if v not in va or v not in vb:
                if not (va.get(v) or vb.get(v))[0]:
                    return False
                continue
            if va[v][0] or vb[v][0]:
                continue
            if not values(va[v][1], vb[v][1]):
                return False
    return True


def tweak(r, d):
    """one change"""
    d = copy.deepcopy(d)
    k = r.choice(["none", "value", "value", "small", "small", "shape", "drop var", "add var",
                  "drop comp", "add comp", "ignore var", "ignore comp", "rename var",
                  "transpose"])
    cs = list(d)
    if k == "add comp" or not cs:
        d[r.choice(["a", "b", "c", "n"])] = [r.random() < 0.3, {"x": [False, val(r)]}]
        return d
    c = r.choice(cs)
    vs = d[c][1]
    if k == "drop comp":
        del d[c]
    elif k == "ignore comp":
        d[c][0] = True
    elif k == "add var" or not vs:
        vs[r.choice(["x", "y", "z", "w"])] = [r.random() < 0.3, make_value(r)]
    else:
        v = r.choice(list(vs))
        if k == "drop var":
            del vs[v]
        elif k == "ignore var":
            vs[v][0] = True
        elif k == "rename var":
            vs["w"] = vs.pop(v)
        elif k == "shape":
            vs[v][1] = make_value(r)
        elif k == "transpose":
            x = vs[v][1]
            if isinstance(x, list) and isinstance(x[0], list):
                vs[v][1] = [list(y) for y in zip(*x)]
            elif isinstance(x, list):
                vs[v][1] = [x]
        elif k in ("value", "small"):
            f = (lambda y: y + r.choice([1.0, -3.0])) if k == "value" else \
                (lambda y: y * (1 + r.choice([1e-12, 1e-7, -1e-5, 1e-3])) +
                 r.choice([0, 1e-12, 1e-6, -1e-4]))
            x = vs[v][1]
            if not isinstance(x, list):
                vs[v][1] = f(x)
            else:
                i = r.randrange(len(x))
                if isinstance(x[i], list):
                    j = r.randrange(len(x[i]))
                    x[i][j] = f(x[i][j])
                else:
                    x[i] = f(x[i])
    return d


def comparisons(case):
    r = case.rng
    a = draw_outputs(r)
    if r.random() < 0.3:
        for _, vs in a.values():
            for v in vs.values():
                v[0] = r.random() < 0.2
    b = copy.deepcopy(a)
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        b = tweak(r, b)
    oa, ob = build(r, a), build(r, b)
    case.note(a=a, b=b)
    for d, o in ((a, oa), (b, ob)):
        for c, (_, vs) in d.items():
            for v, (_, x) in vs.items():
                got = o.component(c).var(v).value
                case.check(got == normal(x), "a value read back differs from the one set",
                           set=x, read=got)
                case.ev("value set and read")
    w = equal(a, b, lambda p, q: p == q)
    for x, y in ((oa, ob), (ob, oa)):
        case.check((x == y) == w, "equality of outputs", a=a, b=b, got=x == y, expected=w)
    case.check(oa == oa and oa == build(r, a), "an output differs from itself", a=a)
    case.ev("outputs equal" if w else "outputs different")
    if any(c[0] or any(v[0] for v in c[1].values()) for c in [*a.values(), *b.values()]):
        case.ev("ignored")
    for rel, ab in [(1e-9, 0.0), (r.choice([0.0, 1e-9, 1e-6, 1e-2]),
                                  r.choice([0.0, 1e-9, 1e-5, 0.5]))]:
        w = equal(a, b, lambda p, q: math.isclose(p, q, rel_tol=rel, abs_tol=ab))
        for x, y in ((oa, ob), (ob, oa)):
            if (rel, ab) == (1e-9, 0.0) and r.random() < 0.5:
                got = x.is_close(y)  # the documented tolerances
            else:
                got = x.is_close(y, rel_tol=rel, abs_tol=ab)
            case.check(got == w, "closeness of outputs", a=a, b=b, tolerances=(rel, ab),
                       got=got, expected=w)
        case.ev("close" if w else "not close")
    # comparing creates nothing
    for d, o in ((a, oa), (b, ob)):
        case.check(o == build(r, d), "comparing modified the outputs", outputs=d)
    for c in set(a) & set(b):
        va, vb = a[c][1], b[c][1]
        ca, cb = oa.component(c), ob.component(c)
        w = equal({c: a[c]}, {c: b[c]}, lambda p, q: p == q)
        case.check((ca == cb) == w and (cb == ca) == w, "equality of components", a=a[c], b=b[c])
        w = equal({c: a[c]}, {c: b[c]}, lambda p, q: math.isclose(p, q))
        case.check(ca.is_close(cb) == w and cb.is_close(ca) == w, "closeness of components",
                   a=a[c], b=b[c])
        for v in set(va) & set(vb):
            w = equal({c: [0, {v: va[v]}]}, {c: [0, {v: vb[v]}]},
                      lambda p, q: math.isclose(p, q))
            case.check(ca.var(v).is_close(cb.var(v)) == w, "closeness of variables",
                       a=va[v], b=vb[v])
            w = va[v][0] or vb[v][0] or flat(va[v][1]) == flat(vb[v][1])
            case.check((ca.var(v) == cb.var(v)) == w, "equality of variables", a=va[v], b=vb[v])
    for c, (ign, vs) in a.items():  # the same content under another name
        twin = build(r, {c + "'": (ign, vs)}).component(c + "'")
        k = oa.component(c)
        case.check((k == twin) == ign and k.is_close(twin) == ign,
                   "components of different names are equal", component=a[c])
        for v, (iv, x) in vs.items():
            u = twin.var(v + "'")
            u.value = copy.deepcopy(x)
            case.check((k.var(v) == u) == iv and k.var(v).is_close(u) == iv,
                       "variables of different names are equal", variable=vs[v])
            case.ev("other name")
    case.distinct((repr(a), repr(b)))


def setting(case):
    """sequences of assignments: the last one is read"""
    from andromede.simulation import OutputValues

    r = case.rng
    o = OutputValues()
    state = {}
    for _ in range(r.randint(2, 8)):
        k = (r.choice("ab"), r.choice("xy"))
        v = make_value(r)
        o.component(k[0]).var(k[1]).value = v
        state[k] = copy.deepcopy(v)
        for (c, n), w in state.items():
            got = o.component(c).var(n).value
            case.check(got == normal(w), "a value read back differs from the last one set",
                       variable=(c, n), set=w, read=got)
            case.ev("value set and read")
    case.distinct(repr(state))


def benders(case):
    from andromede.simulation.output_values import (
        BendersDecomposedSolution, BendersMergedSolution, BendersSolution,
    )

    r = case.rng
    keys = ["investment_cost", "operational_cost", "overall_cost", "problem_status",
            "optimality_gap", "relative_gap", "stopping_criterion", "lb", "ub", "iteration"]
    num = lambda: r.choice([0.0, 1.0, 72000.0, -3.5, 1e9, 1e-12])

    def draw():
        return {"solution": {**{k: num() for k in keys},
                             "values": {c: num() for c in
                                        r.sample(["A_p_max", "B_p_max", "C"], r.randint(0, 3))},
                             }, "run_duration": num()}

    a = draw()
    b = copy.deepcopy(a)
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.choice(["cost", "cand", "drop", "add", "other", "small"])
        vs = b["solution"]["values"]
        if k == "cost":
            b["solution"]["overall_cost"] += r.choice([1, 1e-4, 1e-12])
        elif k == "other":
            b["solution"][r.choice(["iteration", "lb", "relative_gap"])] = 17
        elif k == "add":
            vs["new"] = num()
        elif vs:
            c = r.choice(list(vs))
            if k == "drop":
                del vs[c]
            else:
                vs[c] += r.choice([1, -5]) if k == "cand" else r.choice([1e-12, 1e-6])
    A, B = BendersSolution(a), BendersSolution(b)
    case.note(a=a, b=b)
    sa, sb = a["solution"], b["solution"]
    w = sa["overall_cost"] == sb["overall_cost"] and sa["values"] == sb["values"]
    case.check((A == B) == w and (B == A) == w, "equality of Benders solutions", a=a, b=b)
    rel, ab = r.choice([(1e-9, 0.0), (1e-6, 0.0), (0.0, 1e-3), (0.0, 0.0), (1e-2, 2.0)])
    cl = lambda p, q: math.isclose(p, q, rel_tol=rel, abs_tol=ab)
    w = cl(sa["overall_cost"], sb["overall_cost"]) and sa["values"].keys() == \
        sb["values"].keys() and all(cl(sa["values"][k], sb["values"][k]) for k in sa["values"])
    case.check(A.is_close(B, rel_tol=rel, abs_tol=ab) == w and
               B.is_close(A, rel_tol=rel, abs_tol=ab) == w,
               "closeness of Benders solutions", a=a, b=b, tolerances=(rel, ab))
    want = dict(investment_cost="investment_cost", operational_cost="operational_cost",
                overall_cost="overall_cost", status="problem_status",
                absolute_gap="optimality_gap", relative_gap="relative_gap",
                stopping_criterion="stopping_criterion")
    for attr, k in want.items():
        case.check(getattr(A, attr) == sa[k], "a field of the solution is read elsewhere",
                   field=attr)
    case.check(A.candidates == sa["values"], "candidates")
    D, M = BendersDecomposedSolution(a), BendersMergedSolution(a)
    case.check((D.nb_iterations, D.duration, M.lower_bound, M.upper_bound)
               == (sa["iteration"], a["run_duration"], sa["lb"], sa["ub"]),
               "a field of the solution is read elsewhere")
    case.ev("benders solution")
    case.distinct((repr(a), repr(b)))


WORKLOADS = [
    Workload("fixed_values", fixed_values, 500),
    Workload("solved", solved, 500),
    Workload("comparisons", comparisons, 3000),
    Workload("setting", setting, 1000),
    Workload("benders", benders, 800),
]

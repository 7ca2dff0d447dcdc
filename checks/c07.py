import random

from andromede.expression.context_adder import add_component_context
from andromede.expression.evaluate import ValueProvider, evaluate
from andromede.expression.indexing import IndexingStructureProvider
from andromede.expression.indexing_structure import IndexingStructure
from andromede.expression.operators_expansion import ProblemDimensions, expand_operators
from andromede.simulation.linearize import ParameterGetter, linearize_expression

from vf import expr as X
from vf import lp as L
from vf import magnitudes as M
from vf.core import Workload, raises
from vf.expr import F, Gen

PROPERTY = "C07"
RULE = (
    "distinct by expression, structures, T and S; non-trivial when it has a time or"
    " scenario operator"
)
ASSUMPTIONS = [
    "reference: direct denotational evaluation with exact rationals; float results within 1e-8",
    "time steps of terms are compared modulo the block length (C12)",
    "operators over an expression already evaluated at an absolute time are either refused"
    " by the code or a known finding, and are generated only by the known-finding workload",
]
REQUIRE = {
    "instance compared": 3000, "coefficient compared": 5000, "shift": 500, "eval": 200,
    "tsum": 500, "asum": 500, "expec": 500, "nested operators": 500,
    "parameter read at the right place": 3000, "refused": 300,
}


class Structs(IndexingStructureProvider):
    def __init__(self, s):
        self.s = s

    def get_component_variable_structure(self, component_id, name):
        return IndexingStructure(*self.s[name])

    get_component_parameter_structure = get_component_variable_structure

    def get_parameter_structure(self, name):
        raise AssertionError("component expected")

    get_variable_structure = get_parameter_structure


class Getter(ParameterGetter):
    """values of parameters, as a function of component, name, time step and scenario"""

    def __init__(self, seed, fixed=(), T=None):
        self.seed, self.fixed, self.T = seed, dict(fixed), T
        self.log = []

    def get_parameter_value(self, component_id, parameter_name, timestep, scenario):
        if self.T is not None and timestep is not None:
            timestep %= self.T
        self.log.append((component_id, parameter_name, timestep, scenario))
        return float(self.value(component_id, parameter_name, timestep, scenario))

    def value(self, c, n, t, s):
        if (c, n) in self.fixed:
            return self.fixed[(c, n)]
        r = random.Random(f"{self.seed}/{c}/{n}/{t}/{s}")
        return r.choice(X.VALUES)


def bound_evaluator(getter):
    class P(ValueProvider):
        def get_variable_value(self, name):
            raise ValueError("not constant")

        get_parameter_value = get_variable_value

        def get_component_variable_value(self, component_id, name):
            raise ValueError("not constant")

        def get_component_parameter_value(self, component_id, name):
            return float(getter.fixed[(component_id, name)])

    def ev(node):
        v = evaluate(node, P())
        if v != int(v):
            raise ValueError("not an integer")
        return int(v)

    return ev


def lin_of(expr, T):
    """terms of a linear expression of the code, modulo the block length"""
    d = {}
    for t in expr.terms.values():
        k = (t.component_id, t.variable_name,
             None if t.time_index is None else t.time_index % T, t.scenario_index)
        d[k] = d.get(k, 0) + t.coefficient
    return d, expr.constant


def compare(case, lin, want, e, T):
    got, const = lin_of(lin, T)
    sc = max([1.0] + [abs(float(v)) for v in want.terms.values()])
    for k in set(got) | set(want.terms):
        case.ev("coefficient compared")
        a, b = got.get(k, 0), float(want.terms.get(k, 0))
        case.check(abs(a - b) <= 1e-8 * sc, f"wrong coefficient of {k}",
                   expression=X.show(e), got=a, expected=b)
    case.check(abs(const - want.const) <= 1e-8 * max(1, abs(want.const)),
               "wrong constant", expression=X.show(e), got=const,
               expected=float(want.const))


def instances(case):
    rng = case.rng
    T, S = rng.choice([1, 2, 3, 4, 7]), rng.choice([1, 2, 3])
    vs, ps = ["x", "y", "z"][: rng.randint(1, 3)], ["p", "q"]
    any_ = lambda: (rng.random() < 0.65, rng.random() < 0.65)
    st = {n: any_() for n in vs + ps}
    ints = {"n": rng.choice([-2, -1, 0, 1, 2, 3]), "m": rng.choice([1, 2])}
    for n in ints:
        st[n] = (False, False)
    g = Gen(rng, vs, ps, ints, T=T)
    e = g.linear(rng.randint(1, 5))
    ops = [x[0] for x in X.walk(e) if x[0] in ("shift", "eval", "tsum", "asum", "expec")]
    for o in ops:
        case.ev(o)
    if len(ops) > 1:
        case.ev("nested operators")
    if ops:
        case.distinct((X.show(e), T, S, sorted(st.items())))
    case.note(expression=X.show(e), T=T, S=S, structures=st, ints=ints)
    case.sample(dict(expression=X.show(e), T=T, S=S))
    getter = Getter(f"{case.seed}/{case.index}", {("C", n): F(v) for n, v in ints.items()}, T)
    node = add_component_context("C", X.to_nodes(e, rng))
    ex = expand_operators(node, ProblemDimensions(T, S), bound_evaluator(getter), Structs(st))
    env = X.Env(T, S, getter.value, lambda c, k, n: st[n])
    allowed = set()
    for t in range(T):
        for s in range(S):
            want = X.den(e, env, "C", t, s).clean()
            getter.log.clear()
            got = linearize_expression(ex, t, s, getter)
            case.ev("instance compared")
            for (c, n, tt, ss) in getter.log:
                case.ev("parameter read at the right place")
                case.check(
                    (tt is not None) == st[n][0] and (ss is not None) == st[n][1]
                    and (ss is None or 0 <= ss < S),
                    "a parameter was read at a place it is not defined at",
                    parameter=n, structure=st[n], t=tt, s=ss, expression=X.show(e),
                )
            compare(case, got, want, e, T)


def refusals(case):
    """what has no linear meaning is refused, wherever it hides"""
    rng = case.rng
    T, S = 3, 2
    st = {"x": (True, True), "y": (False, True), "p": (True, True), "c": (False, False),
          "h": (False, False), "tp": (True, False), "sp": (False, True)}
    fixed = {("C", "c"): F(2), ("C", "h"): F(1, 2)}
    g = Gen(rng, ["x", "y"], ["p"], {}, T=T, time_ops=False, scenario_ops=False)
    small = lambda: ("var", rng.choice(["x", "y"]))
    kind = rng.choice(["product", "division", "half", "time", "scenario", "variable bound"])
    if kind == "product":
        bad = ("mul", small(), rng.choice([small(), ("add", small(), ("lit", F(1))), ("neg", small())]))
    elif kind == "division":
        bad = ("div", rng.choice([("lit", F(1)), small()]), rng.choice([small(), ("add", small(), ("lit", F(1)))]))
    else:
        b = {"half": ("par", "h"), "time": ("par", "tp"), "scenario": ("par", "sp"),
             "variable bound": ("var", "y")}[kind]
        if rng.random() < 0.5:
            b = ("add", b, ("lit", F(1)))
        op = rng.choice(["shift", "eval", "tsum", "tsum2"])
        bad = {"shift": ("shift", small(), b), "eval": ("eval", small(), b),
               "tsum": ("tsum", small(), ("neg", ("lit", F(1))), b),
               "tsum2": ("tsum", small(), b, ("lit", F(4)))}[op]
    e = bad
    for _ in range(rng.randint(0, 3)):
        k = rng.choice(["add", "mul", "neg", "asum", "expec", "div"])
        if k == "add":
            e = ("add", g.linear(1), e)
        elif k == "mul":
            e = ("mul", ("lit", F(2)), e)
        elif k == "div":
            e = ("div", e, ("lit", F(2)))
        elif k == "asum" and not X.contains(e, "eval"):
            e = ("asum", e)
        elif k == "expec":
            e = ("expec", e)
        else:
            e = ("neg", e)
    half = rng.choice([0.5, 0.5, -0.5, 1.9999, 2.0001, 1 - 1e-6, -1e-6, 1e-3, 7.25])
    case.note(expression=X.show(e), kind=kind, half=half)
    case.distinct(X.show(e))
    getter = Getter(1, fixed, T)
    node = add_component_context("C", X.to_nodes(e, rng))
    # the evaluation of bounds is that of the code, through a real problem
    via_problem = kind not in ("product", "division")
    def run():
        if via_problem:
            build(e, st, half)
        else:
            ex = expand_operators(node, ProblemDimensions(T, S), bound_evaluator(getter),
                                  Structs(st))
            linearize_expression(ex, 0, 0, getter)
    try:
        run()
    except (ValueError, NotImplementedError, TypeError, KeyError) as err:
        case.ev("refused")
        case.ev("refused: " + kind)
        return
    case.fail(f"an expression without linear meaning was accepted ({kind})",
              expression=X.show(e))


def build(e, st, half=0.5):
    """a problem with the single constraint e <= 1"""
    from andromede.model import Constraint, float_parameter, float_variable, model
    from andromede.expression import literal
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study import ConstantData, DataBase, Network, create_component

    m = model(
        id="m",
        parameters=[float_parameter(n, IndexingStructure(*st[n])) for n in st if n not in "xy"],
        variables=[float_variable(n, structure=IndexingStructure(*st[n])) for n in "xy"],
        constraints=[Constraint("k", X.to_nodes(e), upper_bound=literal(1))],
    )
    net = Network("n")
    net.add_component(create_component(model=m, id="C"))
    db = DataBase()
    for n in st:
        if n not in "xy":
            db.add_data("C", n, ConstantData(half if n == "h" else 2.0))
    return build_problem(net, db, TimeBlock(1, [0, 1, 2]), 2)


def known(case):
    """operators over an absolute evaluation"""
    st = {"x": (True, False)}
    for e in (("shift", ("eval", ("var", "x"), ("lit", F(0))), ("neg", ("lit", F(1)))),
              ("tsum", ("eval", ("var", "x"), ("lit", F(0))), ("neg", ("lit", F(1))), ("lit", F(0)))):
        getter = Getter(1, {}, 3)
        env = X.Env(3, 1, getter.value, lambda c, k, n: st[n])
        want = X.den(e, env, "C", 1, 0).clean()
        try:
            ex = expand_operators(add_component_context("C", X.to_nodes(e)),
                                  ProblemDimensions(3, 1), bound_evaluator(getter), Structs(st))
            got = lin_of(linearize_expression(ex, 1, 0, getter), 3)
        except ValueError:
            continue  # refused: fine
        if got[0] != {k: float(v) for k, v in want.terms.items()}:
            case.finding("time-operator-over-evaluation",
                         "an operator over x[0] moves the time step",
                         expression=X.show(e), got=got, expected=want)


def magnitudes(case):
    """numbers of very different sizes, long blocks, many scenarios: 12 digits"""
    r = case.rng
    st = M.setup(r)
    T, S = len(st.block), st.S
    c = r.choice(st.spec.components)
    m = st.spec.models[c.model]
    env = L.make_env(st.spec, st.block, S)
    structs = {v.name: (v.time, v.scen) for v in m.variables}
    structs.update(m.params)
    getter = Getter(0, {}, T)
    getter.value = env.par
    for e in [k.expr for k in m.constraints] + [m.obj_op]:
        if e[0] == "cmp":
            e = ("sub", e[2], e[3])
        node = add_component_context(c.id, X.to_nodes(e, r))
        ex = expand_operators(node, ProblemDimensions(T, S), bound_evaluator(getter),
                              Structs(structs))
        for t, s in {(0, 0), (T - 1, S - 1), (r.randrange(T), r.randrange(S))}:
            want = X.den(e, env, c.id, t, s).clean()
            got, const = lin_of(linearize_expression(ex, t, s, getter), T)
            d = list(M.coefs("expression", {str(k): v for k, v in got.items()},
                             {str(k): v for k, v in want.terms.items()}, M.tolerance(st)))
            case.check(not d and M.near(const, want.const, M.tolerance(st)), "not the value denoted",
                       expression=X.show(e), differences=d[:5], got=const,
                       expected=float(want.const))
            case.ev("number compared to 12 digits", 1 + len(got))
    case.distinct((repr(st.spec), T, S))


WORKLOADS = [
    Workload("magnitudes", magnitudes, 600),
    Workload("instances", instances, 12000),
    Workload("refusals", refusals, 3000),
    Workload("known", known, 1, 1),
]

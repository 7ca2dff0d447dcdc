import dataclasses

from andromede.expression import expression as ex
from andromede.expression.context_adder import add_component_context
from andromede.expression.degree import compute_degree, is_constant, is_linear

from vf import expr as X
from vf.core import Workload, raises
from vf.expr import F, Gen

PROPERTY = "C04"
RULE = "distinct by the expression; non-trivial when it has a product, division or operator"
ASSUMPTIONS = [
    "degree without simplification: 0 * x counts as degree one, as the code documents",
    "scenario operators: expectation only (variance has no expansion in the code)",
]
REQUIRE = {
    "degree 0": 300, "degree 1": 300, "degree 2": 300, "degree 3 or more": 200,
    "division by a variable refused": 200, "operator above a product": 200,
    "parsed expression": 200, "over variables of a problem": 1000,
}

VARS, PARS = ["x", "y"], ["p", "q"]
PORTS = [("port", "flow", "pf"), ("bal", "f", "psum")]


def general(rng, depth, hidden):
    """any expression; hidden: the divisor may contain variables"""
    x = rng.random()
    g = lambda: general(rng, depth - 1, hidden)
    if depth <= 0 or x < 0.1:
        k = rng.random()
        if k < 0.35:
            return ("var", rng.choice(VARS))
        if k < 0.6:
            return ("par", rng.choice(PARS))
        if k < 0.75:
            return ("lit", rng.choice(X.LITS))
        p, f, kind = rng.choice(PORTS)
        return (kind, p, f)
    if x < 0.2:
        return ("neg", g())
    if x < 0.4:
        return (rng.choice(["add", "sub"]), g(), g())
    if x < 0.6:
        return ("mul", g(), g())
    if x < 0.72:
        if rng.random() < hidden:
            return ("div", g(), g())
        return ("div", g(), constant(rng, depth - 1))
    k = rng.choice(["shift", "eval", "tsum", "asum", "expec"])
    if k in ("shift", "eval"):
        return (k, g(), small(rng))
    if k == "tsum":
        return (k, g(), small(rng), small(rng))
    return (k, g())


def small(rng):
    return rng.choice([("lit", F(1)), ("neg", ("lit", F(2))), ("par", "p"),
                       ("add", ("par", "p"), ("lit", F(1)))])


def constant(rng, depth):
    e = Gen(rng, [], PARS).const(max(depth, 0))
    return e


def bad_division(e):
    return any(
        x[0] == "div" and (X.degree(x[2]) > 0) for x in X.walk(e)
    )


def degrees(case):
    rng = case.rng
    e = general(rng, rng.randint(1, 6), rng.choice([0, 0, 0.15]))
    if rng.random() < 0.15:
        e = ("cmp", rng.choice(["=", "<=", ">="]), e, general(rng, 3, 0))
    node = X.to_nodes(e, rng)
    k = rng.random()
    if k < 0.3:
        node = add_component_context("C", node)
    elif k < 0.5:
        node = of_problem(rng, node)
        case.ev("over variables of a problem")
    case.distinct(X.show(e))
    case.sample(X.show(e))
    case.note(expression=X.show(e))
    judge(case, node, e)


def of_problem(rng, n):
    """the expression with its variables and parameters placed in a problem"""
    t = rng.choice([ex.NoTimeIndex(), ex.TimeShift(1), ex.TimeStep(1), ex.TimeShift(0)])
    s = rng.choice([ex.NoScenarioIndex(), ex.CurrentScenarioIndex(), ex.OneScenarioIndex(1)])
    if isinstance(n, ex.VariableNode):
        return ex.ProblemVariableNode("C", n.name, t, s)
    if isinstance(n, ex.ParameterNode):
        return ex.ProblemParameterNode("C", n.name, t, s)
    new = {}
    for f in dataclasses.fields(n):
        v = getattr(n, f.name)
        if isinstance(v, ex.ExpressionNode):
            new[f.name] = of_problem(rng, v)
        elif isinstance(v, list):
            new[f.name] = [of_problem(rng, x) for x in v]
    return dataclasses.replace(n, **new) if new else n


def judge(case, node, e):
    if bad_division(e):
        for f in (compute_degree, is_linear, is_constant):
            case.check(raises(lambda: f(node), ValueError),
                       "a division by an expression with variables was accepted",
                       expression=X.show(e), function=f.__name__)
        case.ev("division by a variable refused")
        return
    want = X.degree(e)
    case.ev(f"degree {want}" if want < 3 else "degree 3 or more")
    if any(x[0] in ("shift", "eval", "tsum", "asum", "expec") and X.degree(x) >= 2
           for x in X.walk(e)):
        case.ev("operator above a product")
    got = compute_degree(node)
    case.check(got == want, "wrong degree", expression=X.show(e), got=got, expected=want)
    case.check(bool(is_constant(node)) == (want == 0), "is_constant is wrong",
               expression=X.show(e), degree=want)
    case.check(bool(is_linear(node)) == (want <= 1), "is_linear is wrong",
               expression=X.show(e), degree=want)


def parsed(case):
    """the same on expressions which come from the textual language"""
    from andromede.expression.parsing.parse_expression import (
        ModelIdentifiers,
        parse_expression,
    )

    rng = case.rng
    e = general(rng, rng.randint(1, 4), 0.1)
    text = X.Renderer(rng, 0.1).top(e)
    case.note(string=text)
    node = parse_expression(text, ModelIdentifiers(set(VARS), set(PARS)))
    case.ev("parsed expression")
    case.distinct(text)
    judge(case, node, e)


WORKLOADS = [Workload("degrees", degrees, 20000), Workload("parsed", parsed, 4000)]

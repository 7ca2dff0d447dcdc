from andromede.expression.context_adder import add_component_context
from andromede.expression.evaluate import ValueProvider, evaluate
from andromede.expression.expression import comp_param, comp_var
from andromede.expression.indexing import IndexingStructureProvider, compute_indexation
from andromede.expression.indexing_structure import IndexingStructure
from andromede.expression.operators_expansion import ProblemDimensions, expand_operators
from andromede.simulation.linearize import linearize_expression

from checks.c07 import Getter, bound_evaluator, lin_of
from vf import expr as X
from vf.core import Workload
from vf.expr import F, Gen

PROPERTY = "C05"
RULE = "distinct by the expression and the structures of its names; non-trivial from 3 nodes"
ASSUMPTIONS = [
    "no simplification: x - x depends on what x depends on",
    "the consequence (same value at all time steps or scenarios) is observed on the"
    " code's own expansion and linearisation",
]
REQUIRE = {
    "index (False, False)": 100, "index (True, False)": 100, "index (False, True)": 100,
    "index (True, True)": 100, "independence observed": 300, "components mixed": 200,
}


class Structs(IndexingStructureProvider):
    def __init__(self, model, comp):
        self.model, self.comp = model, comp

    def get_parameter_structure(self, name):
        return IndexingStructure(*self.model[("par", name)])

    def get_variable_structure(self, name):
        return IndexingStructure(*self.model[("var", name)])

    def get_component_variable_structure(self, component_id, name):
        return IndexingStructure(*self.comp[(component_id, "var", name)])

    def get_component_parameter_structure(self, component_id, name):
        return IndexingStructure(*self.comp[(component_id, "par", name)])


def structures(case):
    rng = case.rng
    T, S = rng.choice([2, 3]), rng.choice([2, 3])
    vs, ps = ["x", "y"], ["p", "q"]
    any_ = lambda: (rng.random() < 0.5, rng.random() < 0.5)
    model = {("var", n): any_() for n in vs}
    model.update({("par", n): any_() for n in ps})
    model[("par", "n")] = (False, False)
    comp = {(c, k, n): (any_() if n != "n" else (False, False))
            for c in ("A", "B") for (k, n) in model}
    st = Structs(model, comp)
    e = Gen(rng, vs, ps, {"n": 1}, T=T).linear(rng.randint(1, 5))
    want = X.idx(e, _Env(lambda c, k, n: model[(k, n)]), "")
    node = X.to_nodes(e, rng)
    if rng.random() < 0.15:
        f = Gen(rng, vs, ps, {"n": 1}, T=T).linear(2)
        e = ("cmp", "<=", e, f)
        node = node <= X.to_nodes(f, rng)
        want = X.idx(e, _Env(lambda c, k, n: model[(k, n)]), "")
    if X.size(e) > 2:
        case.distinct((X.show(e), sorted(model.items())))
    case.note(expression=X.show(e), structures=str(model))
    got = compute_indexation(node, st)
    case.ev(f"index {want}")
    case.check((got.time, got.scenario) == want, "wrong dependency on time and scenario",
               expression=X.show(e), structures=model, got=(got.time, got.scenario),
               expected=want)
    if e[0] == "cmp":
        return
    # two components in the same expression (as after resolution of ports)
    e2 = Gen(rng, vs, ps, {"n": 1}, T=T).linear(rng.randint(0, 3))
    mixed = add_component_context("A", X.to_nodes(e, rng)) + add_component_context(
        "B", X.to_nodes(e2, rng)
    )
    env = _Env(lambda c, k, n: comp[(c, k, n)])
    i1, i2 = X.idx(e, env, "A"), X.idx(e2, env, "B")
    w = (i1[0] or i2[0], i1[1] or i2[1])
    got = compute_indexation(mixed, st)
    case.ev("components mixed")
    case.check((got.time, got.scenario) == w,
               "wrong dependency of an expression over two components",
               A=X.show(e), B=X.show(e2), structures=comp,
               got=(got.time, got.scenario), expected=w)
    # consequence, observed on the instantiated expression
    if w != (True, True):
        getter = Getter(rng.random(), {(c, "n"): F(1) for c in "AB"})
        ex = expand_operators(mixed, ProblemDimensions(T, S),
                              bound_evaluator(getter), st)
        def at(t, s):
            return lin_of(linearize_expression(ex, t, s, getter), T)
        base = at(0, 0)
        for t in range(T) if not w[0] else [0]:
            for s in range(S) if not w[1] else [0]:
                other = at(t, s)
                case.ev("independence observed")
                case.check(
                    same(base, other),
                    "an expression reported independent has several values",
                    A=X.show(e), B=X.show(e2), reported=w, t=t, s=s,
                    first=base, other=other,
                )


def same(a, b):
    keys = set(a[0]) | set(b[0])
    sc = max([1.0] + [abs(v) for v in list(a[0].values()) + [a[1]]])
    return all(abs(a[0].get(k, 0) - b[0].get(k, 0)) <= 1e-9 * sc for k in keys) and abs(
        a[1] - b[1]) <= 1e-9 * sc


class _Env:
    def __init__(self, structure):
        self.structure = structure


WORKLOADS = [Workload("structures", structures, 10000)]

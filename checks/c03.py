import ast
import copy

from andromede.expression import copy_expression, literal, print_expr, var
from andromede.expression.context_adder import add_component_context
from andromede.expression.degree import compute_degree
from andromede.expression.equality import expressions_equal
from andromede.expression import expression as ex
from andromede.expression.evaluate_parameters import (
    ParameterValueProvider,
    resolve_parameters,
)
from andromede.expression.indexing import IndexingStructureProvider, compute_indexation
from andromede.expression.indexing_structure import IndexingStructure

from vf import expr as X
from vf import nodes as N
from vf import sysgen as G
from vf.core import Workload, raises
from vf.expr import F

PROPERTY = "C03"
RULE = (
    "distinct by the expression (or model) and the change made to it; non-trivial when"
    " the expression has at least three nodes"
)
ASSUMPTIONS = [
    "printed texts are read with Python's own grammar, the notation print_expr uses",
    "equality compares all parts but the problem context of variables and constraints,"
    " which the code leaves out deliberately in no documented way (not judged)",
]
REQUIRE = {
    "copied": 300, "context added": 300, "parameters resolved": 300, "printed": 300,
    "equal observed": 300, "different observed": 1000, "model compared equal": 50,
    "model compared different": 200, "within tolerance": 100, "beyond tolerance": 100,
}

VARS, PARS = ["x", "y", "z1"], ["p", "q", "r", "n"]


class Structs(IndexingStructureProvider):
    def __init__(self, s):
        self.s = s

    def get_parameter_structure(self, name):
        return IndexingStructure(*self.s[name])

    get_variable_structure = get_parameter_structure

    def get_component_variable_structure(self, component_id, name):
        assert component_id == "C1"
        return IndexingStructure(*self.s[name])

    get_component_parameter_structure = get_component_variable_structure


class Values(ParameterValueProvider):
    def __init__(self, v):
        self.v = v

    def get_parameter_value(self, name):
        return float(self.v[name])

    def get_component_parameter_value(self, component_id, name):
        return float(self.v[(component_id, name)])


def generate(rng, ports=True, depth=None):
    g = X.Gen(
        rng, VARS, PARS[:3], {"n": 2},
        [("port", "flow", "pf"), ("bal", "f", "psum")] if ports else [],
    )
    e = g.linear(depth or rng.randint(1, 5))
    if rng.random() < 0.25:
        e = ("cmp", rng.choice(["=", "<=", ">="]), e, g.linear(2))
    return e


def same(a, b, seed, ints=None):
    """same value at all time steps and scenarios"""
    return X.numeric(a, seed) == X.numeric(b, seed)


def fix_ints(e):
    """n is worth 2 wherever it is read"""
    return X.substitute(e, lambda l: ("lit", F(2)) if l in (("par", "n"), ("par", ("C1", "n"))) else None)


def rewrite(case):
    rng = case.rng
    ports = rng.random() < 0.4
    e = generate(rng, ports)
    node = X.to_nodes(e, rng)
    before = N.raw(node)
    if X.size(e) > 2:
        case.distinct(X.show(e))
    case.sample(X.show(e))
    case.note(expression=X.show(e))
    structs = {n: (rng.random() < 0.5, rng.random() < 0.5) for n in VARS + PARS}
    st = Structs(structs)

    def facts(n):
        r = [compute_degree(n)]
        if not ports:
            i = compute_indexation(n, st)
            r.append((i.time, i.scenario))
        return r

    base = facts(node)

    def unchanged(what):
        case.check(N.raw(node) == before, f"{what} modified its argument",
                   expression=X.show(e))

    # copy
    c = copy_expression(node)
    case.ev("copied")
    case.check(N.raw_equal(N.raw(c), N.raw(node)) or X.same_meaning(X.from_node(c), e),
               "the copy is another expression", expression=X.show(e),
               copy=X.show(X.from_node(c)))
    case.check(expressions_equal(node, c) and expressions_equal(c, node),
               "an expression is not equal to its copy", expression=X.show(e))
    case.check(facts(c) == base, "the copy has another degree or structure",
               expression=X.show(e), got=facts(c), expected=base)
    unchanged("copy_expression")
    # component
    k = add_component_context("C1", node)
    case.ev("context added")
    got = X.from_node(k)
    want = X.substitute(
        e, lambda l: (l[0], ("C1", l[1])) if l[0] in ("var", "par") else None
    )
    case.check(X.same_meaning(got, want) and X.leaves(got) == X.leaves(want),
               "attaching a component changed the expression",
               expression=X.show(e), got=X.show(got))
    case.check(facts(k) == base, "attaching a component changed degree or structure",
               expression=X.show(e), got=facts(k), expected=base)
    unchanged("add_component_context")
    if any(l[0] in ("var", "par") for l in X.leaves(e)):
        again = rng.choice([lambda: k, lambda: -k, lambda: k + var("x"),
                            lambda: literal(2) * k]) if e[0] != "cmp" else lambda: k
        again = again()
        err = raises(lambda: add_component_context(rng.choice(["C1", "C2"]), again))
        case.check(err is not None, "an expression of a component was attached to another",
                   expression=X.show(e))
        case.ev("second component refused")
    # parameters
    vals = {n: rng.choice(X.VALUES) for n in PARS}
    vals["n"] = F(2)
    vals.update({("C1", n): rng.choice(X.VALUES) for n in PARS})
    # a null value wherever nothing is divided by it
    below = {l[1] for x in X.walk(e) if x[0] == "div" for l in X.leaves(x[2])
             if l[0] == "par"}
    for n in PARS[:3]:
        if n not in below and rng.random() < 0.25:
            vals[n] = vals[("C1", n)] = F(0)
            case.ev("null value")
    for n0, t0 in ((node, e), (k, want)):
        b0 = N.raw(n0)
        r = resolve_parameters(n0, Values(vals))
        case.ev("parameters resolved")
        got = X.from_node(r)
        w = X.substitute(t0, lambda l: ("lit", vals[l[1]]) if l[0] == "par" else None)
        case.check(
            X.same_meaning(got, w) and X.leaves(got) == X.leaves(w),
            "replacing parameters by their values changed the expression",
            expression=X.show(t0), got=X.show(got), expected=X.show(w),
        )
        case.check(N.raw(n0) == b0, "resolve_parameters modified its argument")
    # text
    text = print_expr(node)
    case.ev("printed")
    try:
        got = from_text(text)
    except (SyntaxError, Unreadable) as err:
        case.fail("the printed text cannot be read", expression=X.show(e), text=text,
                  error=err)
    case.check(
        same(fix_ints(got), fix_ints(e), case.index),
        "the printed text has another value", expression=X.show(e), text=text,
    )
    case.check(X.leaves(got) == X.leaves(e), "the printed text has other names",
               expression=X.show(e), text=text)
    unchanged("print_expr")
    tk = print_expr(k)
    for l in X.leaves(want):
        if l[0] in ("var", "par"):
            case.check(l[1][0] in tk and l[1][1] in tk,
                       "the printed text lacks a name", text=tk, name=l[1])


class Unreadable(Exception):
    pass


def from_text(text):
    def go(n):
        if isinstance(n, ast.Constant):
            return ("lit", F(float(n.value)))
        if isinstance(n, ast.Name):
            return ("var" if n.id in VARS else "par", n.id)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return ("neg", go(n.operand))
        if isinstance(n, ast.BinOp):
            k = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div"}
            return (k[type(n.op)], go(n.left), go(n.right))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            k = {ast.Eq: "=", ast.LtE: "<=", ast.GtE: ">="}
            return ("cmp", k[type(n.ops[0])], go(n.left), go(n.comparators[0]))
        if isinstance(n, ast.Call):
            a = [go(x) for x in n.args]
            f = n.func
            o = go(f.value)
            if f.attr == "shift" and len(a) == 1:
                return ("shift", o, a[0])
            if f.attr == "eval" and len(a) == 1:
                return ("eval", o, a[0])
            if f.attr == "time_sum" and not a:
                return ("asum", o)
            if f.attr == "time_sum" and len(a) == 2:
                return ("tsum", o, a[0], a[1])
        if isinstance(n, ast.Attribute):
            if n.attr == "Expectation":
                return ("expec", go(n.value))
            if n.attr == "PortSum":
                return ("psum", n.value.value.id, n.value.attr)
            if isinstance(n.value, ast.Name):
                return ("pf", n.value.id, n.attr)
        raise Unreadable(ast.dump(n))

    return go(ast.parse(text.strip(), mode="eval").body)


# ------------------------------------------------------------------ equality


def problem_nodes(rng, e):
    """replaces some leaves by component or problem nodes"""
    n = X.to_nodes(e, rng)
    for path in list(N.positions(n)):
        def f(x):
            if isinstance(x, ex.VariableNode) and rng.random() < 0.3:
                if rng.random() < 0.5:
                    return ex.comp_var("C", x.name)
                return ex.problem_var("C", x.name, ex.TimeShift(rng.randint(-1, 1)),
                                      ex.OneScenarioIndex(rng.randint(0, 2)))
            if isinstance(x, ex.ParameterNode) and rng.random() < 0.3:
                if rng.random() < 0.5:
                    return ex.comp_param("C", x.name)
                return ex.problem_param("C", x.name, ex.TimeStep(rng.randint(0, 2)),
                                        ex.CurrentScenarioIndex())
            return x
        n = N.replace_at(n, path, f)
    return n


def equality(case):
    rng = case.rng
    e = generate(rng)
    a = problem_nodes(rng, e)
    b = copy.deepcopy(a)
    case.check(expressions_equal(a, b) and expressions_equal(b, a) and expressions_equal(a, a),
               "an expression is not equal to itself", expression=repr(a))
    case.ev("equal observed")
    pos = list(N.positions(a))
    for _ in range(6):
        path = rng.choice(pos)
        try:
            c = N.replace_at(a, path, lambda n: N.tweak(rng, n))
        except (TypeError, ValueError, NotImplementedError):
            continue
        ra, rc = N.raw(a), N.raw(c)
        want = N.raw_equal(ra, rc)
        for tol in (None, rng.choice([(1e-6, 0), (0, 1e-6), (0.6, 0), (0, 0.3), (2.5, 0)])):
            if tol is None:
                w, args = want, ()
            else:
                w, args = N.raw_equal(ra, rc, *tol), tol
                if w and not want:
                    case.ev("within tolerance")
                if not w:
                    case.ev("beyond tolerance")
            g1, g2 = expressions_equal(a, c, *args), expressions_equal(c, a, *args)
            case.ev("equal observed" if w else "different observed")
            case.check(
                g1 is w or g1 == w, "equality does not match the structure of expressions",
                left=repr(a), right=repr(c), tolerances=tol, returned=g1,
            )
            case.check(g1 == g2, "equality is not symmetric", left=repr(a), right=repr(c))
        case.distinct((repr(path), repr(c)[:500]))
    f = problem_nodes(rng, generate(rng))
    w = N.raw_equal(N.raw(a), N.raw(f))
    case.check(expressions_equal(a, f) == w, "equality of two expressions",
               left=repr(a), right=repr(f))


# ------------------------------------------------------------------ models


def change_model(rng, m, spec):
    """changes one part of the specification; returns what was changed"""
    def tweak(e):
        k = rng.random()
        if k < 0.4:
            return ("add", e, ("lit", F(1)))
        if k < 0.7:
            return ("neg", e)
        names = [n for n, st in m.params.items() if st == (False, False)]
        if names:
            return ("mul", e, ("par", rng.choice(names)))
        return ("mul", e, ("lit", F(3)))

    opts = []
    for v in m.variables:
        def name(v=v): v.name += "_"
        def kind(v=v): v.kind = "integer" if v.kind == "continuous" else "continuous"
        def time(v=v): v.time = not v.time
        def scen(v=v): v.scen = not v.scen
        def lb(v=v): v.lb = ("lit", F(-5)) if v.lb is None else tweak(v.lb)
        def ub(v=v): v.ub = ("lit", F(77)) if v.ub is None else tweak(v.ub)
        def no_lb(v=v): v.lb = None if v.lb is not None else ("lit", F(-7))
        fs = [time, scen]
        if v.kind != "boolean":
            fs += [kind, lb, ub, no_lb]
        opts += [("variable " + f.__name__, f) for f in fs]
    for lst, w in ((m.constraints, "constraint"), (m.bindings, "binding constraint")):
        for c in lst:
            def cname(c=c): c.name += "_"
            def cexpr(c=c):
                if c.expr[0] == "cmp":
                    c.expr = c.expr[:2] + (tweak(c.expr[2]), c.expr[3])
                else:
                    c.expr = tweak(c.expr)
            def csense(c=c):
                if c.expr[0] == "cmp":
                    c.expr = ("cmp", {"=": "<=", "<=": ">=", ">=": "="}[c.expr[1]]) + c.expr[2:]
                elif c.lb is None:
                    c.lb = ("lit", F(-4))
                else:
                    c.lb = tweak(c.lb)
            def cub(c=c):
                if c.expr[0] == "cmp":
                    csense(c)
                else:
                    c.ub = ("lit", F(-4)) if c.ub is None else tweak(c.ub)
            opts += [(w + " " + f.__name__, f) for f in (cname, cexpr, csense, cub)]
        if lst:
            def drop(lst=lst): lst.pop()
            opts.append((w + " removed", drop))
    if m.constraints:
        def move():
            m.bindings.append(m.constraints.pop())
            m.bindings[-1].name += "m"
        opts.append(("constraint moved", move))
    for p in list(m.params):
        if p in m.int_consts:
            def ptype(p=p): del m.int_consts[p]
            opts.append(("parameter type", ptype))
        else:
            def pt(p=p): m.params[p] = (not m.params[p][0], m.params[p][1])
            def ps(p=p): m.params[p] = (m.params[p][0], not m.params[p][1])
            opts += [("parameter time", pt), ("parameter scenario", ps)]
    def padd(): m.params["extra"] = (False, False)
    opts.append(("parameter added", padd))
    for o in ("obj_op", "obj_inv"):
        def obj(o=o):
            e = getattr(m, o)
            setattr(m, o, ("lit", F(3)) if e is None else tweak(e))
        opts += [("objective " + o, obj)] * 3
        if getattr(m, o) is not None:
            def noobj(o=o): setattr(m, o, None)
            opts.append(("objective removed " + o, noobj))
    for d in list(m.defs):
        def pdef(d=d): m.defs[d] = tweak(m.defs[d])
        def nodef(d=d): del m.defs[d]
        opts += [("port definition", pdef)] * 2 + [("port definition removed", nodef)]
    def addport(): m.ports["new_port"] = next(iter(spec.port_types))
    if spec.port_types:
        opts.append(("port added", addport))
    def mid(): m.id += "_"
    opts.append(("id", mid))
    what, f = rng.choice(opts)
    f()
    return what


def models(case):
    rng = case.rng
    g = G.SysGen(rng, 2, 2, invest=rng.random() < 0.5, max_models=2, depth=2)
    spec = g.system()
    m = rng.choice(list(spec.models.values()))
    a = G.build_model(spec, m)
    b = G.build_model(copy.deepcopy(spec), copy.deepcopy(m))
    case.check(a == b and b == a and a == a and not (a != b),
               "two models with the same parts are different", model=m)
    case.ev("model compared equal")
    for lists in ("variables", "constraints", "binding_constraints", "parameters",
                  "ports", "port_fields_definitions"):
        for k, x in getattr(a, lists).items():
            case.check(x == getattr(b, lists)[k], f"{lists}: equal parts are different")
            for other in (None, 1, k, a):
                case.check(not (x == other) and x != other,
                           f"{lists}: a part equals something else", other=repr(other)[:80])
    for _ in range(5):
        s2 = copy.deepcopy(spec)
        m2 = s2.models[m.id]
        what = change_model(rng, m2, s2)
        try:
            c = G.build_model(s2, m2)
        except ValueError:
            continue  # the change made the model invalid
        case.ev("model compared different")
        case.ev("changed: " + what)
        case.distinct((what, repr(m2)))
        case.check(not (a == c) and not (c == a) and a != c,
                   f"two models which differ by one part ({what}) are equal",
                   left=m, right=m2)
    case.check(not (a == 1) and not (a == None), "a model equals something else")  # noqa
    r = a.replicate(id="other")
    case.check(r != a and r.replicate(id=a.id) == a, "replicate changed other parts")


WORKLOADS = [
    Workload("rewrite", rewrite, 10000),
    Workload("equality", equality, 8000),
    Workload("models", models, 3000),
]

import glob

import yaml

from andromede.expression.parsing.parse_expression import (
    AntaresParseException,
    ModelIdentifiers,
    parse_expression,
)

from vf import expr as X
from vf.core import Workload
from vf.expr import Gen, Renderer, from_node
from vf.parse import Bad, Unsure, read

PROPERTY = "C01"
RULE = (
    "a case is distinct by the string given to parse_expression; it is non-trivial when"
    " the string has at least two operators or is a mutation of such a string"
)
ASSUMPTIONS = [
    "an independent recursive-descent reader of the documented grammar is the oracle;"
    " it is itself checked against the expression each generated string was written from",
    "comparisons nested in other expressions have no documented meaning and are only"
    " required to parse or to raise a parse error",
]
REQUIRE = {
    "parsed": 200,
    "rejected": 100,
    "time operator parsed": 50,
    "unknown name rejected": 10,
    "same string, other model": 500,
}

VARS = ["x", "y", "level", "p_max", "t1", "sum_x", "_v", "expec", "Level", "X",
        "power_of_the_unit_in_the_direction_of_the_flow"]
PARS = ["c", "cost", "T", "d_min", "e1", "tt", "k2"]


def nonlinear(g, rng, depth):
    e = g.linear(depth)
    if rng.random() < 0.3:
        e = (rng.choice(["mul", "div", "sub"]), e, g.linear(depth - 1))
    if rng.random() < 0.3:
        e = ("cmp", rng.choice(["=", "<=", ">="]), e, g.linear(depth - 1))
    return e


def generate(case):
    rng = case.rng
    vs = rng.sample(VARS, rng.randint(1, 4))
    ps = rng.sample(PARS, rng.randint(1, 4))
    g = Gen(
        rng,
        vs,
        ps,
        {p: rng.randint(-3, 3) for p in ps[:2]},
        [("port", "flow", "pf"), ("bal", "f1", "psum"), ("q", "_z", "pf")],
        literals=X.LITS + [X.F(12345), X.F(1, 1024), X.F(100001, 16)],
    )
    e = nonlinear(g, rng, rng.randint(1, 5))
    if rng.random() < 0.3:
        # any expression is allowed as time, not only integers
        e = ("eval" if rng.random() < 0.5 else "shift", g.linear(2), g.const(3))
    return e, set(vs), set(ps)


def observe(case, text, vs, ps):
    """what the code under test makes of the string: a tuple, or None if refused"""
    try:
        node = parse_expression(text, ModelIdentifiers(set(vs), set(ps)))
    except AntaresParseException:
        case.ev("rejected")
        return None
    except RecursionError:
        raise
    case.ev("parsed")
    try:
        got = from_node(node)
    except (TypeError, AttributeError) as err:
        case.fail("the parser returned something which is not an expression",
                  string=repr(text), returned=repr(node), error=err)
    if X.contains(got, "shift", "eval", "tsum", "asum", "expec"):
        case.ev("time operator parsed")
    return got


def judge(case, text, vs, ps, want):
    case.note(string=text, variables=sorted(vs), parameters=sorted(ps))
    got = observe(case, text, vs, ps)
    if got is None:
        case.fail("a well-formed expression was refused", string=repr(text))
    if not X.same_meaning(got, want):
        case.fail(
            "the string was read as another expression",
            string=repr(text), read_as=X.show(got), means=X.show(want),
        )
    if X.leaves(got) != X.leaves(want):
        case.fail(
            "names were read as something else",
            string=repr(text), read=X.leaves(got), expected=X.leaves(want),
        )


def well_formed(case):
    e, vs, ps = generate(case)
    text = Renderer(case.rng, case.rng.choice([0, 0.1, 0.4])).top(e)
    try:
        own = read(text, vs, ps)
    except Unsure:
        own = None
    assert own is None or X.same_meaning(own, e), (text, own, e)
    if X.size(e) > 2:
        case.distinct(text)
    case.sample(dict(string=text, means=X.show(e)))
    judge(case, text, vs, ps, e)
    if case.rng.random() < 0.3:
        # what was read for a model does not matter for another one
        other(case, e, text, vs, ps)
        judge(case, text, vs, ps, e)


def other(case, e, text, vs, ps):
    """the same string in a model where a name is unknown, or of the other kind"""
    rng = case.rng
    names = sorted(n[1] for n in X.leaves(e) if n[0] in ("var", "par"))
    if not names:
        return
    n = rng.choice(names)
    k = rng.random()
    if k < 0.6:
        vs, ps = vs - {n}, ps - {n}
        if rng.random() < 0.5:  # as many names
            vs, ps = (vs | {"other"}, ps) if rng.random() < 0.5 else (vs, ps | {"other"})
    elif n in vs:
        vs, ps = vs - {n}, ps | {n}
    else:
        vs, ps = vs | {n}, ps - {n}
    case.ev("same string, other model")
    decide(case, text, vs, ps)


ALPHABET = list("+-*/()[].,=<>tx c2e_") + [
    "..", "<=", ">=", "sum(", "sum", "expec(", "t", "[t", "]", " ", "1", "1.5", ".5",
    "sum_connections(", "port.flow", "\n", "^", "$", "!", "é", "<", "==", "max(", "2x",
    ";", "#", "&", "'", '"', "{", "@", "x", "zz", "_", "T", "%",
]


def mutate(rng, text):
    n = rng.choice([1, 1, 1, 2, 3])
    for _ in range(n):
        i = rng.randrange(len(text) + 1)
        j = min(len(text), i + rng.choice([1, 1, 1, 2, 4]))
        k = rng.random()
        if k < 0.35:
            text = text[:i] + text[j:]
        elif k < 0.75:
            text = text[:i] + rng.choice(ALPHABET) + text[i:]
        elif k < 0.85:
            text = text[:i] + rng.choice(ALPHABET) + text[j:]
        elif k < 0.95:
            text = text[:i] + text[i:j] * 2 + text[j:]
        else:
            text = text[:i] + text[j:][::-1]
    return text


def decide(case, text, vs, ps):
    """the oracle is the independent reader"""
    case.note(string=text, variables=sorted(vs), parameters=sorted(ps))
    try:
        want = read(text, vs, ps)
    except Unsure:
        case.ev("without documented meaning")
        observe(case, text, vs, ps)
        return
    except Bad as err:
        got = observe(case, text, vs, ps)
        if "unknown" in str(err):
            case.ev("unknown name rejected")
        if got is not None:
            case.fail(
                "a string outside the language was read as an expression",
                string=repr(text), read_as=X.show(got), why_outside=err,
            )
        return
    judge(case, text, vs, ps, want)


def mutated(case):
    e, vs, ps = generate(case)
    text = mutate(case.rng, Renderer(case.rng, 0.1).top(e))
    case.distinct(text)
    case.sample(dict(string=text))
    decide(case, text, vs, ps)


def soup(case):
    rng = case.rng
    text = "".join(rng.choice(ALPHABET) for _ in range(rng.randint(0, 9)))
    case.distinct(text)
    decide(case, text, {"x", "t1"}, {"c", "_"})


def unknown_names(case):
    """one name of a well-formed expression is not declared, or is of the other kind"""
    rng = case.rng
    e, vs, ps = generate(case)
    text = Renderer(rng, 0.1).top(e)
    names = sorted(n[1] for n in X.leaves(e) if n[0] in ("var", "par"))
    if not names:
        return
    case.distinct((text, "unknown"))
    other(case, e, text, vs, ps)


NAMES = ["variance", "Expec", "EXPEC", "Expectation", "expectation", "esp", "mean", "min",
         "max", "abs", "Sum", "SUM", "total", "shift", "eval", "time_sum", "sumconnections",
         "Sum_connections", "PortSum", "expec_", "exp", "Variance", "expect", "e", "t", "T"]


def functions(case):
    """functions of other names, and the same names as variables"""
    rng = case.rng
    e, vs, ps = generate(case)
    inner = Renderer(rng, 0.1).top(e)
    if X.contains(e, "cmp"):
        inner = "x"
        vs = vs | {"x"}
    n = rng.choice(NAMES + ["expec", "sum"])
    if rng.random() < 0.2 and n not in ("t", "sum"):
        vs = vs | {n}
    text = rng.choice(["{0}({1})", "2 * {0}({1}) - 1", "{0} ({1})", "{0}({1})[t-1]",
                       "({0}({1}))[t-1]", "sum({0}({1}))", "expec({0}({1}))", "{0}()",
                       "{0}({1}, 1)"]).format(n, inner)
    case.distinct(text)
    case.ev("function")
    decide(case, text, vs, ps)


def digits(rng, n):
    return "".join(rng.choice("0123456789") for _ in range(n))


def numbers(case):
    """numbers of any length, with or without decimals"""
    rng = case.rng
    n = rng.choice(["", "0", "00"]) + digits(rng, rng.choice([1, 1, 2, 5, 9, 10, 11, 16, 17,
                                                             18, 20, 25]))
    k = rng.random()
    if k < 0.6:
        n += "." + rng.choice(["", "000000", "0000000000000"]) + digits(
            rng, rng.choice([1, 2, 6, 7, 8, 12, 16, 17, 18, 22]))
    elif k < 0.7:
        n = rng.choice(["1e5", "1E-3", "1.e2", ".25", "3.", "1_000", "0x10", "1,5", "2.5e0",
                        "inf", "nan", "1.2.3", "1 000", "5f", "1e400"])
    text = rng.choice(["{0}", "x * {0}", "-{0} + x", "x[t + {0}]", "(x + c)[{0}]",
                       "sum(t - {0} .. t + 1, x)", "{0} <= x", "c / {0} - {0}"]).format(n)
    case.distinct(text)
    case.ev("number")
    decide(case, text, {"x"}, {"c"})


def shipped(case):
    """all expressions of the libraries and test models of the repository"""
    files = sorted(
        glob.glob("/repo/src/andromede/libs/**/*.yml", recursive=True)
        + glob.glob("/repo/tests/**/*.yml", recursive=True)
    )
    if case.index >= len(files):
        return
    try:
        with open(files[case.index]) as f:
            y = yaml.safe_load(f)
    except yaml.YAMLError:
        return
    lib = y.get("library") if isinstance(y, dict) else None
    if not isinstance(lib, dict):
        return
    for m in lib.get("models") or []:
        vs = {v["id"] for v in m.get("variables") or []}
        ps = {p["id"] for p in m.get("parameters") or []}
        texts = [m.get("objective")]
        for k in ("constraints", "binding-constraints", "binding_constraints"):
            for c in m.get(k) or []:
                texts += [c.get(f) for f in ("expression", "lower-bound", "upper-bound")]
        for d in m.get("port-field-definitions") or []:
            texts.append(d.get("definition"))
        for v in m.get("variables") or []:
            texts += [v.get("lower-bound"), v.get("upper-bound")]
        for text in texts:
            if isinstance(text, str):
                case.ev("shipped expression")
                case.distinct(text)
                decide(case, text, vs, ps)


WORKLOADS = [
    Workload("well_formed", well_formed, 9000),
    Workload("mutated", mutated, 12000),
    Workload("soup", soup, 6000),
    Workload("unknown_names", unknown_names, 2500),
    Workload("functions", functions, 1500),
    Workload("numbers", numbers, 1500),
    Workload("shipped", shipped, 200, 200),
]

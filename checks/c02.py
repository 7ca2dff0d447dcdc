import decimal
import enum
import math
from fractions import Fraction as F

import numpy as np
from andromede.expression import EvaluationContext, evaluate, literal, param, var
from andromede.expression.expression import ExpressionNode, port_field

from vf import expr as X
from vf.core import Workload, raises
from vf.nodes import raw

PROPERTY = "C02"
RULE = (
    "a case is a program building a DAG of expressions with operators and methods; it is"
    " distinct by the text of the expressions it built, non-trivial when at least one"
    " operand was reused or a number stood on the left"
)
ASSUMPTIONS = [
    "shadow computation with exact rationals; time and scenario operators are compared"
    " as uninterpreted functions (their expansion is C07)",
    "numbers are int, float and their subclasses; numpy scalars only on the right, since"
    " numpy itself handles the operation when they are on the left",
]
REQUIRE = {
    "operation": 3000,
    "number on the left": 300,
    "operand reused": 1000,
    "evaluated": 1000,
    "TypeError observed": 300,
}


def dag(case):
    rng = case.rng
    names = ["x", "y", "z"]
    ps = ["p", "q"]
    pool = [(var(n), ("var", n)) for n in names[: rng.randint(1, 3)]]
    pool += [(param(n), ("par", n)) for n in ps[: rng.randint(1, 2)]]
    pool.append((literal(2.5), ("lit", F(5, 2))))
    pool.append((port_field("port", "flow"), ("pf", "port", "flow")))
    base = len(pool)
    uses = {}
    snapshots = [raw(n) for n, _ in pool]
    cmps = []

    def pick():
        i = (
            rng.randrange(len(pool))
            if rng.random() < 0.4
            else rng.randrange(max(0, len(pool) - 5), len(pool))
        )
        uses[i] = uses.get(i, 0) + 1
        if uses[i] == 2:
            case.ev("operand reused")
        return pool[i]

    def number(left=False):
        v = rng.choice([F(0), F(1), F(-1), F(2), F(-3), F(1, 2), F(7, 4), F(10)])
        k = rng.random()
        if v.denominator == 1 and k < 0.5:
            return int(v), ("lit", v)
        if k < 0.7 and not left:
            return np.float64(float(v)), ("lit", v)
        if k < 0.75 and v in (0, 1):
            return bool(v), ("lit", v)
        return float(v), ("lit", v)

    log = []
    for _ in range(rng.randint(3, 14)):
        op = rng.choice(
            ["add", "sub", "mul", "div", "add", "sub", "sub", "neg", "shift", "eval",
             "tsum", "asum", "expec", "psum", "cmp", "cmp"]
        )
        n1, t1 = pick()
        case.ev("operation")
        if op in ("add", "sub", "mul", "div", "cmp"):
            k = rng.random()
            (n2, t2) = number(k < 0.2) if k < 0.4 else pick()
            left_number = k < 0.2
            if left_number:
                n1, t1, n2, t2 = n2, t2, n1, t1
                case.ev("number on the left")
            if op == "add":
                n, t = n1 + n2, ("add", t1, t2)
            elif op == "sub":
                n, t = n1 - n2, ("sub", t1, t2)
            elif op == "mul":
                n, t = n1 * n2, ("mul", t1, t2)
            elif op == "div":
                n, t = n1 / n2, ("div", t1, t2)
            else:
                c = rng.choice(["=", "<=", ">="])
                if c == "=":
                    n = n1 == n2
                else:
                    n = n1 <= n2 if c == "<=" else n1 >= n2
                t = ("cmp", c, t1, t2)
        elif op == "neg":
            n, t = -n1, ("neg", t1)
        elif op in ("shift", "eval"):
            (n2, t2) = number() if rng.random() < 0.6 else pick()
            n = n1.shift(n2) if op == "shift" else n1.eval(n2)
            t = (op, t1, t2)
        elif op == "tsum":
            (n2, t2) = number() if rng.random() < 0.6 else pick()
            (n3, t3) = number() if rng.random() < 0.6 else pick()
            n, t = n1.time_sum(n2, n3), ("tsum", t1, t2, t3)
        elif op == "asum":
            n, t = n1.time_sum(), ("asum", t1)
        elif op == "expec":
            n, t = n1.expec(), ("expec", t1)
        else:
            if t1[0] != "pf":
                case.check(
                    raises(n1.sum_connections, ValueError),
                    "sum_connections was accepted on something else than a port field",
                    expression=X.show(t1),
                )
                case.ev("sum_connections refused")
                continue
            n, t = n1.sum_connections(), ("psum", t1[1], t1[2])
        case.check(
            isinstance(n, ExpressionNode),
            "an operation did not return an expression",
            operation=X.show(t), returned=repr(n),
        )
        got = X.from_node(n)
        if X.size(t) < 4000:
            case.check(
                X.same_meaning(got, t, 1) and X.leaves(got) == X.leaves(t),
                "an operation returned another expression than requested",
                requested=X.show(t)[:2000], returned=X.show(got)[:2000],
            )
        for i, ((m, _), s) in enumerate(zip(pool, snapshots)):
            if raw(m) != s:
                case.fail("an operation modified an existing expression",
                          operation=op, operand=i)
        log.append(X.show(t)[:200])
        if op == "cmp":
            cmps.append(n)
        elif X.size(t) < 300:
            pool.append((n, t))
            snapshots.append(raw(n))
    values = {n: rng.choice(X.VALUES) for n in names + ps}
    ctx = EvaluationContext(
        {n: float(values[n]) for n in names}, {n: float(values[n]) for n in ps}
    )
    for n, t in pool[base:]:
        if X.contains(t, "shift", "eval", "tsum", "asum", "expec", "pf", "psum"):
            continue
        try:
            want = X.arith(t, values)
        except ZeroDivisionError:
            continue  # whether floats reach the exact zero depends on rounding
        try:
            got = evaluate(n, ctx)
        except ZeroDivisionError:
            if near_zero_divisor(t, values):
                continue
            raise
        case.ev("evaluated")
        m = magnitude(t, values)
        if m > 1e12:
            continue
        case.check(
            abs(F(got) - want) <= F(1e-9) * max(1, m),
            "wrong value", expression=X.show(t), values=values,
            got=got, expected=float(want),
        )
    case.distinct(log)
    case.sample(log[-4:])


class Half(float):
    pass


class Level(enum.IntEnum):
    LOW = 3


NUMBERS = [2**31, -2**31 - 1, 2**32 + 5, 2**53, -2**53, 10**18, 10**30, 1e300, -1e-300,
           5e-324, 0.1, 1e-9, 1e-17, 1.0000000001, -0.9999999999, 123456789.987654321,
           Half(0.5), Level.LOW, True, False, 1e16, 99999999999, math.pi, -math.e,
           np.float64(1e22), np.float64(-0.3), math.inf, -math.inf, -1, 0, 1, 0.0, -0.0]


def numbers(case):
    """numbers of any magnitude are kept as they are, on both sides"""
    rng = case.rng
    v = rng.choice(NUMBERS)
    if rng.random() < 0.3:
        v = rng.choice([rng.randint(-10**20, 10**20), rng.uniform(-1, 1) *
                        10.0 ** rng.randint(-40, 40)])
    n, t = rng.choice([(var("x"), ("var", "x")), (param("p"), ("par", "p")),
                       (-var("x"), ("neg", ("var", "x")))])
    w = ("lit", float(v))
    ops = {
        "n+v": (lambda: n + v, ("add", t, w)), "n-v": (lambda: n - v, ("sub", t, w)),
        "n*v": (lambda: n * v, ("mul", t, w)), "n/v": (lambda: n / v, ("div", t, w)),
        "n<=v": (lambda: n <= v, ("cmp", "<=", t, w)),
        "n>=v": (lambda: n >= v, ("cmp", ">=", t, w)),
        "n==v": (lambda: n == v, ("cmp", "=", t, w)),
        "shift": (lambda: n.shift(v), ("shift", t, w)),
        "eval": (lambda: n.eval(v), ("eval", t, w)),
        "sum1": (lambda: n.time_sum(v, 3), ("tsum", t, w, ("lit", 3))),
        "sum2": (lambda: n.time_sum(-3, v), ("tsum", t, ("lit", -3), w)),
        "sum0": (lambda: n.time_sum(v, v), ("tsum", t, w, w)),
    }
    if not isinstance(v, np.generic):
        ops.update({
            "v+n": (lambda: v + n, ("add", w, t)), "v-n": (lambda: v - n, ("sub", w, t)),
            "v*n": (lambda: v * n, ("mul", w, t)), "v/n": (lambda: v / n, ("div", w, t)),
            "v<=n": (lambda: v <= n, ("cmp", "<=", w, t)),
            "v>=n": (lambda: v >= n, ("cmp", ">=", w, t)),
            "v==n": (lambda: v == n, ("cmp", "=", w, t)),
        })
    for k, (f, want) in ops.items():
        got = X.from_node(f())
        case.ev("operation")
        if math.isinf(v):
            # no arithmetic: the number is there, in an expression of this kind
            case.check(w in leaves(got) or ("lit", -float(v)) in leaves(got),
                       "a number was lost", operation=k, number=v, got=X.show(got))
            continue
        if k == "n/v" and v == 0:
            continue
        case.check(X.same_meaning(got, want, 2),
                   "an operation with a number returned another expression than requested",
                   operation=k, number=repr(v), requested=X.show(want),
                   returned=X.show(got))
    case.distinct((repr(v), repr(n)))


def leaves(e):
    if e[0] == "lit":
        return [e]
    return [x for c in e[1:] if isinstance(c, tuple) for x in leaves(c)]


def near_zero_divisor(t, values):
    return any(
        abs(X.arith(x[2], values)) < 1e-6 for x in X.walk(t) if x[0] == "div"
    )


def magnitude(e, values):
    """sum of absolute values, amplified by divisions"""
    k = e[0]
    if k == "lit":
        return abs(F(e[1]))
    if k in ("var", "par"):
        return abs(F(values[e[1]]))
    if k == "neg":
        return magnitude(e[1], values)
    a, b = magnitude(e[1], values), magnitude(e[2], values)
    if k in ("add", "sub"):
        return a + b
    if k == "mul":
        return a * b
    d = abs(X.arith(e[2], values))
    return a * max(b, 1) / d / min(d, 1)


BAD = [None, "x", "1", [1], (1,), {}, {1}, object(), 1j, decimal.Decimal(1), F(1, 2),
       lambda: 1, b"1", int]


def not_numbers(case):
    rng = case.rng
    bad = rng.choice(BAD)
    e = rng.choice(
        [var("x"), param("p"), literal(1), var("x") + 1, var("x") * param("p"),
         -var("x"), var("x").shift(1), port_field("a", "b")]
    )
    ops = {
        "e+b": lambda: e + bad, "b+e": lambda: bad + e,
        "e-b": lambda: e - bad, "b-e": lambda: bad - e,
        "e*b": lambda: e * bad, "b*e": lambda: bad * e,
        "e/b": lambda: e / bad, "b/e": lambda: bad / e,
        "e<=b": lambda: e <= bad, "e>=b": lambda: e >= bad, "e==b": lambda: e == bad,
        "b<=e": lambda: bad <= e, "b>=e": lambda: bad >= e,
        "shift": lambda: e.shift(bad), "eval": lambda: e.eval(bad),
        "sum1": lambda: e.time_sum(bad, 1), "sum2": lambda: e.time_sum(1, bad),
    }
    if bad is None:  # a sum with a single bound
        for k in ("sum1", "sum2"):
            f = ops.pop(k)
            case.check(raises(f) is not None, "a sum over time with a single bound was"
                       " accepted", operation=k)
            case.ev("single bound refused")
    before = raw(e)
    for k, f in ops.items():
        try:
            r = f()
        except TypeError:
            case.ev("TypeError observed")
            continue
        case.fail("something which is neither a number nor an expression was accepted",
                  operation=k, operand=repr(bad), result=repr(r))
    case.check(raw(e) == before, "an operation modified its operand")
    case.distinct((repr(type(bad)), repr(e)))


WORKLOADS = [Workload("dag", dag, 15000), Workload("numbers", numbers, 1500), Workload("not_numbers", not_numbers, 800)]

"""
Independent reference of the expression language.

Expressions are plain tuples:
  ('lit', v) ('var', n) ('par', n) ('neg', e) ('add'|'sub'|'mul'|'div', a, b)
  ('shift', e, k) ('eval', e, k) ('tsum', e, a, b) ('asum', e) ('expec', e)
  ('pf', port, field) ('psum', port, field) ('cmp', op, a, b)
where k, a, b of time operators are constant expressions.

Nothing here uses code of /repo, except `to_nodes` (builds the expression with the Python
API under test) and `from_node` (reads back an expression).
"""
from fractions import Fraction as F

# ------------------------------------------------------------------ structure


def children(e):
    k = e[0]
    if k in ("lit", "var", "par", "pf", "psum"):
        return []
    if k in ("neg", "asum", "expec"):
        return [e[1]]
    if k in ("add", "sub", "mul", "div"):
        return [e[1], e[2]]
    if k == "cmp":
        return [e[2], e[3]]
    if k in ("shift", "eval", "tsum"):
        return [e[1]]
    raise AssertionError(e)


def walk(e):
    yield e
    for c in children(e):
        yield from walk(c)


def contains(e, *kinds):
    return any(x[0] in kinds for x in walk(e))


def size(e):
    return sum(1 for _ in walk(e))


# ------------------------------------------------------------------ values


class Lin:
    """affine form: {key: coef} + const"""

    __slots__ = ("terms", "const")

    def __init__(self, terms=None, const=F(0)):
        self.terms = terms or {}
        self.const = const

    def add(self, o, factor=F(1)):
        t = dict(self.terms)
        for k, v in o.terms.items():
            t[k] = t.get(k, F(0)) + factor * v
        return Lin(t, self.const + factor * o.const)

    def scale(self, f):
        return Lin({k: f * v for k, v in self.terms.items()}, f * self.const)

    def clean(self):
        return Lin({k: v for k, v in self.terms.items() if v != 0}, self.const)

    def __repr__(self):
        return f"{ {k: float(v) for k, v in self.terms.items()} } + {float(self.const)}"


class NotLinear(Exception):
    pass


class Env:
    """
    What an expression is interpreted against.
      T, S       number of time steps of the block and of scenarios
      par(comp, name, t, s)     value of a parameter at block time step t
      is_var, structure(comp, kind, name) -> (time, scenario)
      port(comp, port, field) -> list of (component, definition)
    """

    def __init__(self, T, S, par, structure, port=None):
        self.T, self.S = T, S
        self.par = par
        self.structure = structure
        self.port = port or (lambda c, p, f: [])


def const_value(e, env, comp):
    """value of a time-operator bound: constant expressions only"""
    r = den(e, env, comp, None, None)
    assert not r.terms
    return r.const


def den(e, env, comp, t, s):
    """
    Direct (denotational) value of the expression at time step t and scenario s:
    time is cyclic over the block, expectation is the mean over all scenarios.
    """
    k = e[0]
    if k == "lit":
        return Lin(const=F(e[1]))
    if k == "var":
        ti, si = env.structure(comp, "var", e[1])
        if ti and t is None:
            raise NotLinear("time")
        return Lin(
            {(comp, e[1], t % env.T if ti else None, s if si else None): F(1)}
        )
    if k == "par":
        ti, si = env.structure(comp, "par", e[1])
        return Lin(
            const=F(env.par(comp, e[1], t % env.T if ti else None, s if si else None))
        )
    if k == "neg":
        return den(e[1], env, comp, t, s).scale(F(-1))
    if k == "add":
        return den(e[1], env, comp, t, s).add(den(e[2], env, comp, t, s))
    if k == "sub":
        return den(e[1], env, comp, t, s).add(den(e[2], env, comp, t, s), F(-1))
    if k == "mul":
        a, b = den(e[1], env, comp, t, s), den(e[2], env, comp, t, s)
        if not a.terms:
            return b.scale(a.const)
        if not b.terms:
            return a.scale(b.const)
        raise NotLinear(e)
    if k == "div":
        a, b = den(e[1], env, comp, t, s), den(e[2], env, comp, t, s)
        if b.terms:
            raise NotLinear(e)
        return a.scale(1 / b.const)
    if k == "shift":
        d = int(const_value(e[2], env, comp))
        return den(e[1], env, comp, None if t is None else t + d, s)
    if k == "eval":
        return den(e[1], env, comp, int(const_value(e[2], env, comp)), s)
    if k == "tsum":
        a, b = int(const_value(e[2], env, comp)), int(const_value(e[3], env, comp))
        r = Lin()
        for d in range(a, b + 1):
            r = r.add(den(e[1], env, comp, None if t is None else t + d, s))
        return r
    if k == "asum":
        r = Lin()
        for u in range(env.T):
            r = r.add(den(e[1], env, comp, u, s))
        return r
    if k == "expec":
        r = Lin()
        for u in range(env.S):
            r = r.add(den(e[1], env, comp, t, u))
        return r.scale(F(1, env.S))
    if k in ("pf", "psum"):
        defs = env.port(comp, e[1], e[2])
        if k == "pf":
            assert len(defs) == 1, (comp, e, defs)
        r = Lin()
        for c, d in defs:
            r = r.add(den(d, env, c, t, s))
        return r
    raise AssertionError(e)


def idx(e, env, comp):
    """(time, scenario) over which the expression has to be instantiated"""
    k = e[0]
    if k == "lit":
        return (False, False)
    if k in ("var", "par"):
        return env.structure(comp, k, e[1])
    if k in ("eval", "asum"):
        return (False, idx(e[1], env, comp)[1])
    if k == "expec":
        return (idx(e[1], env, comp)[0], False)
    if k in ("pf", "psum"):
        r = (False, False)
        for c, d in env.port(comp, e[1], e[2]):
            i = idx(d, env, c)
            r = (r[0] or i[0], r[1] or i[1])
        return r
    r = (False, False)
    for c in children(e):
        i = idx(c, env, comp)
        r = (r[0] or i[0], r[1] or i[1])
    return r


def degree(e):
    """degree with respect to variables (port fields count as variables)"""
    k = e[0]
    if k in ("lit", "par"):
        return 0
    if k in ("var", "pf", "psum"):
        return 1
    if k == "mul":
        return degree(e[1]) + degree(e[2])
    if k == "div":
        return degree(e[1])
    return max(degree(c) for c in children(e))


# ------------------------------------------------------------------ plain arithmetic


def arith(e, values):
    """value of an expression without time and scenario operators"""
    k = e[0]
    if k == "lit":
        return F(e[1])
    if k in ("var", "par"):
        return F(values[e[1]])
    if k == "neg":
        return -arith(e[1], values)
    a, b = arith(e[1], values), arith(e[2], values)
    if k == "add":
        return a + b
    if k == "sub":
        return a - b
    if k == "mul":
        return a * b
    if k == "div":
        return a / b
    raise AssertionError(e)


# ------------------------------------------------------------------ rendering


def num(v):
    v = F(v)
    assert v >= 0
    if v.denominator == 1:
        return str(v.numerator)
    r = repr(float(v))
    assert "e" not in r and F(r) == v, v
    return r


class Renderer:
    """
    Renders an expression in the textual language, with the parentheses it needs and,
    at random, redundant parentheses and white space.
    """

    PREC = {"cmp": 0, "add": 1, "sub": 1, "mul": 2, "div": 2, "neg": 3}

    def __init__(self, rng, noise=0.15):
        self.rng = rng
        self.noise = noise

    def sp(self):
        if self.rng.random() < 0.5:
            return ""
        return self.rng.choice([" ", "  ", "\t", "\n", " \r\n "])

    def op(self, o):
        return self.sp() + o + self.sp()

    def paren(self, text):
        return "(" + self.sp() + text + self.sp() + ")"

    def top(self, e):
        return self.sp() + self.r(e, 0) + self.sp()

    def r(self, e, prec):
        """prec: smallest precedence allowed without parentheses"""
        text = self.raw(e)
        if self.PREC.get(e[0], 4) < prec or (
            self.rng.random() < self.noise and e[0] != "cmp"
        ):
            text = self.paren(text)
        return text

    def raw(self, e):
        k = e[0]
        if k == "lit":
            return num(e[1])
        if k in ("var", "par"):
            return e[1]
        if k == "neg":
            return "-" + self.sp() + self.r(e[1], 3)
        if k in ("add", "sub", "mul", "div"):
            p = self.PREC[k]
            o = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[k]
            return self.r(e[1], p) + self.op(o) + self.r(e[2], p + 1)
        if k == "cmp":
            return self.r(e[2], 1) + self.op(e[1]) + self.r(e[3], 1)
        if k in ("shift", "eval"):
            if e[1][0] in ("var", "par") and self.rng.random() < 0.7:
                base = e[1][1]
            else:
                base = self.paren(self.r(e[1], 0))
            inner = (
                self.shift(e[2])
                if k == "shift"
                else self.sp() + self.r(e[2], 0) + self.sp()
            )
            return base + self.sp() + "[" + inner + "]"
        if k == "tsum":
            return (
                "sum"
                + self.sp()
                + "("
                + self.shift(e[2])
                + ".."
                + self.shift(e[3])
                + ","
                + self.sp()
                + self.r(e[1], 1)
                + self.sp()
                + ")"
            )
        if k == "asum":
            return "sum" + self.sp() + self.paren(self.r(e[1], 1))
        if k == "expec":
            return "expec" + self.sp() + self.paren(self.r(e[1], 1))
        if k == "pf":
            return e[1] + self.sp() + "." + self.sp() + e[2]
        if k == "psum":
            return (
                "sum_connections"
                + self.sp()
                + self.paren(e[1] + self.sp() + "." + self.sp() + e[2])
            )
        raise AssertionError(e)

    def shift(self, e):
        """t, t + ..., t - ...: a sum whose first operand gets a sign"""
        if e == ("lit", 0) and self.rng.random() < 0.8:
            return self.sp() + "t" + self.sp()
        return self.sp() + "t" + self.signed(e) + self.sp()

    def signed(self, e):
        """signed sum: the left-most factor is an atom or a parenthesis"""
        k = e[0]
        if k in ("add", "sub"):
            o = "+" if k == "add" else "-"
            return self.signed(e[1]) + self.op(o) + self.factor(e[2])
        if k in ("mul", "div"):
            o = "*" if k == "mul" else "/"
            if e[1][0] in ("mul", "div", "neg", "lit", "par"):
                return self.signed(e[1]) + self.op(o) + self.atom(e[2])
            return (
                self.op("+")
                + self.paren(self.r(e[1], 0))
                + self.op(o)
                + self.atom(e[2])
            )
        if k == "neg":
            return self.op("-") + self.atom(e[1])
        return self.op("+") + self.atom(e)

    def factor(self, e):
        if e[0] in ("mul", "div"):
            o = "*" if e[0] == "mul" else "/"
            if self.rng.random() < 0.8:
                return self.factor(e[1]) + self.op(o) + self.atom(e[2])
        return self.atom(e)

    def atom(self, e):
        if e[0] in ("lit", "par", "var") and self.rng.random() < 0.8:
            return self.raw(e)
        return self.paren(self.r(e, 0))


# ------------------------------------------------------------------ nodes of /repo


def to_nodes(e, rng=None):
    """builds the expression with operators and methods of the Python API"""
    from andromede.expression import literal, param, var
    from andromede.expression.expression import port_field

    def lit_value(v):
        return float(v)

    def as_operand(x, allow_number):
        if (
            allow_number
            and x[0] == "lit"
            and (rng is None or rng.random() < 0.6)
        ):
            v = F(x[1])
            return int(v) if v.denominator == 1 else float(v)
        return go(x)

    def both(a, b):
        """at most one of the operands may be a plain number"""
        if rng is not None and rng.random() < 0.5:
            x = as_operand(a, True)
            y = go(b) if isinstance(x, (int, float)) else as_operand(b, True)
        else:
            y = as_operand(b, True)
            x = go(a) if isinstance(y, (int, float)) else as_operand(a, True)
        return x, y

    def go(x):
        k = x[0]
        if k == "lit":
            return literal(lit_value(x[1]))
        if k == "var":
            return var(x[1])
        if k == "par":
            return param(x[1])
        if k == "neg":
            return -go(x[1])
        if k in ("add", "sub", "mul", "div"):
            a, b = both(x[1], x[2])
            if k == "add":
                return a + b
            if k == "sub":
                return a - b
            if k == "mul":
                return a * b
            return a / b
        if k == "cmp":
            a, b = go(x[2]), as_operand(x[3], True)
            if x[1] == "=":
                return a == b
            return a <= b if x[1] == "<=" else a >= b
        if k == "shift":
            return go(x[1]).shift(as_operand(x[2], True))
        if k == "eval":
            return go(x[1]).eval(as_operand(x[2], True))
        if k == "tsum":
            return go(x[1]).time_sum(as_operand(x[2], True), as_operand(x[3], True))
        if k == "asum":
            return go(x[1]).time_sum()
        if k == "expec":
            return go(x[1]).expec()
        if k == "pf":
            return port_field(x[1], x[2])
        if k == "psum":
            return port_field(x[1], x[2]).sum_connections()
        raise AssertionError(x)

    return go(e)


def from_node(n):
    """reads an expression of the code under test back into a tuple"""
    from andromede.expression import expression as ex

    def go(n):
        if isinstance(n, ex.LiteralNode):
            return ("lit", n.value)
        if isinstance(n, ex.VariableNode):
            return ("var", n.name)
        if isinstance(n, ex.ParameterNode):
            return ("par", n.name)
        if isinstance(n, ex.ComponentVariableNode):
            return ("var", (n.component_id, n.name))
        if isinstance(n, ex.ComponentParameterNode):
            return ("par", (n.component_id, n.name))
        if isinstance(n, ex.NegationNode):
            return ("neg", go(n.operand))
        if isinstance(n, ex.AdditionNode):
            r = go(n.operands[0])
            for o in n.operands[1:]:
                r = ("add", r, go(o))
            return r
        if isinstance(n, ex.MultiplicationNode):
            return ("mul", go(n.left), go(n.right))
        if isinstance(n, ex.DivisionNode):
            return ("div", go(n.left), go(n.right))
        if isinstance(n, ex.ComparisonNode):
            op = {
                ex.Comparator.EQUAL: "=",
                ex.Comparator.LESS_THAN: "<=",
                ex.Comparator.GREATER_THAN: ">=",
            }[n.comparator]
            return ("cmp", op, go(n.left), go(n.right))
        if isinstance(n, ex.TimeShiftNode):
            return ("shift", go(n.operand), go(n.time_shift))
        if isinstance(n, ex.TimeEvalNode):
            return ("eval", go(n.operand), go(n.eval_time))
        if isinstance(n, ex.TimeSumNode):
            return ("tsum", go(n.operand), go(n.from_time), go(n.to_time))
        if isinstance(n, ex.AllTimeSumNode):
            return ("asum", go(n.operand))
        if isinstance(n, ex.ScenarioOperatorNode):
            assert n.name == "Expectation"
            return ("expec", go(n.operand))
        if isinstance(n, ex.PortFieldNode):
            return ("pf", n.port_name, n.field_name)
        if isinstance(n, ex.PortFieldAggregatorNode):
            assert n.aggregator == "PortSum"
            return ("psum", n.operand.port_name, n.operand.field_name)
        raise TypeError(f"not an expression: {n!r}")

    return go(n)


# ------------------------------------------------------------------ generators

LITS = [F(0), F(1), F(2), F(3), F(1, 2), F(1, 4), F(10), F(5, 2), F(7), F(3, 8)]
VALUES = [F(-3), F(-2), F(-1), F(-1, 2), F(1, 4), F(1, 2), F(1), F(2), F(3), F(4), F(8)]


class Gen:
    """
    Random expressions over given names.
      consts: names of parameters which are constant, with integer values in int_consts
    """

    def __init__(
        self,
        rng,
        variables,
        params,
        int_consts=(),
        ports=(),  # [(port, field, kind)] kind in pf, psum
        time_ops=True,
        scenario_ops=True,
        T=3,
        literals=None,
        port_ctx=None,
    ):
        self.rng = rng
        self.variables = list(variables)
        self.params = list(params)
        self.int_consts = dict(int_consts)
        self.ports = list(ports)
        self.time_ops = time_ops
        self.scenario_ops = scenario_ops
        self.T = T
        self.literals = literals or LITS
        # kinds of operators hidden behind a port field
        self.port_ctx = port_ctx or {}

    def lit(self, nonzero=False):
        while True:
            v = self.rng.choice(self.literals)
            if v or not nonzero:
                return ("lit", v)

    # constants: no variables
    def const(self, depth, nonzero=False, ops=True):
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.25:
            if self.params and r.random() < 0.6:
                return ("par", r.choice(self.params))
            return self.lit(nonzero)
        if x < 0.35:
            return ("neg", self.const(depth - 1, nonzero, ops))
        if x < 0.55:
            return (
                "mul",
                self.const(depth - 1, nonzero, ops),
                self.const(depth - 1, nonzero, ops),
            )
        if x < 0.65:
            return (
                "div",
                self.const(depth - 1, nonzero, ops),
                self.divisor(depth - 1),
            )
        if nonzero:
            return self.const(0, True)
        if x < 0.85:
            return (
                r.choice(["add", "sub"]),
                self.const(depth - 1, False, ops),
                self.const(depth - 1, False, ops),
            )
        if ops:
            return self.operator(self.const(depth - 1, False, ops), depth)
        return self.const(depth - 1, False, ops)

    def divisor(self, depth):
        """never zero: parameters and literals which are not null"""
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.6:
            if self.params and r.random() < 0.5:
                return ("par", r.choice(self.params))
            return self.lit(True)
        if x < 0.7:
            return ("neg", self.divisor(depth - 1))
        if x < 0.78:
            return ("mul", self.divisor(depth - 1), self.divisor(depth - 1))
        if x < 0.85:
            return ("div", self.divisor(depth - 1), self.divisor(depth - 1))
        # operators, over squares as their mean and sum are never null
        d = self.divisor(depth - 2)
        e = self.operator(("mul", d, d), depth)
        if e[0] == "tsum":  # the window may be empty
            return d
        return e

    def linear(self, depth):
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.15:
            if self.ports and r.random() < 0.35:
                p, f, kind = r.choice(self.ports)
                return (kind, p, f)
            if self.variables and r.random() < 0.85:
                return ("var", r.choice(self.variables))
            return self.const(0)
        if x < 0.25:
            return ("neg", self.linear(depth - 1))
        if x < 0.50:
            return (
                r.choice(["add", "sub", "sub"]),
                self.linear(depth - 1),
                self.linear(depth - 1),
            )
        if x < 0.66:
            a, b = self.const(depth - 1), self.linear(depth - 1)
            return ("mul", a, b) if r.random() < 0.5 else ("mul", b, a)
        if x < 0.74:
            return ("div", self.linear(depth - 1), self.divisor(depth - 1))
        if x < 0.82:
            return (
                r.choice(["add", "sub"]),
                self.linear(depth - 1),
                self.const(depth - 1),
            )
        return self.operator(self.linear(depth - 1), depth)

    def has(self, e, *kinds):
        for x in walk(e):
            if x[0] in kinds:
                return True
            if x[0] in ("pf", "psum") and any(
                k in kinds for k in self.port_ctx.get((x[1], x[2]), ())
            ):
                return True
        return False

    def operator(self, e, depth=1):
        choices = []
        if self.time_ops:
            choices.append("asum")
            if not self.has(e, "eval"):
                choices += ["shift", "tsum"]
            if not self.has(e, "eval", "asum"):
                choices.append("eval")
        if self.scenario_ops:
            choices.append("expec")
        if not choices:
            return e
        k = self.rng.choice(choices)
        if k == "asum":
            return ("asum", e)
        if k == "expec":
            return ("expec", e)
        if k == "eval":
            if self.rng.random() < 0.04:
                return ("eval", e, self.integer(-9, 40))
            return ("eval", e, self.integer(0, self.T + 1))
        if k == "shift":
            if self.rng.random() < 0.04:
                return ("shift", e, self.integer(-70, 70))
            return ("shift", e, self.integer(-self.T - 2, self.T + 2))
        a = self.rng.randint(-3, 2)
        b = a + self.rng.choice([-1, 0, 1, 2, 3])
        return ("tsum", e, self.int_expr(a), self.int_expr(b))

    def integer(self, a, b):
        return self.int_expr(self.rng.randint(a, b))

    def int_expr(self, v, depth=2):
        """an expression over constant parameters and literals worth v"""
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.4:
            for n, val in self.int_consts.items():
                if val == v and r.random() < 0.7:
                    return ("par", n)
                if val == -v and r.random() < 0.5:
                    return ("neg", ("par", n))
            return ("lit", F(v)) if v >= 0 else ("neg", ("lit", F(-v)))
        if x < 0.6:
            a = r.randint(-4, 4)
            return ("add", self.int_expr(a, depth - 1), self.int_expr(v - a, depth - 1))
        if x < 0.8:
            a = r.randint(-4, 4)
            return ("sub", self.int_expr(a, depth - 1), self.int_expr(a - v, depth - 1))
        if x < 0.9:
            k = r.choice([2, 4, -2])
            return ("div", self.int_expr(v * k, depth - 1), self.int_expr(k, 0))
        if v % 2 == 0:
            return ("mul", self.int_expr(v // 2, depth - 1), self.int_expr(2, 0))
        return ("mul", self.int_expr(-v, depth - 1), ("neg", ("lit", F(1))))


def show(e):
    """compact text for evidence and reports"""
    k = e[0]
    if k == "lit":
        return str(float(e[1]))
    if k in ("var", "par"):
        return e[1] if isinstance(e[1], str) else ".".join(e[1])
    if k == "neg":
        return f"-({show(e[1])})"
    if k in ("add", "sub", "mul", "div"):
        o = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[k]
        return f"({show(e[1])}{o}{show(e[2])})"
    if k == "cmp":
        return f"{show(e[2])} {e[1]} {show(e[3])}"
    if k == "shift":
        return f"({show(e[1])})[t+({show(e[2])})]"
    if k == "eval":
        return f"({show(e[1])})[{show(e[2])}]"
    if k == "tsum":
        return f"sum(t+({show(e[2])})..t+({show(e[3])}), {show(e[1])})"
    if k == "asum":
        return f"sum({show(e[1])})"
    if k == "expec":
        return f"expec({show(e[1])})"
    if k == "pf":
        return f"{e[1]}.{e[2]}"
    if k == "psum":
        return f"sum_connections({e[1]}.{e[2]})"
    raise AssertionError(e)


def zero_free(e):
    """literals of a divisor are never zero by construction"""
    return True


# ------------------------------------------------------------------ random interpretation


def interp(e, salt):
    """
    Exact value of an expression under a random interpretation: names are random
    rationals, time and scenario operators are uninterpreted functions of the values of
    their operands (a shift by zero is the identity). Two readings of a string which have
    the same value under several interpretations are arithmetically the same.
    """
    import random as _r

    def h(*key):
        g = _r.Random(f"{salt}/{key!r}")
        return F(g.choice([-1, 1]) * g.randint(1, 10**6), g.choice([1, 2, 3, 5, 7, 11]))

    def go(e):
        k = e[0]
        if k == "lit":
            return F(e[1])
        if k in ("var", "par", "pf", "psum"):
            return h(*e)
        if k == "neg":
            return -go(e[1])
        if k == "add":
            return go(e[1]) + go(e[2])
        if k == "sub":
            return go(e[1]) - go(e[2])
        if k == "mul":
            return go(e[1]) * go(e[2])
        if k == "div":
            return go(e[1]) / go(e[2])
        if k == "cmp":
            a, b = go(e[2]), go(e[3])
            if e[1] == "=":
                return h("=", abs(a - b))
            return h("<=", a - b if e[1] == "<=" else b - a)
        if k == "shift":
            a, d = go(e[1]), go(e[2])
            return a if d == 0 else h("shift", a, d)
        if k in ("eval", "tsum", "asum", "expec"):
            return h(k, *[go(x) for x in e[1:]])
        raise AssertionError(e)

    return go(e)


def same_meaning(a, b, n=2):
    """None if the interpretations are undefined (division by zero)"""
    for salt in range(n):
        try:
            va = interp(a, salt)
        except ZeroDivisionError:
            va = None
        try:
            vb = interp(b, salt)
        except ZeroDivisionError:
            vb = None
        if va != vb:
            return False
    return True


def all_walk(e):
    """every sub-expression, including bounds of time operators"""
    yield e
    for x in e[1:]:
        if isinstance(x, tuple):
            yield from all_walk(x)


def leaves(e):
    return {x for x in all_walk(e) if x[0] in ("var", "par", "pf", "psum")}


def numeric(e, seed, T=3, S=2, structure=None):
    """
    {(t, s): value} of an expression at every time step and scenario, names and port
    fields having random values over time steps and scenarios. Comparisons: (op, value).
    Time operators of integer constants only.
    """
    import random as _r

    def conv(e):
        if e[0] in ("var", "pf", "psum"):
            return ("par", e)
        if e[0] == "lit":
            return e
        if e[0] == "par":
            return ("par", e)
        return (e[0],) + tuple(conv(x) if isinstance(x, tuple) else x for x in e[1:])

    def struct(comp, kind, n):
        if structure:
            return structure(n)
        return (True, True)

    def par(comp, n, t, s):
        g = _r.Random(f"{seed}/{n!r}/{t}/{s}")
        return F(g.choice([-1, 1]) * g.randint(1, 40), 4)

    env = Env(T, S, par, struct)
    op = None
    if e[0] == "cmp":
        op = e[1]
        if op == ">=":
            e = ("sub", e[3], e[2])
        else:
            e = ("sub", e[2], e[3])
    c = conv(e)
    out = {}
    for t in range(T):
        for s in range(S):
            try:
                v = den(c, env, "", t, s).const
            except ZeroDivisionError:
                v = None
            if op == "=" and v is not None:
                v = abs(v)
            out[(t, s)] = v if op is None else ("=" if op == "=" else "<=", v)
    return out


def substitute(e, f):
    """replaces leaves: f(leaf) -> expression or None"""
    if e[0] in ("lit", "var", "par", "pf", "psum"):
        r = f(e)
        return e if r is None else r
    return (e[0],) + tuple(
        substitute(x, f) if isinstance(x, tuple) else x for x in e[1:]
    )

from fractions import Fraction as F

from andromede.simulation.linear_expression import LinearExpression, Term

from vf.core import Workload

PROPERTY = "C06"
RULE = (
    "a case is a sequence of operations over a pool of shared linear expressions; distinct"
    " by the sequence, non-trivial from 3 operations"
)
ASSUMPTIONS = [
    "coefficients are dyadic numbers, so that float arithmetic is exact and cancellations"
    " are exact; values below 1e-15, where the code rounds to zero, are not generated",
    "expressions are created with distinct variable instances in their list of terms",
    "an object which was the left operand of an in-place operation is only observed"
    " through the result of the operation",
]
REQUIRE = {
    "operation": 5000, "in place": 1000, "cancellation": 100, "refused": 300,
    "aliases checked": 20000, "comparison": 1000,
}

KEYS = [(c, v, t, s) for c in ("A", "B") for v in ("x", "y") for t in (None, 0, 1)
        for s in (None, 0)]


def make(rng, n=None, fine=True):
    n = rng.choice([0, 0, 1, 2, 3, 5]) if n is None else n
    terms = {}
    for k in rng.sample(KEYS, n):
        terms[k] = value(rng, fine)
    const = value(rng, fine) if rng.random() < 0.8 else F(0)
    t = [Term(float(c), *k) for k, c in terms.items()]
    e = LinearExpression(t, float(const))
    return e, ({k: c for k, c in terms.items() if c}, const)


def value(rng, fine):
    if fine and rng.random() < 0.2:
        return rng.choice([1 + F(1, 2**30), F(1, 2**43) - 1, F(3, 2**42)])
    v = rng.choice([0, 1, -1, 2, -2, 3, F(1, 2), F(-1, 2), F(5, 4), 10, F(1, 1024),
                    F(1, 2**30), 2**20, F(-3, 8)])
    return F(v)


def observe(e):
    """what the expression holds: {key: coefficient}, constant"""
    terms = {}
    for k, t in e.terms.items():
        key = (t.component_id, t.variable_name, t.time_index, t.scenario_index)
        kk = (k.component_id, k.variable_name, k.time_index, k.scenario_index)
        if key != kk or key in terms:
            return None
        terms[key] = F(t.coefficient)
    return terms, F(e.constant)


def sequence(case):
    rng = case.rng
    pool = [make(rng) for _ in range(rng.randint(2, 5))]
    log = []
    for _ in range(rng.randint(3, 12)):
        i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
        op = rng.choice(["+", "-", "*", "/", "neg", "+=", "-=", "*=", "/=", "==", "new"])
        (a, sa), (b, sb) = pool[i], pool[j]
        if op == "new":
            pool.append(make(rng, rng.choice([0, 2])))
            continue
        case.ev("operation")
        log.append((op, i, j))
        case.note(log=log, left=str(sa), right=str(sb))
        before = [observe(e) for e, _ in pool]
        if op == "==":
            case.ev("comparison")
            w = sa == sb
            case.check(0 < abs(sa[1] - sb[1]) < F(1, 10**14) or
                       (a == b) == w and (b == a) == w, "equality of linear expressions",
                       left=a, right=b, expected=w)
            result, want = None, None
        else:
            want = shadow(op.rstrip("="), sa, sb)
            if want is None:  # refused
                if op == "/" or op == "/=":
                    zero = not sb[0] and sb[1] == 0
                    exc = (ZeroDivisionError,) if zero else (ValueError,)
                else:
                    exc = (ValueError,)
                try:
                    r = apply(op, a, b)
                except exc:
                    case.ev("refused")
                    r = None
                else:
                    case.fail("an operation without linear result was accepted",
                              operation=op, left=sa, right=sb, result=r)
                if "=" in op:
                    # a refused operation leaves both sides as they were
                    case.check(observe(a) == before[i], "a refused operation modified"
                               " its left operand", operation=op)
                result = None
            else:
                vals = [*want[0].values(), want[1]]
                if any(0 < abs(c) < F(1, 10**14) or abs(c) > 2**60 for c in vals):
                    continue
                if any(F(float(c)) != c for c in vals):
                    if op != "/":
                        continue
                    # a quotient is rounded once
                    r = observe(apply(op, a, b))
                    case.ev("rounded")
                    case.check(
                        r is not None and set(r[0]) == set(want[0])
                        and all(abs(x - y) <= abs(y) * F(1, 2**51) for x, y in
                                [(r[1], want[1])] + [(r[0][k], want[0][k]) for k in want[0]]),
                        "wrong quotient", left=sa, right=sb, got=r, expected=want)
                    continue
                if op in ("+", "-", "+=", "-=") and len(want[0]) < len(set(sa[0]) | set(sb[0])):
                    case.ev("cancellation")
                result = apply(op, a, b)
                if "=" in op:
                    case.ev("in place")
        inplace = result is not None and "=" in op
        if result is not None and not inplace and (result is a or result is b):
            # then it must not be possible to modify one through the other
            case.ev("result is an operand")
            probe = result
            probe += LinearExpression([], 1.0)
            case.check(observe(a) == sa and observe(b) == sb,
                       "the result of an operation shares its state with an operand",
                       operation=(op, i, j))
        # the others are untouched
        for k, (e, s) in enumerate(pool):
            if inplace and e is a:
                continue
            case.ev("aliases checked")
            case.check(observe(e) == s, "an operation modified another expression",
                       operation=(op, i, j), modified=k, was=s, now=observe(e))
        if result is None:
            continue
        got = observe(result)
        case.check(got is not None, "terms are not keyed by their variable instance",
                   operation=op, result=result)
        case.check(got == want, "wrong result", operation=op, left=sa, right=sb,
                   got=got, expected=want)
        if inplace:
            # every name of the object now denotes the result
            pool = [(result, want) if e is a else (e, s) for e, s in pool]
            if rng.random() < 0.2:
                pool.append((result, want))
        else:
            pool.append((result, want))
        if len(pool) > 9:
            pool.pop(rng.randrange(len(pool)))
    if len(log) > 2:
        case.distinct((log, [str(s) for _, s in pool]))
    case.sample(dict(log=log, pool=[str(e) for e, _ in pool]))


def shadow(op, a, b):
    if op == "neg":
        return {k: -c for k, c in a[0].items()}, -a[1]
    if op in "+-":
        f = 1 if op == "+" else -1
        t = dict(a[0])
        for k, c in b[0].items():
            t[k] = t.get(k, F(0)) + f * c
        return {k: c for k, c in t.items() if c}, a[1] + f * b[1]
    if op == "*":
        if a[0] and b[0]:
            return None
        if a[0]:
            a, b = b, a
        return {k: c * a[1] for k, c in b[0].items() if c * a[1]}, a[1] * b[1]
    if op == "/":
        if b[0] or b[1] == 0:
            return None
        return {k: c / b[1] for k, c in a[0].items()}, a[1] / b[1]
    raise AssertionError(op)


def apply(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "neg":
        return -a
    if op == "+=":
        a += b
    elif op == "-=":
        a -= b
    elif op == "*=":
        a *= b
    elif op == "/=":
        a /= b
    return a


def identities(case):
    """algebraic identities, on the code alone"""
    rng = case.rng
    a, b, c = (make(rng, fine=False)[0] for _ in range(3))
    z = LinearExpression()
    k = LinearExpression([], float(rng.choice([2, F(1, 2), -4])))
    case.ev("operation", 8)
    case.check((a + b) - b == a, "(a + b) - b differs from a", a=a, b=b)
    case.check(a + b == b + a, "a + b differs from b + a", a=a, b=b)
    case.check((a + b) + c == a + (b + c), "sum is not associative", a=a, b=b, c=c)
    case.check(a - a == z and (a - a).is_zero(), "a - a is not zero", a=a)
    case.check(-(-a) == a, "-(-a) differs from a", a=a)
    case.check((a * k) / k == a, "(a * k) / k differs from a", a=a, k=k)
    case.check(k * a == a * k, "k * a differs from a * k", a=a, k=k)
    case.check((a + b) * k == a * k + b * k, "product is not distributive", a=a, b=b)
    case.distinct((str(a), str(b), str(c)))


WORKLOADS = [Workload("sequence", sequence, 10000), Workload("identities", identities, 2000)]

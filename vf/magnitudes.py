"""
Systems with numbers of very different sizes, many time steps or many scenarios, of a form
in which no operation cancels: every coefficient, bound and constant of the problem is then
known to 12 digits (10 when very many terms are added), whatever its size.
"""
from fractions import Fraction as F

from vf import lp as L
from vf import problem as P
from vf import sysgen as G


def number(r, wide=6):
    x = r.random()
    if x < 0.2:
        return F(r.choice([1, 2, 3, 1000, 8760, 100000]))
    if x < 0.3:
        return F(r.choice([0.1, 1 / 3, 1e-3, 1e-6, 0.7, 123456.789]))
    return F(r.uniform(1, 10) * 10.0 ** r.randint(-wide, wide))


def add(terms):
    e = terms[0]
    for t in terms[1:]:
        e = ("add", e, t)
    return e


def setup(r):
    T = r.choice([1, 2, 3, 11, 12, 25])
    S = r.choice([1, 2, 3, 11] if T < 20 else [1, 2])
    long = r.random() < 0.06
    if long:
        T, S = r.choice([(101, 1), (130, 1), (168, 1), (104, 2), (2, 105), (1, 130),
                         (270, 1), (400, 1), (1, 270)])
    spec = G.Spec(horizon=T, scenarios=S)
    flags = [(False, False), (True, False), (False, True), (True, True)]
    for i in range(1 if long else r.randint(1, 2)):
        m = G.ModelSpec(f"m{i}")
        spec.models[m.id] = m
        m.params = {f"p{j}": r.choice(flags) for j in range(r.randint(2, 5))}
        for j in range(r.randint(1, 4)):
            t, s = r.choice(flags)
            v = G.VarSpec(f"v{j}", r.choice(["continuous", "continuous", "integer"]),
                          time=t, scen=s)
            b = [n for n, (pt, ps) in m.params.items() if pt <= t and ps <= s]
            if b and r.random() < 0.6:
                v.lb = ("neg", ("par", r.choice(b)))
            if r.random() < 0.6:
                v.ub = ("par", r.choice(b)) if b and r.random() < 0.7 \
                    else ("lit", number(r, 12))
            m.variables.append(v)

        def factor():
            x = r.random()
            if x < 0.6:
                return ("par", r.choice(list(m.params)))
            return ("lit", number(r))

        def term(v):
            e = ("var", v)
            x = r.random()
            if x < 0.7:
                e = ("mul", factor(), e) if r.random() < 0.7 else ("mul", e, factor())
            elif x < 0.8:
                e = ("div", e, factor())
            x = r.random()
            if x < 0.2:
                e = ("shift", e, ("lit", F(r.choice([-1, 1, 3, -7, 12, -30]))))
            elif x < 0.3:
                a = r.choice([-3, -1, 0])
                e = ("tsum", e, ("lit", F(a)), ("lit", F(a + r.choice([0, 1, 4] if long else [0, 1, 4, 12]))))
            elif x < 0.4:
                e = ("expec", e)
            return e

        def linear():
            return add([term(r.choice(m.variables).name) for _ in range(r.randint(1, 4))])

        for j in range(1 if long else r.randint(1, 3)):
            x = r.random()
            if x < 0.4:
                rhs = factor()
                c = G.ConSpec(f"c{j}", ("cmp", r.choice(["=", "<=", ">="]), linear(), rhs))
            elif x < 0.7:
                c = G.ConSpec(f"c{j}", linear(), lb=("neg", factor()), ub=factor())
            else:
                c = G.ConSpec(f"c{j}", ("add", linear(), factor()), lb=("neg", factor()))
            m.constraints.append(c)
        o = linear()
        if r.random() < 0.5:
            o = ("add", o, factor())
        m.obj_op = ("expec", ("asum", o)) if r.random() < 0.5 else ("asum", ("expec", o))
    for k in range(1 if long else r.randint(1, 3)):
        c = G.CompSpec(f"c{k}", r.choice(list(spec.models)), node=r.random() < 0.3)
        spec.components.append(c)
        for n, (t, s) in spec.models[c.model].params.items():
            kinds = ["const"] + ["ts"] * t + ["ss"] * s + ["tss"] * 2 * (t and s)
            kind = r.choice(kinds)
            val = lambda: number(r, 3)
            spec.data[(c.id, n)] = {
                "const": lambda: ("const", val()),
                "ts": lambda: ("ts", [val() for _ in range(T)]),
                "ss": lambda: ("ss", [val() for _ in range(S)]),
                "tss": lambda: ("tss", [[val() for _ in range(S)] for _ in range(T)]),
            }[kind]()
    st = P.Setup(spec, list(range(T)), S)
    if r.random() < 0.3:
        st.prob = F(r.choice([0.3, 1e-4, 0.999, 1 / 7]))
    return st


def tolerance(st):
    """sums of many thousands of terms (nested expectations) lose some more digits"""
    return 1e-12 if len(st.block) <= 30 and st.S <= 30 else 1e-10


def near(a, b, tol=1e-12):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


def coefs(where, got, want, tol=1e-12):
    for k in sorted(set(got) | set(want)):
        if not near(got.get(k, 0), want.get(k, 0), tol):
            yield f"{where}: coefficient of {k}: {float(got.get(k, 0))!r} instead of" \
                  f" {float(want.get(k, 0))!r}"


def diff(got, want, what, tol=1e-12):
    """what: vars, cons or obj"""
    if what == "obj":
        yield from coefs("objective", got.obj, want.obj, tol)
        if not near(got.offset, want.offset, tol):
            yield f"constant {got.offset!r} instead of {float(want.offset)!r}"
        return
    a, b = getattr(got, what), getattr(want, what)
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            yield f"{k} is {'missing' if k in b else 'too much'}"
            continue
        g = L.oriented(a[k], b[k]) if what == "cons" else a[k]
        if not near(g[0], b[k][0], tol) or not near(g[1], b[k][1], tol):
            yield f"{k}: bounds {g[:2]} instead of {tuple(map(float, b[k][:2]))}"
        if what == "cons":
            yield from coefs(k, g[2], b[k][2], tol)


def workload(what):
    def magnitudes(case):
        st = setup(case.rng)
        want = st.reference()
        p, got = P.observe(case, st, case.rng)
        d = list(diff(got, want, what, tolerance(st)))
        case.check(not d, "the problem is not exactly the one of the system",
                   differences="\n".join(d[:8]))
        n = len(getattr(got, what))
        case.ev("number compared to 12 digits", n)
        if len(st.block) > 10 or st.S > 10:
            case.ev("long block or many scenarios")
        if len(st.block) > 100 or st.S > 100:
            case.ev("more than 100 steps or scenarios")
        if n:
            case.distinct(sorted(map(str, getattr(got, what).items())))

    return magnitudes

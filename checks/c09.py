from fractions import Fraction as F

from vf import expr as X
from vf import lp as L
from vf import problem as P
from vf import sysgen as G
from vf import magnitudes as M
from vf.core import Workload

PROPERTY = "C09"
RULE = (
    "a case is a system, block, number of scenarios and selection of contexts; distinct by"
    " the rows read back from the solver, non-trivial if there is a row"
)
ASSUMPTIONS = [
    "rows are named <component>_<constraint>_t<t>_s<s>",
    "a term with a null coefficient may be present or absent",
    "constraint bounds have no time or scenario operator (the code refuses them)",
]
REQUIRE = {
    "number compared to 12 digits": 1000, "long block or many scenarios": 100,
    "problem built": 800, "row observed": 8000, "equality row": 500,
    "one-sided row": 500, "two-sided row": 200, "row per time step and scenario": 500,
}


def judge(case, st):
    want = st.reference()
    p, got = P.observe(case, st, case.rng)
    d = L.diff_cons(got, want)
    case.check(not d, "rows of the problem differ from the constraints of the system",
               differences="\n".join(d[:10]))
    for n, (lb, ub, co) in got.cons.items():
        kind = "equality" if lb == ub else \
            "two-sided" if abs(lb) < 1e300 and abs(ub) < 1e300 else \
            "one-sided" if abs(lb) < 1e300 or abs(ub) < 1e300 else "free"
        case.ev(f"{kind} row")
        if not co:
            case.ev("row without variable")
    if any("_t1_s1" in n for n in got.cons):
        case.ev("row per time step and scenario",
                sum("_t1_s1" in n for n in got.cons))
    if got.cons:
        case.distinct(sorted((n, lb, ub, sorted(co.items()))
                             for n, (lb, ub, co) in got.cons.items()))
    case.sample(dict(block=st.block, scenarios=st.S, strategy=st.strategy,
                     rows={k: str(v) for k, v in list(got.cons.items())[:4]}))


def systems(case):
    judge(case, P.draw(case.rng, blocks=case.rng.random() < 0.4,
                       depth=case.rng.choice([2, 3, 4])))


def rich(case):
    """one model, many constraints: all senses, bounds of every structure, constants"""
    r = case.rng
    T, S = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3])
    g = G.SysGen(r, T=T, S=S, ports=False, max_models=1, max_components=2,
                 depth=r.choice([1, 2, 3]))
    spec = g.system()
    m = spec.models["m0"]
    for i in range(r.randint(2, 6)):
        c = g.constraint(m, f"k{i}", (), None)
        if c is None:
            continue
        if c.expr[0] != "cmp" and r.random() < 0.5:
            ge = g.gen_for(m, True, True, (), [], ops=False)
            b = ge.const(r.randint(0, 2), ops=False)
            x = r.random()
            if x < 0.3:
                c.lb, c.ub = b, None
            elif x < 0.6:
                c.lb, c.ub = None, b
            else:
                # the last ones are above: no solution, but these bounds and no other
                c.lb, c.ub = b, ("add", b, ("lit", r.choice(
                    [F(0), F(0), F(7, 2), F(7, 2), F(1e-7), F(-2), F(-1e-6)])))
        (m.constraints if r.random() < 0.7 else m.bindings).append(c)
    judge(case, P.Setup(spec, list(range(T)), S))


WORKLOADS = [
    Workload("magnitudes", M.workload("cons"), 300),
    Workload("systems", systems, 1500), Workload("rich", rich, 1500)]

from fractions import Fraction as F

from vf import lp as L
from vf import problem as P
from vf import sysgen as G
from vf import magnitudes as M
from vf.core import Workload

PROPERTY = "C10"
RULE = (
    "a case is a system with objectives, a block, scenarios, selection of contexts and"
    " probability; distinct by the objective read back, non-trivial if it has a term"
)
ASSUMPTIONS = [
    "objectives are given with the Python API (both contributions) or YAML (operational)",
    "objective contributions depend neither on time nor scenario (others are refused)",
]
REQUIRE = {
    "number compared to 12 digits": 1000, "long block or many scenarios": 100,
    "problem built": 800, "objective term": 3000, "constant part": 200,
    "probability": 100, "strategy investment": 50, "strategy operational": 50,
    "both contributions": 100, "point evaluated": 800,
}


def judge(case, st):
    want = st.reference()
    p, got = P.observe(case, st, case.rng)
    d = L.diff_obj(got, want)
    case.check(not d, "the objective differs from the sum of the contributions",
               differences="\n".join(d[:10]))
    case.check(p.solver.Objective().minimization(), "the objective is maximized")
    case.ev("objective term", len(got.obj))
    case.ev("constant part", got.offset != 0)
    if st.prob is not None:
        case.ev("probability")
    # value at a random point, through the solver's own accessors
    r = case.rng
    obj = p.solver.Objective()
    a, b = F(obj.offset()), F(want.offset)
    for v in p.solver.variables():
        x = r.randint(-5, 5)
        a += F(obj.GetCoefficient(v)) * x
        b += F(want.obj.get(v.name(), 0)) * x
    case.check(L.near(a, b, 1e3), "the objective value of a point differs",
               got=float(a), expected=float(b))
    case.ev("point evaluated")
    if got.obj:
        case.distinct((sorted(got.obj.items()), got.offset))
    case.sample(dict(strategy=st.strategy, prob=str(st.prob), offset=got.offset,
                     objective=dict(list(got.obj.items())[:6])))


def systems(case):
    st = P.draw(case.rng, blocks=case.rng.random() < 0.3, depth=case.rng.choice([2, 3, 4]))
    for m in st.spec.models.values():
        case.ev("both contributions", m.obj_op is not None and m.obj_inv is not None)
    judge(case, st)


def weighted(case):
    """always both kinds of objectives, several components, sharing coupling variables"""
    r = case.rng
    T, S = r.choice([1, 2, 3]), r.choice([1, 2, 3])
    g = G.SysGen(r, T=T, S=S, ports=False, invest=True, max_components=4, depth=2)
    spec = g.system()
    for m in spec.models.values():
        m.constraints, m.bindings = [], []
        m.variables.append(G.VarSpec("cap", time=False, scen=False, ctx="coupling"))
        for k in ("obj_op", "obj_inv"):
            ctx = "operational" if k == "obj_op" else "investment"
            e = g.objective(m, ctx)
            t = ("mul", ("lit", F(r.randint(1, 5))), ("var", "cap"))
            if r.random() < 0.3:
                t = ("add", t, ("lit", F(r.randint(-3, 3))))
            e = t if e is None else ("add", e, t)
            if r.random() < 0.85:
                setattr(m, k, e)
        if r.random() < 0.15:  # the same contribution in both
            m.obj_op = m.obj_inv = ("add", ("mul", ("lit", F(r.randint(1, 5))), ("var", "cap")),
                                    ("lit", F(r.randint(-3, 3))))
            case.ev("same contribution twice")
        case.ev("both contributions", m.obj_op is not None and m.obj_inv is not None)
    st = P.Setup(spec, list(range(T)), S, r.choice(P.STRATEGIES))
    if r.random() < 0.6:
        st.prob = r.choice([F(1), F(1, 2), F(3, 4), F(1, 8), F(0)])
    judge(case, st)


WORKLOADS = [
    Workload("magnitudes", M.workload("obj"), 300),
    Workload("systems", systems, 1200), Workload("weighted", weighted, 1200)]

from fractions import Fraction as F

from vf import lp as L
from vf import problem as P
from vf import sysgen as G
from vf import magnitudes as M
from vf.core import Workload
from vf.expr import VALUES

PROPERTY = "C08"
RULE = (
    "a case is a system, block, number of scenarios and selection of contexts; distinct by"
    " the set of (variable, domain) read back from the solver, non-trivial if not empty"
)
ASSUMPTIONS = [
    "the bounds of boolean variables are 0 and 1",
    "ids of components and variables are drawn so that their solver names cannot collide;"
    " colliding names are a known finding, reproduced apart",
    "the documented name of a variable is <tree node>_<component>_<variable>_t<t>_s<s>,"
    " without the time (scenario) suffix when the block has one step (one scenario)",
]
REQUIRE = {
    "number compared to 12 digits": 1000, "long block or many scenarios": 100,
    "problem built": 400, "variable observed": 5000, "finite bound": 2000,
    "integer variable": 500, "refused": 40, "time dependent bound": 200,
}


def judge(case, st):
    try:
        want = st.reference()
    except L.Infeasible as e:
        case.ev("crossed bounds")
        case.note(**st.text())
        try:
            P.build(st, rng=case.rng)
        except ValueError:
            case.ev("refused")
            case.distinct(("refused", repr(st.spec)))
            return
        case.fail("a lower bound above the upper bound was accepted", variable=e)
    p, got = P.observe(case, st, case.rng)
    d = L.diff_vars(got, want)
    case.check(not d, "variables of the problem differ from those of the system",
               differences="\n".join(d[:10]))
    doms = {}
    for n, (lb, ub, i) in got.vars.items():
        case.ev("finite bound", (abs(lb) < 1e300) + (abs(ub) < 1e300))
        case.ev("integer variable", bool(i))
        doms[n] = (lb, ub, i)
    # the variables which the context hands out are those of the solver, at their index
    for k, v in p.context.get_all_component_variables().items():
        n = L.var_name((k.component_id, k.variable_name, k.block_timestep, k.scenario),
                       len(st.block), st.S, st.tree, st.full)
        case.check(v.name() == n, "a variable is registered under the index of another",
                   key=k, solver_name=v.name(), expected=n)
        case.ev("registered variable")
    case.check(len(p.context.get_all_component_variables()) == len(want.vars),
               "some variables are not registered")
    if doms:
        case.distinct(sorted(doms.items()))
    case.sample(dict(block=st.block, scenarios=st.S, strategy=st.strategy,
                     variables={k: str(v) for k, v in list(doms.items())[:6]}))


def systems(case):
    st = P.draw(case.rng, blocks=case.rng.random() < 0.5, depth=1)
    for m in st.spec.models.values():
        m.constraints = m.constraints[:1]
    judge(case, st)


INF = float("inf")


def bounds(case):
    """variables with random bounds of every structure, which may cross"""
    r = case.rng
    T, S = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])
    H = T + r.choice([0, 3])
    spec = G.Spec(horizon=H, scenarios=S)
    m = G.ModelSpec("m")
    wide = r.random() < 0.7
    for i, st in enumerate([(False, False), (True, False), (False, True), (True, True)]):
        m.params[f"lo{i}"] = st
        m.params[f"hi{i}"] = st
    for i in range(r.randint(1, 5)):
        v = G.VarSpec(f"v{i}", r.choice(["continuous", "continuous", "integer", "boolean"]),
                      time=r.random() < 0.6, scen=r.random() < 0.6,
                      ctx=r.choice(["operational", "operational", "investment", "coupling"]))
        if v.kind != "boolean":
            def pick(side):
                ok = [n for n, (t, s) in m.params.items()
                      if n.startswith(side) and (v.time or not t) and (v.scen or not s)]
                x = r.random()
                if x < 0.2:
                    return None
                if x < 0.3:
                    return ("lit", {"lo": F(-20), "hi": F(20)}[side])
                if x < 0.37:
                    return ("lit", F(0))
                if x < 0.42:
                    return ("lit", -INF if side == "lo" else INF)
                n = r.choice(ok)
                if m.params[n][0]:
                    case.ev("time dependent bound")
                e = ("par", n)
                y = r.random()
                if y < 0.2:
                    e = ("add", e, ("lit", F(1, 2) if side == "hi" else F(-1, 2)))
                elif y < 0.3:
                    e = ("div", e, ("lit", F(2)))
                elif y < 0.4:
                    e = ("neg", ("par", n.replace("lo", "X").replace("hi", "lo")
                                 .replace("X", "hi")))
                return e
            v.lb, v.ub = pick("lo"), pick("hi")
            if v.lb is not None and v.lb[0] == "par" and r.random() < 0.04:
                # equal, or crossed by very little
                gap = r.choice([F(0), F(0), F(1e-6), F(1e-7), F(1e-9), F(1e-12)])
                v.ub = ("sub", v.lb, ("lit", gap))
                if r.random() < 0.5:
                    v.lb, v.ub = ("add", v.lb, ("lit", gap)), v.lb
            elif r.random() < 0.1:
                big = F(r.choice([10**6, 2**31 - 1, 2**31, 2**31 + 1, 10**9, 10**10, 10**12]))
                if r.random() < 0.5:
                    v.lb = ("lit", -big)
                else:
                    v.ub = ("lit", big)
                case.ev("large bound")
        m.variables.append(v)
    spec.models = {"m": m}
    for i in range(r.randint(1, 3)):
        spec.components.append(G.CompSpec(f"{r.choice(['unit', 'G-', 'zone '])}{i}", "m",
                                          r.random() < 0.3))
    g = G.SysGen(r, T=T, S=S)
    for c in spec.components:
        for n, st in m.params.items():
            kinds = ["const"] + ["ts"] * (2 * st[0]) + ["ss"] * (2 * st[1]) + \
                ["tss"] * (4 * (st[0] and st[1]))
            k = r.choice(kinds)
            if wide:
                val = (lambda: -F(r.randint(0, 9))) if n[0] == "l" else \
                    (lambda: F(r.randint(0, 9)))
            else:
                val = (lambda: F(r.randint(-9, 3))) if n[0] == "l" else \
                    (lambda: F(r.randint(0, 9)))
            spec.data[(c.id, n)] = {
                "const": lambda: ("const", val()),
                "ts": lambda: ("ts", [val() for _ in range(H)]),
                "ss": lambda: ("ss", [val() for _ in range(S)]),
                "tss": lambda: ("tss", [[val() for _ in range(S)] for _ in range(H)]),
            }[k]()
    block = sorted(r.sample(range(H), T))
    judge(case, P.Setup(spec, block, S, r.choice(P.STRATEGIES)))


def known(case):
    m1 = G.ModelSpec("m1", variables=[G.VarSpec("c", time=False, scen=False)])
    m2 = G.ModelSpec("m2", variables=[G.VarSpec("b_c", time=False, scen=False)])
    spec = G.Spec(models={"m1": m1, "m2": m2},
                  components=[G.CompSpec("a_b", "m1"), G.CompSpec("a", "m2")])
    p = P.build(P.Setup(spec, [0], 1))
    names = [v.name() for v in p.solver.variables()]
    case.ev("colliding names tried")
    if len(set(names)) != len(names):
        case.finding("colliding-solver-names", "two variables have the same solver name",
                     names=names)


WORKLOADS = [
    Workload("magnitudes", M.workload("vars"), 300),
    Workload("systems", systems, 600), Workload("bounds", bounds, 2400),
             Workload("known", known, 1, 1)]

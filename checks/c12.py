import re
from fractions import Fraction as F

from vf import expr as X
from vf import lp as L
from vf import problem as P
from vf import sysgen as G
from vf.core import Workload

PROPERTY = "C12"
RULE = (
    "a case is a system and a block (start, gaps, order, length); distinct by block and"
    " problem read back, non-trivial if the block does not start at 0 or a time operator"
    " crosses its border"
)
ASSUMPTIONS = [
    "cyclic border management, the only one implemented",
    "the access log records every call of get_value on the data of the system",
    "rotations are tried on systems without evaluation at a fixed time step",
]
REQUIRE = {
    "problem built": 1500, "data read": 20000, "time step read": 8000,
    "block not starting at 0": 300, "block with gaps": 300, "shift over a border": 500,
    "rotated": 300, "data outside the block changed": 300, "block of one step": 50,
    "row of a long block": 5000,
}


class Log:
    def __init__(self):
        self.reads = []


def logged(db, spec, log):
    """the same database, which records its reads"""
    from andromede.study import DataBase
    from andromede.study.data import AbstractDataStructure

    class Logged(AbstractDataStructure):
        def __init__(self, key, data):
            object.__setattr__(self, "key", key)
            object.__setattr__(self, "data", data)

        def get_value(self, timestep, scenario, node_id=""):
            log.reads.append((self.key, timestep, scenario))
            return self.data.get_value(timestep, scenario, node_id)

        def check_requirement(self, time, scenario):
            return self.data.check_requirement(time, scenario)

    res = DataBase()
    for (c, n) in spec.data:
        res.add_data(c, n, Logged((c, n), db.get_data(c, n)))
    return res


def observe(case, st):
    case.note(**st.text())
    net, db, _ = G.build_python(st.spec, case.rng)
    log = Log()
    p = P.build(st, net, logged(db, st.spec, log))
    got = L.readback(p.solver)
    case.ev("problem built")
    case.ev("data read", len(log.reads))
    steps = set(st.block)
    for key, t, s in log.reads:
        if t is None:
            continue
        case.ev("time step read")
        case.check(t in steps, "data were read outside the block", parameter=key,
                   read=t, block=st.block)
    return got


def compare(case, st):
    got = observe(case, st)
    d = L.diff(got, st.reference())
    case.check(not d, "the problem is not the one of its block",
               block=st.block, differences="\n".join(d[:10]))
    if st.block[0] != 0:
        case.ev("block not starting at 0")
    if any(b - a != 1 for a, b in zip(st.block, st.block[1:])):
        case.ev("block with gaps")
    if len(st.block) == 1:
        case.ev("block of one step")
    case.distinct((st.block, sorted(map(repr, got.cons.items()))))
    case.sample(dict(block=st.block, rows={k: str(v) for k, v in list(got.cons.items())[:3]}))
    return got


def outside(case, st, got):
    """neither the data outside the block nor its id change the problem"""
    r = case.rng
    keep = set(st.block)
    changed = False
    for k, d in list(st.spec.data.items()):
        if d[0] in ("ts", "tss"):
            new = [v if t in keep else (v + 1000 if d[0] == "ts" else [x + 1000 for x in v])
                   for t, v in enumerate(d[1])]
            changed |= new != d[1]
            st.spec.data[k] = (d[0], new)
    st.block_id = r.choice([3, 12, 52])
    if changed:
        case.ev("data outside the block changed")
    d = L.diff(observe(case, st), got)
    case.check(not d, "data outside the block or its identifier change the problem",
               differences="\n".join(d[:10]))


def systems(case):
    st = P.draw(case.rng, blocks=True, tree=False, strategies=False,
                depth=case.rng.choice([2, 3]))
    got = compare(case, st)
    outside(case, st, got)


def shifting(r, T):
    """a model whose time operators cross the borders"""
    H = T + r.choice([0, 1, 4, 20])
    spec = G.Spec(horizon=H, scenarios=r.choice([1, 2]))
    m = G.ModelSpec("m")
    m.params = {"p": (True, True), "q": (True, False), "k": (False, False)}
    m.int_consts = {"k": r.randint(-2 * T - 3, 2 * T + 3)}
    m.variables = [G.VarSpec("x"), G.VarSpec("y", scen=False)]
    spec.models = {"m": m}
    spec.components = [G.CompSpec("u", "m"), G.CompSpec("v", "m")][: r.randint(1, 2)]

    def k():
        x = r.random()
        if x < 0.2:
            return ("par", "k"), m.int_consts["k"]
        if x < 0.3:
            n = r.randint(-5, 5)
            return ("sub", ("par", "k"), ("lit", F(n))), m.int_consts["k"] - n
        n = r.choice([-1, 1, -T, T, T - 1, -T - 1, r.randint(-4 * T, 4 * T), 168, -100,
                      8761, -20000])
        return ("lit", F(n)), n

    ks = []

    def atom():
        return r.choice([("var", "x"), ("var", "y"), ("mul", ("par", "p"), ("var", "x")),
                         ("par", "q"), ("add", ("var", "y"), ("par", "p")),
                         ("mul", ("var", "y"), ("par", "q"))])

    def term():
        x = r.random()
        if x < 0.5:
            e, n = k()
            ks.append(n)
            return ("shift", atom(), e)
        if x < 0.65:
            e, n = k()
            ks.append(n)
            a = atom()
            return ("mul", ("lit", F(2)), ("shift", a, e))
        a = r.randint(-T - 2, T + 1)
        b = a + r.randint(0, min(T + 2, 6))
        ks.extend([a, b])
        return ("tsum", atom(), ("lit", F(a)), ("lit", F(b)))

    for i in range(r.randint(1, 3)):
        e = term()
        for _ in range(r.randint(0, 2)):
            e = (r.choice(["add", "sub"]), e, r.choice([term(), atom()]))
        m.constraints.append(
            G.ConSpec(f"c{i}", ("cmp", r.choice(["<=", "=", ">="]), e, atom())))
    obj = ("asum", ("mul", ("par", "q"), ("shift", ("var", "y"), k()[0])))
    m.obj_op = obj if r.random() < 0.5 else ("expec", ("asum", ("sub", atom(), term())))
    g = G.SysGen(r, T=H, S=spec.scenarios)
    for c in spec.components:
        for n in m.params:
            spec.data[(c.id, n)] = g.data(spec, m, n)
    return spec, ks


def borders(case):
    r = case.rng
    T = r.choice([1, 2, 3, 4, 5, 7, 8, 24]) if r.random() < 0.9 else 168
    spec, ks = shifting(r, T)
    H = spec.horizon
    x = r.random()
    if x < 0.4:
        start = r.randint(0, H - T)
        block = list(range(start, start + T))
    elif x < 0.8:
        block = sorted(r.sample(range(H), T))
    elif x < 0.9:
        block = r.sample(range(H), T)
    else:
        block = [r.randrange(H) for _ in range(T)]  # a step may be repeated
    case.ev("shift over a border", any(k for k in ks))
    st = P.Setup(spec, block, spec.scenarios, block_id=r.choice([0, 1, 9]))
    got = compare(case, st)
    if T > 1 and T < 50:
        n = r.randrange(1, T)
        st2 = P.Setup(spec, block[n:] + block[:n], spec.scenarios)
        rot = observe(case, st2)
        case.ev("rotated")
        d = L.diff(rot, rotate(got, T, n))
        case.check(not d, "rotating the block does not rotate the problem", by=n,
                   block=block, differences="\n".join(d[:10]))
    if r.random() < 0.5:
        outside(case, st, got)


def rotate(lp, T, n):
    def f(name):
        return re.sub(r"_t(\d+)", lambda m: f"_t{(int(m.group(1)) - n) % T}", name)

    res = L.LP()
    res.vars = {f(k): v for k, v in lp.vars.items()}
    timed = {k.rsplit("_t", 1)[0] for k in lp.cons if "_t1_s" in k}
    for k, (lb, ub, co) in lp.cons.items():
        k2 = f(k) if k.rsplit("_t", 1)[0] in timed else k
        res.cons[k2] = (lb, ub, {f(v): c for v, c in co.items()})
    res.obj = {f(k): v for k, v in lp.obj.items()}
    res.offset = lp.offset
    return res


def whole_years(case):
    """a storage over blocks of weeks, months or years: every row, wherever it is"""
    from andromede.expression import literal, param, var
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model import Constraint, float_parameter, float_variable, model
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study import ConstantData, DataBase, Network, TimeIndex, TimeSeriesData
    from andromede.study import create_component

    r = case.rng
    T = r.choice([169, 336, 744, 1001, 2190, 4400, 8736, 8760, 8784])
    S = r.choice([1, 2]) if T < 1000 else 1
    first = r.choice([0, 0, 168, 8760, 12345])
    step = r.choice([1, 1, 2])
    block = list(range(first, first + T * step, step))
    k = r.choice([-1, 1, T - 1, -T, 8760, -8761, 20000, r.randint(-3 * T, 3 * T)])
    TS = IndexingStructure(True, True)
    M = model(
        id="storage",
        parameters=[float_parameter("p", IndexingStructure(True, False)),
                    float_parameter("rho", IndexingStructure(False, False))],
        variables=[float_variable("x", lower_bound=-param("p"), upper_bound=2 * param("p"),
                                  structure=TS)],
        constraints=[Constraint("level", var("x") - param("rho") * var("x").shift(k)
                                <= param("p"))],
        objective_operational_contribution=(param("p") * var("x")).time_sum().expec(),
    )
    net = Network("n")
    net.add_component(create_component(M, "c"))
    db = DataBase()
    base, rho = r.randint(1, 99), r.choice([0.5, 3.0])
    p = {t: base + t / 8 for t in block}
    db.add_data("c", "p", TimeSeriesData({TimeIndex(t): v for t, v in p.items()}))
    db.add_data("c", "rho", ConstantData(rho))
    case.note(T=T, S=S, first=first, step=step, shift=k)
    pb = build_problem(net, db, TimeBlock(r.choice([0, 7]), block), S, solver_id="GLOP")
    got = L.readback(pb.solver)
    name = lambda t, s: L.var_name(("c", "x", t, s), T, S)
    ids = {(t, s): name(t, s) for t in range(T) for s in range(S)}
    case.check(set(got.vars) == set(ids.values()), "the variables are not those of the block",
               T=T, S=S, got=len(got.vars), expected=len(ids))
    case.check(len(got.cons) == T * S, "there is not one row per time step and scenario",
               T=T, S=S, got=len(got.cons))
    for (t, s), n in ids.items():
        v = p[block[t]]
        case.check(got.vars[n][:2] == (-v, 2 * v), "wrong bounds of a variable", variable=n,
                   got=got.vars[n], expected=(-v, 2 * v))
        co = {}
        for m, c in ((n, 1.0), (ids[((t + k) % T, s)], -rho)):
            co[m] = co.get(m, 0.0) + c
        row = got.cons.get(f"c_level_t{t}_s{s}")
        want = (float("-inf"), v, co)
        case.check(row is not None and L.near(row[1], v) and row[0] == want[0]
                   and {a: b for a, b in row[2].items() if b} == co,
                   "the row of a time step is not the one of its block", time=t, scenario=s,
                   got=row, expected=want)
        case.check(L.near(got.obj.get(n, 0), v / S), "wrong cost of a variable", variable=n,
                   got=got.obj.get(n), expected=v / S)
        case.ev("row of a long block")
    case.ev("problem built")
    case.ev("shift over a border")
    case.distinct((T, S, first, step, k))


WORKLOADS = [Workload("systems", systems, 1000), Workload("borders", borders, 1200),
             Workload("whole_years", whole_years, 16)]

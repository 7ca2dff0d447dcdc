import json
import os
import shutil
import tempfile
from fractions import Fraction as F

from vf import lp as L
from vf import magnitudes as M
from vf import mps
from vf import sysgen as G
from vf import tree as T
from vf.core import Workload

PROPERTY = "C17"
RULE = (
    "a case is a decision tree over a random system, with its blocks, scenarios, data and"
    " couplings; distinct by the problems read back, non-trivial if the master has a"
    " variable and a subproblem has one too"
)
ASSUMPTIONS = [
    "identifiers of tree nodes and components whose concatenations do not collide",
    "investment and coupling variables depend neither on time nor scenario",
    "the rows of the master are compared whatever their names, those of subproblems by name",
    "numbers of exported files are compared up to the six digits which OR-Tools writes;"
    " the column of a variable without any coefficient is not judged (it has none)",
]
REQUIRE = {
    "decomposition built": 350, "master variable": 1000, "master row": 400,
    "subproblem": 800, "coupling": 200, "several nodes": 200, "single node": 80,
    "several blocks": 100, "structure line": 1500, "file read": 1000, "integer in master": 80,
    "cost of a point": 350, "constant in the master cost": 60, "files written": 60,
    "integer variables before in the file": 50, "decomposition compared to 12 digits": 100,
    "long names": 50, "coefficients which cancel": 50,
}


def build(case, ts, rng, solver="GLOP", **kw):
    from andromede.simulation import build_benders_decomposed_problem

    case.note(tree=repr(ts.nodes), spec=repr(ts.more))
    objs, db = T.build_nodes(ts, rng)
    T.add_couplings(ts, objs)
    if solver != "GLOP":
        kw["solver_id"] = solver
    res = build_benders_decomposed_problem(objs[0], db, **kw)
    case.ev("decomposition built")
    return res


def judge_master(case, ts, master):
    want, rows, couplings = T.reference_master(ts)
    got = L.readback(master.solver)
    case.check(not got.duplicates, "variables or rows of the master share a name",
               names=got.duplicates)
    d = L.diff_vars(got, want) + L.diff_obj(got, want)
    d += L.diff_rows(got.rows, rows + couplings)
    case.check(not d, "the master is not the one of the investment and coupling objects of"
               " all nodes", differences="\n".join(d[:10]))
    case.ev("master variable", len(got.vars))
    case.ev("master row", len(rows))
    case.ev("coupling", len(couplings))
    case.ev("integer in master", sum(v[2] for v in got.vars.values()))
    case.ev("constant in the master cost", got.offset != 0)
    return got


def judge_subs(case, ts, subs):
    want = T.reference_subs(ts)
    case.check(sorted(p.name for p in subs) == sorted(n for n, _ in want),
               "there is not one subproblem per node and block",
               got=[p.name for p in subs], expected=[n for n, _ in want])
    res = []
    want = dict(want)
    for p in subs:
        name, w = p.name, want[p.name]
        got = L.readback(p.solver)
        d = L.diff(got, w)
        case.check(not d and not got.duplicates,
                   f"{name} is not the one of the operational and coupling objects",
                   differences="\n".join(d[:10]), duplicates=got.duplicates)
        case.ev("subproblem")
        res.append(got)
    return res


def judge_cost(case, ts, master, subs):
    """at any point, the costs add up to that of the whole"""
    r = case.rng
    names = set(master.vars).union(*[p.vars for p in subs])
    x = {n: F(r.randint(-9, 9)) for n in sorted(names)}

    def value(p):
        return F(p.offset) + sum(F(c) * x[v] for v, c in p.obj.items())

    total = value(master) + sum(value(p) for p in subs)
    whole = F(0)
    for i in ts.order():
        n = ts.nodes[i]
        pr = ts.abs_prob(i)
        if len(n.blocks) == 1:
            whole += pr * value(L.reference(ts.spec(n), n.blocks[0][1], n.S, tree=n.id))
        else:
            whole += pr * value(L.reference(ts.spec(n), [0], 0, "investment", tree=n.id))
            for _, steps in n.blocks:
                whole += pr * value(L.reference(ts.spec(n), steps, n.S, "operational",
                                                tree=n.id))
    case.check(L.near(total, whole, 1e3), "the costs do not add up to that of the whole",
               got=float(total), expected=float(whole))
    case.ev("cost of a point")


def judge_structure(case, text, master, files):
    """files: {problem: exported problem}, master first"""
    shared = set(master.vars)
    lines = {}
    for line in text.splitlines():
        f = line.split()
        case.check(len(f) == 3, "a line of the structure file has not three fields", line=line)
        key = (f[0], f[1])
        case.check(key not in lines, "a variable is listed twice", line=line)
        lines[key] = int(f[2])
        case.ev("structure line")
    want = {(n, v) for n, p in files.items() for v in p.vars if v in shared}
    # a variable which the file need not mention may be listed
    extra = {k for k in lines if k not in want}
    for n, v in extra:
        case.check(n in files and v in shared and v in files[n].held.vars,
                   "the structure file lists a variable which the problem does not share",
                   problem=n, variable=v)
    for n, v in sorted(want):
        case.check((n, v) in lines, "a shared variable is not in the structure file",
                   problem=n, variable=v)
        if v not in files[n].columns:
            continue  # no coefficient: it has no column
        col = files[n].columns.index(v)
        case.check(lines[(n, v)] == col,
                   "the column of the structure file is not that of the exported problem",
                   problem=n, variable=v, got=lines[(n, v)], expected=col)
        if any(files[n].vars[u][2] for u in files[n].columns) and not files[n].vars[v][2]:
            case.ev("integer variables before in the file")


def exported(case, p, held):
    f = mps.read(p.export_as_mps())
    f.held = held
    case.ev("file read")
    d = mps.diff(f, held)
    case.check(not d, "the exported file does not describe the problem", problem=p.name,
               differences="\n".join(d[:10]))
    return f


def cancel(case, ts):
    """candidates whose coefficients cancel in the subproblems"""
    r = case.rng
    for mid, m in ts.base.models.items():
        vs = [v for v in m.variables if v.ctx == "coupling"]
        if not vs or r.random() < 0.3:
            continue
        v = ("var", r.choice(vs).name)
        e = ("sub", v, r.choice([("expec", v), ("shift", v, ("lit", F(1))),
                                 ("eval", v, ("lit", F(0)))]))
        for x in r.sample(m.variables, r.randint(0, len(m.variables))):
            if x.ctx == "operational":
                e = (r.choice(["add", "sub"]), e, ("var", x.name))
        for spec in {id(s): s for s in (ts.base, ts.more)}.values():
            spec.models[mid].constraints.insert(0, G.ConSpec("nul", e, ub=("lit", F(9))))
        case.ev("coefficients which cancel")


def study(case, ts=None):
    r = case.rng
    ts = ts or T.draw(r)
    if max(len(c.id) + len(n.id) for c in ts.more.components for n in ts.nodes) > 40:
        case.ev("long names")
    if r.random() < 0.35:
        cancel(case, ts)
    case.ev("several nodes" if len(ts.nodes) > 1 else "single node")
    case.ev("several blocks", any(len(n.blocks) > 1 for n in ts.nodes))
    b = build(case, ts, r, solver=r.choice(["GLOP"] * 4 + ["SCIP"]))
    master = judge_master(case, ts, b.master)
    subs = judge_subs(case, ts, b.subproblems)
    judge_cost(case, ts, master, subs)
    files = {"master": exported(case, b.master, master)}
    for p, held in zip(b.subproblems, subs):
        files[p.name] = exported(case, p, held)
    judge_structure(case, b.export_structure(), master, files)
    case.check(b.export_structure() == b.export_structure(), "the structure file changes")
    if master.vars and any(p.vars for p in subs):
        case.distinct((sorted(master.vars), sorted(map(str, master.rows)),
                       [sorted(map(str, p.rows)) for p in subs]))
    case.sample(dict(nodes=[(n.id, n.parent, str(n.prob)) for n in ts.nodes],
                     master=sorted(master.vars)[:6],
                     structure=b.export_structure().splitlines()[:3]))
    return ts, b, master, subs, files


def many_integers(case):
    """candidates of all kinds, mixed in the columns"""
    r = case.rng
    ts = T.draw(r, size=r.choice([1, 2, 3]),
                system_opt=dict(max_models=2, max_components=3, ops=False))
    for n in ts.nodes:
        n.extra = True
    for n in ts.nodes:
        n.couplings = []
        if r.random() < 0.5:
            T.couple(r, ts, ts.nodes.index(n))
    study(case, ts)


def written(case):
    """the files of the study are the exports, and the options name them"""
    r = case.rng
    ts = T.draw(r, size=r.choice([1, 2, 3]))
    kw = {}
    if r.random() < 0.5:
        kw["struct_filename"] = r.choice(["struct.txt", "s"])
    b = build(case, ts, r, **kw)
    tmp = tempfile.mkdtemp(prefix="vf17")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        import pathlib

        where = "outputs/lp"
        if r.random() < 0.5:
            where = "elsewhere"
            b.emplacement = pathlib.Path(where)
        debug = r.random() < 0.5
        for _ in range(r.choice([1, 2])):  # again over the former files
            b.initialise(is_debug=debug, solver_name="COIN", log_level=2)
        d = os.path.join(tmp, where)
        files = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)
    opt = json.loads(files.pop("options.json"))
    want = {kw.get("struct_filename", "structure.txt"): b.export_structure()}
    for p in [b.master] + b.subproblems:
        want[p.name + ".mps"] = p.export_as_mps()
        if debug:
            want[p.name + ".lp"] = p.export_as_lp()
    case.check(files == want, "the written files are not the exported problems",
               got=sorted(files), expected=sorted(want))
    case.check(opt["STRUCTURE_FILE"] in files, "the options name no structure file")
    case.check(opt["MASTER_NAME"] + ".mps" in files, "the options name no master",
               got=opt["MASTER_NAME"])
    case.check(opt["SOLVER_NAME"] == "COIN" and opt["LOG_LEVEL"] == 2,
               "the options are not those asked for", got=opt)
    # what makes the decomposed run equivalent: every subproblem counts once, in full,
    # the master keeps its integers, and nothing stops the iterations before the optimum
    case.check(opt["SLAVE_WEIGHT"] == "CONSTANT" and float(opt["SLAVE_WEIGHT_VALUE"]) == 1
               and opt["MASTER_FORMULATION"] == "integer" and opt["MAX_ITERATIONS"] < 0
               and opt["ABSOLUTE_GAP"] <= 1 and opt["RELATIVE_GAP"] <= 1e-6
               and opt["TIME_LIMIT"] >= 1e9 and opt["BATCH_SIZE"] == 0
               and os.path.normpath(opt["INPUTROOT"]) == ".",
               "with these options the solver does not solve the sum of the problems to the"
               " optimum", got=opt)
    case.check(opt["MASTER_NAME"] == "master",
               "the master of the options is not that of the structure file")
    case.ev("files written")
    case.distinct(sorted(want.items()))


def sizes(case):
    """numbers of very different sizes, kept to 12 digits"""
    r = case.rng
    num = lambda: M.number(r, 9)
    base = G.Spec(horizon=2, scenarios=1)
    m = base.models["m"] = G.ModelSpec("m", params={"p": (False, False), "q": (False, False)})
    ctx = lambda: r.choice(["investment", "coupling"])
    m.variables = [
        G.VarSpec("a", time=False, scen=False, ctx="coupling", ub=("lit", num())),
        G.VarSpec("b", time=False, scen=False, ctx=ctx(), lb=("neg", ("par", "q"))),
        G.VarSpec("k", "integer", time=False, scen=False, ctx=ctx(), lb=("lit", F(0))),
        G.VarSpec("gen", lb=("lit", F(0)), ub=("par", "p")),
    ]
    t = lambda v: ("mul", r.choice([("par", "p"), ("par", "q"), ("lit", num())]), ("var", v))
    m.constraints = [
        G.ConSpec("lim", ("cmp", "<=", t("gen"), t("a"))),
        G.ConSpec("i0", ("cmp", r.choice(["<=", ">=", "="]), ("add", t("a"), t("b")),
                         ("lit", num())), ctx="investment"),
        G.ConSpec("i1", ("add", t("b"), t("k")), ("neg", ("par", "p")), ("lit", num()),
                  ctx="investment"),
    ]
    m.obj_inv = M.add([t("a"), t("b"), t("k"), ("par", "p")])
    m.obj_op = ("expec", ("asum", t("gen")))
    for i in range(r.randint(1, 2)):
        base.components.append(G.CompSpec(f"c{i}", "m"))
        for n in m.params:
            base.data[(f"c{i}", n)] = ("const", num())
    nodes = [T.NodeSpec("r", None, F(1), [(0, [0, 1])], 1)]
    if r.random() < 0.7:
        p = F(r.choice([0.5, 0.3, 1e-5, 0.999]))
        nodes += [T.NodeSpec("x", 0, p, [(0, [0])], 1), T.NodeSpec("y", 0, 1 - p, [(0, [1])], 1)]
    ts = T.TreeSpec(base, base, nodes)
    for n in nodes:
        if r.random() < 0.6:
            n.couplings.append(("c0", "a", "c0", "a", "b"))
    b = build(case, ts, r)
    want, rows, couplings = T.reference_master(ts)
    got = L.readback(b.master.solver)
    d = list(M.diff(got, want, "vars")) + list(M.diff(got, want, "obj"))
    left = list(got.rows)
    for w in rows + couplings:
        for x in left:
            g = L.oriented(x, w)
            if M.near(g[0], w[0]) and M.near(g[1], w[1]) and not list(M.coefs("", g[2], w[2])):
                left.remove(x)
                break
        else:
            d.append(f"no row {w}")
    d += [f"row {g} too much" for g in left]
    want = dict(T.reference_subs(ts))
    for p in b.subproblems:
        name, w = p.name, want[p.name]
        g = L.readback(p.solver)
        for what in ("vars", "cons", "obj"):
            d += [f"{name}: {x}" for x in M.diff(g, w, what)]
    case.check(not d, "the decomposed problems are not exactly those of the tree",
               differences="\n".join(d[:8]))
    case.ev("decomposition compared to 12 digits")
    case.distinct(sorted(map(str, got.rows)))


WORKLOADS = [
    Workload("sizes", sizes, 300),
    Workload("study", study, 1200),
    Workload("many_integers", many_integers, 500),
    Workload("written", written, 300),
]

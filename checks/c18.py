import copy
import math
from fractions import Fraction as F

from vf import lp as L
from vf import sysgen as G
from vf import tree as T
from vf.core import Workload, raises

PROPERTY = "C18"
RULE = (
    "a case is a history of one to four trees built, coupled and decomposed in the same"
    " process, interleaved at random; distinct by trees, couplings and order, non-trivial"
    " if a tree has several nodes or a coupling"
)
ASSUMPTIONS = [
    "nodes are attached with parent= when created",
    "couplings are declared over investment or coupling variables",
    "identifiers of tree nodes and components whose concatenations do not collide",
]
REQUIRE = {
    "tree built": 1500, "node": 5000, "coupling row": 1500, "several trees": 400,
    "built again": 200, "refused probability": 200, "refused sum": 300,
    "accepted sum": 300, "compensated sum": 60, "refused component": 100, "refused variable": 200,
    "refused component of another model": 50,
    "coupling at the root": 200, "other tree unchanged": 800, "deep tree": 300,
}


def small(r, size=None):
    """a tree over a small system of candidates"""
    base = G.Spec(horizon=1, scenarios=1)
    m = G.ModelSpec("m")
    m.variables = [
        G.VarSpec("cum", time=False, scen=False, ctx="coupling", lb=("lit", F(0))),
        G.VarSpec("inc", time=False, scen=False, ctx="investment", lb=("lit", F(0)),
                  ub=("par", "p")),
        G.VarSpec("cum2", r.choice(["integer", "continuous"]), time=False, scen=False,
                  ctx="coupling"),
        G.VarSpec("inc2", time=False, scen=False, ctx="investment"),
        G.VarSpec("gen", lb=("lit", F(0))),
    ]
    m.params = {"p": (False, False)}
    m.constraints = [G.ConSpec("lim", ("cmp", "<=", ("var", "gen"), ("var", "cum"))),
                     G.ConSpec("inv", ("cmp", "<=", ("var", "inc2"), ("var", "cum2")),
                               ctx="investment")]
    m.obj_inv = ("add", ("mul", ("par", "p"), ("var", "inc")), ("var", "inc2"))
    m.obj_op = ("expec", ("asum", ("var", "gen")))
    base.models["m"] = m
    for i in range(r.randint(1, 3)):
        base.components.append(G.CompSpec("gas coal wind".split()[i], "m"))
        base.data[("gas coal wind".split()[i], "p")] = ("const", F(r.randint(1, 9)))
    size = size or r.choice([1, 2, 2, 3, 3, 4, 5, 7, 12])
    ids = [f"n{i}" for i in range(size)]
    r.shuffle(ids)
    shape = r.random()
    nodes = []
    for i in range(size):
        if i == 0:
            parent = None
        elif shape < 0.2:
            parent = i - 1
        elif shape < 0.3:
            parent = 0
        else:
            parent = r.randrange(i)
        nodes.append(T.NodeSpec(ids[i], parent, F(1), [(0, [0])], 1,
                                how=r.choice(["shared", "rebuilt", "replicated"])))
    for i in range(size):
        kids = [n for n in nodes if n.parent == i]
        for n, p in zip(kids, T.split(r, len(kids)) if kids else []):
            n.prob = p
    ts = T.TreeSpec(base, base, nodes)
    for i in range(size):
        if r.random() < 0.7:
            T.couple(r, ts, i)
    return ts


def depth(ts):
    def d(i):
        p = ts.nodes[i].parent
        return 0 if p is None else 1 + d(p)

    return max(d(i) for i in range(len(ts.nodes)))


def judge(case, ts, root, db):
    from andromede.simulation import build_benders_decomposed_problem

    b = build_benders_decomposed_problem(root, db)
    case.ev("tree built")
    want, rows, couplings = T.reference_master(ts)
    got = L.readback(b.master.solver)
    d = (L.diff_rows(got.rows, rows + couplings) + L.diff_obj(got, want)
         + L.diff_vars(got, want))
    case.check(not d and not got.duplicates,
               "the master does not weight and couple the nodes of its tree",
               differences="\n".join(d[:10]), duplicates=got.duplicates)
    case.ev("coupling row", len(couplings))
    for n in ts.nodes:
        if n.parent is None:
            case.ev("coupling at the root", len(n.couplings))
    subs = dict(T.reference_subs(ts))
    case.check(sorted(p.name for p in b.subproblems) == sorted(subs),
               "the subproblems are not those of the nodes of the tree",
               got=[p.name for p in b.subproblems], expected=list(subs))
    for p in b.subproblems:
        name, w = p.name, subs[p.name]
        d = L.diff(L.readback(p.solver), w)
        case.check(not d, f"{name} is not that of its node", differences="\n".join(d[:6]))


def probabilities(case, ts, objs):
    for i, o in enumerate(objs):
        case.check(L.near(o.prob, ts.abs_prob(i)),
                   "the probability of a node is not the product of those of its ancestors",
                   node=o.id, got=o.prob, expected=float(ts.abs_prob(i)))
        case.ev("node")
    got = [n.id for n in objs[0].traverse()]
    want = [ts.nodes[i].id for i in ts.order()]
    case.check(got == want, "the traversal does not visit every node once, by level",
               got=got, expected=want)
    case.check(objs[0].is_leaves_prob_sum_one(), "a valid tree is refused")


def history(case):
    """several trees, whose steps are interleaved"""
    r = case.rng
    k = r.choice([1, 2, 2, 3, 4])
    trees = [small(r) if r.random() < 0.8 else T.draw(r, size=r.choice([1, 2, 3]))
             for _ in range(k)]
    if k > 1 and r.random() < 0.5:
        trees[1] = trees[0]  # twice the same names
    case.note(trees=[repr(t.nodes) for t in trees])
    if k > 1:
        case.ev("several trees")
    state = [None] * k
    # create, couple, build, each in order for a tree but interleaved with the others
    todo = [i for i in range(k) for _ in range(3)]
    again = [i for i in range(k) if r.random() < 0.3]
    todo += again
    r.shuffle(todo)
    step = [0] * k
    for i in todo:
        ts = trees[i]
        if step[i] == 0:
            objs, db = T.build_nodes(ts, r)
            state[i] = (objs, db)
            probabilities(case, ts, objs)
        elif step[i] == 1:
            T.add_couplings(ts, state[i][0])
        else:
            if step[i] > 2:
                case.ev("built again")
            judge(case, ts, state[i][0][0], state[i][1])
            case.ev("other tree unchanged", k - 1)
            probabilities(case, ts, state[i][0])
        step[i] += 1
    for ts in trees:
        case.ev("deep tree", depth(ts) >= 3)
        if len(ts.nodes) > 1 or any(n.couplings for n in ts.nodes):
            case.distinct(repr(ts.nodes))
    case.sample(dict(order=todo, trees=[[(n.id, n.parent, str(n.prob), n.couplings)
                                         for n in t.nodes] for t in trees][:2]))


def sums(case):
    """refused exactly when the children of some node do not add up to one"""
    from andromede.simulation import build_benders_decomposed_problem

    r = case.rng
    ts = small(r, size=r.choice([2, 3, 4, 6, 9]))
    inner = [i for i in range(len(ts.nodes)) if any(n.parent == i for n in ts.nodes)]
    valid = r.random() < 0.5
    if not valid and r.random() < 0.3:
        # the leaves add up to one, the children of some nodes do not
        a, b = r.choice([F(3, 4), F(1, 2), F(5, 8), F(1)]), r.choice([F(3, 4), F(1, 2)])
        if a + b == 1:
            a = F(7, 8)
        ts = small(r, size=r.choice([5, 6, 7]))
        n = ts.nodes
        for i, k in enumerate([None, 0, 0, 1, 2, 1, 2][:len(n)]):
            n[i].parent = k
            n[i].couplings = []
        y = r.choice([F(1), F(1, 2), F(3, 4)])
        x = (1 - b * y) / a
        for k, p, total in ((0, None, None), (1, a, x), (2, b, y)):
            if p is None:
                n[k].prob = F(1)
                continue
            n[k].prob = p
            kids = [m for m in n if m.parent == k]
            for m, q in zip(kids, T.split(r, len(kids))):
                m.prob = q * min(total, F(1))
        case.ev("compensated sum")
    elif not valid:
        i = r.choice([i for i in inner if ts.abs_prob(i) > 0])
        kids = [n for n in ts.nodes if n.parent == i]
        n = r.choice(kids)
        new = r.choice([F(k, 16) for k in range(17) if F(k, 16) != n.prob])
        if r.random() < 0.3 and F(1, 10000) <= n.prob:
            new = n.prob - F(1, 10000)
        n.prob = new
    case.note(tree=repr(ts.nodes))
    objs, db = T.build_nodes(ts, r)
    case.check(objs[0].is_leaves_prob_sum_one() == valid,
               "a tree is accepted although the probabilities of the children of a node do"
               " not add up to one, or refused although they do", valid=valid)
    if valid:
        T.add_couplings(ts, objs)
        judge(case, ts, objs[0], db)
        case.ev("accepted sum")
    else:
        e = raises(lambda: build_benders_decomposed_problem(objs[0], db))
        case.check(e is not None, "a study with wrong probabilities is not refused")
        case.check(isinstance(e, ValueError), "a study with wrong probabilities ends with",
                   error=repr(e))
        case.ev("refused sum")
    case.distinct((valid, repr([(n.parent, n.prob) for n in ts.nodes])))


def refused(case):
    """probabilities out of range; components and variables which do not exist"""
    from andromede.simulation.decision_tree import DecisionTreeNode
    from andromede.study import create_component

    r = case.rng
    ts = small(r)
    objs, db = T.build_nodes(ts, r)
    case.note(tree=repr(ts.nodes))
    T.add_couplings(ts, objs)
    i = r.randrange(len(objs))
    node = objs[i]
    bad = r.choice([-1e-9, -0.5, 1.0000001, 2, -1, math.inf, -math.inf])

    def make():
        DecisionTreeNode("late", node.config, node.network,
                         parent=r.choice([None, node]) if r.random() < 0.3 else None,
                         prob=bad)

    e = raises(make)
    case.check(e is not None, "a probability out of [0, 1] is accepted", prob=bad)
    case.ev("refused probability")
    if any(n.id == "late" for n in objs[0].traverse()):
        # refused once attached: this tree is not used any more
        objs, db = T.build_nodes(ts, r)
        T.add_couplings(ts, objs)
        node = objs[i]
    model = node.network.all_components.__iter__().__next__().model
    ghost = create_component(model=model, id="ghost")
    own = T.component(node.network, ts.base.components[0].id)
    has_parent = ts.nodes[i].parent is not None
    up = own if not has_parent else T.component(objs[ts.nodes[i].parent].network, own.id)
    kind = r.choice(["child", "parent", "var", "var", "var", "other model"])
    args = [up, "cum", own, "cum", "inc"]
    if kind == "child":
        args[2] = ghost
        case.ev("refused component")
    elif kind == "parent":
        if not has_parent:
            return
        args[0] = ghost
        case.ev("refused component")
    elif kind == "other model":
        # of the same name, but not that of the network: its variables are not there
        s2 = copy.deepcopy(ts.base)
        s2.models["m"].variables.append(
            G.VarSpec("cum3", time=False, scen=False, ctx="coupling"))
        other = create_component(model=G.build_model(s2, s2.models["m"], r), id=own.id)
        if has_parent and r.random() < 0.5:
            args[:2] = [other, "cum3"]
        else:
            args[2:4] = [other, "cum3"]
        case.ev("refused component of another model")
    else:
        args[r.choice([1, 3, 4])] = r.choice(["cap", "p", "", "lim", "Cum", "cum3"])
        case.ev("refused variable")
    e = raises(lambda: node.define_coupling_constraint(*args))
    case.check(e is not None, "a coupling over an object which does not exist is accepted",
               node=node.id, arguments=[getattr(a, "id", a) for a in args])
    # and it leaves no trace
    judge(case, ts, objs[0], db)
    case.distinct((kind, bad, repr(args), len(objs)))


WORKLOADS = [
    Workload("history", history, 1000),
    Workload("sums", sums, 1000),
    Workload("refused", refused, 800),
]

"""
Random decision trees over random systems: specification, construction with /repo,
reference master and subproblems.
"""
import copy
from dataclasses import dataclass, field
from fractions import Fraction as F
from typing import Any, List, Optional, Tuple

from vf import lp as L
from vf import sysgen as G


@dataclass
class NodeSpec:
    id: str
    parent: Optional[int]
    prob: F  # conditional
    blocks: List[Tuple[int, List[int]]]
    S: int
    extra: bool = False  # has the additional component
    how: str = "shared"  # shared, rebuilt or replicated network
    # (component of the parent, its variable, component, capacity, increment)
    couplings: List[Tuple[str, str, str, str, str]] = field(default_factory=list)


@dataclass
class TreeSpec:
    base: Any
    more: Any  # base with an additional component
    nodes: List[NodeSpec]
    database: Any = None

    def spec(self, n):
        return self.more if n.extra else self.base

    def abs_prob(self, i):
        n = self.nodes[i]
        return n.prob * (1 if n.parent is None else self.abs_prob(n.parent))

    def order(self):
        """indices by level, children in their order of creation"""
        res, level = [], [0]
        while level:
            res += level
            level = [j for i in level for j in range(len(self.nodes))
                     if self.nodes[j].parent == i]
        return res


class TreeGen(G.SysGen):
    """investment and coupling variables depend neither on time nor scenario"""

    def comp_id(self, i):
        c = super().comp_id(i)
        return c + self.rng.choice(["-of-a-very-long-name" * 2, "x" * 50, "_unit" * 11]) \
            if self.rng.random() < 0.07 else c

    def model(self, mid, k):
        m = super().model(mid, k)
        for v in m.variables:
            if v.ctx != "operational":
                v.time = v.scen = False
        if self.rng.random() < 0.7 and all(v.ctx == "operational" for v in m.variables):
            m.variables.append(
                G.VarSpec("cap", self.rng.choice(["continuous", "continuous", "integer"]),
                          time=False, scen=False,
                          ctx=self.rng.choice(["investment", "coupling", "coupling"])))
        return m


def split(r, n):
    """n probabilities which add up to one"""
    if n == 1:
        return [F(1)]
    k = r.random()
    if k < 0.3:
        return [F(1, n)] * n
    if k < 0.4:
        return [F(1)] + [F(0)] * (n - 1)
    cuts = sorted(r.randint(0, 16) for _ in range(n - 1))
    return [F(b - a, 16) for a, b in zip([0] + cuts, cuts + [16])]


def system(r, T=None, **opt):
    T = r.choice([1, 2, 3]) if T is None else T
    S = r.choice([1, 2, 3])
    g = TreeGen(r, T=T, S=S, invest=True, horizon_extra=r.choice([0, 2, 4]), **opt)
    base = g.system()
    more = copy.deepcopy(base)
    m = G.ModelSpec("extra")
    m.params = {"cost": (False, False)}
    m.variables = [
        G.VarSpec("inv", r.choice(["continuous", "integer", "boolean"]), time=False,
                  scen=False, ctx=r.choice(["investment", "coupling"])),
        G.VarSpec("tot", lb=("lit", F(0)), time=False, scen=False, ctx="coupling"),
        G.VarSpec("gen"),
    ]
    m.constraints = [
        G.ConSpec("lim", ("cmp", "<=", ("var", "gen"), ("var", "tot"))),
        G.ConSpec("cap", ("cmp", "<=", ("var", "tot"), ("lit", F(50))), ctx="coupling"),
    ]
    m.obj_inv = ("add", ("mul", ("par", "cost"), ("var", "inv")), ("lit", F(3)))
    m.obj_op = ("expec", ("asum", ("var", "gen")))
    more.models["extra"] = m
    more.components.append(G.CompSpec("extra", "extra"))
    more.data[("extra", "cost")] = ("const", F(r.randint(1, 9)))
    return base, more, g


def candidates(spec):
    """(component, [names of its investment and coupling variables])"""
    res = []
    for c in spec.components:
        vs = [v.name for v in spec.models[c.model].variables if v.ctx != "operational"]
        if vs:
            res.append((c.id, vs))
    return res


def draw(r, size=None, system_opt=None, couplings=True):
    base, more, g = system(r, **(system_opt or {}))
    size = size or r.choice([1, 1, 2, 3, 4, 5, 6])
    ids = r.choice([
        [f"n{i}" for i in range(size)],
        r.choice([["root", "x", "y", "z", "leaf", "w"], ["A", "a", "B", "b", "n", "N"]])[:size],
        [str(2030 + i) for i in range(size)],
        [f"n{i}" for i in range(size)] if r.random() < 0.7 else
        [("decision-of-the-year-" * 3)[:r.choice([30, 39, 48])] + str(i) for i in range(size)],
    ])
    r.shuffle(ids)
    nodes = []
    for i in range(size):
        parent = None if i == 0 else r.choice([r.randrange(i), i - 1, 0])
        nodes.append(NodeSpec(ids[i], parent, F(1), [], 1))
    for i in range(size):
        kids = [n for n in nodes if n.parent == i]
        for n, p in zip(kids, split(r, len(kids)) if kids else []):
            n.prob = p
    H = base.horizon
    for n in nodes:
        k = r.choice([1, 1, 1, 2, 3])
        bids = r.sample(range(10), k)
        for b in bids:
            T = r.choice([1, g.T])
            steps = list(range(T))
            x = r.random()
            if x < 0.5:
                s = r.randint(0, H - T)
                steps = [s + t for t in range(T)]
            elif x < 0.7:
                steps = sorted(r.sample(range(H), T))
            n.blocks.append((b, steps))
        n.S = r.randint(1, base.scenarios)
        n.extra = r.random() < 0.3
        n.how = r.choice(["shared", "shared", "rebuilt", "replicated"])
    ts = TreeSpec(base, more, nodes)
    if r.random() < 0.6:
        per_node(r, ts, g)
    if couplings:
        for i, n in enumerate(nodes):
            if r.random() < 0.6:
                couple(r, ts, i)
    return ts


def per_node(r, ts, g):
    """some data depend on the node of the tree"""
    names = [n.id for n in ts.nodes]
    for (c, n), d in list(ts.more.data.items()):
        m = ts.more.models[next(x.model for x in ts.more.components if x.id == c)]
        if n in m.int_consts or r.random() < 0.5:
            continue
        new = ("tree", {k: g.data(ts.more, m, n) for k in names})
        ts.more.data[(c, n)] = new
        if (c, n) in ts.base.data:
            ts.base.data[(c, n)] = new


def couple(r, ts, i):
    n = ts.nodes[i]
    own = candidates(ts.spec(n))
    above = own if n.parent is None else candidates(ts.spec(ts.nodes[n.parent]))
    if not own or not above:
        return
    for _ in range(r.choice([1, 1, 2, 3])):
        c, vs = r.choice(own)
        # mostly the same component in the parent
        p, pvs = r.choice([x for x in above if x[0] == c] * 4 + above)
        n.couplings.append((p, r.choice(pvs), c, r.choice(vs), r.choice(vs)))


def build_nodes(ts, rng=None):
    """-> nodes (in the order of ts.nodes), database"""
    from andromede.simulation import TimeBlock
    from andromede.simulation.decision_tree import (
        DecisionTreeNode,
        InterDecisionTimeScenarioConfig,
    )

    nets = {}
    _, db, _ = G.build_python(ts.more, rng)
    res = []
    for n in ts.nodes:
        first = nets.get(n.extra)
        if first is None or n.how == "rebuilt":
            net, _, _ = G.build_python(ts.spec(n), rng)
            nets.setdefault(n.extra, net)
        elif n.how == "replicated":
            net = first.replicate(id="copy")
        else:
            net = first
        kw = {}
        if n.parent is not None:
            kw["parent"] = res[n.parent]
        if n.prob != 1 or n.parent is not None:
            kw["prob"] = float(n.prob)
        res.append(
            DecisionTreeNode(
                n.id,
                InterDecisionTimeScenarioConfig(
                    [TimeBlock(b, list(steps)) for b, steps in n.blocks], n.S
                ),
                net,
                **kw,
            )
        )
    return res, db


def component(net, cid):
    return next(c for c in net.all_components if c.id == cid)


def add_couplings(ts, objs, order=None):
    todo = [(i, k) for i, n in enumerate(ts.nodes) for k in range(len(n.couplings))]
    if order:
        order.shuffle(todo)
    for i, k in todo:
        n = ts.nodes[i]
        p, pv, c, cum, inc = n.couplings[k]
        par = objs[i] if n.parent is None else objs[n.parent]
        objs[i].define_coupling_constraint(
            component(par.network, p) if n.parent is not None
            else component(objs[i].network, p),
            pv, component(objs[i].network, c), cum, inc,
        )


def reference_master(ts):
    """(lp with the variables and objective, rows of the nodes, rows of the couplings)"""
    lp = L.LP()
    rows, couplings = [], []
    for i in ts.order():
        n = ts.nodes[i]
        part = L.reference(ts.spec(n), [0], 0, "investment", ts.abs_prob(i), n.id)
        lp.vars.update(part.vars)
        lp.order += part.order
        lp.obj.update(part.obj)
        lp.offset += part.offset
        rows += list(part.cons.values())
        for p, pv, c, cum, inc in n.couplings:
            co = {}

            def add(name, x):
                co[name] = co.get(name, 0) + x

            add(f"{n.id}_{c}_{cum}", 1)
            add(f"{n.id}_{c}_{inc}", -1)
            if n.parent is not None:
                add(f"{ts.nodes[n.parent].id}_{p}_{pv}", -1)
            couplings.append((0, 0, co))
    return lp, rows, couplings


def reference_subs(ts):
    """[(name, lp)] in the order of the tree"""
    res = []
    for i in ts.order():
        n = ts.nodes[i]
        for b, steps in n.blocks:
            name = "subproblem"
            if len(ts.nodes) > 1:
                name += "_" + n.id
            if len(n.blocks) > 1:
                name += f"_b{b}"
            res.append((name, L.reference(ts.spec(n), steps, n.S, "operational",
                                          ts.abs_prob(i), n.id)))
    return res

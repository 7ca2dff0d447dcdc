"""
Generation of a problem-building case: random system, block, scenarios, selection of
contexts, probability, tree node; building it with /repo; reading back the solver.
"""
from dataclasses import dataclass
from typing import Any, Optional

from vf import lp as L
from vf import sysgen as G

STRATEGIES = ("merged", "investment", "operational")


@dataclass
class Setup:
    spec: Any
    block: list
    S: int
    strategy: str = "merged"
    prob: Any = None
    tree: str = ""
    full: bool = True
    block_id: int = 0

    def reference(self):
        return L.reference(
            self.spec, self.block, self.S, self.strategy, self.prob, self.tree, self.full
        )

    def text(self):
        return dict(
            block=self.block, scenarios=self.S, strategy=self.strategy,
            prob=str(self.prob), tree=self.tree, full=self.full, spec=repr(self.spec),
        )


def draw(rng, T=None, S=None, blocks=False, strategies=True, tree=True, **opt):
    T = rng.choice([1, 1, 2, 3, 3, 4, 6]) if T is None else T
    S = rng.choice([1, 2, 2, 3, 4]) if S is None else S
    invest = strategies and rng.random() < 0.4
    extra = rng.choice([0, 1, 5]) if blocks else 0
    gen = G.SysGen(rng, T=T, S=S, horizon_extra=extra, invest=invest, **opt)
    spec = gen.system()
    if blocks:
        x = rng.random()
        if x < 0.4:
            start = rng.randint(0, extra)
            block = list(range(start, start + T))
        elif x < 0.8:
            block = sorted(rng.sample(range(T + extra), T))
        else:
            block = rng.sample(range(T + extra), T)
    else:
        block = list(range(T))
    st = Setup(spec, block, S)
    if invest:
        st.strategy = rng.choice(STRATEGIES)
        if rng.random() < 0.5:
            from fractions import Fraction as F

            st.prob = rng.choice([F(1), F(1, 2), F(1, 4), F(3, 8), F(0)])
    if tree and rng.random() < 0.3:
        st.tree = rng.choice(["n0", "root", "2030"])
        if rng.random() < 0.7:
            trees(rng, st)
    if rng.random() < 0.1 and len(spec.components) == 1:
        st.full = False
    st.block_id = rng.choice([0, 0, 1, 7])
    return st


def trees(rng, st, names=None):
    """some data differ from a node of the tree to another"""
    import random as R

    names = names or [st.tree, "other"]
    g = G.SysGen(rng, T=st.spec.horizon, S=st.spec.scenarios)
    for (c, n), d in list(st.spec.data.items()):
        m = st.spec.models[next(x.model for x in st.spec.components if x.id == c)]
        if n in m.int_consts or d[0] == "tree" or rng.random() < 0.5:
            continue
        used_in_bounds = any(
            _reads(b, n) for v in m.variables for b in (v.lb, v.ub) if b is not None
        )
        st.spec.data[(c, n)] = ("tree", {k: g.data(st.spec, m, n) for k in names})


def _reads(e, name):
    from vf import expr as X

    return any(x[0] == "par" and x[1] == name for x in X.walk(e))


def strategy(name):
    from andromede.simulation import strategy as S

    return dict(
        merged=S.MergedProblemStrategy,
        investment=S.InvestmentProblemStrategy,
        operational=S.OperationalProblemStrategy,
    )[name]()


def build(st, net=None, db=None, rng=None, solver="GLOP"):
    from andromede.simulation import TimeBlock, build_problem
    from andromede.simulation.strategy import ExpectedValue

    if net is None:
        net, db, _ = G.build_python(st.spec, rng)
    kw = {}
    if st.strategy != "merged":
        kw["build_strategy"] = strategy(st.strategy)
    if st.prob is not None:
        kw["risk_strategy"] = ExpectedValue(float(st.prob))
    if st.tree:
        kw["decision_tree_node"] = st.tree
    if not st.full:
        kw["use_full_var_name"] = False
    return build_problem(
        net, db, TimeBlock(st.block_id, list(st.block)), st.S, solver_id=solver, **kw
    )


def observe(case, st, rng=None):
    """build and read back; counts what was observed"""
    case.note(**st.text())
    p = build(st, rng=rng)
    got = L.readback(p.solver)
    case.ev("problem built")
    case.ev("variable observed", len(got.vars))
    case.ev("row observed", len(got.cons))
    case.ev("strategy " + st.strategy)
    if got.duplicates:
        case.fail("several variables or rows have the same name", names=got.duplicates)
    return p, got

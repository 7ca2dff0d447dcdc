import copy
import json
import os
import subprocess
import sys

from vf import outcome as O
from vf import problem as P
from vf import sysgen as G
from vf import tree as T
from vf.core import VERIF, Workload

PROPERTY = "C19"
RULE = (
    "a case is a history of builds over shared models, networks and data, or a batch of"
    " inputs built in several processes under other hash seeds; distinct by history or"
    " input, non-trivial if something was built more than once"
)
ASSUMPTIONS = [
    "hash seeds are sampled (3 per batch); inputs are the same in all processes, which is"
    " itself monitored",
    "Antares studies given as objects (the order in which a directory is listed is not"
    " judged); the PyPSA converter consumes the network it is given",
    "the public content of the inputs is judged, not private caches",
]
REQUIRE = {
    "process": 15, "outcome compared": 150, "text compared": 500, "problem": 10, "tree": 20,
    "yaml": 20, "antares": 10, "pypsa": 10, "history": 150, "problem built": 1500,
    "input snapshot": 3000, "former problem still the same": 1000, "solved": 150,
    "outputs read": 50, "decomposed": 80, "replicated": 80, "two systems": 100,
    "resolved again": 100, "written": 60,
}


# ---------------------------------------------------------------- processes


def child(items, seed, full=False):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run(
        [sys.executable, os.path.join(VERIF, "vf", "outcome.py"),
         json.dumps(dict(items=items, full=full))],
        env=env, capture_output=True, text=True, timeout=280)
    line = [x for x in p.stdout.splitlines() if x.startswith("@@")]
    if p.returncode or not line:
        return None, p.stderr[-2500:]
    return json.loads(line[-1][2:]), None


def processes(case):
    r = case.rng
    items = [[r.randrange(10**9), k] for k in O.KINDS * 2]
    seeds = [0] + r.sample(range(1, 10**6), 2)
    res = []
    for s in seeds:
        out, err = child(items, s)
        if out is None:
            if "/repo/src" in err:
                case.fail("building an input failed in a process", hash_seed=s, error=err)
            raise RuntimeError(err)
        case.ev("process")
        res.append(out)
    for i, (seed, kind) in enumerate(items):
        first = res[0][i]
        case.ev(kind)
        case.distinct((seed, kind))
        for s, out in zip(seeds[1:], res[1:]):
            if out[i][0] != first[0]:
                raise RuntimeError(f"the inputs of {kind} {seed} differ under hash seed {s}")
            case.ev("outcome compared")
            case.ev("text compared", len(first[1]))
            if out[i][1] != first[1]:
                a, _ = child([items[i]], seeds[0], True)
                b, _ = child([items[i]], s, True)
                case.fail("the same input gives other results under another hash seed",
                          kind=kind, seed=seed, hash_seeds=(seeds[0], s),
                          difference=_diff(a[0][1], b[0][1]))
    # the same inputs in this process, which has built other ones and has its own hash seed
    if case.index % 2 == 0:
        for i, (seed, kind) in enumerate(items):
            if kind == "pypsa" or kind == "antares":
                continue
            inp, out = O.outcome(seed, kind)
            if O.h(inp) != res[0][i][0]:
                raise RuntimeError(f"the inputs of {kind} {seed} differ in this process")
            got = {k: O.h(v) for k, v in out.items()}
            case.ev("outcome compared")
            case.check(got == res[0][i][1],
                       "an input gives other results in a process which built others",
                       kind=kind, seed=seed,
                       names=[k for k in got if got[k] != res[0][i][1].get(k)])
    case.sample(dict(inputs=items[:4], hash_seeds=seeds,
                     texts=sorted(res[0][0][1]), digests=res[0][0]))


def _diff(a, b):
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k, "").splitlines(), b.get(k, "").splitlines()
        for n, (u, v) in enumerate(zip(x, y)):
            if u != v:
                return f"{k} line {n + 1}: {u!r} / {v!r}"
        if x != y:
            return f"{k}: {len(x)} / {len(y)} lines"
    return "none when built alone"


# ---------------------------------------------------------------- histories


class Shared:
    """a system whose objects are shared by all operations of the history"""

    def __init__(self, case, tree):
        r = case.rng
        self.r = r
        self.ts = None
        if tree:
            self.ts = T.draw(r, size=r.choice([1, 2, 3]))
            self.objs, self.db = T.build_nodes(self.ts)
            T.add_couplings(self.ts, self.objs)
            self.spec = self.ts.base if not self.ts.nodes[0].extra else self.ts.more
            self.all = self.ts.more
            self.net = self.objs[0].network
            self.trees = [n.id for n in self.ts.nodes]
        else:
            self.st = P.draw(r, blocks=True)
            self.spec = self.all = self.st.spec
            self.net, self.db, _ = G.build_python(self.spec)
            self.trees = [self.st.tree]
        self.setups = [self.setup() for _ in range(3)]
        self.fresh = {}
        self.before = self.snapshot()

    def setup(self):
        """another block, number of scenarios, strategy, node, over the same system"""
        r = self.r
        if self.ts:
            n = r.choice([x for x in self.ts.nodes if x.extra == self.ts.nodes[0].extra])
            _, steps = r.choice(n.blocks)
            st = P.Setup(self.spec, steps, n.S, r.choice(P.STRATEGIES[1:] + ("merged",)),
                         tree=n.id)
            if st.strategy == "investment":
                st.block, st.S = [0], 0
        else:
            st = copy.copy(self.st)
            st.strategy = r.choice(P.STRATEGIES) if st.strategy != "merged" else "merged"
            if self.spec.scenarios > 1 and r.random() < 0.5:
                st.S = r.randint(1, self.spec.scenarios)
            if r.random() < 0.6:
                k = len(st.block)
                st.block = sorted(r.sample(range(self.spec.horizon), k))
        return st

    def snapshot(self):
        res = [O.snap(self.net), O.snap_data(self.db, self.all, self.trees)]
        if self.ts:
            res += [[n.id, n.prob, O.snap(n.config), O.snap(n.network),
                     [c.id for c in n.children]] for n in self.objs]
        return res

    def isolated(self, i):
        """the problem of a setup, built over objects of its own"""
        if i not in self.fresh:
            st = self.setups[i]
            self.fresh[i] = P.build(st).export_as_mps()
        return self.fresh[i]

    def isolated_tree(self):
        if "tree" not in self.fresh:
            objs, db = T.build_nodes(self.ts)
            T.add_couplings(self.ts, objs)
            self.fresh["tree"] = texts(decompose(objs, db))
        return self.fresh["tree"]


def decompose(objs, db):
    from andromede.simulation import build_benders_decomposed_problem

    return build_benders_decomposed_problem(objs[0], db)


def texts(b):
    res = {p.name: p.export_as_mps() for p in [b.master] + b.subproblems}
    res["structure"] = b.export_structure()
    return res


def history(case):
    r = case.rng
    shared = [Shared(case, r.random() < 0.5)]
    if r.random() < 0.6:
        shared.append(Shared(case, r.random() < 0.5))
        case.ev("two systems")
    case.note(specs=[repr(s.ts or s.st) for s in shared],
              setups=[[x.text() for x in s.setups] for s in shared])
    log = []
    held = []  # problems built before, and their exports
    case.ev("history")

    def same(got, want, what):
        case.check(got == want, what, history=log, difference=_diff({"": want}, {"": got}))

    for _ in range(r.randint(6, 14)):
        k = r.randrange(len(shared))
        s = shared[k]
        op = r.choice(["build", "build", "build", "solve", "replicate", "write"]
                      + ["decompose"] * (2 * bool(s.ts)))
        log.append((k, op))
        if op == "decompose":
            got, want = texts(decompose(s.objs, s.db)), s.isolated_tree()
            case.ev("decomposed")
            case.check(got == want, "a decomposition differs from that of fresh objects",
                       history=log, difference=_diff(want, got))
        elif op == "replicate":
            replicate(case, s)
        else:
            i = r.randrange(len(s.setups))
            log[-1] = (k, op, i)
            st = s.setups[i]
            block = list(st.block)
            p = P.build(st, s.net, s.db)
            case.ev("problem built")
            case.check(st.block == block, "the time steps of a block were changed")
            same(p.export_as_mps(), s.isolated(i),
                 "a problem differs from the one built over fresh objects")
            if op == "solve":
                solve(case, p)
            if op == "write":
                a = (p.export_as_mps(), p.export_as_lp())
                case.check(a == (p.export_as_mps(), p.export_as_lp()),
                           "exporting a problem twice gives other texts")
                case.ev("written")
            held.append((p, p.export_as_mps()))
        for x in shared:
            case.ev("input snapshot")
            now = x.snapshot()
            case.check(now == x.before, "the inputs of a build were changed", history=log,
                       difference=_where(x.before, now))
        if held:
            p, text = r.choice(held)
            same(p.export_as_mps(), text, "a problem built before was changed")
            case.ev("former problem still the same")
    case.distinct((tuple(log), repr([s.spec for s in shared])))
    case.sample(dict(history=log, systems=len(shared),
                     sizes=[len(t) for _, t in held][:5]))


def solve(case, p):
    from andromede.simulation import OutputValues

    st = p.solver.Solve()
    case.ev("solved")
    if st == p.solver.OPTIMAL:
        OutputValues(p)
        case.ev("outputs read")


def replicate(case, s):
    """a replica has the same content; adding to it leaves the original alone"""
    from andromede.study import create_component

    net = s.net.replicate(id="replica")
    a, b = O.snap(s.net), O.snap(net)
    case.check(a[2:] == b[2:] and b[1] == "replica", "a replica has another content",
               difference=_where(a[2:], b[2:]))
    case.ev("replicated")
    models = [c.model for c in net.all_components]
    if models:
        net.add_component(create_component(model=case.rng.choice(models), id="more"))
        case.check("more" not in [c.id for c in s.net.all_components],
                   "adding a component to a replica adds it to the original")


def _where(a, b, path=""):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return _where(x, y, f"{path}/{i}")
    return f"{path}: {str(a)[:300]} / {str(b)[:300]}"


# ---------------------------------------------------------------- files


def resolutions(case):
    """parsed libraries and systems resolved several times, alone or with others"""
    import io
    import shutil
    import tempfile
    from pathlib import Path

    import yaml as Y
    from andromede.model.resolve_library import resolve_library
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study.parsing import parse_yaml_components
    from andromede.study.resolve_components import (
        build_data_base, build_network, resolve_system)
    from vf import libs as LB

    r = case.rng
    spec = G.SysGen(r, T=2, S=2, yaml=True, max_models=3).system()
    L = LB.partition(r, spec)
    docs = LB.documents(r, spec, L)
    series = {}
    sysd = G.yaml_system(spec, r, lambda m: L.models[m], series)
    case.note(documents=docs, system=sysd)
    tmp = tempfile.mkdtemp(prefix="vf19")
    try:
        G.write_series(r, tmp, series)
        before = O.files(tmp)
        ilibs = [LB.parse(d) for d in docs.values()]
        isys = parse_yaml_components(io.StringIO(Y.safe_dump(sysd, allow_unicode=True)))
        snap = ([x.model_dump() for x in ilibs], isys.model_dump())
        first = None
        for k in range(r.choice([2, 3])):
            order = list(ilibs)
            r.shuffle(order)
            libs = resolve_library(order)
            net = build_network(resolve_system(isys, libs))
            db = build_data_base(isys, Path(tmp))
            p = build_problem(net, db, TimeBlock(0, list(range(spec.horizon))),
                              spec.scenarios)
            text = p.export_as_mps()
            now = ([x.model_dump() for x in ilibs], isys.model_dump())
            case.check(now == snap, "resolving changed the parsed files")
            if first is not None:
                case.check(text == first, "resolving the same files again gives another"
                           " problem", difference=_diff({"": first}, {"": text}))
                case.ev("resolved again")
            first = text
        case.check(O.files(tmp) == before, "the series files were changed")
        case.ev("input snapshot")
    finally:
        shutil.rmtree(tmp)
    case.distinct(repr((docs, sysd)))


WORKLOADS = [
    Workload("processes", processes, 8, thorough=160, timeout=600),
    Workload("history", history, 300),
    Workload("resolutions", resolutions, 150),
]

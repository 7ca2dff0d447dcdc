"""
What the code under test makes of a random input, as texts; run as a program, prints
their digests for a range of inputs (to compare processes and hash seeds).
"""
import dataclasses
import hashlib
import io
import json
import os
import random
import shutil
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    sys.path[0] = V
    sys.path.insert(0, "/repo/src")

from vf import libs as LB  # noqa
from vf import problem as P  # noqa
from vf import sysgen as G  # noqa
from vf import tree as T  # noqa

KINDS = ["problem", "tree", "yaml", "yaml", "tree", "antares", "pypsa"]


def problem(r):
    st = P.draw(r, blocks=True)
    p = P.build(st)
    return repr(st), {"mps": p.export_as_mps(), "lp": p.export_as_lp()}


def tree(r):
    from andromede.simulation import build_benders_decomposed_problem

    ts = T.draw(r)
    objs, db = T.build_nodes(ts)
    T.add_couplings(ts, objs)
    b = build_benders_decomposed_problem(objs[0], db)
    res = {p.name: p.export_as_mps() for p in [b.master] + b.subproblems}
    res["structure"] = b.export_structure()
    return repr(ts), res


def yaml_study(r):
    """libraries, system and series in files"""
    import yaml as Y

    spec = G.SysGen(r, T=r.choice([1, 2, 3]), S=r.choice([1, 2]), yaml=True,
                    max_models=4, max_components=5).system()
    L = LB.partition(r, spec, r.randint(2, 5))
    docs = LB.documents(r, spec, L)
    order = list(docs)
    r.shuffle(order)
    series = {}
    sysd = G.yaml_system(spec, r, lambda m: L.models[m], series)
    tmp = tempfile.mkdtemp(prefix="vf19")
    try:
        G.write_series(r, tmp, series)
        ids = io.StringIO(Y.safe_dump(sysd, allow_unicode=True))
        text = from_files([docs[i] for i in order], ids, tmp, spec)
    finally:
        shutil.rmtree(tmp)
    return repr((spec, docs, order, sysd)), text


def from_files(docs, sysfile, tmp, spec):
    from pathlib import Path

    from andromede.model.resolve_library import resolve_library
    from andromede.simulation import TimeBlock, build_problem
    from andromede.study.parsing import parse_yaml_components
    from andromede.study.resolve_components import (
        build_data_base, build_network, resolve_system)

    libs = resolve_library([LB.parse(d) for d in docs])
    s = parse_yaml_components(sysfile)
    net = build_network(resolve_system(s, libs))
    db = build_data_base(s, Path(tmp))
    p = build_problem(net, db, TimeBlock(0, list(range(spec.horizon))), spec.scenarios)
    return {"libraries": repr([(i, list(l.models), sorted(l.port_types))
                               for i, l in sorted(libs.items())]),
            "mps": p.export_as_mps()}


def files(d):
    res = {}
    for root, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                res[os.path.relpath(p, d)] = h.read().decode("utf-8", "replace")
    return res


def antares(r):
    from pathlib import Path

    from andromede.input_converter.src.converter import AntaresStudyConverter
    from vf import antares as A

    sp = A.StudyGen(r).study(r.random() < 0.5)
    while any(A.rounding_sensitive(t) for t in sp.thermals):
        sp = A.StudyGen(r).study()
    with A.scratch() as d:
        st = A.build(sp, d)
        out = os.path.join(d, "out.yml")
        AntaresStudyConverter(st, A.logger(), Path(out)).process_all()
        res = {"system": open(out, encoding="utf-8").read().replace(d, "DIR")}
        for f, t in files(os.path.join(d, "study")).items():
            if f.endswith(".txt"):
                res[f] = t
    return repr(sp), res


def pypsa(r):
    from pathlib import Path

    from vf import pypsanet as N

    N.pypsa()
    from andromede.pypsa_converter.pypsa_converter import PyPSAStudyConverter
    from andromede.pypsa_converter.utils import transform_to_yaml
    from vf import antares as A

    net = N.NetGen(r).net_()
    with A.scratch() as d:
        s = PyPSAStudyConverter(N.build(net), A.logger(), Path(d), Path(d)).to_gems_study()
        transform_to_yaml(s, os.path.join(d, "out.yml"))
        res = files(d)
    return repr(net), res


FN = dict(problem=problem, tree=tree, yaml=yaml_study, antares=antares, pypsa=pypsa)


def outcome(seed, kind):
    """(input, {name: text})"""
    return FN[kind](random.Random(f"{seed}/{kind}"))


def h(text):
    return hashlib.blake2b(text.encode(), digest_size=8).hexdigest()


def main(argv):
    spec = json.loads(argv[1])
    out = []
    for seed, kind in spec["items"]:
        i, o = outcome(seed, kind)
        full = spec.get("full")
        out.append([h(i), {k: v if full else h(v) for k, v in o.items()}])
    sys.stdout.write("\n@@" + json.dumps(out) + "\n")


if __name__ == "__main__":
    main(sys.argv)


# ------------------------------------------------------------------ snapshots


def snap(x, seen=()):
    """public content of models, networks, expressions, blocks, ..."""
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if isinstance(x, dict):
        return [[snap(k), snap(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted(repr(snap(v)) for v in x)
    if hasattr(x, "all_components") and hasattr(x, "connections"):
        return ["network", x.id, [[c.id, type(c).__name__, snap(c.model)]
                                  for c in x.all_components],
                [[c.port1.component.id, c.port1.port_id, c.port2.component.id,
                  c.port2.port_id] for c in x.connections]]
    if hasattr(x, "model_dump"):
        return x.model_dump()
    if dataclasses.is_dataclass(x):
        return [type(x).__name__] + [
            [f.name, snap(getattr(x, f.name))]
            for f in dataclasses.fields(x) if not f.name.startswith("_")]
    import enum

    if isinstance(x, enum.Enum):
        return x.name
    return type(x).__name__


def snap_data(db, spec, trees=("",)):
    """the values of a database, everywhere"""
    res = []
    for (c, n), d in spec.data.items():
        for tree in trees:
            for t in range(spec.horizon):
                for s in range(spec.scenarios):
                    try:
                        v = db.get_data(c, n).get_value(t, s, tree)
                    except Exception as e:
                        v = type(e).__name__
                    res.append(v)
    return res

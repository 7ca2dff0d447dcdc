import shutil
import tempfile
from fractions import Fraction as F
from pathlib import Path

import yaml

from vf import expr as X
from vf import libs as B
from vf import lp as L
from vf import problem as P
from vf import sysgen as G
from vf.core import Workload, raises

PROPERTY = "C15"
RULE = (
    "a case is a study (libraries, system, series) written to files and built both ways;"
    " distinct by the files, non-trivial if it has a row or objective"
)
ASSUMPTIONS = [
    "what YAML libraries can express: operational variables, continuous or integer",
    "identifiers of components are unique",
]
REQUIRE = {
    "study built both ways": 400, "row compared": 3000, "series file": 600,
    "node": 150, "connection": 200, "fault refused": 400, "same model name": 200,
    "faultless accepted": 20,
}


class Scratch:
    def __enter__(self):
        self.dir = Path(tempfile.mkdtemp(prefix="vf-c15-"))
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def write(r, d, spec, Ls, docs=None):
    docs = docs or B.documents(r, spec, Ls)
    for l, doc in docs.items():
        (d / f"{l}.yml").write_text(yaml.safe_dump(doc, sort_keys=r.random() < 0.5))
    series = {}
    system = G.yaml_system(spec, r, lambda m: Ls.models[m], series)
    if r.random() < 0.3:
        # the identifier of a model may be the same in several libraries; tried apart
        system["system"]["model-libraries"] = "lib"
    G.write_series(r, d / "series", series)
    return docs, system, series


def load(d, libs, system_file):
    from andromede.model.parsing import parse_yaml_library
    from andromede.model.resolve_library import resolve_library
    from andromede.study.parsing import parse_yaml_components
    from andromede.study.resolve_components import (
        build_data_base,
        build_network,
        resolve_system,
    )

    inputs = []
    for l in libs:
        with (d / f"{l}.yml").open() as f:
            inputs.append(parse_yaml_library(f))
    resolved = resolve_library(inputs)
    with (d / system_file).open() as f:
        inp = parse_yaml_components(f)
    net = build_network(resolve_system(inp, resolved))
    db = build_data_base(inp, d / "series")
    return net, db


def draw(r):
    T, S = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])
    g = G.SysGen(r, T=T, S=S, yaml=True, max_models=4, max_components=6,
                 depth=r.choice([1, 2, 3]), horizon_extra=r.choice([0, 0, 2]))
    spec = g.system()
    return P.Setup(spec, list(range(T)), S)


def studies(case):
    r = case.rng
    st = draw(r)
    spec = st.spec
    Ls = B.partition(r, spec)
    with Scratch() as d:
        docs, system, series = write(r, d, spec, Ls)
        (d / "system.yml").write_text(yaml.safe_dump(system, sort_keys=False))
        case.note(documents=docs, system=system, series=str(series), **st.text())
        ids = list(docs)
        r.shuffle(ids)
        net, db = load(d, ids, "system.yml")
        case.check(
            sorted(n.id for n in net.nodes) == sorted(c.id for c in spec.components if c.node)
            and sorted(c.id for c in net.components)
            == sorted(c.id for c in spec.components if not c.node),
            "the network does not have the components and nodes of the system",
            nodes=[n.id for n in net.nodes], components=[c.id for c in net.components])
        got = sorted(
            sorted([(c.port1.component.id, c.port1.port_id),
                    (c.port2.component.id, c.port2.port_id)]) for c in net.connections)
        want = sorted(sorted([(a, p), (b, q)]) for a, p, b, q in spec.connections)
        case.check(got == want, "connections differ", got=got, expected=want)
        from_files = L.readback(P.build(st, net, db).solver)
        in_python = L.readback(P.build(st, rng=r).solver)
        case.ev("study built both ways")
        case.ev("row compared", len(in_python.cons))
        case.ev("series file", len(series))
        case.ev("node", sum(c.node for c in spec.components))
        case.ev("connection", len(spec.connections))
        d1 = L.diff(from_files, in_python)
        case.check(not d1, "the study read from files builds another problem",
                   differences="\n".join(d1[:10]))
        d2 = L.diff(from_files, st.reference())
        case.check(not d2, "the study read from files builds another problem than it denotes",
                   differences="\n".join(d2[:10]))
        case.distinct((repr(docs), repr(system)))
        case.sample(dict(system=system))


def same_names(case):
    """models of the same name in different libraries"""
    r = case.rng
    libs = [f"lib{i}" for i in range(r.randint(2, 4))]
    comps, want = [], {}
    with Scratch() as d:
        lbs = {}
        for l in libs:
            ms = r.sample(["m", "gen", "load"], r.randint(1, 3))
            for m in ms:
                lbs[(l, m)] = r.randint(-50, 50)
            doc = {"library": {"id": l, "models": [
                {"id": m, "variables": [{"id": "x", "time-dependent": False,
                                         "scenario-dependent": False,
                                         "lower-bound": lbs[(l, m)]}]} for m in ms]}}
            (d / f"{l}.yml").write_text(yaml.safe_dump(doc))
        sysd = {"components": [], "nodes": []}
        for i in range(r.randint(2, 6)):
            l, m = r.choice(list(lbs))
            sysd[r.choice(["components", "nodes"])].append({"id": f"c{i}", "model": f"{l}.{m}"})
            want[f"c{i}_x"] = lbs[(l, m)]
        (d / "system.yml").write_text(yaml.safe_dump({"system": sysd}))
        r.shuffle(libs)
        net, db = load(d, libs, "system.yml")
        got = L.readback(P.build(P.Setup(None, [0], 1), net, db).solver)
        case.ev("same model name", len(want))
        case.check({k: v[0] for k, v in got.vars.items()} == want,
                   "a component got a model of another library", system=sysd,
                   got={k: v[0] for k, v in got.vars.items()}, expected=want)
        case.distinct((sysd, sorted(lbs.items())))


def faults(case):
    r = case.rng
    st = draw(r)
    spec = st.spec
    Ls = B.partition(r, spec)
    with Scratch() as d:
        docs, system, series = write(r, d, spec, Ls)
        s = system["system"]
        objs = s.get("components", []) + s.get("nodes", [])
        fault = r.choice(["none", "unknown library", "unknown model", "model of another library",
                          "unknown component", "unknown port", "no library", "library not given",
                          "unknown key", "no model"])
        c = r.choice(objs)
        ids = list(docs)
        if fault == "unknown library":
            c["model"] = "absent." + c["model"].split(".")[1]
        elif fault == "unknown model":
            c["model"] = c["model"].split(".")[0] + ".absent"
        elif fault == "model of another library":
            l, m = c["model"].split(".")
            others = [x for x in docs if x != l]
            if not others:
                return
            c["model"] = f"{r.choice(others)}.{m}"
        elif fault in ("unknown component", "unknown port"):
            if not s.get("connections"):
                return
            k = r.choice(s["connections"])
            i = r.choice("12")
            k[("component" if fault == "unknown component" else "port") + i] = "absent"
        elif fault == "no library":
            c["model"] = c["model"].split(".")[1]
        elif fault == "library not given":
            ids.remove(c["model"].split(".")[0])
        elif fault == "unknown key":
            t = r.choice([s, c] + c.get("parameters", []) + s.get("connections", []))
            t[r.choice(["color", "componentz", "Model"])] = "x"
        elif fault == "no model":
            del c["model"]
        (d / "system.yml").write_text(yaml.safe_dump(system, sort_keys=False))
        case.note(fault=fault, documents=docs, system=system)

        def go():
            net, db = load(d, ids, "system.yml")
            P.build(st, net, db)

        if fault == "none":
            go()
            case.ev("faultless accepted")
            return
        e = raises(go)
        case.check(e is not None, f"a system was accepted although faulty: {fault}",
                   component=c)
        case.ev("fault refused")
        case.ev("fault: " + fault)
        case.distinct((fault, repr(system)))


WORKLOADS = [
    Workload("studies", studies, 700),
    Workload("same_names", same_names, 300),
    Workload("faults", faults, 700),
]

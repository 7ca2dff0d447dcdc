from collections import Counter
from pathlib import Path

import os
import subprocess
import sys

from vf import antares as A
from vf.core import REPO_SRC, Workload

PROPERTY = "C20"
RULE = (
    "a case is a random Antares study written to disk and converted; distinct by study,"
    " non-trivial if it has an object besides its areas"
)
ASSUMPTIONS = [
    "studies of version 8.8 made by antares_craft, whose objects are enabled and whose"
    " matrices are not left to their (empty) defaults, except load, wind and solar",
    "names of clusters are unique in the study, except in the workload of known findings",
    "areas are alphabetically before the virtual area of the batteries",
    "the identifiers of load, wind and solar components are not judged (known finding)",
]
REQUIRE = {
    "study converted": 150, "area": 400, "thermal": 150, "renewable": 80, "storage": 80,
    "link": 150, "load": 80, "wind": 80, "solar": 80, "battery": 40, "parameter": 3000,
    "series read": 1500, "file left untouched": 5000, "empty series": 80,
    "zero series": 40, "area without a complete battery": 20, "converted twice": 20,
    "from a path": 40, "written to YAML": 40, "command line": 30,
    "command line refused": 8, "converted in a directory": 8, "converted in the study": 4,
}


def parameter(case, c, p, want, where):
    """a parameter of a converted component"""
    case.ev("parameter")
    if isinstance(want, tuple):
        case.check(p.time_dependent is True and isinstance(p.value, str),
                   "a series became a constant", component=c.id, parameter=p.id,
                   got=repr(p))
        _, m, path = want
        if path is not None:
            case.check(Path(p.value) == path, "a parameter refers to another series",
                       component=c.id, parameter=p.id, got=p.value, expected=str(path))
        f = p.value + ".txt"
        case.check(os.path.isfile(f), "the series of a parameter does not exist",
                   component=c.id, parameter=p.id, file=f)
        got = A.read_matrix(f)
        ok = len(got) == len(m) and all(
            len(a) == len(b) and all(A.near(x, y) for x, y in zip(a, b))
            for a, b in zip(got, m))
        case.check(ok, "the series of a parameter has not the values of the study",
                   component=c.id, parameter=p.id, file=f, got=got[:6],
                   expected=[[float(x) for x in row] for row in m][:6])
        case.ev("series read")
    else:
        case.check(not p.time_dependent and not p.scenario_dependent,
                   "a constant became a series", component=c.id, parameter=p.id)
        case.check(A.near(p.value, want), "a parameter has not the value of the study",
                   component=c.id, parameter=p.id, got=p.value, expected=want)


def same(case, c, w, where):
    got = [p.id for p in c.parameters or []]
    case.check(sorted(got) == sorted(w.params),
               "a component has not the parameters of its model, each once",
               component=c.id, got=got, expected=sorted(w.params))
    for p in c.parameters:
        parameter(case, c, p, w.params[p.id], where)


def judge(case, sp, system, root, period):
    nodes, comps = A.expected(sp, root, period)
    for got, want, what in ((system.nodes, nodes, "nodes"),
                            (system.components, comps, "components")):
        a = Counter((c.model, c.id if c.model.split(".")[1] not in ("load", "wind", "solar")
                     else None) for c in got)
        b = Counter((w.model, w.id) for w in want)
        case.check(a == b, f"there is not one of the {what} for each object of the study",
                   too_many=list((a - b).elements()), missing=list((b - a).elements()))
    by_id = {(w.model, w.id): w for w in nodes + comps if w.id is not None}
    left = Counter((c.component1, c.port1, c.component2, c.port2)
                   for c in system.connections)

    def take(choices):
        for k in choices:
            if left[k]:
                left[k] -= 1
                return True
        return False

    for c in system.nodes + system.components:
        kind = c.model.split(".")[1]
        case.ev(dict([("short-term-storage", "storage")]).get(kind, kind))
        if kind in ("load", "wind", "solar"):
            path = c.parameters[0].value
            w = next((w for w in comps if w.kind == kind
                      and str(w.params[kind][2]) == path), None)
            case.check(w is not None, f"a {kind} component has no series of the study",
                       got=path)
            same(case, c, w, root)
            comps.remove(w)
            (port, area, port2), = w.links
            ok = take([(c.id, port, area, port2), (kind, port, area, port2)])
            case.check(ok, f"the {kind} of an area is not connected to it", area=area)
            continue
        w = by_id[(c.model, c.id)]
        same(case, c, w, root)
        for port, other, port2 in w.links:
            case.check(take([(c.id, port, other, port2), (other, port2, c.id, port)]),
                       "a component is not connected to the area it belongs to",
                       component=c.id, area=other, port=port)
    rest = [k for k, n in left.items() if n]
    case.check(not rest, "a connection is not one of the study", connections=rest)


def convert(case, sp, d, how, period, twice=False, write=False):
    from andromede.input_converter.src.converter import AntaresStudyConverter

    st = A.build(sp, d)
    root = os.path.join(d, "study")
    before = A.snapshot(root)
    out = os.path.join(d, case.rng.choice(["out.yml", "out", "out put.d", "output.yaml"]))
    kw = {}
    if period is not None:
        kw["period"] = period
    if how == "path":
        case.ev("from a path")
        conv = AntaresStudyConverter(Path(root), A.logger(), Path(out), **kw)
    else:
        conv = AntaresStudyConverter(st, A.logger(), Path(out), **kw)
    system = conv.convert_study_to_input_study()
    case.ev("study converted")
    judge(case, sp, system, root, period or 168)
    if twice:
        again = conv.convert_study_to_input_study()
        case.check(again == system, "a second conversion of the study differs")
        case.ev("converted twice")
    if write:
        from andromede.study.parsing import parse_yaml_components

        conv.process_all()
        with open(out) as f:
            back = parse_yaml_components(f)
        judge(case, sp, back, root, period or 168)
        case.ev("written to YAML")
    after = A.snapshot(root)
    for f, h in before.items():
        case.check(after.get(f) == h, "a file of the study was changed", file=f)
        case.ev("file left untouched")
    return system


def studies(case, batteries=None):
    r = case.rng
    g = A.StudyGen(r)
    sp = g.study(batteries)
    while any(A.rounding_sensitive(t) for t in sp.thermals):
        sp = A.StudyGen(r).study(batteries)
    case.note(study=repr(sp))
    period = r.choice([None, None, 168, 24, 7, 3, 190, 1000])
    for kind in ("load", "wind", "solar"):
        m = getattr(sp, kind)
        case.ev("empty series", len(sp.areas) - len(m))
        case.ev("zero series", sum(all(x == 0 for row in v for x in row)
                                   for v in m.values()))
    if "z_batteries" in sp.areas:
        case.ev("area without a complete battery",
                sum(A.battery(sp, A.aid(a)) is None for a in sp.areas
                    if not a.startswith("z_batteries")))
    with A.scratch() as d:
        convert(case, sp, d, r.choice(["path", "study"]), period, r.random() < 0.3,
                r.random() < 0.4)
    if sp.thermals or sp.renewables or sp.storages or sp.links or sp.load or sp.wind:
        case.distinct(repr(sp))
    case.sample(dict(areas=list(sp.areas), thermals=[t.name for t in sp.thermals],
                     links=[(a, b) for a, b, *_ in sp.links],
                     constraints=list(sp.constraints)))


def batteries(case):
    studies(case, True)


def known(case):
    """the smallest studies which show the known findings"""
    from andromede.input_converter.src.converter import AntaresStudyConverter

    sp = A.StudySpec(hours=2)
    sp.areas = {"fr": (1.0, 1.0), "it": (1.0, 1.0)}
    m = [[1.0], [2.0]]
    which = ["load-wind-solar-ids", "same-cluster-names"][case.index % 2]
    if which == "load-wind-solar-ids":
        for kind in ("load", "wind", "solar"):
            for a in sp.areas:
                getattr(sp, kind)[a] = m
    else:
        for a in sp.areas:
            sp.renewables.append(A.Cluster("pv", a, dict(unit_count=1,
                                                         nominal_capacity=1.0), m))
    with A.scratch() as d:
        st = A.build(sp, d)
        s = AntaresStudyConverter(st, A.logger()).convert_study_to_input_study()
    case.ev("known finding tried")
    ids = Counter(c.id for c in s.nodes + s.components)
    twice = [i for i, n in ids.items() if n > 1]
    dangling = [c.component1 for c in s.connections if c.component1 not in ids]
    if twice or dangling:
        case.finding(which, "identifiers of the converted components are not unique or"
                     " connections name none of them", twice=twice, dangling=dangling)


def command(case):
    """the command line of the converter, in a process of its own"""
    from andromede.study.parsing import parse_yaml_components

    r = case.rng
    sp = A.StudyGen(r).study(r.random() < 0.3)
    while any(A.rounding_sensitive(t) for t in sp.thermals):
        sp = A.StudyGen(r).study(None)
    case.note(study=repr(sp))
    by_conf = [r.random() < 0.4, r.random() < 0.3]  # study, output: in the configuration
    asked = r.choice([True, True, False])  # an output directory
    bad = r.choice([None] * 5 + ["study", "output", "configuration", "study is a file"])
    with A.scratch() as d:
        A.build(sp, d)
        root, out = os.path.join(d, "study"), os.path.join(d, "out put")
        os.mkdir(out)
        other = os.path.join(d, "other")  # what the command line overrides
        os.mkdir(other)
        before = A.snapshot(root)
        conf = {}
        args = ["-l", os.path.join(d, "x.log")]
        study, target = root, out
        if bad == "study":
            study, by_conf[0] = os.path.join(d, "no study"), False
        elif bad == "study is a file":
            study, by_conf[0] = os.path.join(root, "study.antares"), False
        elif bad == "output":
            target, by_conf[1], asked = os.path.join(d, "nowhere"), False, True
        if by_conf[0]:
            conf["study_path"] = study
        else:
            args += [r.choice(["-i", "--study_path"]), study]
            if r.random() < 0.5:
                conf["study_path"] = r.choice(["", other])
        if asked and by_conf[1]:
            conf["output_path"] = target
        elif asked:
            args += [r.choice(["-o", "--output_path"]), target]
            if r.random() < 0.5:
                conf["output_path"] = r.choice(["", other])
        section = bool(conf) or r.random() < 0.5
        ini = os.path.join(d, "conf.ini")
        if bad == "configuration":
            args += ["-c", os.path.join(d, "no.ini")]
        else:
            with open(ini, "w") as f:
                f.write("[study]\n" if section else "")
                f.writelines(f"{k} = {v}\n" for k, v in conf.items())
            args += [r.choice(["-c", "--conf"]), ini]
        p = subprocess.run(
            [sys.executable, "-m", "andromede.input_converter.src.main"] + args,
            cwd=d, capture_output=True, text=True, timeout=120,
            env=dict(os.environ, PYTHONPATH=REPO_SRC))
        made = {os.path.join(x, f) for x, _, fs in os.walk(d) for f in fs
                if f == "output.yaml"}
        case.ev("command line")
        case.distinct((repr(sp), tuple(by_conf), asked, bad))
        if bad:
            case.check(p.returncode != 0 and not made, "a wrong command line is accepted",
                       args=args, code=p.returncode, made=made, wrong=bad)
            case.ev("command line refused")
        else:
            want = os.path.join(out if asked else root, "output.yaml")
            case.check(p.returncode == 0, "the conversion fails", args=args,
                       conf=conf, error=p.stderr[-1500:])
            case.check(made == {want}, "the converted study is not where it was asked for",
                       args=args, conf=conf, got=sorted(made), expected=want)
            with open(want) as f:
                judge(case, sp, parse_yaml_components(f), root, 168)
            case.ev("converted in a directory" if asked else "converted in the study")
        after = A.snapshot(root)
        for f, h in before.items():
            case.check(after.get(f) == h, "a file of the study was changed", file=f)


WORKLOADS = [
    Workload("command", command, 40, timeout=300),
    Workload("studies", studies, 180, timeout=300),
    Workload("batteries", batteries, 100, timeout=300),
    Workload("known", known, 2, thorough=2),
]

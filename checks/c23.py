import copy
import io
import math
import os
import shutil
import tempfile

import yaml

from vf import libs as LB
from vf import sysgen as G
from vf.core import Workload, raises

PROPERTY = "C23"
RULE = (
    "a case is a system or library with drawn names and values, written to a file and read"
    " back, or a document with one key changed; distinct by content, non-trivial if it has"
    " a component or model"
)
ASSUMPTIONS = [
    "PyYAML and pydantic are trusted; files are read as UTF-8; NaN values and names"
    " with the line separators PyYAML folds (NEL, LS) are not drawn",
    "two systems are equal when all their fields are, including the type of the values",
]
REQUIRE = {
    "written": 2500, "read back": 2500, "parameter": 8000, "connection": 3000,
    "odd name": 3000, "odd number": 1500, "infinite": 200, "explicit default": 1500,
    "unknown key refused": 1000, "missing key refused": 300, "spelling": 1000,
    "library read": 600, "written over another": 300, "converter utils": 800,
    "pypsa utils": 800, "numpy number": 200,
}
NAMES = [
    "1", "1.5", "1e3", "1.0e+3", "0x1F", "0o7", "1_000", "012", "-3", "+4", ".5", "yes",
    "No", "on", "true", "NULL", "null", "~", "", ".inf", "-.Inf", "nan", ".nan",
    "2020-01-01", "2020-01-01 10:00:00", "12:30", "é", "日本", "naïve_été", "😀", "a b",
    " lead", "trail ", "a: b", "a #b", "#x", "- x", "[x]", "{y}", "'q'", '"dq"', "a\"b'c",
    "back\\slash", "tab\there", "new\nline", "*alias", "&anchor", "!tag", "!!str x", "%p",
    "@x", "`x`", "=", "<<", "?", "|", ">", "a\u00a0b", "x" * 200,
    "long " * 40, "---", "...", "end\n", "\nstart", "a,b", "path/to/file", "C:\\x", "\x07",
    "component", "p-1", "p_1",
]
NUMBERS = [
    0.0, -0.0, 1.0, 1e20, -1e20, math.inf, -math.inf, 5e-324, 2.2250738585072014e-308,
    1.7976931348623157e308, 1e-5, 0.1, 1 / 3, 2**53 + 1.0, 123456789.123456789, 1e16, 1e15,
    1e22, 3, 0, -7, 10**15, 1e5, 100000.0, 12345678901234567890.0,
]


def name(r, case):
    if r.random() < 0.5:
        case.ev("odd name")
        return r.choice(NAMES)
    return r.choice(["a", "comp", "load", "x"]) + str(r.randint(0, 99))


def value(r, case):
    k = r.random()
    if k < 0.35:
        return name(r, case)
    if k < 0.75:
        v = r.choice(NUMBERS)
        case.ev("odd number")
        if isinstance(v, float) and math.isinf(v):
            case.ev("infinite")
        if r.random() < 0.2:
            import numpy as np

            case.ev("numpy number")
            v = np.float64(v)
        return v
    return r.choice([r.random(), r.random() * 10 ** r.randint(-300, 300),
                     r.randint(-1000, 1000)])


def opt(r, kw, key, draw, case, default=None):
    k = r.random()
    if k < 0.4:
        kw[key] = draw()
    elif k < 0.6:
        kw[key] = default  # explicitly
        case.ev("explicit default")


def draw(case):
    from andromede.study.parsing import (
        InputComponent, InputComponentParameter, InputPortConnections, InputSystem)

    r = case.rng

    def spell(kw):
        """field names or the spelling of the files"""
        if r.random() < 0.5:
            return {k.replace("_", "-"): v for k, v in kw.items()}
        return kw

    def param():
        kw = dict(id=name(r, case), value=value(r, case))
        opt(r, kw, "time_dependent", lambda: r.random() < 0.5, case, False)
        opt(r, kw, "scenario_dependent", lambda: r.random() < 0.5, case, False)
        opt(r, kw, "scenario_group", lambda: name(r, case), case)
        case.ev("parameter")
        return InputComponentParameter(**spell(kw)), kw

    def comp():
        kw = dict(id=name(r, case), model=name(r, case) + "." + name(r, case))
        plain = dict(kw)
        opt(r, kw, "scenario_group", lambda: name(r, case), case)
        plain.update(kw)
        k = r.random()
        if k < 0.8:
            ps = [param() for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
            kw["parameters"] = [p for p, _ in ps]
            plain["parameters"] = [x for _, x in ps]
        elif k < 0.9:
            kw["parameters"] = plain["parameters"] = None
        return InputComponent(**spell(kw)), plain

    def conn():
        kw = {k: name(r, case) for k in ("component1", "port1", "component2", "port2")}
        case.ev("connection")
        return InputPortConnections(**kw), kw

    kw, plain = {}, {}
    for k, f, n in (("nodes", comp, 3), ("components", comp, 5), ("connections", conn, 5)):
        if r.random() < 0.85:
            xs = [f() for _ in range(r.randint(0, n))]
            kw[k] = [a for a, _ in xs]
            plain[k] = [b for _, b in xs]
    opt(r, kw, "model_libraries", lambda: name(r, case), case)
    if "model_libraries" in kw:
        plain["model_libraries"] = kw["model_libraries"]
    return InputSystem(**spell(kw)), plain


def same_value(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return float(a) == float(b) and math.copysign(1, a) == math.copysign(1, b)


def judge(case, plain, got):
    """the fields of a system read back, against what it was made of"""

    def group(x):
        return x.get("scenario_group")

    case.check(got.model_libraries == plain.get("model_libraries"),
               "the libraries of a system changed", got=got.model_libraries)
    for k in ("nodes", "components"):
        a, b = plain.get(k, []), getattr(got, k)
        case.check([(x["id"], x["model"], group(x)) for x in a]
                   == [(c.id, c.model, c.scenario_group) for c in b],
                   f"the {k} of a system changed", got=b)
        for x, c in zip(a, b):
            ps, qs = x.get("parameters"), c.parameters
            case.check((ps is None) == (qs is None) and len(ps or []) == len(qs or []),
                       "the parameters of a component changed", got=qs)
            for p, q in zip(ps or [], qs or []):
                case.check(
                    q.id == p["id"] and q.time_dependent is p.get("time_dependent", False)
                    and q.scenario_dependent is p.get("scenario_dependent", False)
                    and q.scenario_group == p.get("scenario_group")
                    and same_value(q.value, p["value"]),
                    "a parameter changed", got=repr(q), expected=p)
    case.check([(c["component1"], c["port1"], c["component2"], c["port2"])
                for c in plain.get("connections", [])]
               == [(c.component1, c.port1, c.component2, c.port2)
                   for c in got.connections], "the connections of a system changed",
               got=got.connections)


def writers():
    from andromede.input_converter.src.utils import transform_to_yaml as a

    from vf import pypsanet

    pypsanet.pypsa()
    from andromede.pypsa_converter.utils import transform_to_yaml as b

    return {"converter utils": a, "pypsa utils": b}


def round_trip(case):
    from andromede.study.parsing import parse_yaml_components

    r = case.rng
    w = writers()
    tmp = tempfile.mkdtemp(prefix="vf23")
    try:
        path = os.path.join(tmp, r.choice(["system.yml", "système é.yaml", "s"]))
        for k in range(r.choice([1, 1, 2])):
            system, plain = draw(case)
            case.note(system=repr(plain))
            judge(case, plain, system)  # as made
            before = repr(system)
            which = r.choice(sorted(w))
            w[which](system, r.choice([path, __import__("pathlib").Path(path)]))
            case.ev(which)
            case.ev("written")
            if k:
                case.ev("written over another")
            case.check(repr(system) == before, "writing a system changed it")
            with open(path, encoding="utf-8", newline=r.choice([None, ""])) as f:
                got = parse_yaml_components(f)
            case.ev("read back")
            judge(case, plain, got)
            case.check(got == system, "the system read back is not equal to the written one",
                       got=got, expected=system)
            if plain.get("components"):
                case.distinct(repr(plain))
    finally:
        shutil.rmtree(tmp)
    case.sample(dict(system=str(plain)[:400]))


# ---------------------------------------------------------------- documents


def dicts(x, path=()):
    if isinstance(x, dict):
        yield path, x
        for k, v in x.items():
            yield from dicts(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from dicts(v, path + (i,))


def mixed(r, x, p):
    """some keys with the other spelling"""
    if isinstance(x, dict):
        return {k.replace("-", "_") if r.random() < p else k: mixed(r, v, p)
                for k, v in x.items()}
    if isinstance(x, list):
        return [mixed(r, v, p) for v in x]
    return x


REQUIRED = {"id", "model", "value", "component1", "port1", "component2", "port2",
            "expression", "type", "port", "field", "definition"}


def documents(case):
    """library and system files: spellings, unknown and missing keys"""
    from andromede.model.parsing import parse_yaml_library
    from andromede.study.parsing import parse_yaml_components

    r = case.rng
    spec = G.SysGen(r, T=2, S=2, yaml=True).system()
    series = {}
    if r.random() < 0.6:
        L = LB.partition(r, spec)
        docs = LB.documents(r, spec, L)
        doc, parse = docs[r.choice(sorted(docs))], parse_yaml_library
        top = "library"
    else:
        doc, parse = G.yaml_system(spec, r, series=series), parse_yaml_components
        top = "system"
        for c in doc["system"].get("components", []):
            if r.random() < 0.4:
                c["scenario-group"] = "g"

    def read(d):
        return parse(io.StringIO(yaml.safe_dump(d, allow_unicode=True, sort_keys=False)))

    case.note(document=doc)
    want = read(doc)
    case.ev(top + " read")
    for p in (1.0, 0.5):
        other = mixed(r, doc, p)
        if other != doc:
            case.check(read(other) == want, "another spelling of the keys is read"
                       " differently", document=other)
            case.ev("spelling")
    places = [(path, d) for path, d in dicts(doc) if path]
    for _ in range(3):
        bad = copy.deepcopy(doc)
        path, _ = r.choice(places)
        at = bad
        for k in path:
            at = at[k]
        keys = ["unknown", "comment", "lower_bounds", "upper bound", "timedependent",
                "Id", "values", "objectives", "parameter", "x"]
        key = r.choice([k for k in keys if k not in at])
        at[key] = r.choice([1, "text", None, [], {}, True])
        case.check(raises(lambda: read(bad), Exception) is not None,
                   "an unknown key of a file is ignored", key=key, at=path)
        case.ev("unknown key refused")
    bad = copy.deepcopy(doc)
    path, d = r.choice(places)
    at = bad
    for k in path:
        at = at[k]
    keys = [k for k in at if k in REQUIRED]
    if keys:
        k = r.choice(keys)
        del at[k]
        case.check(raises(lambda: read(bad), Exception) is not None,
                   "a file without a required key is accepted", key=k, at=path)
        case.ev("missing key refused")
    case.distinct(repr(doc))


WORKLOADS = [
    Workload("round_trip", round_trip, 2600),
    Workload("documents", documents, 1200),
]

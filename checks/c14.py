import copy
from fractions import Fraction as F

from vf import expr as X
from vf import libs as B
from vf import sysgen as G
from vf.core import Workload, raises

PROPERTY = "C14"
RULE = (
    "a case is a set of libraries with a dependency graph, resolved in several orders, or"
    " such a set with one fault; distinct by the documents, non-trivial if a model has an"
    " expression"
)
ASSUMPTIONS = [
    "an expression written in a library is compared by meaning (random interpretation) and"
    " by the names it reads",
    "library identifiers are distinct (two libraries of the same id are C26)",
    "port types of preloaded libraries are visible to all libraries",
]
REQUIRE = {
    "library resolved": 1500, "model compared": 3000, "order tried": 1200,
    "inherited port type": 200, "preloaded": 100, "fault refused": 600,
    "faultless accepted": 10, "diamond": 50,
}


def draw(r):
    g = G.SysGen(r, T=3, S=2, yaml=True, max_models=5, max_components=5,
                 depth=r.choice([1, 2, 3]))
    spec = g.system()
    L = B.partition(r, spec)
    if r.random() < 0.4:  # a port type without fields
        l = r.choice(L.ids)
        spec.port_types["bare"] = []
        L.types["bare"] = l
        for m, x in L.models.items():
            if l in B.closure(L.deps, x) and r.random() < 0.5:
                spec.models[m].ports["q bare"] = "bare"
    return spec, L


def check_result(case, spec, L, res, ids):
    for l in ids:
        case.check(l in res, "a library is missing", library=l, got=sorted(res))
        lib = res[l]
        case.ev("library resolved")
        case.check(lib.id == l, "a library has another identifier", got=lib.id, expected=l)
        want = sorted(m for m, x in L.models.items() if x == l)
        case.check(sorted(lib.models) == want, "a library does not have its models",
                   library=l, got=sorted(lib.models), expected=want)
        visible = sorted(t for t, x in L.types.items() if x in B.closure(L.deps, l))
        case.ev("inherited port type",
                sum(L.types[t] != l for t in visible))
        if ids is L.ids:
            case.check(sorted(lib.port_types) == visible,
                       "the port types of a library are not its own and those of its"
                       " dependencies", library=l, got=sorted(lib.port_types),
                       expected=visible)
        for t in visible:
            pt = lib.port_types[t]
            case.check((pt.id, [f.name for f in pt.fields]) == (t, spec.port_types[t]),
                       "a port type differs from what was written", port_type=t, got=pt)
        for m in want:
            d = B.diff_model(spec, spec.models[m], lib.models[m])
            case.ev("model compared")
            case.check(not d, "a model differs from what was written", library=l, model=m,
                       differences="\n".join(map(str, d[:6])))


def diamond(deps):
    return any(
        len([d for d in deps[l] if x in B.closure(deps, d)]) > 1
        for l in deps for x in deps
    )


def graphs(case):
    from andromede.model.resolve_library import resolve_library

    r = case.rng
    spec, L = draw(r)
    docs = B.documents(r, spec, L)
    case.note(documents=docs)
    case.ev("diamond", diamond(L.deps))
    first = None
    for _ in range(3):
        order = list(L.ids)
        r.shuffle(order)
        for d in docs.values():
            if "dependencies" in d["library"]:
                r.shuffle(d["library"]["dependencies"])
        inputs = [B.parse(docs[l], r.random() < 0.2) for l in order]
        before = [repr(x) for x in inputs]
        res = resolve_library(inputs)
        case.ev("order tried")
        case.check(sorted(res) == sorted(L.ids), "other libraries than the given ones",
                   got=sorted(res))
        check_result(case, spec, L, res, L.ids)
        case.check([repr(x) for x in inputs] == before, "resolving modified its input")
    # some libraries preloaded: those closed by dependency
    done = set()
    for l in L.ids:
        if set(L.deps[l]) <= done and r.random() < 0.5:
            done.add(l)
    if done and len(done) < len(L.ids):
        case.ev("preloaded")
        pre = resolve_library([B.parse(docs[l]) for l in L.ids if l in done])
        kept = {k: (dict(v.port_types), dict(v.models)) for k, v in pre.items()}
        rest = [l for l in L.ids if l not in done]
        r.shuffle(rest)
        res = resolve_library([B.parse(docs[l]) for l in rest], list(pre.values()))
        check_result(case, spec, L, res, rest)
        check_result(case, spec, L, res, sorted(done))
        case.check(kept == {k: (dict(v.port_types), dict(v.models)) for k, v in pre.items()},
                   "resolving modified the preloaded libraries")
    case.distinct(repr(docs))
    case.sample(dict(dependencies=L.deps, documents=docs))


def same_names(case):
    """models and port types of the same name in unrelated libraries stay distinct"""
    from andromede.model.resolve_library import resolve_library

    r = case.rng
    docs, fields, lbs = {}, {}, {}
    ids = [f"l{i}" for i in range(r.randint(2, 4))]
    for l in ids:
        fields[l] = [f"f{k}" for k in r.sample(range(5), r.randint(1, 3))]
        lbs[l] = r.randint(0, 9)
        docs[l] = {"library": {
            "id": l, "port-types": [{"id": "flow", "fields": [{"id": f} for f in fields[l]]}],
            "models": [{"id": "m", "variables": [{"id": "x", "lower-bound": lbs[l]}],
                        "ports": [{"id": "q", "type": "flow"}],
                        "port-field-definitions": [
                            {"port": "q", "field": f, "definition": "x"} for f in fields[l]]}],
        }}
    order = list(ids)
    r.shuffle(order)
    res = resolve_library([B.parse(docs[l]) for l in order])
    for l in ids:
        m = res[l].models["m"]
        case.check([f.name for f in m.ports["q"].port_type.fields] == fields[l]
                   and X.from_node(m.variables["x"].lower_bound) == ("lit", lbs[l]),
                   "a library got the model or port type of another one", library=l, got=m)
        case.ev("model compared")
    # a library using both is refused when they conflict
    a, b = r.sample(ids, 2)
    top = {"library": {"id": "top", "dependencies": [a, b]}}
    docs["top"] = top
    order = list(docs)
    r.shuffle(order)
    if fields[a] != fields[b]:
        e = raises(lambda: resolve_library([B.parse(docs[l]) for l in order]))
        case.check(e is not None, "conflicting port types of two dependencies were accepted",
                   fields=(fields[a], fields[b]))
        case.ev("fault refused")
    case.distinct((repr(docs), order))


def chains(case):
    """long chains of dependencies, with short cuts: resolved in any order; closed, refused"""
    from andromede.model.resolve_library import resolve_library

    r = case.rng
    n = r.choice([5, 9, 12, 20, 40])
    ids = [f"l{i}" for i in range(n)]
    r.shuffle(ids)
    deps, docs, seen = {}, {}, {}
    for i, l in enumerate(ids):
        deps[l] = ([ids[i - 1]] if i else []) + [
            d for d in r.sample(ids[: max(0, i - 1)], min(max(0, i - 1), r.choice([0, 0, 1, 3])))]
        r.shuffle(deps[l])
        seen[l] = {l}.union(*(seen[d] for d in deps[l]))
        far = r.choice(sorted(seen[l]))
        docs[l] = {"library": {
            "id": l, "port-types": [{"id": "t" + l, "fields": [{"id": "f" + l}]}],
            "models": [{"id": "m", "variables": [{"id": "x", "upper-bound": i}],
                        "ports": [{"id": "q", "type": "t" + far}],
                        "port-field-definitions": [
                            {"port": "q", "field": "f" + far, "definition": "x"}]}]}}
        if deps[l]:
            docs[l]["library"]["dependencies"] = deps[l]
    order = list(ids)
    r.shuffle(order)
    case.note(dependencies=deps, order=order)
    res = resolve_library([B.parse(docs[l]) for l in order])
    case.check(sorted(res) == sorted(ids), "other libraries than the given ones",
               got=sorted(res))
    for i, l in enumerate(ids):
        far = docs[l]["library"]["models"][0]["ports"][0]["type"]
        m = res[l].models["m"]
        case.check(sorted(res[l].port_types) == sorted("t" + x for x in seen[l])
                   and m.ports["q"].port_type.id == far
                   and [f.name for f in m.ports["q"].port_type.fields] == ["f" + far[1:]]
                   and X.from_node(m.variables["x"].upper_bound) == ("lit", i),
                   "a library of a long chain is not what was written", library=l,
                   got=res[l], expected=sorted(seen[l]))
        case.ev("library of a chain")
    # a dependency from an early library to a late one closes a cycle
    j = r.randrange(n)
    i = r.randrange(j + 1)
    docs[ids[i]]["library"].setdefault("dependencies", []).append(ids[j])
    r.shuffle(order)
    e = raises(lambda: resolve_library([B.parse(docs[l]) for l in order]))
    case.check(e is not None and not isinstance(e, (MemoryError, RecursionError)),
               "a circular dependency was accepted", cycle=ids[i: j + 1], error=repr(e))
    case.ev("fault refused")
    case.distinct((repr(docs), order))


FAULTS = [
    "none", "circular", "self", "missing dependency", "port type twice",
    "port type twice in a library", "model twice", "unknown port type", "invisible port type",
    "unknown field", "unknown port", "unknown key", "unknown name", "bad variable type",
    "bad expression", "missing id", "dependent type redefined", "sub-dependency redefined",
]


def faults(case):
    from andromede.model.resolve_library import resolve_library

    r = case.rng
    spec, L = draw(r)
    docs = B.documents(r, spec, L)
    fault = r.choice(FAULTS)
    lib = lambda l: docs[l]["library"]
    l = r.choice(L.ids)
    models = [(x, m) for x in L.ids for m in lib(x).get("models", [])]
    x, m = r.choice(models)

    def item(key):
        """a model which has such a list, or add it"""
        return m.setdefault(key, [])

    if fault == "circular":
        if len(L.ids) < 2:
            return
        # a cycle along the existing dependencies or a new one
        a, b = r.sample(L.ids, 2)
        cyc = [a, b] + [c for c in L.ids if c not in (a, b) and r.random() < 0.3]
        for u, v in zip(cyc, cyc[1:] + cyc[:1]):
            d = lib(u).setdefault("dependencies", [])
            if v not in d:
                d.insert(r.randint(0, len(d)), v)
    elif fault == "self":
        lib(l).setdefault("dependencies", []).append(l)
    elif fault == "missing dependency":
        d = lib(l).setdefault("dependencies", [])
        d.insert(r.randint(0, len(d)), "absent")
    elif fault == "port type twice in a library":
        t = {"id": "again", "fields": r.choice([[{"id": "f"}], []])}
        ts = lib(l).setdefault("port-types", [])
        for _ in range(2):
            ts.insert(r.randint(0, len(ts)), copy.deepcopy(t))
    elif fault in ("port type twice", "dependent type redefined", "sub-dependency redefined"):
        # a type defined again in a library which already sees it
        cand = [(u, v) for u in L.ids for v in B.closure(L.deps, u) if u != v]
        if fault == "sub-dependency redefined":
            cand = [(u, v) for u, v in cand if v not in L.deps[u]]
        if not cand:
            return
        u, v = r.choice(cand)
        t = {"id": "again", "fields": [{"id": "f"}]}
        lib(v).setdefault("port-types", []).append(t)
        t2 = copy.deepcopy(t)
        if r.random() < 0.5:
            t2["fields"] = [{"id": "g"}]
        lib(u).setdefault("port-types", []).append(t2)
    elif fault == "model twice":
        dup = copy.deepcopy(m)
        if r.random() < 0.5:
            dup = {"id": m["id"]}
        lib(x)["models"].insert(r.randint(0, len(lib(x)["models"])), dup)
    elif fault == "unknown port type":
        item("ports").append({"id": "zz", "type": "absent"})
    elif fault == "invisible port type":
        cand = [(u, mm, t) for u, mm in models for t, v in L.types.items()
                if v not in B.closure(L.deps, u)]
        if not cand:
            return
        u, mm, t = r.choice(cand)
        mm.setdefault("ports", []).append({"id": "zz", "type": t})
    elif fault == "unknown field":
        if not m.get("ports"):
            return
        item("port-field-definitions").append(
            {"port": r.choice(m["ports"])["id"], "field": "absent", "definition": "1"})
    elif fault == "unknown port":
        item("port-field-definitions").append(
            {"port": "absent", "field": "f0", "definition": "1"})
    elif fault == "unknown key":
        where = r.choice(["library", "model", "variable", "parameter", "port type",
                          "constraint", "field", "port", "definition"])
        targets = {
            "library": [lib(l)], "model": [m], "variable": m.get("variables", []),
            "parameter": m.get("parameters", []), "port type": lib(l).get("port-types", []),
            "constraint": m.get("constraints", []) + m.get("binding-constraints", []),
            "field": [f for t in lib(l).get("port-types", []) for f in t["fields"]],
            "port": m.get("ports", []), "definition": m.get("port-field-definitions", []),
        }[where]
        if not targets:
            return
        r.choice(targets)[r.choice(["unit", "upperbound", "lower bound", "Id"])] = "1"
    elif fault == "unknown name":
        kind = r.choice(["constraint", "bound", "objective", "definition", "cbound"])
        if kind == "constraint":
            item("constraints").append({"id": "zz", "expression": "absent <= 1"})
        elif kind == "cbound":
            item("constraints").append({"id": "zz", "expression": "1", "upper-bound": "absent"})
        elif kind == "bound":
            item("variables").append({"id": "zz", "lower-bound": "absent"})
        elif kind == "objective":
            m["objective"] = "expec(sum(absent))"
        else:
            q = [p for p in m.get("ports", []) if spec.port_types[p["type"]]]
            if not q:
                return
            p = r.choice(q)
            item("port-field-definitions")[:] = [
                {"port": p["id"], "field": spec.port_types[p["type"]][0],
                 "definition": "absent"}]
    elif fault == "bad variable type":
        item("variables").append({"id": "zz", "variable-type": r.choice(["real", "bool", ""])})
    elif fault == "bad expression":
        item("constraints").append({"id": "zz", "expression": r.choice(
            ["1 <=", "x + ", "(1", "sum(", "1 <= 2 <= 3 4", "1 $ 2"])})
    elif fault == "missing id":
        t = r.choice([lib(l), m] + m.get("variables", []) + m.get("parameters", []))
        t.pop("id")
    order = list(docs)
    r.shuffle(order)
    case.note(fault=fault, documents=docs, order=order)

    def go():
        return resolve_library([B.parse(docs[k]) for k in order])

    if fault == "none":
        go()
        case.ev("faultless accepted")
        return
    e = raises(go)
    case.check(e is not None, f"libraries were accepted although faulty: {fault}",
               order=order, library=l, model=m.get("id"))
    case.check(not isinstance(e, (MemoryError, RecursionError)), "not a clean refusal",
               error=repr(e))
    case.ev("fault refused")
    case.ev(f"fault: {fault}")
    case.distinct((fault, repr(docs)))


WORKLOADS = [
    Workload("graphs", graphs, 400),
    Workload("same_names", same_names, 300),
    Workload("chains", chains, 120),
    Workload("faults", faults, 1200),
]

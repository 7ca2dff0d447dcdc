"""
Sets of YAML libraries over a specification: partition of the models and port types,
dependency graph; and comparison of a resolved model with its specification.
"""
import io
import math

import yaml

from vf import expr as X
from vf import sysgen as G


class Libs:
    def __init__(self):
        self.ids = []
        self.deps = {}  # lib -> [libs]
        self.types = {}  # port type -> lib
        self.models = {}  # model -> lib


def closure(deps, lib):
    res, todo = {lib}, [lib]
    while todo:
        for d in deps[todo.pop()]:
            if d not in res:
                res.add(d)
                todo.append(d)
    return res


def partition(rng, spec, n=None):
    """random DAG of libraries such that every model sees the port types it uses"""
    L = Libs()
    n = n or rng.randint(1, 5)
    L.ids = [f"{rng.choice(['lib', 'base', 'a-lib', 'Z'])}{i}" for i in range(n)]
    for i, l in enumerate(L.ids):
        L.deps[l] = [d for d in L.ids[:i] if rng.random() < 0.5]
        rng.shuffle(L.deps[l])
    for t in spec.port_types:
        L.types[t] = rng.choice(L.ids)
    for m in spec.models.values():
        need = sorted(set(m.ports.values()))
        ok = [l for l in L.ids if all(L.types[t] in closure(L.deps, l) for t in need)]
        if not ok:
            l = L.ids[-1]
            for t in need:
                if L.types[t] not in closure(L.deps, l):
                    L.deps[l].append(L.types[t])
            ok = [l]
        L.models[m.id] = rng.choice(ok)
    return L


def documents(rng, spec, L):
    """library id -> plain data"""
    res = {}
    for l in L.ids:
        res[l] = G.yaml_library(
            spec, rng, l,
            models={m for m, x in L.models.items() if x == l},
            port_types={t for t, x in L.types.items() if x == l},
            deps=L.deps[l],
        )
        lib = res[l]["library"]
        for k in ("models", "port-types"):
            if k in lib:
                rng.shuffle(lib[k])
        if rng.random() < 0.3:
            lib["description"] = "some text"
        if rng.random() < 0.2:
            for m in lib.get("models", []):
                m["description"] = "a model"
        res[l]["library"] = {k: v for k, v in lib.items() if v != []}
    return res


def parse(doc, snake=False):
    from andromede.model.parsing import parse_yaml_library

    if snake:
        doc = rename(doc)
    return parse_yaml_library(io.StringIO(yaml.safe_dump(doc, allow_unicode=True)))


def rename(x):
    """the other spelling of the keys"""
    if isinstance(x, dict):
        return {k.replace("-", "_"): rename(v) for k, v in x.items()}
    if isinstance(x, list):
        return [rename(v) for v in x]
    return x


def meaning(node, e):
    return X.same_meaning(X.from_node(node), e) and X.leaves(X.from_node(node)) == X.leaves(e)


def is_inf(node, sign):
    v = getattr(node, "value", None)
    return isinstance(v, (int, float)) and math.isinf(v) and (v > 0) == (sign > 0)


def diff_model(spec, m, got):
    """differences between a resolved model and its specification"""
    from andromede.model.common import ProblemContext, ValueType

    out = []

    def same(what, a, b):
        if a != b:
            out.append(f"{what}: {a} instead of {b}")

    same("id", got.id, m.id)
    same("parameters", sorted(got.parameters), sorted(m.params))
    for n, st in m.params.items():
        p = got.parameters.get(n)
        if p is not None:
            same(f"name of parameter {n}", p.name, n)
            same(f"structure of parameter {n}", (p.structure.time, p.structure.scenario), st)
    same("variables", sorted(got.variables), sorted(v.name for v in m.variables))
    kinds = {"continuous": ValueType.CONTINUOUS, "integer": ValueType.INTEGER,
             "boolean": ValueType.BOOLEAN}
    for v in m.variables:
        g = got.variables.get(v.name)
        if g is None:
            continue
        same(f"name of variable {v.name}", g.name, v.name)
        same(f"type of variable {v.name}", g.data_type, kinds[v.kind])
        same(f"structure of variable {v.name}", (g.structure.time, g.structure.scenario),
             (v.time, v.scen))
        same(f"context of variable {v.name}", g.context, ProblemContext.OPERATIONAL)
        for k, a, b in (("lower", g.lower_bound, v.lb), ("upper", g.upper_bound, v.ub)):
            if (a is None) != (b is None) or (b is not None and not meaning(a, b)):
                out.append(f"{k} bound of variable {v.name}: {a} instead of"
                           f" {None if b is None else X.show(b)}")
    same("ports", sorted(got.ports), sorted(m.ports))
    for q, t in m.ports.items():
        p = got.ports.get(q)
        if p is not None:
            same(f"name of port {q}", p.port_name, q)
            same(f"type of port {q}", (p.port_type.id, [f.name for f in p.port_type.fields]),
                 (t, spec.port_types[t]))
    same("port definitions",
         sorted((k.port_name, k.field_name) for k in got.port_fields_definitions),
         sorted(m.defs))
    for k, d in got.port_fields_definitions.items():
        e = m.defs.get((k.port_name, k.field_name))
        if d.port_field != k or (e is not None and not meaning(d.definition, e)):
            out.append(f"definition of {k}: {d.definition} instead of {X.show(e)}")
    for what, cs, g in (("constraints", m.constraints, got.constraints),
                        ("binding constraints", m.bindings, got.binding_constraints)):
        same(what, sorted(g), sorted(c.name for c in cs))
        for c in cs:
            k = g.get(c.name)
            if k is None:
                continue
            same(f"name of {what} {c.name}", k.name, c.name)
            same(f"context of {what} {c.name}", k.context, ProblemContext.OPERATIONAL)
            e, lb, ub = c.expr, c.lb, c.ub
            if e[0] == "cmp":
                lb = ("lit", 0) if e[1] in ("=", ">=") else None
                ub = ("lit", 0) if e[1] in ("=", "<=") else None
                e = ("sub", e[2], e[3])
            if not meaning(k.expression, e):
                out.append(f"{what} {c.name}: {k.expression} instead of {X.show(e)}")
            for side, a, b, sg in (("lower", k.lower_bound, lb, -1),
                                   ("upper", k.upper_bound, ub, 1)):
                if is_inf(a, sg) if b is None else (not is_inf(a, sg) and meaning(a, b)):
                    continue
                out.append(f"{side} bound of {what} {c.name}: {a} instead of"
                           f" {'infinity' if b is None else X.show(b)}")
    o = got.objective_operational_contribution
    if (o is None) != (m.obj_op is None) or (o is not None and not meaning(o, m.obj_op)):
        out.append(f"objective: {o} instead of"
                   f" {None if m.obj_op is None else X.show(m.obj_op)}")
    same("investment objective", got.objective_investment_contribution, None)
    return out

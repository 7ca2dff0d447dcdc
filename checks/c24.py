import copy
import dataclasses
from fractions import Fraction as F

from vf import expr as X
from vf import libs as LB
from vf import nodes as ND
from vf import outcome as O
from vf import sysgen as G
from vf.core import Workload, raises

PROPERTY = "C24"
RULE = (
    "a case is a model made of random expressions, valid or with defects at random depth;"
    " distinct by model and defect, non-trivial if it has an expression with an operator"
)
ASSUMPTIONS = [
    "validity is decided by an independent degree and dependency analysis",
    "defects are not put inside the amounts of time operators",
    "objectives do not read port fields; infinite bounds are literals",
]
REQUIRE = {
    "model accepted": 1500, "content compared": 1500, "objective judged": 3000,
    "objective refused": 1200, "objective accepted": 600, "definition refused": 500,
    "definition accepted": 300, "bound refused": 600, "bound accepted": 400,
    "equality judged": 2000, "duplicate refused": 400, "constraint refused": 300, "copy": 1500,
    "copy refused": 200, "YAML refused": 300, "YAML accepted": 80, "unknown port refused": 150,
    "defect at depth 2 or more": 800,
}

SUB = {"neg": (1,), "add": (1, 2), "sub": (1, 2), "mul": (1, 2), "div": (1, 2),
       "cmp": (2, 3), "shift": (1,), "eval": (1,), "tsum": (1,), "asum": (1,),
       "expec": (1,)}


def paths(e, path=()):
    yield path
    for i in SUB.get(e[0], ()):
        yield from paths(e[i], path + (i,))


def put(e, path, f):
    if not path:
        return f(e)
    i = path[0]
    return e[:i] + (put(e[i], path[1:], f),) + e[i + 1:]


def invalid_division(e):
    return any(x[0] == "div" and any(y[0] in ("var", "pf", "psum") for y in X.walk(x[2]))
               for x in X.walk(e))


def objective_ok(e, env):
    """independent decision"""
    if invalid_division(e):
        return False
    return X.degree(e) <= 1 and X.idx(e, env, None) == (False, False)


def build(args, **change):
    from andromede.model import model

    return model(**{**args, **change})


def setup(case, **opt):
    r = case.rng
    g = G.SysGen(r, T=3, S=2, no_vars=0, **opt)
    spec = g.system()
    m = spec.models[r.choice(sorted(spec.models))]
    case.note(model=repr(m))
    return g, spec, m


def insert(case, e, defect):
    """the expression with a defect somewhere: instead of, or added to, a part of it"""
    r = case.rng
    ps = list(paths(e))
    p = r.choice(ps + [x for x in ps if len(x) >= 2] * 2)
    if len(p) >= 2:
        case.ev("defect at depth 2 or more")
    how = r.choice(["instead", "add", "sub", "mul"])
    return put(e, p, lambda x: defect if how == "instead" else
               (how, x, defect) if r.random() < 0.5 else (how, defect, x))


# ---------------------------------------------------------------- models as they are


def content(case, args, got):
    """an accepted model has what it was given, nothing else"""
    def keyed(xs, key=lambda x: x.name):
        return sorted(([key(x), O.snap(x)] for x in xs), key=repr)

    def have(d):
        return sorted(([k, O.snap(v)] for k, v in d.items()), key=repr)

    for name in ("parameters", "variables", "constraints", "binding_constraints"):
        case.check(have(getattr(got, name)) == keyed(args[name]),
                   f"the {name} of a model are not those given")
    case.check(have(got.ports) == keyed(args["ports"], lambda p: p.port_name),
               "the ports of a model are not those given")
    case.check(
        sorted(([k.port_name, k.field_name, O.snap(v)]
                for k, v in got.port_fields_definitions.items()), key=repr)
        == sorted(([d.port_field.port_name, d.port_field.field_name, O.snap(d)]
                   for d in args["port_fields_definitions"]), key=repr),
        "the port definitions of a model are not those given")
    for name in ("objective_operational_contribution",
                 "objective_investment_contribution"):
        case.check(O.snap(getattr(got, name)) == O.snap(args[name]),
                   "an objective of a model is not the one given")
    case.check(got.id == args["id"], "the identifier of a model is not the one given")
    case.check(got.inter_block_dyn is args.get("inter_block_dyn", False),
               "inter_block_dyn of a model is not the one given")
    case.ev("content compared")


def valid(case):
    r = case.rng
    g, spec, m = setup(case, invest=r.random() < 0.5, ports=r.random() < 0.8)
    args = G.model_args(spec, m, r)
    if r.random() < 0.5:
        args["inter_block_dyn"] = r.random() < 0.7
    if r.random() < 0.3:  # names which differ by the case only are different names
        for key, attr in (("parameters", "name"), ("variables", "name"),
                          ("constraints", "name"), ("binding_constraints", "name"),
                          ("ports", "port_name")):
            xs = list(args.get(key) or [])
            taken = {getattr(x, attr) for k in ("parameters", "variables")
                     for x in args.get(k) or [] if hasattr(x, attr)}
            taken |= {getattr(x, attr) for x in xs}
            for x in xs[:2]:
                n = getattr(x, attr).swapcase()
                if n not in taken:
                    args[key] = list(args[key]) + [dataclasses.replace(x, **{attr: n})]
                    case.ev("name differing by case only")
    snap = O.snap({k: list(v) if isinstance(v, list) else v for k, v in args.items()})
    if r.random() < 0.3:  # any iterable
        got = build({k: (iter(v) if isinstance(v, list) and k != "ports" else v)
                     for k, v in args.items()})
    elif r.random() < 0.3:
        got = build({k: (tuple(v) if isinstance(v, list) else v) for k, v in args.items()})
    else:
        got = build({k: v for k, v in args.items() if v or r.random() < 0.5})
    case.ev("model accepted")
    content(case, args, got)
    case.check(O.snap(args) == snap, "creating a model changed what it was given")
    case.check(sorted(c.name for c in got.get_all_constraints())
               == sorted(c.name for c in args["binding_constraints"] + args["constraints"]),
               "get_all_constraints does not give all constraints")
    case.distinct(repr(m))
    case.sample(dict(model=m.id, variables=[v.name for v in m.variables],
                     objective=m.obj_op and X.show(m.obj_op)))


# ---------------------------------------------------------------- objectives


def objectives(case):
    from andromede.expression.indexing_structure import IndexingStructure  # noqa

    r = case.rng
    g, spec, m = setup(case, ports=False)
    env = G._StructEnv(m)
    args = G.model_args(spec, m, r)
    gen = g.gen_for(m, True, True)
    for _ in range(4):
        k = r.random()
        base = g.objective(m, None) or gen.linear(3)
        if k < 0.25:
            e = base
        elif k < 0.6:  # a part which depends on time or scenario, or is not linear
            v = ("var", r.choice(m.variables).name)
            w = ("var", r.choice(m.variables).name)
            p = ("par", r.choice(sorted(m.params)))
            d = r.choice([v, p, ("mul", v, w), ("div", p, v), ("mul", p, v),
                          ("asum", v), ("expec", v), ("asum", ("mul", v, w)),
                          ("eval", v, ("lit", F(0))), ("expec", ("asum", p))])
            e = insert(case, base, d)
        else:
            e = gen.linear(r.randint(0, 4))
            for _ in range(r.randint(0, 2)):
                e = r.choice([lambda x: ("asum", x), lambda x: ("expec", x),
                              lambda x: ("shift", x, ("lit", F(1))),
                              lambda x: ("mul", x, ("par", r.choice(sorted(m.params))))
                              ])(e)
        bare = {}
        if r.random() < 0.15:  # over parameters only, in a model without anything else
            e = X.substitute(e, lambda l: ("par", r.choice(sorted(m.params)))
                             if l[0] == "var" else None)
            bare = {k: [] for k in ("variables", "constraints", "binding_constraints",
                                    "port_fields_definitions", "ports") if k in args}
            bare.update({k: None for k in args if k.startswith("objective_")})
            case.ev("objective of a model without variables")
        ok = objective_ok(e, env)
        node = X.to_nodes(e)
        which = r.choice(["objective_operational_contribution",
                          "objective_investment_contribution"])
        case.ev("objective judged")
        err = raises(lambda: build(args, **{**bare, which: node}), Exception)
        case.note(objective=X.show(e), which=which)
        if ok:
            if err is not None:
                raise err
            case.ev("objective accepted")
        else:
            case.check(err is not None, "an objective which is not linear or depends on"
                       " time or scenario is accepted", objective=X.show(e), which=which,
                       structures={v.name: (v.time, v.scen) for v in m.variables}
                       | m.params)
            case.ev("objective refused")
        case.distinct((X.show(e), repr(m.params), [(v.time, v.scen) for v in m.variables]))


# ---------------------------------------------------------------- port definitions


def definitions(case):
    from andromede.expression import expression as ex
    from andromede.expression.expression import (
        ComponentParameterNode, ComponentVariableNode, PortFieldAggregatorNode,
        PortFieldNode, ProblemParameterNode, ProblemVariableNode)
    from andromede.model.port import PortFieldDefinition, PortFieldId, port_field_def

    r = case.rng
    g, spec, m = setup(case)
    gen = g.gen_for(m, True, True)
    e = gen.linear(r.randint(1, 4)) if r.random() < 0.8 else (
        "mul", gen.linear(2), gen.linear(2))
    node = X.to_nodes(e)
    make = r.choice([lambda n: port_field_def("p", "f", n),
                     lambda n: PortFieldDefinition(PortFieldId("p", "f"), n)])
    d = make(node)
    case.check(ND.raw(d.definition) == ND.raw(X.to_nodes(e))
               and d.port_field == PortFieldId("p", "f"),
               "a port definition is not the one given")
    case.ev("definition accepted")
    bad = {
        "comparison": lambda x: ex.ComparisonNode(
            x, ex.literal(1), r.choice(list(ex.Comparator))),
        "port field": lambda x: PortFieldNode("q", "f"),
        "own port field": lambda x: PortFieldNode("p", "f"),
        "sum of port fields": lambda x: PortFieldAggregatorNode(
            PortFieldNode("q", "f"), "PortSum"),
        "component variable": lambda x: ComponentVariableNode("c", "x0"),
        "component parameter": lambda x: ComponentParameterNode("c", "p0"),
        "problem variable": lambda x: ProblemVariableNode(
            "c", "x0", ex.NoTimeIndex(), ex.NoScenarioIndex()),
        "problem parameter": lambda x: ProblemParameterNode(
            "c", "p0", ex.TimeShift(0), ex.CurrentScenarioIndex()),
    }
    amounts = ("time_shift", "eval_time", "from_time", "to_time")
    ps = [p for p in ND.positions(node) if not set(p) & set(amounts)]
    for name in r.sample(sorted(bad), 2):
        p = r.choice(ps + [x for x in ps if len(x) >= 2] * 2)
        if len(p) >= 2:
            case.ev("defect at depth 2 or more")
        n = ND.replace_at(node, p, bad[name])
        case.check(raises(lambda: make(n), Exception) is not None,
                   "a port definition with a part it must not have is accepted",
                   part=name, path=p, definition=str(n))
        case.ev("definition refused")
    case.distinct((X.show(e), name))
    # in a model: unknown port or field
    args = G.model_args(spec, m, r)
    fields = {q: spec.port_types[pt] for q, pt in m.ports.items()}
    if r.random() < 0.3:  # a port without any field
        from andromede.model.model import ModelPort
        from andromede.model.port import PortType

        args["ports"].append(ModelPort(PortType("bare", []), "bare port"))
        fields["bare port"] = []
    wrong = [("nowhere", "f")] + [(q, "nothing") for q in fields]
    for q, fs in fields.items():
        # a field of another port type
        wrong += [(q, f) for t, gs in spec.port_types.items() for f in gs if f not in fs]
    q, f = r.choice(wrong)
    x = port_field_def(q, f, node)
    defs = list(args["port_fields_definitions"])
    defs.insert(r.randint(0, len(defs)), x)
    case.check(raises(lambda: build(args, port_fields_definitions=defs), Exception)
               is not None, "a definition of an unknown port or field is accepted",
               port=q, field=f, ports=fields)
    case.ev("unknown port refused")


# ---------------------------------------------------------------- bounds, constraints


def bounds(case):
    from andromede.expression.expression import literal
    from andromede.model import Constraint, float_variable, int_variable
    from andromede.model.common import ProblemContext, ValueType
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model.variable import Variable

    r = case.rng
    g, spec, m = setup(case)
    gen = g.gen_for(m, True, True)
    inf = float("inf")
    for _ in range(2):
        e = gen.const(r.randint(0, 3))
        side = r.choice(["lower_bound", "upper_bound"])
        other = {"lower_bound": "upper_bound", "upper_bound": "lower_bound"}[side]
        expr = gen.linear(2)
        kw = {}
        if r.random() < 0.4:
            kw[other] = X.to_nodes(gen.const(1))
        makers = [
            lambda n: float_variable("x", **{side: n}, **kw),
            lambda n: int_variable("x", **{side: n}, **kw),
            lambda n: Variable(**dict(dict(
                name="x", data_type=ValueType.BOOLEAN, structure=IndexingStructure(True, True),
                context=ProblemContext.OPERATIONAL, lower_bound=None, upper_bound=None),
                **{side: n}, **kw)),
            lambda n: Constraint("c", X.to_nodes(expr), **{side: n}, **kw),
            lambda n: Constraint("c", X.to_nodes(expr), **{side: n}, **kw),
        ]
        make = r.choice(makers)
        node = X.to_nodes(e)
        got = make(node)
        case.check(ND.raw(getattr(got, side)) == ND.raw(X.to_nodes(e)),
                   "a bound is not the one given")
        if kw:
            case.check(ND.raw(getattr(got, other)) == ND.raw(kw[other]),
                       "a bound is not the one given")
        case.ev("bound accepted")
        leaf = r.choice([("var", "x0"), ("pf", "q", "f"), ("psum", "q", "f")])
        b = insert(case, e, leaf)
        case.check(raises(lambda: make(X.to_nodes(b)), Exception) is not None,
                   "a bound with a variable is accepted", bound=X.show(b), side=side,
                   kind_of=type(got).__name__)
        case.ev("bound refused")
        case.distinct((X.show(b), side))
    # constraints: comparison and bounds, infinite bounds on the wrong side
    op = r.choice(["<=", ">=", "="])
    cmp = X.to_nodes(("cmp", op, gen.linear(2), gen.linear(2)))
    fin = X.to_nodes(gen.const(1) if r.random() < 0.6 else ("lit", r.choice(
        [F(0), F(1), F(-3)])))
    case.check(raises(lambda: Constraint("c", cmp, **{side: fin}), Exception) is not None,
               "a constraint with a comparison and a bound is accepted", comparison=op,
               side=side, bound=str(fin))
    lin = X.to_nodes(gen.linear(2))
    wrong = {"lower_bound": literal(inf), "upper_bound": literal(-inf)}[side]
    kw = {side: wrong}
    if r.random() < 0.5:
        kw[other] = X.to_nodes(gen.const(1))
    case.check(raises(lambda: Constraint("c", lin, **kw), Exception) is not None,
               "a constraint with an infinite bound on the wrong side is accepted",
               side=side)
    case.ev("constraint refused", 2)
    ok = Constraint("c", lin, **{side: literal(-inf if side == "lower_bound" else inf)})
    case.check(ok is not None, "")
    Constraint("c", cmp, lower_bound=literal(-inf), upper_bound=literal(inf))


# ---------------------------------------------------------------- duplicates


def duplicates(case):
    r = case.rng
    g, spec, m = setup(case, invest=r.random() < 0.3)
    args = G.model_args(spec, m, r)
    kinds = [k for k in ("parameters", "variables", "constraints", "binding_constraints",
                         "ports", "port_fields_definitions") if args[k]]
    for kind in kinds:
        xs = list(args[kind])
        x = r.choice(xs)
        # another object of the same name, at any place
        if kind == "ports":
            y = x.replicate()
        elif kind == "port_fields_definitions":
            y = x.replicate(definition=x.definition + 1 if r.random() < 0.5
                            else x.definition)
        elif kind == "parameters":
            from andromede.expression.indexing_structure import IndexingStructure

            y = x.replicate(structure=r.choice(
                [x.structure, IndexingStructure(not x.structure.time, True)]))
        elif kind == "variables":
            y = x.replicate(lower_bound=None, upper_bound=None)
        else:
            y = x.replicate(expression=x.expression * 2 if r.random() < 0.5
                            else x.expression)
        xs.insert(r.randint(0, len(xs)), y)
        given = xs if r.random() < 0.7 or kind == "ports" else iter(xs)
        case.check(raises(lambda: build(args, **{kind: given}), Exception) is not None,
                   f"two {kind} of the same name are accepted", names=str(x)[:200])
        case.ev("duplicate refused")
    case.distinct((repr(m), "duplicates"))


# ---------------------------------------------------------------- copies


def plain(x):
    """the content, without the context, which equality leaves aside"""
    def strip(s):
        if isinstance(s, list):
            return [strip(v) for v in s if not (isinstance(v, list) and len(v) == 2
                                                and v[0] == "context")]
        return s

    return strip(O.snap(x))


def copies(case):
    """replicate(): the changes, the rest the same, the original untouched; validated"""
    r = case.rng
    g, spec, m = setup(case, invest=r.random() < 0.5)
    args = G.model_args(spec, m, r)
    mod = build(args)
    gen = g.gen_for(m, True, True)
    const = lambda: X.to_nodes(gen.const(2))
    things = [(mod, {"id": lambda: "other", "inter_block_dyn": lambda: True,
                     "objective_operational_contribution":
                         lambda: X.to_nodes(("lit", F(3)))})]
    from andromede.model.common import ProblemContext, ValueType
    from andromede.expression.indexing_structure import IndexingStructure

    def structure():
        return IndexingStructure(r.random() < 0.5, r.random() < 0.5)

    ctx = lambda: r.choice(list(ProblemContext))
    for v in mod.variables.values():
        things.append((v, dict(name=lambda: "other", lower_bound=const, upper_bound=const,
                               structure=structure, context=ctx,
                               data_type=lambda: r.choice(list(ValueType)))))
    for c in mod.get_all_constraints():
        things.append((c, dict(name=lambda: "other", lower_bound=const, upper_bound=const,
                               context=ctx,
                               expression=lambda: X.to_nodes(gen.linear(2)))))
    for p in mod.parameters.values():
        things.append((p, dict(name=lambda: "other", structure=structure,
                               type=lambda: r.choice(list(ValueType)))))
    for p in mod.ports.values():
        things.append((p, dict(port_name=lambda: "other")))
    for d in mod.port_fields_definitions.values():
        things.append((d, dict(definition=lambda: X.to_nodes(gen.linear(2)))))
        things.append((d.port_field, dict(field_name=lambda: "other",
                                          port_name=lambda: "z")))
    before = O.snap(mod)
    for x, fields in r.sample(things, min(4, len(things))):
        ch = {k: f() for k, f in fields.items() if r.random() < 0.4}
        y = x.replicate(**ch)
        case.ev("copy")
        case.check(type(y) is type(x), "a copy has another type", got=type(y).__name__)
        for f in dataclasses.fields(x):
            if f.name.startswith("_"):
                continue
            want = ch.get(f.name, getattr(x, f.name))
            case.check(O.snap(getattr(y, f.name)) == O.snap(want),
                       "a copy differs where it was not asked to, or not where it was",
                       type=type(x).__name__, field=f.name, changes=list(ch))
        if not ch:
            case.check(y == x, "a copy without changes is not equal to the original")
        alike = plain(y) == plain(x)
        case.check((y == x) is alike and (x == y) is alike and (y != x) is not alike,
                   "equality is not the equality of the contents", type=type(x).__name__,
                   changes=list(ch), alike=alike)
        case.ev("equality judged")
        if x is mod:
            continue
        # the same in a model
        kind = {"Variable": "variables", "Parameter": "parameters", "ModelPort": "ports",
                "PortFieldDefinition": "port_fields_definitions"}.get(type(x).__name__)
        if type(x).__name__ == "Constraint":
            kind = "constraints" if x in mod.constraints.values() else "binding_constraints"
        if kind is None:
            continue
        old = list(getattr(mod, kind).items())
        r.shuffle(old)
        try:
            other = mod.replicate(**{kind: {k: y if v is x else v for k, v in old}})
        except ValueError:
            continue
        alike = alike or all(v is not x for _, v in old)
        case.check((other == mod) is alike and (mod == other) is alike,
                   "equality of models is not the equality of their contents", kind=kind,
                   changes=list(ch), alike=alike)
        case.ev("equality judged")
    case.check(O.snap(mod) == before, "copying a model or a part of it changed it")
    # copies are validated as well
    v = ("var", r.choice(m.variables).name)
    bad = []
    bad.append(lambda: mod.replicate(objective_operational_contribution=X.to_nodes(
        ("expec", ("asum", ("mul", v, v))))))
    for x in list(mod.variables.values())[:1]:
        bad.append(lambda: x.replicate(lower_bound=X.to_nodes(("add", v, ("lit", F(1))))))
        bad.append(lambda: x.replicate(upper_bound=X.to_nodes(("neg", v))))
    for c in list(mod.get_all_constraints())[:1]:
        bad.append(lambda: c.replicate(upper_bound=X.to_nodes(("neg", v))))
    for d in list(mod.port_fields_definitions.values())[:1]:
        bad.append(lambda: d.replicate(definition=X.to_nodes(
            ("add", v, ("psum", "a", "b")))))
    f = r.choice(bad)
    case.check(raises(f, Exception) is not None, "an invalid copy is accepted",
               which=bad.index(f))
    case.ev("copy refused")
    case.distinct((repr(m), "copies"))


# ---------------------------------------------------------------- YAML


def yaml_files(case):
    """the same defects in a library file"""
    from andromede.model.resolve_library import resolve_library

    r = case.rng
    g, spec, m = setup(case, yaml=True)
    base = G.yaml_library(spec, r)
    resolve_library([LB.parse(base)])
    case.ev("YAML accepted")
    rd = X.Renderer(r)
    gen = g.gen_for(m, True, True)
    env = G._StructEnv(m)
    v = ("var", r.choice(m.variables).name)
    for _ in range(3):
        doc = copy.deepcopy(base)
        y = next(x for x in doc["library"]["models"] if x["id"] == m.id)
        kind = r.choice(["objective", "bound", "constraint bound", "both", "definition",
                         "unknown port", "duplicate"])
        what = None
        if kind == "objective":
            e = insert(case, gen.linear(2), ("mul", v, v) if r.random() < 0.5 else v)
            if r.random() < 0.6:
                e = ("expec", ("asum", e))
            if objective_ok(e, env):
                continue
            y["objective"] = what = rd.top(e)
        elif kind == "bound":
            d = r.choice(y["variables"])
            d[r.choice(["lower-bound", "upper-bound"])] = what = rd.top(
                insert(case, gen.const(2), v))
        elif kind == "constraint bound":
            what = rd.top(insert(case, gen.const(2), v))
            y.setdefault("constraints", []).append(
                {"id": "new", "expression": rd.top(v),
                 r.choice(["lower-bound", "upper-bound"]): what})
        elif kind == "both":
            y.setdefault(r.choice(["constraints", "binding-constraints"]), []).append(
                {"id": "new", "expression": rd.top(("cmp", "<=", v, gen.const(1))),
                 r.choice(["lower-bound", "upper-bound"]): rd.top(("lit", F(1)))})
        elif kind == "definition":
            pts = [(p, t) for p, t in m.ports.items() if spec.port_types[t]]
            if not pts:
                continue
            p, t = r.choice(pts)
            f = spec.port_types[t][0]
            y["port-field-definitions"] = [
                d for d in y.get("port-field-definitions", [])
                if (d["port"], d["field"]) != (p, f)]
            e = insert(case, gen.linear(2), ("psum", p, f))
            what = rd.top(e)
            y["port-field-definitions"].append(
                {"port": p, "field": f, "definition": what})
        elif kind == "unknown port":
            y.setdefault("port-field-definitions", []).append(
                {"port": "nowhere", "field": "f", "definition": rd.top(v)})
        else:
            keys = [k for k in ("parameters", "variables", "constraints",
                                "binding-constraints", "ports",
                                "port-field-definitions") if y.get(k)]
            k = r.choice(keys)
            y[k].insert(r.randint(0, len(y[k])), dict(r.choice(y[k])))
            what = k
        case.check(raises(lambda: resolve_library([LB.parse(doc)]), Exception) is not None,
                   "an invalid model of a library file is accepted", kind=kind, text=what)
        case.ev("YAML refused")
    case.distinct((repr(m), "yaml"))


WORKLOADS = [
    Workload("valid", valid, 2000),
    Workload("objectives", objectives, 1200),
    Workload("definitions", definitions, 700),
    Workload("bounds", bounds, 700),
    Workload("duplicates", duplicates, 400),
    Workload("copies", copies, 700),
    Workload("yaml_files", yaml_files, 300),
]

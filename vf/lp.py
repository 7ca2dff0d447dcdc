"""
Reference optimisation problem (from a specification, see sysgen) and read-back of the
problem which the code under test gave to the solver.
"""
import itertools
import math
from fractions import Fraction as F

from vf.expr import Env, den, idx

INF = float("inf")


class LP:
    def __init__(self):
        self.vars = {}  # key -> (lb, ub, is_int)
        self.cons = {}  # name -> (lb, ub, {key: coef})
        self.obj = {}  # key -> coef
        self.offset = 0
        self.order = []  # names of variables, in creation order
        self.duplicates = []
        self.rows = []  # all the rows, even with the same name

    def stats(self):
        return dict(
            variables=len(self.vars),
            constraints=len(self.cons),
            coefficients=sum(len(c[2]) for c in self.cons.values()),
            objective=len(self.obj),
        )


def var_name(key, T, S, tree="", full=True):
    comp, name, t, s = key
    r = ""
    if full and tree:
        r += tree + "_"
    if full and comp:
        r += comp + "_"
    r += name
    if t is not None and T > 1:
        r += f"_t{t}"
    if s is not None and S > 1:
        r += f"_s{s}"
    return r


def keep(ctx, strategy):
    if strategy == "merged":
        return True
    if strategy == "investment":
        return ctx in ("investment", "coupling")
    return ctx in ("operational", "coupling")


class Infeasible(Exception):
    """a variable has its lower bound above its upper bound"""


def reference(
    spec, block, S, strategy="merged", prob=None, tree="", full=True, only=None
):
    """
    The problem that a system denotes over a block of (absolute) time steps.
    Independent of the code under test. `only`: ids of the components to keep.
    """
    T = len(block)
    env = make_env(spec, block, S, tree)
    lp = LP()
    comps = [c for c in spec.ordered_components() if only is None or c.id in only]

    def name(key):
        return var_name(key, T, S, tree, full)

    for c in comps:
        m = spec.models[c.model]
        for v in m.variables:
            if not keep(v.ctx, strategy):
                continue
            for t in range(T) if v.time else [None]:
                for s in range(S) if v.scen else [None]:
                    lb, ub = -INF, INF
                    if v.lb is not None:
                        lb = bound(v.lb, env, c.id, t, s)
                    if v.ub is not None:
                        ub = bound(v.ub, env, c.id, t, s)
                    if lb > ub:
                        raise Infeasible(name((c.id, v.name, t, s)))
                    if v.kind == "boolean":
                        lb, ub = 0, 1
                    n = name((c.id, v.name, t, s))
                    if n in lp.vars:
                        lp.duplicates.append(n)
                    lp.vars[n] = (lb, ub, v.kind != "continuous")
                    lp.order.append(n)
    for c in comps:
        m = spec.models[c.model]
        for k in m.bindings + m.constraints:
            if not keep(k.ctx, strategy):
                continue
            if k.expr[0] == "cmp":
                e = ("sub", k.expr[2], k.expr[3])
                lb = ("lit", 0) if k.expr[1] in ("=", ">=") else None
                ub = ("lit", 0) if k.expr[1] in ("=", "<=") else None
            else:
                e, lb, ub = k.expr, k.lb, k.ub
            i = idx(e, env, c.id)
            for b in (lb, ub):
                if b is not None:
                    j = idx(b, env, c.id)
                    i = (i[0] or j[0], i[1] or j[1])
            for t in range(T) if i[0] else [0]:
                for s in range(S) if i[1] else [0]:
                    lin = den(e, env, c.id, t, s).clean()
                    cons = (
                        -INF
                        if lb is None
                        else bound(lb, env, c.id, t, s) - lin.const,
                        INF if ub is None else bound(ub, env, c.id, t, s) - lin.const,
                        {name(x): v for x, v in lin.terms.items()},
                    )
                    n = f"{c.id}_{k.name}_t{t}_s{s}"
                    if n in lp.cons:
                        lp.duplicates.append(n)
                    lp.cons[n] = cons
    for c in comps:
        m = spec.models[c.model]
        objs = []
        if strategy != "investment":
            objs.append(m.obj_op)
        if strategy != "operational":
            objs.append(m.obj_inv)
        for o in objs:
            if o is None:
                continue
            lin = den(o, env, c.id, None, None)
            if prob is not None:
                lin = lin.scale(F(prob))
            for x, v in lin.terms.items():
                lp.obj[name(x)] = lp.obj.get(name(x), 0) + v
            lp.offset += lin.const
    return lp


def make_env(spec, block, S, tree=""):
    T = len(block)
    by_id = {c.id: c for c in spec.components}

    def par(comp, name, t, s):
        return spec.value(comp, name, None if t is None else block[t], s, tree)

    def structure(comp, kind, name):
        m = spec.models[by_id[comp].model]
        if kind == "var":
            v = m.var(name)
            return (v.time, v.scen)
        return m.params[name]

    def port(comp, p, f):
        res = []
        for c1, p1, c2, p2 in spec.connections:
            for a, b in (((c1, p1), (c2, p2)), ((c2, p2), (c1, p1))):
                if a != (comp, p):
                    continue
                for c, q in (a, b):
                    d = spec.models[by_id[c].model].defs.get((q, f))
                    if d is not None:
                        res.append((c, d))
        return res

    return Env(T, S, par, structure, port)


def bound(e, env, comp, t, s):
    if e[0] == "lit" and abs(e[1]) == INF:
        return float(e[1])
    r = den(e, env, comp, t, s)
    assert not r.terms
    return r.const


def readback(solver):
    """what the solver holds"""
    from ortools.linear_solver import linear_solver_pb2

    p = linear_solver_pb2.MPModelProto()
    solver.ExportModelToProto(p)
    return from_proto(p)


def from_proto(p):
    lp = LP()
    names = []
    for v in p.variable:
        if v.name in lp.vars:
            lp.duplicates.append(v.name)
        lp.vars[v.name] = (v.lower_bound, v.upper_bound, v.is_integer)
        lp.order.append(v.name)
        names.append(v.name)
        if v.objective_coefficient:
            lp.obj[v.name] = v.objective_coefficient
    for c in p.constraint:
        coefs = {}
        for i, x in zip(c.var_index, c.coefficient):
            coefs[names[i]] = coefs.get(names[i], 0) + x
        if c.name in lp.cons:
            lp.duplicates.append(c.name)
        lp.cons[c.name] = (c.lower_bound, c.upper_bound, coefs)
        lp.rows.append(lp.cons[c.name])
    lp.offset = p.objective_offset
    lp.maximize = p.maximize
    return lp


def near(a, b, scale=1.0):
    a, b = float(a), float(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= 1e-8 * max(scale, abs(a), abs(b))


def oriented(got, want):
    """a row, or its opposite (the same constraint) when written so in `want`"""
    ref = max(want[2], key=lambda k: (abs(want[2][k]), k), default=None)
    if ref is not None and got[2].get(ref, 0) * float(want[2][ref]) < 0:
        return (-got[1], -got[0], {k: -v for k, v in got[2].items()})
    return got


def diff_coefs(got, want):
    out = []
    scale = max([1.0] + [abs(float(x)) for x in want.values()])
    for k in sorted(set(got) | set(want)):
        if not near(got.get(k, 0), want.get(k, 0), scale):
            out.append(f"{k}: {float(got.get(k, 0))} instead of {float(want.get(k, 0))}")
    return out


def diff_vars(got, want):
    out = []
    for k in sorted(set(got.vars) | set(want.vars)):
        if k not in got.vars:
            out.append(f"variable {k} is missing")
        elif k not in want.vars:
            out.append(f"variable {k} should not exist")
        else:
            g, w = got.vars[k], want.vars[k]
            if not near(g[0], w[0]) or not near(g[1], w[1]):
                out.append(
                    f"variable {k}: bounds {g[:2]} instead of {tuple(map(float, w[:2]))}"
                )
            if bool(g[2]) != bool(w[2]):
                out.append(f"variable {k}: integer={g[2]} instead of {w[2]}")
    return out


def diff_cons(got, want):
    out = []
    for k in sorted(set(got.cons) | set(want.cons)):
        if k not in got.cons:
            out.append(f"constraint {k} is missing")
        elif k not in want.cons:
            out.append(f"constraint {k} should not exist")
        else:
            w = want.cons[k]
            g = oriented(got.cons[k], w)
            if not near(g[0], w[0]) or not near(g[1], w[1]):
                out.append(
                    f"constraint {k}: bounds {g[:2]} instead of"
                    f" {(float(w[0]), float(w[1]))}"
                )
            for d in diff_coefs(g[2], w[2]):
                out.append(f"constraint {k}: coefficient of {d}")
    return out


def diff_rows(got, want):
    """the same rows, whatever their names and order; got, want: [(lb, ub, coefs)]"""

    def sig(row):
        return tuple(sorted(k for k, v in row[2].items() if abs(float(v)) > 1e-8))

    def same(g, w):
        g = oriented(g, w)
        return (
            near(g[0], w[0]) and near(g[1], w[1]) and not diff_coefs(g[2], w[2])
        )

    left = {}
    for g in got:
        left.setdefault(sig(g), []).append(g)
    out = []
    for w in want:
        rows = left.get(sig(w), [])
        for i, g in enumerate(rows):
            if same(g, w):
                del rows[i]
                break
        else:
            out.append(f"row {show_row(w)} is missing")
    out += [f"row {show_row(g)} should not exist" for rows in left.values() for g in rows]
    return out


def show_row(row):
    terms = " ".join(f"{float(v):+g} {k}" for k, v in sorted(row[2].items()) if v)
    return f"{float(row[0]):g} <= {terms or 0} <= {float(row[1]):g}"


def diff_obj(got, want):
    out = [f"objective: coefficient of {d}" for d in diff_coefs(got.obj, want.obj)]
    if not near(got.offset, want.offset):
        out.append(
            f"objective: constant {float(got.offset)} instead of {float(want.offset)}"
        )
    if getattr(got, "maximize", False):
        out.append("objective: maximized instead of minimized")
    return out


def diff(got, want):
    return diff_vars(got, want) + diff_cons(got, want) + diff_obj(got, want)

"""
Reader of MPS files, independent of the code under test and of its solver library:
returns an LP with the variables in the order of the columns of the file.
"""
import math

from vf.lp import INF, LP


def read(text):
    lp = LP()
    lp.columns = []  # variables with a column, in the order of the file
    rows, kind, rhs, rng, coefs = [], {}, {}, {}, {}
    obj, integer, section = None, False, None
    lo, up, ints = {}, {}, set()
    ended = False
    for line in text.splitlines():
        if not line.strip() or line.startswith("*"):
            continue
        if not line[0].isspace():
            section = line.split()[0]
            ended = section == "ENDATA"
            continue
        f = line.split()
        if section == "ROWS":
            if f[0] == "N" and obj is None:
                obj = f[1]
            else:
                if f[1] in kind:
                    lp.duplicates.append(f[1])
                kind[f[1]] = f[0]
                rows.append(f[1])
                coefs[f[1]] = {}
        elif section == "COLUMNS":
            if f[1] == "'MARKER'":
                integer = f[2] == "'INTORG'"
                continue
            v = f[0]
            if not lp.columns or lp.columns[-1] != v:
                if v in lp.columns:
                    lp.duplicates.append(v)
                lp.columns.append(v)
                lo.setdefault(v, 0.0)
                up.setdefault(v, INF)
                if integer:
                    ints.add(v)
            for n, x in zip(f[1::2], f[2::2]):
                if n == obj:
                    lp.obj[v] = lp.obj.get(v, 0) + float(x)
                else:
                    coefs[n][v] = coefs[n].get(v, 0) + float(x)
        elif section == "RHS":
            for n, x in zip(f[1::2], f[2::2]):
                rhs[n] = float(x)
        elif section == "RANGES":
            for n, x in zip(f[1::2], f[2::2]):
                rng[n] = float(x)
        elif section == "BOUNDS":
            k, v = f[0], f[2]
            x = float(f[3]) if len(f) > 3 else None
            lo.setdefault(v, 0.0)
            up.setdefault(v, INF)
            if k in ("LI", "UI", "BV"):
                ints.add(v)
            if k in ("LO", "LI"):
                lo[v] = x
            elif k in ("UP", "UI"):
                up[v] = x
            elif k == "FX":
                lo[v] = up[v] = x
            elif k == "FR":
                lo[v], up[v] = -INF, INF
            elif k == "MI":
                lo[v] = -INF
            elif k == "PL":
                up[v] = INF
            elif k == "BV":
                lo[v], up[v] = 0.0, 1.0
            else:
                raise ValueError("bound " + line)
        elif section not in ("NAME",):
            raise ValueError("section " + section)
    if not ended:
        raise ValueError("truncated file")
    lp.offset = -rhs.get(obj, 0.0)
    for n in rows:
        b, d = rhs.get(n, 0.0), rng.get(n)
        k = kind[n]
        if k == "N":
            row = (-INF, INF)
        elif k == "E":
            row = (b, b) if d is None else ((b, b + d) if d > 0 else (b + d, b))
        elif k == "L":
            row = (-INF if d is None else b - abs(d), b)
        else:
            row = (b, INF if d is None else b + abs(d))
        lp.cons[n] = row + (coefs[n],)
        lp.rows.append(lp.cons[n])
    for v in lo:
        lp.vars[v] = (lo[v], up[v], v in ints)
    lp.order = list(lo)
    return lp


def integers(b):
    lo, up = float(b[0]), float(b[1])
    return (lo if math.isinf(lo) else math.ceil(lo - 1e-9),
            up if math.isinf(up) else math.floor(up + 1e-9))


def diff(file, held, digits=2e-5):
    """
    the problem of the file is the one held by the solver, up to the precision of the
    numbers written (six digits); variables at the default bounds without any
    coefficient need not be written
    """

    def near(a, b, scale=0.0):
        a, b = float(a), float(b)
        return a == b or abs(a - b) <= digits * max(abs(a), abs(b), scale)

    out = []
    for v in sorted(set(file.vars) | set(held.vars)):
        if v not in held.vars:
            out.append(f"variable {v} of the file is not in the problem")
            continue
        g = file.vars.get(v, (0.0, INF, False))
        w = held.vars[v]
        gb, wb = g[:2], w[:2]
        if w[2]:  # the same integers
            gb, wb = integers(gb), integers(wb)
        if not (near(gb[0], wb[0]) and near(gb[1], wb[1])):
            out.append(f"variable {v}: bounds {g[:2]} in the file, {w[:2]} in the problem")
        if v in file.columns and bool(g[2]) != bool(w[2]):
            out.append(f"variable {v}: integer={g[2]} in the file, {w[2]} in the problem")
        if not near(file.obj.get(v, 0), held.obj.get(v, 0)):
            out.append(f"objective coefficient of {v}: {file.obj.get(v, 0)} in the file,"
                       f" {held.obj.get(v, 0)} in the problem")
    if not near(file.offset, held.offset):
        out.append(f"constant {file.offset} in the file, {held.offset} in the problem")
    for n in sorted(set(file.cons) | set(held.cons)):
        if n not in file.cons or n not in held.cons:
            out.append(f"row {n} is in the {'file' if n in file.cons else 'problem'} only")
            continue
        g, w = file.cons[n], held.cons[n]
        finite = [abs(x) for x in w[:2] if abs(x) != INF]
        scale = sum(finite)
        if not (near(g[0], w[0], scale) and near(g[1], w[1], scale)):
            out.append(f"row {n}: bounds {g[:2]} in the file, {w[:2]} in the problem")
        for v in set(g[2]) | set(w[2]):
            if not near(g[2].get(v, 0), w[2].get(v, 0)):
                out.append(f"row {n}, {v}: {g[2].get(v, 0)} in the file,"
                           f" {w[2].get(v, 0)} in the problem")
    return out

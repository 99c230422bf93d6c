import numpy as np
from . import grids
from .common import *


def slopes_of(F, d, c, thr):
    out = {}
    for n in F.nb[c]:
        if np.isnan(d[n]):
            continue
        drop = d[n] - d[c]
        if 0 < drop < thr:
            drop = 0.0
        out[n] = drop / np.sqrt((F.xc[n] - F.xc[c]) ** 2 + (F.yc[n] - F.yc[c]) ** 2)
    return out


def gen_fdir(rng):
    spec = grids.random_spec(rng)
    F = grids.Facts(spec)
    if rng.random() < 0.5:
        d, term = draining_dem(rng, F, 0.15 if rng.random() < 0.3 else 0.0)
    else:
        d = random_dem(rng, F.n)
        if rng.random() < 0.25:
            d[rng.random(F.n) < 0.3] = np.nan
        if np.isnan(d).all():
            d[0] = 1.0
        ok = [int(x) for x in np.where(~np.isnan(d))[0]]
        k = int(rng.integers(0, 3))
        term = sorted({int(x) for x in rng.choice(ok, min(k, len(ok)), replace=False)})
    case = dict(grid=spec, dem=jl(d), term=term, rowcol=bool(rng.random() < 0.5))
    if rng.random() < 0.2:
        case["thr"] = float(rng.choice([0.05, 0.5, 0.0]))
    case["again"] = bool(rng.random() < 0.2)
    return random_layout(rng, case)


def term_arg(case):
    t = list(case["term"])
    if case.get("rowcol") and case["grid"]["kind"] == "structured":
        return [(c // case["grid"]["ncol"], c % case["grid"]["ncol"]) for c in t]
    return t


def directions(case):
    g, shp, F, d, fo = make_fo(case)
    kw = {}
    if case.get("thr") is not None:
        kw["burn_threshold"] = case["thr"]
    t = term_arg(case)
    if t:
        kw["terminal_cells"] = t
    out = fo.flow_directions(**kw)
    if case.get("again"):
        out = fo.flow_directions(**kw)
    bad = []
    if out.shape != shp:
        bad.append(f"direction array has shape {out.shape}, not {shp}")
    return g, shp, F, d, fo, np.array(out).ravel(), bad


def run_steepest(case):
    g, shp, F, d, fo, fd, bad = directions(case)
    thr = case.get("thr", 1e-6)
    thr = 1e-6 if thr is None else thr
    mn = np.nanmin(d)
    for c in range(F.n):
        if c in case["term"] or np.isnan(d[c]) or d[c] == mn:
            continue
        s = slopes_of(F, d, c, thr)
        f = int(fd[c])
        if not s:
            continue
        best = min(s.values())
        tol = 1e-12 * max(1.0, abs(best))
        near = [n for n, v in s.items() if v <= best + tol]
        if f == -2:
            if len(near) == 1:
                bad.append(f"cell {c} marked as a sink although {near[0]} is its one steepest neighbour")
        elif f not in s:
            bad.append(f"cell {c} flows to {f}, which is not a neighbour with data")
        elif f not in near:
            bad.append(f"cell {c} flows to {f} (slope {s[f]}), its steepest neighbour is {near} (slope {best})")
    return bad


def run_terminal(case):
    g, shp, F, d, fo, fd, bad = directions(case)
    mn = np.nanmin(d)
    for c in range(F.n):
        why = None
        if c in case["term"]:
            why = "terminal cell"
        elif np.isnan(d[c]):
            why = "cell without data"
        elif d[c] == mn:
            why = "lowest cell"
        elif all(np.isnan(d[n]) for n in F.nb[c]):
            why = "cell with no neighbour carrying data"
        if why:
            if fd[c] != c and not (fd[c] == -2 and why.startswith("cell with no n")):
                bad.append(f"{why} {c} does not drain to itself but to {fd[c]}")
        else:
            f = int(fd[c])
            if f == c:
                bad.append(f"cell {c} drains to itself but is neither terminal nor the lowest")
            elif f != -2 and f not in F.nb[c]:
                bad.append(f"cell {c} drains to {f}, not one of its neighbours")
            elif f != -2 and np.isnan(d[f]):
                bad.append(f"cell {c} drains into cell {f}, which has no data")
    return bad


def gen_acc(rng):
    c = gen_fdir(rng)
    c["again"] = False
    c["as_cells"] = bool(rng.random() < 0.5)
    c["twice"] = bool(rng.random() < 0.2)
    return c


def run_acc(case):
    g, shp, F, d, fo, fd, bad = directions(case)
    n = F.n
    out = fo.flow_accumulation(as_cells=case["as_cells"])
    if case["twice"]:
        out = fo.flow_accumulation(as_cells=case["as_cells"])
    if out.shape != shp:
        bad.append(f"shape {out.shape}")
    acc = np.array(out).ravel()
    if not np.array_equal(np.array(fo.flow_accumulation_array).ravel(), acc):
        bad.append("stored accumulation differs from the one returned")
    w = np.ones(n) if case["as_cells"] else F.area
    for c in range(n):
        # on a closed loop?
        x, k, loop = int(fd[c]), 0, False
        while k <= n and 0 <= x < n and fd[x] != x:
            if x == c:
                loop = True
                break
            x, k = int(fd[x]), k + 1
        if loop:
            continue
        up = upstream(fd, [c])
        want = sum(w[u] for u in up)
        if abs(acc[c] - want) > 1e-9 * want + F.n * F.atol:
            bad.append(f"cell {c} accumulates {acc[c]}, its upstream cells {sorted(up)} hold {want}")
    return bad


def gen_ws(rng):
    c = gen_fdir(rng)
    c["again"] = False
    n = len(c["dem"])
    c["cell"] = int(rng.integers(n))
    c["first"] = int(rng.integers(n)) if rng.random() < 0.3 else None
    return c


def centre(F, c):
    return (float(F.xc[c]), float(F.yc[c]))


def run_ws(case):
    g, shp, F, d, fo, fd, bad = directions(case)
    if case["first"] is not None:
        fo.get_watershed_boundary(centre(F, case["first"]))
    out = fo.get_watershed_boundary(centre(F, case["cell"]))
    if out.shape != shp:
        bad.append(f"shape {out.shape}")
    o = np.array(out).ravel()
    want = upstream(fd, [case["cell"]])
    got = {int(i) for i in np.where(o != 0)[0]}
    if got != want:
        bad.append(f"watershed of {case['cell']}: missing {sorted(want - got)}, extra {sorted(got - want)}")
    if any(o[i] != 1 for i in got):
        bad.append("watershed cells are not numbered 1")
    if not np.array_equal(np.array(fo.flow_direction_array).ravel(), fd):
        bad.append("delineation changed the flow directions")
    return bad


def gen_sub(rng):
    case = network_case(rng)
    n = len(case["dem"])
    k = int(rng.integers(1, min(6, n) + 1))
    case["cells"] = [int(x) for x in rng.choice(n, k, replace=False)]
    if rng.random() < 0.35 and 0 not in case["cells"]:
        case["cells"][0] = 0
    return case


def run_sub(case):
    r = network(case)
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc = r
    pts = [list(centre(F, c)) for c in case["cells"]]
    out = fo.get_subbasins(pts)
    bad = []
    if out.shape != shp:
        bad.append(f"shape {out.shape}")
    o = np.array(out).ravel()
    num = {}
    for c in case["cells"]:
        num[c] = int(o[c])
    if sorted(num.values()) != list(range(1, len(num) + 1)):
        bad.append(f"pour points are numbered {num}, expected 1..{len(num)}, each once")
    for c in range(F.n):
        x = c
        while x not in num and fd[x] != x and fd[x] >= 0:
            x = int(fd[x])
        want = num.get(x, 0)
        if o[c] != want:
            bad.append(f"cell {c} is in subbasin {o[c]}, the first pour point it drains to is {x if x in num else None} ({want})")
    for c in num:
        x = int(fd[c])
        if x == c or x < 0:
            continue
        while x not in num and fd[x] != x and fd[x] >= 0:
            x = int(fd[x])
        if x in num and not num[c] < num[x]:
            bad.append(f"subbasin {num[c]} (cell {c}) drains into {num[x]} (cell {x}) but is not numbered before it")
    return bad


def gen_attr(rng):
    c = gen_fdir(rng)
    c["again"] = False
    return c


def run_attr(case):
    g, shp, F, d, fo, fd, bad = directions(case)
    n = F.n
    s, a = np.array(fo.slope), np.array(fo.aspect)
    u, v = fo.vectors
    for nm, x in (("slope", s), ("aspect", a)):
        if x.shape != shp:
            bad.append(f"{nm} shape {x.shape}")
    s, a, u, v = s.ravel(), a.ravel(), np.array(u).ravel(), np.array(v).ravel()
    for c in range(n):
        f = int(fd[c])
        if not 0 <= f < n:
            f = c                # a sink: no flow leaves the cell
        dx, dy = F.xc[f] - F.xc[c], F.yc[f] - F.yc[c]
        dist = np.hypot(dx, dy)
        if f == c or np.isnan(d[c]):
            want = 0.0
        else:
            drop = d[c] - d[f]
            want = (0.0 if 0 < drop < 1e-6 else drop) / dist
        if not abs(s[c] - want) <= 1e-9 * max(1, abs(want)):
            bad.append(f"slope of cell {c} is {s[c]}, drop over distance to cell {f} is {want}")
        if not 0 <= a[c] <= 360:
            bad.append(f"aspect of cell {c} is {a[c]}")
        wx, wy = (dx / dist, dy / dist) if f != c else (1.0, 0.0)
        if f != c and (abs(np.cos(np.radians(a[c])) - wx) > 1e-9 or abs(np.sin(np.radians(a[c])) - wy) > 1e-9):
            bad.append(f"aspect {a[c]} of cell {c} does not point at cell {f}")
        if abs(u[c] - wx) > 1e-9 or abs(v[c] - wy) > 1e-9:
            bad.append(f"unit vector of cell {c} is ({u[c]}, {v[c]}), expected ({wx}, {wy})")
    return bad


def gen_area(rng):
    spec = grids.random_spec(rng)
    F = grids.Facts(spec)
    return dict(grid=spec, dem=jl(rng.random(F.n)), term=[])


def run_area(case):
    g, shp, F, d, fo = make_fo(case)
    a = np.array(fo.area).ravel()
    bad = []
    if a.shape != (F.n,):
        bad.append(f"shape {a.shape}")
    for c in range(F.n):
        if abs(a[c] - F.area[c]) > 1e-9 * F.area[c] + F.atol:
            bad.append(f"area of cell {c} is {a[c]}, polygon area is {F.area[c]}")
    return bad


def gen_order(rng):
    """prior uses of the grid must not change a result"""
    case = network_case(rng)
    case["prior"] = ["rook", "rook_none", "queen", "none"][int(rng.integers(4))]
    case["point"] = int(rng.integers(len(case["dem"])))
    case["term2"] = [int(x) for x in rng.choice(len(case["dem"]), 1)]
    return case

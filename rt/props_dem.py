import heapq
import numpy as np
from . import grids
from .common import *

EPS = 2e-6


def gen_fill(rng):
    spec = grids.random_spec(rng)
    F = grids.Facts(spec)
    d = random_dem(rng, F.n)
    case = dict(grid=spec, dem=jl(d), dtype="float")
    if rng.random() < 0.15 and np.all(d == np.round(d)):
        case["dtype"] = "int"
    case["method"] = ["priority", "complete", "drain", "PRIORITY"][int(rng.integers(4))]
    r = rng.random()
    random_layout(rng, case)
    case["eps"] = EPS if r < 0.5 else (0.25 if r < 0.75 else 1e-3)
    return case


def gen_flood(rng):
    case = gen_fill(rng)
    case["method"] = ["priority", "complete", "PRIORITY", "Complete"][int(rng.integers(4))]
    return case


def gen_drain(rng):
    case = gen_fill(rng)
    case["method"] = "drain"
    return case


def do_fill(case, **kw):
    import dany
    g, shp = grids.build(case["grid"])
    F = grids.Facts(case["grid"])
    d = arr(case["dem"], case.get("dtype", "float"))
    inp = shaped(case, d, shp)
    keep = inp.copy()
    a = dict(method=case["method"])
    if "eps" in case:
        a["eps"] = case["eps"]
    if case.get("mask") is not None:
        mk = shaped(case, np.array(case["mask"]), shp)
        mkeep = mk.copy()
        a["stream_mask"] = mk
    out = dany.fill_sinks(g, inp, **a)
    bad = []
    if out.shape != keep.shape:
        bad.append(f"shape changed {keep.shape} -> {out.shape}")
    if not np.array_equal(inp, keep, equal_nan=True):
        bad.append("input elevations were modified")
    if case.get("mask") is not None and not np.array_equal(mk, mkeep):
        bad.append("stream mask was modified")
    if np.shares_memory(out, inp):
        bad.append("result shares memory with the input array")
    return F, d.astype(float), np.array(out, dtype=float).ravel(), bad


def climb(F, w, roots, strict):
    """cells reached from roots by uphill (strictly / not downhill) steps"""
    seen, st = set(roots), list(roots)
    while st:
        c = st.pop()
        for n in F.nb[c]:
            if n not in seen and (w[n] > w[c] if strict else w[n] >= w[c]):
                seen.add(n)
                st.append(n)
    return seen


def connected(F, roots):
    seen, st = set(roots), list(roots)
    while st:
        c = st.pop()
        for n in F.nb[c]:
            if n not in seen:
                seen.add(n)
                st.append(n)
    return seen


def run_never_lower(case):
    F, d, w, bad = do_fill(case)
    for c in range(F.n):
        if not w[c] >= d[c]:
            bad.append(f"cell {c} lowered from {d[c]} to {w[c]}")
        if c in F.edge and w[c] != d[c]:
            bad.append(f"edge cell {c} changed from {d[c]} to {w[c]}")
    return bad


def run_drains(case):
    F, d, w, bad = do_fill(case)
    strict = case["method"].lower() != "complete"
    ok = climb(F, w, F.edge, strict)
    for c in sorted(connected(F, F.edge) - ok):
        bad.append(f"cell {c} (elevation {w[c]!r}) has no {'descending' if strict else 'non-ascending'} path to the grid edge")
    return bad


def minimax(F, d, roots, eps=0.0):
    W = np.full(F.n, np.inf)
    h = []
    for r in roots:
        W[r] = d[r]
        heapq.heappush(h, (W[r], r))
    while h:
        x, c = heapq.heappop(h)
        if x > W[c]:
            continue
        for n in F.nb[c]:
            if n in roots:
                continue
            y = max(d[n], x + eps)
            if y < W[n]:
                W[n] = y
                heapq.heappush(h, (y, n))
    return W


def run_minimal(case):
    F, d, w, bad = do_fill(case)
    m = case["method"].lower()
    eps = case["eps"]
    if m == "complete":
        W = minimax(F, d, F.edge)
        for c in range(F.n):
            if w[c] != W[c]:
                bad.append(f"cell {c}: complete fill gave {w[c]!r}, lowest pit-free level is {W[c]!r}")
    elif m == "drain":
        W = minimax(F, d, F.edge, eps)
        for c in range(F.n):
            if abs(w[c] - W[c]) > 1e-9 * max(1.0, abs(W[c])):
                bad.append(f"cell {c}: drain fill gave {w[c]!r}, lowest surface with an eps step is {W[c]!r}")
    else:
        W = minimax(F, d, F.edge)
        for c in range(F.n):
            if w[c] > W[c] + eps * (F.n + 1) + 1e-9:
                bad.append(f"cell {c}: priority fill gave {w[c]!r}, more than n*eps above the lowest pit-free level {W[c]!r}")
            if w[c] > d[c]:
                if not any(abs(w[c] - (w[n] + eps)) <= 1e-9 * max(1, abs(w[c])) for n in F.nb[c]):
                    bad.append(f"raised cell {c} ({w[c]!r}) is not eps above one of its neighbours")
    return bad


def gen_mask(rng):
    case = gen_fill(rng)
    n = len(case["dem"])
    case["method"] = ["priority", "complete", "drain"][int(rng.integers(3))]
    k = int(rng.integers(1, max(2, n // 2)))
    mask = np.zeros(n, dtype=int)
    if rng.random() < 0.5:
        F = grids.Facts(case["grid"])
        c = int(rng.integers(n))
        for _ in range(k):
            mask[c] = 1
            nb = sorted(F.nb[c])
            if nb:
                c = nb[int(rng.integers(len(nb)))]
    else:
        mask[rng.choice(n, k, replace=False)] = 1
    case["mask"] = mask.tolist()
    return case


def run_mask(case):
    F, d, w, bad = do_fill(case)
    # the drain method is documented not to honour a mask: it falls back to priority
    strict = case["method"] != "complete"
    eps = case["eps"] if strict else 0.0
    st = {i for i, m in enumerate(case["mask"]) if m > 0}
    for c in range(F.n):
        if not w[c] >= d[c]:
            bad.append(f"cell {c} lowered from {d[c]} to {w[c]}")
        if c in st and w[c] != d[c]:
            lim = min([w[n] for n in F.nb[c] if n in st], default=-np.inf) + eps
            if w[c] > lim + 1e-9:
                bad.append(f"stream cell {c} raised from {d[c]} to {w[c]}, above its lowest stream neighbour ({lim})")
    ok = climb(F, w, st, strict)
    for c in sorted(connected(F, st) - ok):
        bad.append(f"cell {c} has no {'descending' if strict else 'non-ascending'} path to a stream cell")
    for c in sorted(set(range(F.n)) - connected(F, st)):
        if w[c] != d[c]:
            bad.append(f"cell {c}, not connected to any stream cell, changed")
    return bad


def gen_nan(rng):
    spec = grids.random_spec(rng)
    F = grids.Facts(spec)
    d = random_dem(rng, F.n)
    r = rng.random()
    frac = 0.1 if r < 0.3 else 0.5 if r < 0.7 else 0.85
    m = rng.random(F.n) < frac
    if r > 0.95:
        m[:] = True
    d[m] = np.nan
    return random_layout(rng, dict(grid=spec, dem=jl(d), method=["mean", "median", "min", "max", "MEAN"][int(rng.integers(5))]))


def run_nan(case):
    import dany
    g, shp = grids.build(case["grid"])
    F = grids.Facts(case["grid"])
    d = arr(case["dem"])
    inp = shaped(case, d, shp)
    keep = inp.copy()
    out = dany.fill_nan_values(g, inp, method=case["method"])
    bad = []
    if out.shape != keep.shape:
        bad.append("shape changed")
    if not np.array_equal(inp, keep, equal_nan=True):
        bad.append("input elevations were modified")
    if np.shares_memory(out, inp):
        bad.append("result shares memory with the input array")
    o = np.array(out).ravel()
    data = ~np.isnan(d)
    for c in np.where(data)[0]:
        if o[c] != d[c]:
            bad.append(f"data cell {c} changed from {d[c]} to {o[c]}")
    reach = connected(F, [int(c) for c in np.where(data)[0]])
    for c in np.where(~data)[0]:
        if c in reach:
            if np.isnan(o[c]):
                bad.append(f"cell {c} is still NaN although data reach it")
            else:
                lo, hi = np.nanmin(d), np.nanmax(d)
                tol = 1e-9 * max(1, abs(lo), abs(hi))
                if not (lo - tol <= o[c] <= hi + tol):
                    bad.append(f"filled cell {c} = {o[c]} outside the data range [{lo}, {hi}]")
        elif not np.isnan(o[c]):
            bad.append(f"cell {c} was filled with no data to fill it from")
    # a NaN cell all of whose neighbours carry data gets exactly the chosen statistic of them
    f = dict(mean=np.mean, median=np.median, min=np.min, max=np.max)[case["method"].lower()]
    for c in np.where(~data)[0]:
        nb = sorted(F.nb[c])
        if nb and all(data[n] for n in nb):
            want = f(d[nb])
            if abs(o[c] - want) > 1e-9 * max(1, abs(want)):
                bad.append(f"cell {c} = {o[c]}, expected the {case['method']} of its neighbours {want}")
    return bad

import contextlib, heapq, io, signal, warnings
import numpy as np
from . import grids

warnings.simplefilter("ignore")


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


@contextlib.contextmanager
def guarded(seconds=20.0):
    """silence prints, bound the running time of the code under test (processor time: a busy machine is no violation)"""
    old = [(s, signal.signal(s, _alarm)) for s in (signal.SIGALRM, signal.SIGPROF)]
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, 12 * seconds)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        for s, h in old:
            signal.signal(s, h)


def arr(lst, dtype=float):
    return np.array([np.nan if x is None else x for x in lst], dtype=dtype)


def jl(a):
    return [None if (isinstance(x, float) and x != x) else (x.item() if hasattr(x, "item") else x)
            for x in np.asarray(a).ravel().tolist()]


def shaped(case, d, shp):
    """the array as a caller may hold it: C or Fortran order, or a view into a larger array"""
    a = np.array(d).reshape(shp)
    lay = case.get("layout")
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "view":
        big = np.zeros(tuple(2 * k for k in shp), dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in shp)]
        v[...] = a
        return v
    return a.copy()


def random_layout(rng, case):
    r = rng.random()
    if r < 0.3:
        case["layout"] = "F" if r < 0.15 else "view"
    return case


def components(F, ok=None):
    seen, out = set(), []
    for s in range(F.n):
        if s in seen or (ok is not None and not ok[s]):
            continue
        comp, st = [], [s]
        seen.add(s)
        while st:
            c = st.pop()
            comp.append(c)
            for n in F.nb[c]:
                if n not in seen and (ok is None or ok[n]):
                    seen.add(n)
                    st.append(n)
        out.append(sorted(comp))
    return out


def random_dem(rng, n, F=None):
    m = int(rng.integers(0, 6))
    if m == 0:
        return rng.random(n) * 10
    if m == 1:
        return rng.integers(0, 3, n).astype(float)
    if m == 2:
        return rng.integers(0, 8, n).astype(float)
    if m == 3:
        return rng.integers(0, 40, n).astype(float) - 20
    if m == 4:
        return np.round(rng.normal(0, 5, n), 1)
    d = rng.random(n) * 5 + 5          # a pit in a plateau
    d[rng.integers(n)] = -3.0
    return d


def draining_dem(rng, F, nan_frac=0.0, nsrc=None):
    """(dem, terminals): every data cell has a descending path to a terminal; distinct terminal elevations"""
    n = F.n
    ok = np.ones(n, dtype=bool)
    if nan_frac:
        ok = rng.random(n) >= nan_frac
        if not ok.any():
            ok[int(rng.integers(n))] = True
    dem = np.full(n, np.nan)
    src = []
    for comp in components(F, ok):
        k = 1 if rng.random() < 0.7 else 2
        k = min(k if nsrc is None else nsrc, len(comp))
        src += [int(x) for x in rng.choice(comp, k, replace=False)]
    style = int(rng.integers(0, 3))
    h = []
    lev = np.arange(len(src)) * 0.125
    rng.shuffle(lev)
    for s, l in zip(src, lev):
        dem[s] = l
        heapq.heappush(h, (l, s))
    done = set()
    while h:
        d, c = heapq.heappop(h)
        if c in done:
            continue
        done.add(c)
        for m in sorted(F.nb[c]):
            if not ok[m] or m in src:
                continue
            w = [rng.random() * 3 + 0.01, float(rng.integers(1, 4)), 1.0][style]
            if np.isnan(dem[m]) or d + w < dem[m]:
                dem[m] = d + w
                heapq.heappush(h, (dem[m], m))
    mn = int(np.nanargmin(dem))
    return dem, [s for s in src if s != mn]


def is_forest(fd):
    """every cell reaches a self-draining cell or an unresolved sink (-2)"""
    n = len(fd)
    if any(not (0 <= f < n or f == -2) for f in fd):
        return False
    state = [0] * n
    for s in range(n):
        path, c = [], s
        while state[c] == 0:
            state[c] = 1
            path.append(c)
            if fd[c] == c or fd[c] < 0:
                state[c] = 2
                break
            c = int(fd[c])
        if state[c] == 1:
            return False
        for p in path:
            state[p] = 2
    return True


def upstream(fd, roots, stop=()):
    n = len(fd)
    rev = [[] for _ in range(n)]
    for i, f in enumerate(fd):
        if 0 <= f < n and f != i:
            rev[f].append(i)
    out, st = set(), list(roots)
    while st:
        c = st.pop()
        if c in out:
            continue
        out.add(c)
        for u in rev[c]:
            if u not in stop:
                st.append(u)
    return out


def make_fo(case, dem=None, **kw):
    import dany
    g, shp = grids.build(case["grid"])
    F = grids.Facts(case["grid"])
    d = arr(case["dem"]) if dem is None else dem
    fo = dany.FlowDirections(g, shaped(case, d, shp), check_elevations=kw.get("check", False))
    return g, shp, F, d, fo


def network_case(rng, maxr=6, maxc=6, nan=True, kinds=("structured", "vertex", "unstructured"), drop=True):
    r = rng.random()
    if r < 0.008 and "structured" in kinds:
        # two long parallel valleys: deeper than any recursion limit
        nc = 1050
        spec = dict(kind="structured", nrow=2, ncol=nc, delr=[10.0] * nc, delc=[10.0] * 2)
        return dict(grid=spec, dem=[float(nc - j + 0.1 * i) for i in range(2) for j in range(nc)], term=[])
    spec = grids.random_spec(rng, maxr, maxc, kinds=kinds, drop=drop)
    F = grids.Facts(spec)
    if r < 0.12:
        # flat areas and closed depressions: may leave unresolved sinks
        dem = rng.integers(0, 4, F.n).astype(float)
        term = [int(x) for x in rng.choice(F.n, int(rng.integers(0, 3)) if F.n > 3 else 0, replace=False)]
        return random_layout(rng, dict(grid=spec, dem=jl(dem), term=term))
    dem, term = draining_dem(rng, F, 0.15 if nan and rng.random() < 0.2 else 0.0)
    return random_layout(rng, dict(grid=spec, dem=jl(dem), term=term))


def network(case):
    """(grid, shape, facts, dem, flow object, directions) with accumulation computed; None unless a forest"""
    g, shp, F, d, fo = make_fo(case)
    fd = np.array(fo.flow_directions(terminal_cells=list(case["term"]) or None)).ravel()
    if not is_forest(fd):
        return None
    facc = np.array(fo.flow_accumulation(as_cells=bool(case.get("as_cells")))).ravel()
    return g, shp, F, d, fo, fd, facc

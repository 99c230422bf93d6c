"""Grid construction and independent (flopy-free) grid facts for the run-time contract layer.

Runs in /opt/venv (numpy + flopy).  A grid is described by a JSON spec so every case can be replayed.
"""
import numpy as np
from flopy.discretization import StructuredGrid, VertexGrid, UnstructuredGrid


def lattice(spec):
    """vertices (list of (x, y)) and polygons (list of vertex-index lists) of a mesh spec"""
    if "polar" in spec:
        return polar(spec)
    nrow, ncol = spec["nrow"], spec["ncol"]
    delr, delc = spec["delr"], spec["delc"]
    xs = np.concatenate([[0.0], np.cumsum(delr)])
    ys = np.concatenate([[0.0], np.cumsum(delc)])[::-1]
    ys = np.sum(delc) - np.concatenate([[0.0], np.cumsum(delc)])
    verts = [(float(xs[j]), float(ys[i])) for i in range(nrow + 1) for j in range(ncol + 1)]
    vid = lambda i, j: i * (ncol + 1) + j
    merge = set(map(tuple, spec.get("merge", [])))
    split = {tuple(s[:2]): s[2] for s in spec.get("split", [])}
    drop = set(map(tuple, spec.get("drop", [])))
    polys, done = [], set()
    for i in range(nrow):
        for j in range(ncol):
            if (i, j) in done or (i, j) in drop:
                continue
            q = [vid(i, j), vid(i, j + 1), vid(i + 1, j + 1), vid(i + 1, j)]
            if (i, j) in merge and j + 1 < ncol and (i, j + 1) not in done and (i, j + 1) not in drop:
                done.add((i, j + 1))
                polys.append([vid(i, j), vid(i, j + 1), vid(i, j + 2),
                              vid(i + 1, j + 2), vid(i + 1, j + 1), vid(i + 1, j)])
            elif (i, j) in split:
                if split[(i, j)]:
                    polys.append([q[0], q[1], q[2]])
                    polys.append([q[0], q[2], q[3]])
                else:
                    polys.append([q[0], q[1], q[3]])
                    polys.append([q[1], q[2], q[3]])
            else:
                polys.append(q)
    return verts, wind(spec, polys)


def wind(spec, polys):
    """vertex order of every polygon: direction and start"""
    if spec.get("ccw"):
        polys = [p[::-1] for p in polys]
    flip, rot = set(spec.get("flip", [])), spec.get("rot", 0)
    polys = [p[::-1] if i in flip else p for i, p in enumerate(polys)]
    return [p[(i * rot) % len(p):] + p[:(i * rot) % len(p)] for i, p in enumerate(polys)]


def polar(spec):
    """a many-sided cell in the middle of rings of cells"""
    n, rings = spec["polar"]
    sc = spec.get("scale", 1.0)
    verts = [((k + 1) * 10.0 * sc * float(np.cos(2 * np.pi * j / n)), (k + 1) * 10.0 * sc * float(np.sin(2 * np.pi * j / n)))
             for k in range(rings + 1) for j in range(n)]
    polys = [list(range(n))]
    for k in range(rings):
        for j in range(n):
            a, b = k * n + j, k * n + (j + 1) % n
            polys.append([a, b, b + n, a + n])
    drop = set(spec.get("drop1", []))
    return verts, wind(spec, [p for i, p in enumerate(polys) if i not in drop])


def build(spec):
    """returns (modelgrid, shape2d)"""
    kind = spec["kind"]
    nlay = spec.get("nlay", 1)
    if kind == "structured":
        nrow, ncol = spec["nrow"], spec["ncol"]
        g = StructuredGrid(
            delc=np.array(spec["delc"], dtype=float), delr=np.array(spec["delr"], dtype=float),
            top=np.ones((nrow, ncol)), botm=np.zeros((nlay, nrow, ncol)),
            idomain=np.ones((nlay, nrow, ncol), dtype=int), nlay=nlay,
            xoff=spec.get("xoff", 0.0), yoff=spec.get("yoff", 0.0))
        return g, (nrow, ncol)
    verts, polys = lattice(spec)
    n = len(polys)
    xc = [float(np.mean([verts[v][0] for v in p])) for p in polys]
    yc = [float(np.mean([verts[v][1] for v in p])) for p in polys]
    ip = [p + [p[0]] for p in polys] if spec.get("closed") else [list(p) for p in polys]
    if kind == "vertex":
        g = VertexGrid(
            vertices=[[i, x, y] for i, (x, y) in enumerate(verts)],
            cell2d=[[i, xc[i], yc[i], len(p)] + p for i, p in enumerate(ip)],
            top=np.ones(n), botm=np.zeros((nlay, n)), idomain=np.ones((nlay, n), dtype=int),
            nlay=nlay, ncpl=n)
    else:
        g = UnstructuredGrid(
            vertices=[[i, x, y] for i, (x, y) in enumerate(verts)], iverts=ip,
            xcenters=np.array(xc), ycenters=np.array(yc), top=np.ones(n), botm=np.zeros(n),
            idomain=np.ones(n, dtype=int), ncpl=[n])
    return g, (n,)


class Facts:
    """what the grid is, computed from the spec alone"""

    def __init__(self, spec):
        self.verts, self.polys = lattice(spec)
        n = self.n = len(self.polys)
        byv, bye = {}, {}
        for i, p in enumerate(self.polys):
            for k, v in enumerate(p):
                byv.setdefault(v, set()).add(i)
                bye.setdefault(frozenset((p[k - 1], v)), set()).add(i)
        self.nb = [set() for _ in range(n)]
        for s in byv.values():
            for a in s:
                self.nb[a] |= s
        for a in range(n):
            self.nb[a].discard(a)
        self.rook = [set() for _ in range(n)]
        for s in bye.values():
            for a in s:
                self.rook[a] |= s - {a}
        self.edge = {next(iter(s)) for s in bye.values() if len(s) == 1}
        xo, yo = spec.get("xoff", 0.0), spec.get("yoff", 0.0)
        if spec["kind"] == "structured":
            xs = np.concatenate([[0.0], np.cumsum(spec["delr"])])
            ys = np.sum(spec["delc"]) - np.concatenate([[0.0], np.cumsum(spec["delc"])])
            self.xc = np.array([(xs[j] + xs[j + 1]) / 2 + xo for i in range(spec["nrow"]) for j in range(spec["ncol"])])
            self.yc = np.array([(ys[i] + ys[i + 1]) / 2 + yo for i in range(spec["nrow"]) for j in range(spec["ncol"])])
        else:
            self.xc = np.array([np.mean([self.verts[v][0] for v in p]) for p in self.polys])
            self.yc = np.array([np.mean([self.verts[v][1] for v in p]) for p in self.polys])
        self.area = np.array([self._area(p) for p in self.polys])
        big = max(max(abs(x) + abs(xo), abs(y) + abs(yo)) for x, y in self.verts)
        self.atol = 1e-13 * big * big        # rounding of a coordinate product

    def _area(self, p):
        # triangle fan about the first vertex: an independent formula for a convex polygon
        x0, y0 = self.verts[p[0]]
        s = 0.0
        for k in range(1, len(p) - 1):
            ax, ay = self.verts[p[k]]
            bx, by = self.verts[p[k + 1]]
            s += ((ax - x0) * (by - y0) - (bx - x0) * (ay - y0)) / 2.0
        return abs(s)


def random_spec(rng, maxr=6, maxc=6, kinds=("structured", "vertex", "unstructured"), minr=2, minc=2, drop=True):
    kind = kinds[int(rng.integers(len(kinds)))]
    if kind != "structured" and drop and rng.random() < 0.08:
        spec = dict(kind=kind, polar=[int(rng.integers(3, 14)), int(rng.integers(1, 4))])
        if rng.random() < 0.3:
            spec["scale"] = float(rng.choice([0.001, 0.02, 100.0]))
        return winding(rng, spec, spec["polar"][0] * spec["polar"][1] + 1)
    nrow, ncol = int(rng.integers(minr, maxr + 1)), int(rng.integers(minc, maxc + 1))
    if rng.random() < 0.06:
        nrow, ncol = (1, max(ncol, 3)) if rng.random() < 0.5 else (max(nrow, 3), 1)
    if rng.random() < 0.6:
        delr, delc = [10.0] * ncol, [10.0] * nrow
    else:
        delr = [float(x) for x in rng.choice([5.0, 10.0, 20.0, 7.5], ncol)]
        delc = [float(x) for x in rng.choice([5.0, 10.0, 20.0, 12.5], nrow)]
    if rng.random() < 0.2:
        sc = float(rng.choice([0.0001, 0.002, 0.1, 100.0]))
        delr, delc = [x * sc for x in delr], [x * sc for x in delc]
    spec = dict(kind=kind, nrow=nrow, ncol=ncol, delr=delr, delc=delc)
    if kind == "structured":
        if rng.random() < 0.2:
            spec["nlay"] = 2
        if rng.random() < 0.2:
            spec["xoff"], spec["yoff"] = 1000.0, -250.0
        return spec
    if rng.random() < 0.7:
        cells = [(i, j) for i in range(nrow) for j in range(ncol)]
        spec["split"] = [[i, j, int(rng.integers(2))] for i, j in cells if rng.random() < 0.25]
        spec["merge"] = [[i, j] for i, j in cells if rng.random() < 0.2]
        if drop and rng.random() < 0.3:
            rate = rng.choice((0.08, 0.08, 0.3, 0.6))
            spec["drop"] = [[i, j] for i, j in cells if rng.random() < rate][: nrow * ncol - 2]
    if kind == "vertex" and rng.random() < 0.2:
        spec["nlay"] = 2
    return winding(rng, spec, nrow * ncol)


def winding(rng, spec, n):
    if rng.random() < 0.3:
        spec["closed"] = True
    r = rng.random()
    if r < 0.3:
        spec["ccw"] = True
    elif r < 0.5:
        spec["flip"] = [int(i) for i in np.where(rng.random(n) < 0.5)[0]]
    if rng.random() < 0.3:
        spec["rot"] = int(rng.integers(1, 5))
    return spec

import numpy as np
from . import grids
from .common import *
from .props_flow import centre, gen_fdir, make_fo, slopes_of


def pick_streams(rng, F, fd_hint=None):
    return float(rng.choice([1, 2, 3, 4, 6])), None


def gen_net(rng, kinds=("structured", "vertex", "unstructured"), maxr=6, maxc=6):
    case = network_case(rng, maxr, maxc, nan=False, kinds=kinds)
    case["as_cells"] = True
    case["thr"] = float(rng.choice([1, 2, 3, 4]))
    r = rng.random()
    n = len(case["dem"])
    if r < 0.35:
        case["boundary"] = (rng.random(n) < 0.8).astype(int).tolist()
    elif r < 0.6:
        # the watershed of one cell: what users pass
        case["ws"] = int(rng.integers(n))
    case["sdtype"] = ["int", "int", "int", "float", "bool", "int8"][int(rng.integers(6))]
    case["how"] = ["delineate", "set", "arg"][int(rng.integers(3))]
    return case


def setup(case, cls):
    """(stream object, flow facts, binary stream mask) or None"""
    import dany
    r = network(case)
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc = r
    s = getattr(dany, cls)(g, fo)
    b = boundary_of(case, fd)
    arg = None
    if case["how"] == "delineate" or case.get("sdtype") is None:
        out = s.delineate_streams(case["thr"], None if b is None else b.reshape(shp))
        mask = np.array(out).ravel() != 0
    else:
        mask = facc >= case["thr"]
        if b is not None:
            mask = mask & (b != 0)
        a = shaped(case, mask.astype(case["sdtype"]), shp)
        if case["how"] == "set":
            s.set_stream_array(a)
        else:
            arg = a
    return g, shp, F, d, fo, fd, facc, s, mask, arg


def boundary_of(case, fd):
    if case.get("boundary") is not None:
        return np.array(case["boundary"])
    if case.get("ws") is not None:
        b = np.zeros(len(fd), dtype=int)
        b[sorted(upstream(fd, [case["ws"]]))] = 1
        return b
    return None


# ---------------------------------------------------------------- delineation
def gen_delin(rng):
    case = network_case(rng)
    n = len(case["dem"])
    case["as_cells"] = bool(rng.random() < 0.5)
    k = int(rng.integers(3))
    unit = 1 if case["as_cells"] else float(np.median(grids.Facts(case["grid"]).area))
    if k == 0:
        case["contrib"] = float(rng.integers(1, 9)) * unit
    elif k == 1:
        case["contrib"] = int(rng.integers(1, 9)) * (int(unit) or 1)
    else:
        case["contrib"] = [float(x) * unit for x in rng.integers(1, 9, n)]
    if rng.random() < 0.5:
        case["boundary"] = rng.integers(0, 3, n).tolist()
    case["cls"] = ["Sfr6", "Sfr2005", "PrmsStreams"][int(rng.integers(3))]
    return case


def run_delin(case):
    import dany
    r = network(case)
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc = r
    s = getattr(dany, case["cls"])(g, fo)
    c = case["contrib"]
    if isinstance(c, list):
        c = shaped(case, np.array(c), shp)
    b = None if case.get("boundary") is None else shaped(case, np.array(case["boundary"]), shp)
    ck = np.array(c).copy()
    bk = None if b is None else b.copy()
    f0 = facc.copy()
    out = s.delineate_streams(c, b)
    bad = []
    if out.shape != shp:
        bad.append(f"shape {out.shape}, expected {shp}")
    o = np.array(out).ravel()
    stored = s.stream_array
    if stored.shape != shp or not np.array_equal(stored.ravel(), o):
        bad.append("the stored stream array is not the one returned")
    if not np.array_equal(np.array(c), ck) or (b is not None and not np.array_equal(b, bk)):
        bad.append("an input array was modified")
    if not np.array_equal(np.array(fo.flow_accumulation_array).ravel(), f0):
        bad.append("the flow accumulation was modified")
    cc = np.array(c, dtype=float).ravel() if isinstance(c, np.ndarray) else np.full(F.n, float(c))
    for i in range(F.n):
        want = int(facc[i] >= cc[i] and (b is None or bk.ravel()[i] != 0))
        if o[i] != want:
            bad.append(f"cell {i}: accumulation {facc[i]}, threshold {cc[i]}, boundary "
                       f"{None if b is None else bk.ravel()[i]}: stream flag {o[i]}, expected {want}")
    return bad


# ---------------------------------------------------------------- control points
def gen_ctrl(rng):
    case = network_case(rng)
    n = len(case["dem"])
    case["as_cells"] = bool(rng.random() < 0.5)
    k = int(rng.integers(1, min(4, n) + 1))
    case["cells"] = [int(x) for x in rng.choice(n, k, replace=False)]
    case["threshold"] = [1e9, 100000, 3.0, 0][int(rng.integers(4))]
    case["prior"] = [None, "rook", "queen"][int(rng.integers(3))]
    return case


def run_ctrl(case):
    import dany
    r = network(case)
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc = r
    if case["prior"]:
        g.neighbors(method=case["prior"], reset=True)
    s = dany.Sfr6(g, fo)
    thr = case["threshold"]
    out = s.threshold_from_control_points([list(centre(F, c)) for c in case["cells"]], threshold=thr)
    bad = []
    if out.shape != shp:
        bad.append(f"shape {out.shape}")
    o = np.array(out).ravel()
    # ties: any of the neighbours with the largest accumulation may be climbed, so a cell is
    # allowed on a stem when some choice of ties passes through it, and every control point
    # needs one choice along which every cell is below its own accumulation
    ups = {x: [u for u in range(F.n) if fd[u] == x and u != x] for x in range(F.n)}
    best = {x: [u for u in ups[x] if facc[u] == max(facc[v] for v in ups[x])] for x in ups}
    reach = set()
    for c in case["cells"]:
        st, down = [c], {}
        order = []
        while st:
            x = st.pop()
            if x in down:
                continue
            down[x] = None
            order.append(x)
            st += best[x]
        reach |= set(order)
        good = {}
        for x in reversed(order):          # forest: every cell comes after the one it drains to
            good[x] = bool(o[x] < facc[x]) and (not best[x] or any(good[u] for u in best[x]))
        if not good[c]:
            x = c
            while o[x] < facc[x] and best[x]:
                x = max(best[x], key=lambda u: bool(o[u] < facc[u]))
            bad.append(f"main stem above control point {c}: cell {x} has threshold {o[x]}, "
                       f"not below its accumulation {facc[x]}")
    for c in range(F.n):
        if c not in reach and o[c] != thr:
            bad.append(f"cell {c} is off every main stem but its threshold is {o[c]}, expected {thr}")
    return bad


# ---------------------------------------------------------------- MF6
def gen_mf6(rng):
    case = gen_net(rng)
    case["cls"] = ["Sfr6", "PrmsStreams"][int(rng.integers(2))]
    return case


def check_mf6_graph(F, fd, mask, arr_, graph):
    bad = []
    ids = np.array(arr_).ravel()
    cells = [int(i) for i in np.where(mask)[0]]
    n = len(cells)
    got = [int(ids[c]) for c in cells]
    if sorted(got) != list(range(1, n + 1)):
        bad.append(f"reach numbers of the {n} stream cells are {got}, not 1..{n} each once")
    if any(ids[i] != 0 for i in range(F.n) if not mask[i]):
        bad.append("a cell that is no stream carries a reach number")
    if sorted(int(k) for k in graph) != list(range(1, n + 1)):
        bad.append(f"graph keys are {sorted(graph)}, expected 1..{n}")
    if bad:
        return bad
    for c in cells:
        r = int(ids[c])
        f = int(fd[c])
        if f == c or not (0 <= f < F.n) or not mask[f]:
            ok = int(graph[r]) == 0 or (f == c and int(graph[r]) == r)
            want = "0"
        else:
            ok = int(graph[r]) == int(ids[f])
            want = int(ids[f])
            if ok and not r < int(ids[f]):
                bad.append(f"reach {r} (cell {c}) flows into reach {ids[f]} but is not numbered before it")
        if not ok:
            bad.append(f"reach {r} (cell {c}, draining to cell {f}) is connected to reach {graph[r]}, expected {want}")
    return bad


def run_mf6(case):
    r = setup(case, case["cls"])
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc, s, mask, arg = r
    graph = s.get_stream_connectivity(arg) if arg is not None else s.get_stream_connectivity()
    bad = []
    if s.stream_array.shape != shp:
        bad.append(f"stream array shape {s.stream_array.shape}")
    return bad + check_mf6_graph(F, fd, mask, s.stream_array, graph)


def gen_conn(rng):
    case = gen_net(rng)
    case["perm"] = int(rng.integers(1000))
    return case


def run_conn(case):
    r = setup(case, "Sfr6")
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc, s, mask, arg = r
    graph = s.get_stream_connectivity(arg) if arg is not None else s.get_stream_connectivity()
    ids = np.array(s.stream_array).ravel()
    node = {int(ids[c]): int(c) for c in np.where(mask)[0]}
    n = len(node)
    bad = []
    for how in ("graph", "own"):
        cd = s.connectiondata(graph) if how == "graph" else s.connectiondata()
        if [int(x[0]) for x in cd] != list(range(n)):
            bad.append(f"rows are numbered {[x[0] for x in cd]}")
            return bad
        for row in cd:
            r0 = int(row[0])
            c = node[r0 + 1]
            ups = {int(ids[u]) - 1 for u in np.where(mask)[0] if fd[u] == c and u != c}
            dn = int(fd[c]) if fd[c] != c and 0 <= fd[c] < F.n and mask[fd[c]] else None
            want = sorted(ups) + ([-(int(ids[dn]) - 1)] if dn is not None else [])
            got = [int(x) for x in row[1:]]
            if sorted(got) != sorted(want):
                bad.append(f"reach {r0} connects to {got}, expected {want}")
    # a graph of the caller's own, numbered in any order
    perm = np.random.default_rng(case.get("perm", 0)).permutation(n) + 1
    own = {int(perm[int(k) - 1]): (int(perm[int(v) - 1]) if v else 0) for k, v in graph.items()}
    for k, row in enumerate(s.connectiondata(dict(own))):
        r0 = k + 1
        want = sorted([u - 1 for u, v in own.items() if v == r0 and u != r0] + ([1 - own[r0]] if own[r0] not in (0, r0) else []))
        if int(row[0]) != k or sorted(int(x) for x in row[1:]) != want:
            bad.append(f"graph {own}: row {k} is {row}, expected {want}")
    return bad


def gen_pack(rng):
    case = gen_net(rng)
    case["detuple"] = bool(rng.random() < 0.3)
    case["preconn"] = bool(rng.random() < 0.5)
    return case


def run_pack(case):
    r = setup(case, "Sfr6")
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc, s, mask, arg = r
    if case["preconn"] and arg is None:
        s.get_stream_connectivity()
    pk = s.packagedata(arg, detuple=case["detuple"]) if arg is not None else s.packagedata(detuple=case["detuple"])
    ids = np.array(s.stream_array).ravel()
    node = {int(ids[c]): int(c) for c in np.where(mask)[0]}
    cd = s.connectiondata()
    bad = []
    if len(pk) != len(node):
        return [f"{len(pk)} package rows for {len(node)} stream cells"]
    slope = np.array(fo.slope).ravel()
    kind = case["grid"]["kind"]
    for k, row in enumerate(pk):
        if int(row["ifno"]) != k:
            bad.append(f"row {k} is numbered {row['ifno']}")
            continue
        c = node[k + 1]
        if case["detuple"]:
            cid = tuple(int(row[x]) for x in (("k", "i", "j") if kind == "structured" else ("k", "node") if kind == "vertex" else ("node",)))
        else:
            cid = tuple(int(x) for x in row["cellid"])
        want = (0, c // case["grid"]["ncol"], c % case["grid"]["ncol"]) if kind == "structured" else (0, c) if kind == "vertex" else (c,)
        if cid != want:
            bad.append(f"reach {k} is placed in {cid}, its stream cell is {want}")
        if int(row["ncon"]) != len(cd[k]) - 1:
            bad.append(f"reach {k} declares {row['ncon']} connections, the connection block lists {len(cd[k]) - 1}")
        if abs(row["rtp"] - d[c]) > 1e-9:
            bad.append(f"reach {k} top {row['rtp']}, cell elevation {d[c]}")
        if abs(row["rgrd"] - slope[c] / 1.5) > 1e-9:
            bad.append(f"reach {k} gradient {row['rgrd']}, expected {slope[c] / 1.5}")
        f = int(fd[c])
        if f != c and 0 <= f < F.n and mask[f]:
            w = 1.5 * np.hypot(F.xc[f] - F.xc[c], F.yc[f] - F.yc[c])
            if abs(row["rlen"] - w) > 1e-9 * w:
                bad.append(f"reach {k} length {row['rlen']}, expected {w}")
        elif not row["rlen"] > 0:
            bad.append(f"outlet reach {k} has length {row['rlen']}")
    return bad


# ---------------------------------------------------------------- MF2005
def gen_seg(rng):
    case = gen_net(rng)
    case["group"] = bool(rng.random() < 0.7)
    case["cls"] = ["Sfr2005", "Sfr2005", "PrmsStreams"][int(rng.integers(3))] if case["group"] else "Sfr2005"
    return case


def expected_segments(F, fd, mask, group):
    """partition of the stream cells into ordered segments: list of cell lists, and the down cell of each"""
    cells = [int(i) for i in np.where(mask)[0]]
    dn = {c: (int(fd[c]) if fd[c] != c and 0 <= fd[c] < F.n and mask[fd[c]] else None) for c in cells}
    nin = {c: 0 for c in cells}
    for c, x in dn.items():
        if x is not None:
            nin[x] += 1
    # a segment starts at a headwater, at a confluence and at a cell that drains to itself
    starts = [c for c in cells if nin[c] != 1 or fd[c] == c] if group else cells
    segs = []
    for s0 in starts:
        seg, c = [s0], s0
        while dn[c] is not None and dn[c] not in starts:
            c = dn[c]
            seg.append(c)
        segs.append((seg, dn[c]))
    return segs


def run_seg(case):
    r = setup(case, case["cls"])
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc, s, mask, arg = r
    kw = dict(group_segments=case["group"])
    graph = s.get_stream_connectivity(arg, **kw) if arg is not None else s.get_stream_connectivity(**kw)
    bad = []
    a = s.stream_array
    if a.shape != shp:
        bad.append(f"stream array shape {a.shape}")
    a = np.array(a).ravel()
    segs = expected_segments(F, fd, mask, case["group"])
    n = len(segs)
    if sorted(int(k) for k in graph) != list(range(1, n + 1)):
        bad.append(f"segments are numbered {sorted(graph)}, expected 1..{n}")
    seen = {}
    for seg, down in segs:
        ids = {int(a[c]) for c in seg}
        if len(ids) != 1 or 0 in ids:
            bad.append(f"cells {seg} form one segment but are numbered {[int(a[c]) for c in seg]}")
            continue
        i = ids.pop()
        if i in seen:
            bad.append(f"segment {i} is used for cells {seg} and {seen[i]}")
        seen[i] = seg
        want = 0 if down is None else int(a[down])
        if i in graph and down is None and fd[seg[-1]] == seg[-1] and int(graph[i]) == i:
            pass           # an outlet may name itself
        elif i not in graph or int(graph[i]) != want:
            bad.append(f"segment {i} (cells {seg}) flows into segment {graph.get(i)}, expected {want}")
        elif want and not i < want:
            bad.append(f"segment {i} flows into {want} but is not numbered before it")
        nsr = getattr(s, "_node_seg_rch", None)      # internal table: checked where it exists
        rows = [] if nsr is None else [(int(x[0]), int(x[2])) for x in nsr if int(x[1]) == i]
        if nsr is not None and rows != [(c, k + 1) for k, c in enumerate(seg)]:
            bad.append(f"segment {i}: (cell, reach) rows are {rows}, expected the cells {seg} in flow order")
    if any(a[i] != 0 for i in range(F.n) if not mask[i]):
        bad.append("a cell that is no stream carries a segment number")
    return bad


def gen_reach(rng):
    case = gen_net(rng, kinds=("structured",))
    case["group"] = bool(rng.random() < 0.7)
    return case


def run_reach(case):
    r = setup(case, "Sfr2005")
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc, s, mask, arg = r
    kw = dict(group_segments=case["group"])
    a = (arg,) if arg is not None else ()
    rd = s.reach_data(*a, **kw)
    sd = s.segment_data(*a, **kw)
    ids = np.array(s.stream_array).ravel()
    bad = []
    segs = {int(ids[seg[0]]): (seg, dn) for seg, dn in expected_segments(F, fd, mask, case["group"])}
    want = [(i, k + 1, c) for i in sorted(segs) for k, c in enumerate(segs[i][0])]
    got = [(int(x["iseg"]), int(x["ireach"]), int(x["node"])) for x in rd]
    if got != want:
        bad.append(f"(segment, reach, cell) rows are {got}, expected {want}")
        return bad
    if [int(x) for x in sd["nseg"]] != sorted(segs) or \
            any(int(x) != (0 if segs[i][1] is None else int(ids[segs[i][1]])) and not
                (int(x) == i and fd[segs[i][0][-1]] == segs[i][0][-1]) for i, x in zip(sorted(segs), sd["outseg"])):
        bad.append(f"segment table {list(zip(sd['nseg'], sd['outseg']))} does not match the stream network")
    nc = case["grid"]["ncol"]
    delr, delc = case["grid"]["delr"], case["grid"]["delc"]
    for k, x in enumerate(rd):
        c = int(x["node"])
        i, j = c // nc, c % nc
        if (int(x["k"]), int(x["i"]), int(x["j"])) != (0, i, j):
            bad.append(f"reach of cell {c} is placed in {(x['k'], x['i'], x['j'])}, expected {(0, i, j)}")
        if int(x["reachID"]) != k + 1:
            bad.append(f"row {k} has reach number {x['reachID']}")
        if abs(x["strtop"] - d[c]) > 1e-5 * max(1, abs(d[c])):
            bad.append(f"cell {c}: top {x['strtop']}, elevation {d[c]}")
        f = int(fd[c])
        if f != c and 0 <= f < F.n and mask[f]:
            L = 1.5 * np.hypot(F.xc[f] - F.xc[c], F.yc[f] - F.yc[c])
            sl = (d[c] - d[f]) / L
        else:
            L = 1.5 * (delr[j] + delc[i]) / 2
            sl = 0.0001
        if abs(x["rchlen"] - L) > 1e-5 * L:
            bad.append(f"reach of cell {c} has length {x['rchlen']}, expected {L}")
        if abs(x["slope"] - sl) > 1e-5 * max(1, abs(sl)):
            bad.append(f"reach of cell {c} has slope {x['slope']}, expected {sl}")
    return bad


def gen_irun(rng):
    case = gen_net(rng)
    case["group"] = bool(rng.random() < 0.7)
    case["pre"] = bool(rng.random() < 0.5)
    return case


def run_irun(case):
    r = setup(case, "Sfr2005")
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc, s, mask, arg = r
    kw = dict(group_segments=case["group"])
    a = (arg,) if arg is not None else ()
    if case["pre"]:
        s.get_stream_connectivity(*a, **kw)
        out = s.irunbnd()
    else:
        out = s.irunbnd(*a, **kw)
    ids = np.array(s.stream_array).ravel()
    bad = []
    if out.shape != shp:
        bad.append(f"shape {out.shape}")
    o = np.array(out).ravel()
    if any(ids[c] == 0 for c in np.where(mask)[0]):
        bad.append("a stream cell has no segment number")
    for c in range(F.n):
        x, k = c, 0
        while 0 <= x < F.n and not mask[x] and fd[x] != x and k <= F.n:
            x, k = int(fd[x]), k + 1
        want = int(ids[x]) if 0 <= x < F.n and mask[x] else 0
        if o[c] != want:
            bad.append(f"cell {c} runs off to segment {o[c]}, the first stream cell it reaches is {x} (segment {want})")
    return bad


# ---------------------------------------------------------------- PRMS
def gen_casc(rng):
    case = gen_net(rng)
    case["how"] = ["delineate", "set"][int(rng.integers(2))]
    case["sdtype"] = "int"
    case["pre"] = bool(rng.random() < 0.3)
    case["group"] = bool(rng.random() < 0.3)
    case["usebnd"] = bool(rng.random() < 0.8)
    if rng.random() < 0.15:
        case["sink"] = True       # keep unresolved flats
    return case


def gen_m2m(rng):
    case = gen_casc(rng)
    if rng.random() < 0.06:
        # integer slopes, so that fractions of exactly one percent occur
        n = int(rng.integers(3, 8))
        a, b = (1, n) if rng.random() < 0.5 else (n, 1)
        case["grid"] = dict(kind="structured", nrow=a, ncol=b, delr=[1.0] * b, delc=[1.0] * a)
        d = np.zeros(n)
        d[0] = -500.0
        for i in range(1, n):
            d[i] = d[i - 1] + float(rng.choice([1, 99, -1, -99, 2, 98, 50]))
        case["dem"], case["term"], case["thr"] = jl(d), [], float(rng.choice([2, 4, 6]))
        case.pop("ws", None), case.pop("boundary", None)
    return case


def casc_setup(case):
    r = setup(case, "PrmsStreams")
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc, s, mask, arg = r
    b = boundary_of(case, fd) if case["usebnd"] else None
    if case["pre"]:
        s.get_stream_connectivity(group_segments=case["group"])
    act = np.ones(F.n, dtype=bool) if b is None else b != 0
    bb = None if b is None else b.reshape(shp)
    return g, shp, F, d, fo, fd, s, mask, act, bb


def run_m2o(case):
    r = casc_setup(case)
    if r is None:
        return None
    g, shp, F, d, fo, fd, s, mask, act, bb = r
    up, dn, pct, seg = s.get_cascades(basin_boundary=bb, group_segments=case["group"])
    ids = np.array(s.stream_array).ravel()
    bad = []
    if not (len(up) == len(dn) == len(pct) == len(seg)):
        return ["cascade arrays differ in length"]
    want = {}
    for u in range(F.n):
        if act[u]:
            f = int(fd[u]) if fd[u] >= 0 else u
            want[u] = f if act[f] else u
    got = set()
    for a, b, p, q in zip(up, dn, pct, seg):
        a, b = int(a) - 1, int(b) - 1
        got.add((a, b))
        if p != 1.0:
            bad.append(f"link {a}->{b} carries fraction {p}")
        if int(q) != int(ids[b]):
            bad.append(f"link {a}->{b} names stream segment {q}, cell {b} is in {ids[b]}")
    if got != set(want.items()):
        bad.append(f"links missing {sorted(set(want.items()) - got)}, extra {sorted(got - set(want.items()))}")
    # one link per upslope cell (see known_findings: each link is repeated once per cell draining to the same cell)
    cnt = {}
    for a, b in zip(up, dn):
        cnt[int(a) - 1] = cnt.get(int(a) - 1, 0) + 1
    for u in sorted(cnt):
        to = lambda v: int(fd[v]) if fd[v] >= 0 else v
        k = sum(1 for v in want if to(v) == to(u)) if u in want and act[to(u)] else 1
        if cnt[u] != 1:
            if cnt[u] == k:
                bad.append(f"KNOWN:M2O-REPEAT cell {u} emits its link {cnt[u]} times, so its fractions add up to {cnt[u]}")
            else:
                bad.append(f"cell {u} emits its link {cnt[u]} times, so its fractions add up to {cnt[u]}")
    return bad


def run_m2m(case):
    r = casc_setup(case)
    if r is None:
        return None
    g, shp, F, d, fo, fd, s, mask, act, bb = r
    up, dn, pct, seg = s.get_cascades(basin_boundary=bb, many2many=True, group_segments=case["group"])
    ids = np.array(s.stream_array).ravel()
    bad = []
    links = {}
    for a, b, p, q in zip(up, dn, pct, seg):
        a, b = int(a) - 1, int(b) - 1
        if (a, b) in links:
            bad.append(f"link {a}->{b} is listed twice")
        links[(a, b)] = float(p)
        if int(q) != int(ids[b]):
            bad.append(f"link {a}->{b} names stream segment {q}, cell {b} is in {ids[b]}")
        if not act[a] or not act[b]:
            bad.append(f"link {a}->{b} involves a cell outside the basin")
    for u in range(F.n):
        mine = {b: p for (a, b), p in links.items() if a == u}
        if not act[u]:
            continue
        if mask[u]:
            f = int(fd[u]) if fd[u] >= 0 else u
            want = {(f if act[f] else u): 1.0}
        else:
            sl = {n: -v for n, v in slopes_of(F, d, u, 1e-6).items() if act[n] and v < 0}
            tot = sum(sl.values())
            want = {n: v / tot for n, v in sl.items() if v / tot > 0.01 + 1e-12}
            exact = all(v == int(v) and v < 2 ** 40 for v in sl.values())     # no rounding anywhere: the limit itself counts
            if exact:
                want = {n: v / tot for n, v in sl.items() if v * 100 > tot}
            edge = not exact and any(abs(v / tot - 0.01) < 1e-9 for v in sl.values())
            tot = sum(sl[n] for n in want)
            want = {n: sl[n] / tot for n in want}
            if edge:
                want = None
        if want is not None and (set(mine) != set(want) or any(abs(mine[n] - want[n]) > 1e-9 for n in want)):
            bad.append(f"cell {u} spreads its flow as {mine}, expected {want}")
        if mine and abs(sum(mine.values()) - 1) > 1e-9:
            bad.append(f"fractions of cell {u} add up to {sum(mine.values())}")
    return bad


# ---------------------------------------------------------------- vectors
def gen_vec(rng):
    case = gen_net(rng)
    case["group"] = bool(rng.random() < 0.7)
    case["cls"] = ["Sfr6", "Sfr2005", "PrmsStreams"][int(rng.integers(3))]
    return case


def run_vec(case):
    r = setup(case, case["cls"])
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc, s, mask, arg = r
    a = (arg,) if arg is not None else ()
    v = s.create_stream_vectors(*a, group_segments=case["group"])
    bad = []
    want = []
    for seg, dn in expected_segments(F, fd, mask, case["group"]):
        line = [(float(F.xc[c]), float(F.yc[c])) for c in seg + ([dn] if dn is not None else [])]
        if len(line) > 1:
            want.append(line)
    got = [[(float(x), float(y)) for x, y in l] for l in v.values()]
    sc = max(1e-4, float(np.sqrt(F.area.min())))
    rnd = lambda L: sorted([[(round(x / sc, 6), round(y / sc, 6)) for x, y in l] for l in L])
    if rnd(got) != rnd(want):
        bad.append(f"stream lines {rnd(got)}, expected {rnd(want)}")
    return bad


# ---------------------------------------------------------------- builder
def gen_build(rng):
    case = gen_net(rng, kinds=("structured",))
    case["group"] = bool(rng.random() < 0.7)
    case["kw"] = {}
    if rng.random() < 0.5:
        case["kw"] = [dict(roughch=0.04), dict(strhc1=0.5, icalc=2), dict(min_slope=0.01), dict(max_slope=0.05),
                      dict(default_slope=0.02)][int(rng.integers(5))]
    return case


def run_build(case):
    import dany, os, tempfile
    r = setup(case, "Sfr2005")
    if r is None:
        return None
    g, shp, F, d, fo, fd, facc, s, mask, arg = r
    if arg is not None:
        s.set_stream_array(arg)
    o = s.get_pygsflow_builder_object(group_segments=case["group"], **case["kw"])
    p = dict(default_slope=0.001, min_slope=0.0001, max_slope=1.0, strhc1=1.0, strthick=1.0, roughch=0.025, icalc=1,
             etsw=0., flow=1., iprior=0, pptsw=0., runoff=0., width1=10, width2=10)
    p.update(case["kw"])
    bad = []
    for x in o.reach_data:
        c = int(x["node"])
        f = int(fd[c])
        if f != c and 0 <= f < F.n and mask[f]:
            w = (d[c] - d[f]) / np.hypot(F.xc[f] - F.xc[c], F.yc[f] - F.yc[c])
        else:
            w = p["default_slope"]
        w = min(max(w, p["min_slope"]), p["max_slope"])
        if abs(x["slope"] - w) > 1e-5 * max(1, abs(w)):
            bad.append(f"reach of cell {c}: slope {x['slope']}, drop to its downstream reach over distance is {w}")
        if abs(x["strtop"] - d[c]) > 1e-5 * max(1, abs(d[c])):
            bad.append(f"reach of cell {c}: top {x['strtop']}, elevation {d[c]}")
        for k in ("strhc1", "strthick"):
            if abs(x[k] - p[k]) > 1e-6:
                bad.append(f"{k} is {x[k]}, expected {p[k]}")
    for k in ("roughch", "icalc", "width1", "width2", "flow", "etsw", "pptsw", "runoff", "iprior"):
        if np.any(np.abs(np.array(o.segment_data[k], dtype=float) - p[k]) > 1e-6):
            bad.append(f"segment {k} is {o.segment_data[k]}, expected {p[k]}")
    ir = s.irunbnd()
    if not np.array_equal(o.irunbnd, ir):
        bad.append("irunbnd of the object differs from irunbnd()")
    return bad[:20]

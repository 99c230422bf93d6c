"""history independence: what was computed before on the same objects does not change a result"""
import numpy as np
from . import grids
from .common import *
from .props_flow import centre

GRID_OPS = ["rook", "queen", "queen_cached", "rook_cached", "fill_p", "fill_d", "fill_c", "nan", "edges"]
FLOW_OPS = ["fdir", "fdir_term", "fdir_thr", "acc", "acc_cells", "ws", "slope", "vectors", "sub"]
STREAM_OPS = ["delin", "set", "conn", "conn_arg", "vec", "vec_arg", "table", "irun", "casc", "ctrl", "get"]
FINAL = ["fill", "nan", "fdir", "acc", "ws", "sub", "attr", "delin", "ctrl", "conn", "vec", "table", "irun", "casc", "builder"]


def gen_hist(rng):
    case = network_case(rng, 5, 5, nan=rng.random() < 0.3, drop=False)
    n = len(case["dem"])
    case["cls"] = ["Sfr6", "Sfr2005", "PrmsStreams"][int(rng.integers(3))]
    case["as_cells"] = True
    case["g"] = [GRID_OPS[int(i)] for i in rng.integers(0, len(GRID_OPS), int(rng.integers(0, 3)))]
    case["f"] = [FLOW_OPS[int(i)] for i in rng.integers(0, len(FLOW_OPS), int(rng.integers(0, 5)))]
    case["s"] = [STREAM_OPS[int(i)] for i in rng.integers(0, len(STREAM_OPS), int(rng.integers(0, 5)))]
    case["pts"] = [int(x) for x in rng.choice(n, min(3, n), replace=False)]
    ok = [i for i, x in enumerate(case["dem"]) if x is not None]
    case["term2"] = [int(x) for x in rng.choice(ok, min(2, len(ok)), replace=False)]
    case["thr"] = float(rng.choice([1, 2, 3]))
    case["thr2"] = float(rng.choice([1, 2, 4]))
    case["mode"] = ["delin", "set", "arg"][int(rng.integers(3))]
    case["group"] = bool(rng.random() < 0.5)
    case["same_group"] = bool(rng.random() < 0.5)
    case["default_group"] = case["mode"] != "arg" and bool(rng.random() < 0.4)
    case["final"] = FINAL[int(rng.integers(len(FINAL)))]
    return case


def canon(x):
    if isinstance(x, dict):
        return sorted((canon(k), canon(v)) for k, v in x.items())
    if isinstance(x, np.ndarray) and x.dtype.names:
        return [x.dtype.names, [canon(list(r)) for r in x.tolist()]]
    if isinstance(x, np.ndarray):
        return [list(x.shape), [canon(v) for v in x.ravel().tolist()]]
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, (float, np.floating)):
        return "nan" if x != x else round(float(x), 9)
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, np.integer):
        return int(x)
    if hasattr(x, "__dict__"):
        return canon({k: v for k, v in vars(x).items()})
    return x


class World:
    def __init__(self, case):
        import dany
        self.dany = dany
        self.case = case
        self.g, self.shp = grids.build(case["grid"])
        self.F = grids.Facts(case["grid"])
        self.d = arr(case["dem"])
        self.fo = dany.FlowDirections(self.g, self.d.reshape(self.shp).copy(), check_elevations=False)
        self.term = list(case["term"]) or None
        self.s = None

    def pts(self):
        return [list(centre(self.F, c)) for c in self.case["pts"]]

    def grid_op(self, op):
        d, g, D = self.d.reshape(self.shp).copy(), self.g, self.dany
        fin = np.where(np.isnan(d), 5.0, d)
        if op in ("rook", "queen"):
            g.neighbors(method=op, reset=True)
        elif op.endswith("_cached"):
            g.neighbors(method=op.split("_")[0])
        elif op.startswith("fill"):
            D.fill_sinks(g, fin, method={"p": "priority", "d": "drain", "c": "complete"}[op[-1]], eps=1e-2)
        elif op == "nan":
            D.fill_nan_values(g, d)
        elif op == "edges":
            g.neighbors(as_nodes=False) if g.grid_type == "structured" else g.neighbors(0)

    def flow_op(self, op):
        fo = self.fo
        if op.startswith("fdir"):
            kw = dict(terminal_cells=self.case["term2"]) if op == "fdir_term" else dict(burn_threshold=0.5) if op == "fdir_thr" else {}
            fo.flow_directions(**kw)
            return
        if fo._fdir is None:
            fo.flow_directions()
        if op == "acc":
            fo.flow_accumulation()
        elif op == "acc_cells":
            fo.flow_accumulation(as_cells=True)
        elif op == "ws":
            fo.get_watershed_boundary(centre(self.F, self.case["pts"][0]))
        elif op == "slope":
            fo.slope, fo.aspect
        elif op == "vectors":
            fo.vectors
        elif op == "sub" and is_forest([int(x) for x in np.ravel(fo.flow_direction_array)]):
            fo.get_subbasins(self.pts())

    def network(self):
        self.fd = np.array(self.fo.flow_directions(terminal_cells=self.term)).ravel()
        self.facc = np.array(self.fo.flow_accumulation(as_cells=True)).ravel()
        return is_forest(self.fd)

    def mask(self, thr):
        return (self.facc >= thr).astype(int).reshape(self.shp)

    def stream(self):
        self.s = getattr(self.dany, self.case["cls"])(self.g, self.fo)

    def kw(self, group):
        """no argument stands for the grouping by default"""
        return {} if group is None else dict(group_segments=group)

    def table(self, a, group):
        s, cls = self.s, self.case["cls"]
        if cls == "Sfr6":
            return [s.packagedata(*a), s.connectiondata()]
        if cls == "Sfr2005":
            return [s.reach_data(*a, **self.kw(group)), s.segment_data(*a, **self.kw(group))]
        return list(s.get_cascades(*a, **self.kw(group)))

    def conn(self, a, group):
        if self.case["cls"] == "Sfr6":
            return [self.s.get_stream_connectivity(*a), self.s.stream_array]
        return [self.s.get_stream_connectivity(*a, **self.kw(group)), self.s.stream_array]

    def stream_op(self, op):
        s, m2 = self.s, self.mask(self.case["thr2"])
        grp = self.case["group"] == self.case["same_group"]
        if s._stream_array is None and op in ("conn", "vec", "table", "irun", "casc", "get"):
            s.set_stream_array(m2.copy())
        if op == "delin":
            s.delineate_streams(self.case["thr2"])
        elif op == "set":
            s.set_stream_array(m2.copy())
        elif op == "conn":
            self.conn((), grp)
        elif op == "conn_arg":
            self.conn((m2.copy(),), grp)
        elif op == "vec":
            s.create_stream_vectors(group_segments=grp)
        elif op == "vec_arg":
            s.create_stream_vectors(m2.astype(float), group_segments=grp)
        elif op == "table" and (self.case["cls"] != "Sfr2005" or self.g.grid_type == "structured"):
            self.table((), grp)
        elif op == "irun" and self.case["cls"] == "Sfr2005":
            s.irunbnd()
        elif op == "casc" and self.case["cls"] == "PrmsStreams":
            s.get_cascades(many2many=True)
        elif op == "ctrl":
            s.threshold_from_control_points(self.pts())
        elif op == "get":
            s.stream_array

    def result(self):
        c, f = self.case, self.case["final"]
        group = None if c["default_group"] else c["group"]
        d = self.d.reshape(self.shp).copy()
        if f == "fill":
            return self.dany.fill_sinks(self.g, np.where(np.isnan(d), 5.0, d))
        if f == "nan":
            return self.dany.fill_nan_values(self.g, d)
        fo, s = self.fo, self.s
        if f == "fdir":
            return fo.flow_directions(terminal_cells=self.term)
        if f == "acc":
            return fo.flow_accumulation()
        if f == "ws":
            return fo.get_watershed_boundary(centre(self.F, c["pts"][-1]))
        if f == "sub":
            return fo.get_subbasins(self.pts())
        if f == "attr":
            return [fo.slope, fo.aspect, fo.area, list(fo.vectors), fo.dem]
        if f == "delin":
            return s.delineate_streams(c["thr"])
        if f == "ctrl":
            return s.threshold_from_control_points(self.pts(), threshold=7.0)
        m = self.mask(c["thr"])
        a = ()
        if c["mode"] == "delin":
            s.delineate_streams(c["thr"])
        elif c["mode"] == "set":
            s.set_stream_array(m)
        else:
            a = (m,)
        if f == "conn":
            return self.conn(a, group)
        if f == "vec":
            return s.create_stream_vectors(*a, **self.kw(group))
        if f == "table":
            if c["cls"] == "Sfr2005" and self.g.grid_type != "structured":
                return self.conn(a, group)
            return self.table(a, group)
        if f == "irun":
            return s.irunbnd(*a, **self.kw(group)) if c["cls"] == "Sfr2005" else self.conn(a, group)
        if f == "casc":
            if c["cls"] != "PrmsStreams":
                return self.conn(a, group)
            return list(s.get_cascades(*a, many2many=True, **self.kw(group)))
        if c["cls"] == "PrmsStreams":
            return s.get_pygsflow_builder_object(*a, **self.kw(group))
        if c["cls"] == "Sfr2005" and self.g.grid_type == "structured":
            if a:
                s.set_stream_array(m)
            return s.get_pygsflow_builder_object(**self.kw(group))
        return self.conn(a, group)


def run_hist(case):
    a = World(case)
    if not a.network():
        return None
    if not (a.facc >= max(case["thr"], case["thr2"])).any():
        return None
    a.stream()
    want = canon(a.result())
    b = World(case)
    for op in case["g"]:
        b.grid_op(op)
    for op in case["f"]:
        b.flow_op(op)
    b.network()
    b.stream()
    for op in case["s"]:
        b.stream_op(op)
        b.grid_op(case["g"][0]) if case["g"] else None
    got = canon(b.result())
    bad = []
    if got != want:
        bad.append(f"{case['final']} after {case['g'] + case['f'] + case['s']} gives {str(got)[:300]}, on fresh objects {str(want)[:300]}")
    return bad

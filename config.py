"""what each check runs and claims"""
IDS = [f"C{i:02d}" for i in range(1, 27)]
# contracts (pyvc specs) in the cone of each property
PROOF = {i: [] for i in IDS}
_D = "dem_conditioning."
_FILL = {m: [f"{_D}fill_sinks[{m}]", f"{_D}fill_sinks[{m}, integer]"] for m in ("priority", "complete", "drain", "priority, mask", "complete, mask", "drain, mask")}
_EDGE = [_D + "_identify_edge_nodes"]
_FLOOD = [_D + "_priority_flood[edges]", _D + "_priority_flood[edges, integer]"]
_STREAMS = [_D + "_priority_flood[streams]", _D + "_priority_flood[streams, integer]"]
_DRAIN = [_D + "_flood_and_drain_fill", _D + "_flood_and_drain_fill[integer]"]
PROOF["C01"] = PROOF["C02"] = _FILL["priority"] + _FILL["complete"] + _FILL["drain"] + _EDGE + _FLOOD + _DRAIN
PROOF["C03"] = _FILL["priority"] + _FILL["complete"] + _EDGE + _FLOOD
PROOF["C04"] = _FILL["drain"] + _EDGE + _DRAIN
PROOF["C05"] = _FILL["priority, mask"] + _FILL["complete, mask"] + _FILL["drain, mask"] + _EDGE + _STREAMS
PROOF["C06"] = [f"{_D}fill_nan_values[{m}]" for m in ("mean", "median", "min", "max")]
_S = "stream_util."
_CASES14 = [f"{s} threshold, {b}" for s in ("scalar", "array") for b in ("no boundary", "boundary")]
PROOF["C14"] = [_S + "StreamBase.delineate_streams[" + c + "]" for c in _CASES14]
_F = "flow_directions.FlowDirections."
_W = [_F + f"get_watershed_boundary[{c}]" for c in ("vertex", "structured", "vertex, geometry", "vertex, subbasins", "structured, subbasins")]
PROOF["C07"] = PROOF["C08"] = [_F + "_calculate_flowcell", _F + "_fill_irregular_neighbor_array", _F + "_calculate_slopes"] + [
    _F + f"flow_directions[{c}]" for c in ("vertex", "structured", "unstructured", "vertex, nodes", "structured, cells", "vertex, several lowest", "structured, cells, several lowest")]
PROOF["C09"] = [_F + "get_nidp", _F + "flow_accumulation[area]", _F + "flow_accumulation[cells]"]
PROOF["C10"] = [_F + "get_nidp", _F + "_reverse_flow_directions[first]", _F + "_reverse_flow_directions[again]"] + _W
PROOF["C11"] = [_S + "Topology.sort"] + PROOF["C10"] + [_F + f"get_subbasins[{c}]" for c in ("vertex", "structured")]
PROOF["C12"] = [_F + "slope", _F + "aspect", _F + "vectors"]
PROOF["C13"] = [_F + "_shoelace_area"]
PROOF["C15"] = [_S + f"StreamBase.threshold_from_control_points[{c}]" for c in ("vertex", "structured", "real", "default", "geometry")]
PROOF["C16"] = [_S + "Topology.sort"] + [_S + f"StreamBase._mf6_stream_connectivity[{c}]" for c in ("stored", "given", "boolean")]
PROOF["C17"] = [_S + "Topology.sort"] + [_S + f"StreamBase._mf6_stream_connectivity[{c}]" for c in ("stored", "given", "boolean")] + [_S + f"Sfr6.connectiondata[{c}]" for c in ("given", "stored")]
PROOF["C18"] = PROOF["C17"] + [_S + f"Sfr6.packagedata[{c}]" for c in ("given, structured", "marked, vertex", "stored, unstructured", "given, structured, detuple", "stored, vertex, detuple", "marked, unstructured, detuple")]
_SEG = [_S + "Topology.sort"] + [_S + f"StreamBase._mf2005_stream_connectivity[{a}{g}]" for a in ("stored", "given", "boolean") for g in ("", ", cells")]
PROOF["C19"] = _SEG
_TAB = ("stored", "stored, cells", "computed", "computed, cells", "given", "given, stored", "regrouped")
PROOF["C20"] = _SEG + [_S + f"Sfr2005.{f}[{c}]" for f, cs in (("reach_data", [c for c in _TAB if c not in ("computed, cells", "given")]), ("segment_data", _TAB)) for c in cs]
PROOF["C21"] = _SEG + [_S + f"Sfr2005.irunbnd[{c}]" for c in ("stored", "given, graph", "given real, graph", "computed", "given", "given, stored")]
_CASC = [_S + f"PrmsStreams.get_cascades[{c}]" for c in ("stored", "stored, boundary", "computed", "given", "given, stored", "grouped", "given, grouped", "stored, not grouped")]
PROOF["C22"] = PROOF["C16"] + [_S + f"PrmsStreams._build_many_to_one_cascades[{c}]" for c in ("no boundary", "boundary")] + _CASC
_M2M = [_S + f"PrmsStreams._build_many_to_many_cascades[{c}]" for c in ("no boundary", "boundary")] + [c.replace("[", "[many to many, ") for c in _CASC]
PROOF["C24"] = _SEG + [_S + f"StreamBase.create_stream_vectors[{c}]" for c in ("stored", "stored, cells", "given, real")]
PROOF["C23"] = PROOF["C16"] + [_F + "_calculate_slopes"] + _M2M
RT = {i: dict(secs=20, cases=2500) for i in IDS}
RT["C22"] = dict(secs=20, cases=1000)
for _i in ("C25", "C26"):           # nothing is proved of these: more cases
    RT[_i] = dict(secs=60, cases=7500)
LEVEL = {i: "exploration" for i in IDS}
EXPLAIN = {i: "bounded: the property's contract is checked at run time on generated cases; no obligation is proved for it yet" for i in IDS}
_P = ("every obligation of the contracts in the cone is discharged by SMT for all grids, elevations and iterations; floats are reals with a NaN flag, "
      "flopy's queen neighbour relation is trusted as symmetric; the same contract is also run on generated cases (bounded, never counted as proved)")
for _i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24"):
    LEVEL[_i] = "proof"
    EXPLAIN[_i] = _P
EXPLAIN["C04"] += "; partial correctness (termination of the drain sweep is not proved)"
for _i in ("C07", "C08"):
    EXPLAIN[_i] += ("; partial correctness (termination of the searches across flats is not proved); grids of at most 999000 cells whose neighbouring "
                    "cells have different centres, with some elevation below 1e10 and valid terminal cells; two lowest cells may be refused")
EXPLAIN["C23"] += "; neighbouring cells have different centres; get_cascades is given flow directions without closed loops"
EXPLAIN["C24"] += "; partial correctness (termination of the walk down the segments is not proved)"
EXPLAIN["C22"] += "; the clause 'each active cell is linked once' is not proved: it is violated by a known finding, and judged at run time"
TRUSTED = ["flopy grid geometry (iverts, vertices, centres, node numbering), numpy and the Python runtime behave as documented",
           "the run-time oracles in rt/ state the property"]

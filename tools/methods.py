"""per property: what is proved, against what; what the run-time contract does"""
METHOD = {
"C01": "`fill_sinks` for each method (callee contracts for `_priority_flood`, `_flood_and_drain_fill`, `_identify_edge_nodes`, each proved on its own body): result is new, right shape, >= input, equal on the edge; input frozen.",
"C02": "same cone; the drainage path is a ghost `next` function with a rank (queue pop order / sweep stage), so 'every cell connected to the edge has a non-ascending (strictly descending) path' is an inductive postcondition. Termination of the flood is proved with a variant.",
"C03": "minimax characterisation: the result is a lower bound of every path's highest point (induction on path length through the `LOW` relation) and attained; eps steps bounded by the ghost rank.",
"C04": "fixed point of the sweep: every non-edge cell is at its input or exactly eps above its lowest neighbour, and no surface with that property is lower (comparison invariant against an arbitrary competing surface).",
"C05": "as C01/C02 with the mask's cells as sources; cells not connected to a stream keep their value.",
"C06": "`fill_nan_values` for mean, median, min, max: termination variant (number of NaN cells), range invariant, data cells unchanged, unreachable cells NaN; input frozen.",
"C07": "`flow_directions` (with `__init__` inlined, seven kinds of grid, terminal list and tie handling) over the contracts of `_fill_irregular_neighbor_array` (row = neighbours, then fill), `_calculate_slopes` (entry = drop over distance, missing where data are) and `_calculate_flowcell` with `_resolve_flats` inlined: invariants of the search across a flat (each visited cell carries the steepest neighbour it was reached through), so that a cell gets one of its steepest neighbours, or the sink mark when several tie; slopes are defined from the elevations and centres, not from the code.",
"C08": "same contracts; lowest cells by their definition over all data cells, terminal cells as passed (node numbers or row and column), no-data cells by the fill; no cell drains to itself, off the grid or into a no-data cell otherwise.",
"C09": "`get_nidp` counts inflows (recursive counting function), `flow_accumulation` satisfies acc(c) = area(c) + sum over cells draining into c for every cell off closed loops (ghost processing order; sums by recursion).",
"C10": "`get_nidp`, `_reverse_flow_directions` (exactly the inflowing cells, each once) and `get_watershed_boundary` for vertex / structured / geometry / subbasin input: marked cells = set `UP` of the pour cell; the flow directions are frozen.",
"C11": "`get_subbasins` over the contracts of `get_watershed_boundary` and `Topology.sort`: the first pour point on a path is defined by recursion down the flow directions; the graph links each pour point to the next one below, the final loop numbers each cell by the place of its first pour point in the order (induction along the path), pour points get 1..k (pigeonhole), upstream first; the walk terminates.",
"C12": "`slope`, `aspect`, `vectors`: pointwise postconditions over all cells, trig axioms trusted.",
"C13": "`_shoelace_area`: the loop invariant is the partial shoelace sum; the result is the absolute polygon area for any winding and any padding of the vertex table (padding = repeated vertex contributes 0, a lemma).",
"C14": "`delineate_streams` for scalar / array thresholds with and without a boundary: pointwise postcondition, frames on all inputs, stale connectivity dropped.",
"C15": "`threshold_from_control_points` for coordinates and geometry objects on both grid kinds: ghost set of stem cells; every control point is on a stem, a stem cell's largest inflow is on the stem, nothing else is, thresholds on a stem lie below the accumulation; the climb terminates (no cell is higher than the highest).",
"C16": "`Topology.sort` (with `_sort_util` inlined; permutation + order + termination) and `_mf6_stream_connectivity` for a stored, a given and a boolean array: bijection of stream cells and 1..n, graph = drainage, upstream numbered first.",
"C17": "`connectiondata` on an arbitrary graph (keys positive, targets keys or 0), given or stored; ghost positions of every link in both rows give 'exactly once from each side'; the graph itself by C16's contracts.",
"C18": "`packagedata` with `_detuple` inlined, for a given, a marked and an already numbered stream array, the three grid kinds, both cell id layouts: structured arrays are modelled as columns and records; row k is compared field by field with the cell holding reach k+1 (callee contracts of `_mf6_stream_connectivity` and `connectiondata`); sorted reach numbers are 1, 2, ... by induction; the mean edge length at an outlet is positive because one edge is.",
"C19": "`_mf2005_stream_connectivity` grouped and by cell, for a stored, a given and a boolean array (`Topology.sort` by its contract): the first cell of a segment and the place in it are defined by recursion up the unique inflow; two lemmas by induction (a segment begins at its first cell, a place belongs to one cell); the walk down a segment passes exactly its cells and terminates; the numbering is a bijection in topological order; every row of the reach table is checked.",
"C20": "`reach_data` and `segment_data` for a stored, given, computed or regrouped numbering (contract of `_mf2005_stream_connectivity` by blocks of rows): the rows found for a segment are its block, sorted segment numbers are 1, 2, ... (induction); each record is compared column by column with its cell (length and slope are defined functions of the cell and the next one downstream); records of 10 or 11 entries become a table only when all have 11.",
"C21": "`irunbnd` for a stored, given or computed numbering: the first stream cell on a path is defined by recursion down the flow directions; reversed directions by ghost positions; climbing from each stream cell numbers exactly the cells whose first stream cell it is; termination by the number of unvisited cells.",
"C22": "`_build_many_to_one_cascades` with and without boundary and `get_cascades` in eight states (stored / computed / regrouped / given): every link leads from an active cell to where it drains, fraction 1, segment of the receiver, every active cell linked. 'Once' is the known finding M2O-REPEAT.",
"C23": "`_build_many_to_many_cascades` with and without boundary and `get_cascades` in eight states, over the contract of `_calculate_slopes`: sums over the neighbours of a cell are defined by recursion along its row of the table of neighbours; two inductions show that the sums the code takes over its selected columns are those over the neighbours downslope and over those above one percent; every link is compared with the slope it follows, every slope that takes part has a link, links are listed once, and the fractions of a cell add up to 1 (induction).",
"C24": "`create_stream_vectors` for the stored and for given stream arrays, grouped or by cells, over the contract of `_mf2005_stream_connectivity`: the rows selected for a segment are exactly its block of the table (an order argument on the selection), so a line is the segment's cells in order and the first of the next; the walk's invariant says that the segment below a visited one is visited or waits on the stack and that headwaters are visited or to come; an induction down the network then shows that every segment is reached, and the stored network is put back as it was.",
}
for i in range(1, 27):
    METHOD.setdefault(f"C{i:02d}", "run-time contract on generated networks, oracle from the grid description and the flow directions.")
REST = """* C25 (histories of calls over several objects) and C26 (objects of the optional
  pyGSFLOW package, replaced by a recording stand-in) are checked at run time only; their code is mostly calls into external
  libraries, whose contracts would be assumptions as large as the property. C25 is nevertheless supported by the proofs: every
  proved function's result is stated in terms of its inputs alone, with unconstrained caches.
* The remaining `exploration` rows are properties whose functions do not have contracts yet.
* Solver trust: z3 decides first; obligations it leaves open are retried by a portfolio of z3 configurations and cvc5. No proof
  certificates are checked."""

"""writes properties.jsonl (one-off, kept for maintenance)"""
import json, os
D, F, S = "dany/dem_conditioning.py", "dany/flow_directions.py", "dany/stream_util.py"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
G = "every grid (structured, vertex, unstructured; any cell-neighbour relation) and every elevation array of matching size"
N = "every grid, every elevation array, every flow network reachable through the public calls and every stream array of matching size"
p("C01", "Sink filling never lowers a cell and leaves the grid edge alone",
  "Filling sinks returns a new array of the input's shape in which no cell is lower than in the input and every cell on the grid edge keeps its elevation exactly. The input array is left unmodified. This holds for the priority, complete and drain methods.",
  ["inputs", "configurations"], G + ", every method and eps", "The tests fill three example DEMs and compare one expected surface each; a cell lowered or an edge raised for some other topography or mesh is never sampled.",
  [D], [("fill_sinks", D), ("_priority_flood", D), ("_flood_and_drain_fill", D), ("_inner_flood_and_drain_fill", D), ("_identify_edge_nodes", D)], ["fill_sinks return value"])
p("C02", "A filled DEM drains everywhere",
  "After sink filling, every cell that is connected to the grid edge has a path of neighbouring cells to a grid edge cell along which the filled elevations never rise; with the priority and drain methods and a positive eps the path descends strictly.",
  ["inputs", "configurations"], G + " with finite elevations, every method and eps", "Drainage is a reachability statement over all cells of all surfaces; the tests only compare fixed outputs on the example grids.",
  [D], [("_priority_flood flood order", D), ("_inner_flood_and_drain_fill sweep", D)], ["fill_sinks return value"])
p("C03", "Priority-flood filling raises cells no more than needed",
  "The complete method returns exactly the lowest surface from which every connected cell drains to the grid edge (each cell at the lowest achievable highest point over all paths to the edge). The priority method raises a cell only to eps above a neighbour and stays within one eps per cell of that lowest surface.",
  ["inputs", "configurations"], G + " with finite elevations, every eps", "Optimality quantifies over all paths; the fixed expected arrays of the tests pin it on single surfaces only.",
  [D], [("_priority_flood", D)], ["fill_sinks return value"])
p("C04", "Drain filling yields the lowest surface with an eps step",
  "The drain method returns the lowest surface that is nowhere below the input and in which every non-edge cell is either at its input elevation or exactly eps above its lowest neighbour, as in Planchon and Darboux (2001).",
  ["inputs", "configurations"], G + " with finite elevations below the flood level, every positive eps", "The tests compare a single example surface.",
  [D], [("_flood_and_drain_fill", D), ("_inner_flood_and_drain_fill", D)], ["fill_sinks return value"])
p("C05", "Filling towards a stream mask keeps streams and drains to them",
  "Filling with a stream mask never lowers a cell, raises a stream cell to at most eps above its lowest stream neighbour, gives every cell connected to a stream a non-ascending path to a stream cell (strictly descending for the priority method with positive eps), and leaves cells not connected to any stream unchanged. The mask is left unmodified.",
  ["inputs", "configurations"], G + " with finite elevations, every non-empty mask, method and eps", "One example mask is tested.",
  [D], [("fill_sinks stream mask branch", D), ("_priority_flood streams branch", D)], ["fill_sinks return value"])
p("C06", "NaN filling terminates, keeps data and stays within the data range",
  "Filling NaN cells returns a new array of the input's shape in which every data cell is unchanged, every cell reachable through neighbours from a data cell has a finite elevation between the smallest and largest input elevation, and every other cell stays NaN. The call always returns and leaves its input unmodified.",
  ["inputs", "configurations"], G + " including NaN anywhere, every statistic (mean, median, min, max)", "One NaN pattern is tested; the order in which cells are revisited depends on the pattern.",
  [D], [("fill_nan_values", D)], ["fill_nan_values return value"])
p("C07", "Each cell drains to its steepest neighbour",
  "Every cell that is not a terminal, lowest or no-data cell drains to a neighbour with data whose slope from the cell is the steepest descent (or least ascent) among all its neighbours, rises below the burn threshold counting as flat; it may instead be marked an unresolved sink only when several neighbours tie.",
  ["inputs", "configurations"], G + ", every terminal list and burn threshold", "Tie resolution walks arbitrary flat areas; the tests check a few example DEMs.",
  [F], [("_calculate_slopes", F), ("_calculate_flowcell", F), ("_resolve_flats", F), ("_fill_irregular_neighbor_array", F)], ["flow_directions return value"])
p("C08", "Outlets, terminals and no-data cells drain to themselves",
  "The lowest cell, every terminal cell given by the caller and every cell without data drain to themselves; a data cell without data neighbours drains to itself or is an unresolved sink; every other cell drains to one of its neighbours with data or is an unresolved sink, and never to itself, off the grid or into a no-data cell.",
  ["inputs", "configurations"], G + " including NaN cells, every terminal list", "Interaction of flats, terminals and NaN cells depends on the whole surface; tests cover a few.",
  [F], [("flow_directions", F), ("_calculate_flowcell", F), ("_resolve_flats", F)], ["flow_directions return value"])
p("C09", "Flow accumulation conserves area",
  "The accumulation of every cell that is not on a closed loop is its own area (or 1 when counting cells) plus the accumulation of all cells that drain into it, hence the total over its upstream cells, whatever the order of the cells. Computing it twice gives the same values.",
  ["inputs", "histories"], "every flow network the direction step can produce, both accumulation modes", "A mass balance over every cell of every network; tests compare totals on examples.",
  [F], [("flow_accumulation", F), ("get_nidp", F)], ["flow_accumulation return value"])
p("C10", "A watershed is exactly the cells draining to the pour point",
  "The watershed of a point marks with 1 exactly the cells whose drainage path passes through the cell containing the point, that cell included, and 0 elsewhere. Delineating leaves the flow directions unchanged.",
  ["inputs", "histories"], "every flow network the direction step can produce and every cell, after any earlier delineations", "Closure under upstream cells for every network; the tests count cells on examples.",
  [F], [("get_watershed_boundary", F), ("_reverse_flow_directions", F), ("get_nidp", F)], ["get_watershed_boundary return value"])
p("C11", "Subbasins partition the upstream area in downstream order",
  "With k distinct pour points every cell gets the number of the subbasin of the first pour point on its drainage path, and 0 when there is none; the subbasins are numbered 1 to k, each upstream subbasin before the one it drains into.",
  ["inputs"], "every loop-free flow network and every set of distinct pour-point cells, cell 0 included", "Nesting and order of the points vary without bound; one arrangement is tested.",
  [F, S], [("get_subbasins", F), ("get_watershed_boundary", F), ("Topology.sort", S)], ["get_subbasins return value"])
p("C12", "Slope, aspect and flow vectors describe the drainage path",
  "A cell's slope is the drop to the cell it drains to divided by the distance between their centres (0 where the cell drains to itself or nowhere), its aspect is the angle in degrees from 0 to 360 of the direction towards that cell, and its flow vector is the unit vector of that aspect.",
  ["inputs"], "every grid, elevation array and flow network", "Pointwise over all cells and directions; tests compare a handful of values.",
  [F], [("slope", F), ("aspect", F), ("vectors", F)], ["slope, aspect, vectors"])
p("C13", "Cell areas are exact polygon areas",
  "The area reported for every cell is the area of its polygon, whatever the number or order (clockwise or not) of its vertices and of those of the other cells.",
  ["inputs"], "every grid of simple polygons", "The shoelace formula and the padding of irregular polygons must hold for every vertex count; a few meshes are tested.",
  [F], [("_shoelace_area", F)], ["area"])
p("C14", "Streams are the cells that accumulate at least the threshold",
  "Stream delineation marks a cell with 1 exactly when its accumulation is at least the threshold of that cell and the cell is inside the basin boundary, if one is given, and 0 otherwise. The result has the grid's shape, is what the object then reports as its stream array, and inputs are not modified.",
  ["inputs", "configurations"], N + ", scalar and per-cell thresholds, with and without boundary", "Boundary equality, integer and array thresholds and all grid kinds combine; tests cover two.",
  [S], [("delineate_streams", S), ("stream_array", S)], ["delineate_streams return value"])
p("C15", "Control points lower the threshold along their main stem only",
  "The thresholds derived from control points are below the cell's own accumulation on the path that climbs from each control point along the inflowing neighbour with the largest accumulation up to a headwater, so that delineation keeps it, and equal the given background threshold on every other cell.",
  ["inputs"], "every loop-free network and every set of control points and background threshold", "The path is data dependent and unbounded; tests compare one count.",
  [S], [("threshold_from_control_points", S)], ["threshold_from_control_points return value"])
p("C16", "MODFLOW 6 reaches mirror the stream network",
  "The stream cells get the reach numbers 1 to n, each once, other cells 0; each reach is connected to the reach of the cell it drains to if that is another stream cell and otherwise to 0 or itself, and every reach is numbered before the reach it flows into.",
  ["inputs"], "every loop-free network (with unresolved sinks, long chains, any grid) and every stream array", "Bijection and order for every network; tests check example graphs.",
  [S], [("_mf6_stream_connectivity", S), ("Topology", S)], ["get_stream_connectivity return value, stream_array"])
p("C17", "MODFLOW 6 connection data is symmetric and complete",
  "The connection data has one row per reach in order, listing every reach that flows into it with positive and the one reach it flows into with negative sign, zero based; each connection therefore appears exactly twice, once from each side, and no reach is connected to itself.",
  ["inputs"], "every reach graph of a loop-free network", "Symmetry over all rows for every graph; one file is compared in the tests.",
  [S], [("connectiondata", S)], ["connectiondata return value"])
p("C18", "MODFLOW 6 package data describes each reach's own cell",
  "Row k of the package data is numbered k and carries the cell id, elevation, slope-derived gradient and number of connections of the stream cell that holds reach k+1, and a length of 1.5 times the distance to the downstream reach's centre, positive also at an outlet.",
  ["inputs", "configurations"], N + ", both cell id layouts", "Every row on every grid kind; one example file is tested.",
  [S], [("packagedata", S), ("_detuple", S)], ["packagedata return value"])
p("C19", "MODFLOW 2005 segments are the reaches between confluences",
  "Every stream cell belongs to exactly one segment; with grouping a segment runs from a headwater, confluence or self-draining cell to just before the next such cell, without grouping each cell is its own segment. Segments are numbered 1 to n, flow into the segment of the next stream cell (0 or themselves at an outlet), and are numbered before the segment they flow into.",
  ["inputs", "configurations"], N + " free of loops, grouped and ungrouped", "Partition and order for every network shape; tests check example graphs.",
  [S], [("_mf2005_stream_connectivity", S), ("Topology", S)], ["get_stream_connectivity return value, stream_array"])
p("C20", "MODFLOW 2005 reach and segment tables match the network",
  "The reach table lists the cells of every segment in flow order with consecutive reach numbers, its own row, column and elevation, 1.5 times the distance to the next cell downstream as length and the drop over that length as slope; the segment table lists every segment with the segment it flows into.",
  ["inputs"], "every structured grid, loop-free network and stream array", "Row-by-row over all networks; one example table is tested.",
  [S], [("reach_data", S), ("segment_data", S)], ["reach_data, segment_data return values"])
p("C21", "Runoff is routed to the first stream segment downstream",
  "The runoff routing array gives every cell the number of the segment holding the first stream cell on its drainage path (a stream cell its own segment) and 0 to cells whose path meets no stream.",
  ["inputs"], "every loop-free network and every stream array", "Depends on the path of every cell of every network; one example is tested.",
  [S], [("irunbnd", S)], ["irunbnd return value"])
p("C22", "Many-to-one cascades link each active cell to where it drains",
  "Every active cell is linked to the cell it drains to, or to itself at a basin outlet or sink, with fraction 1, the stream segment of each link is that of the receiving cell, and no inactive cell takes part. Each active cell is linked once.",
  ["inputs", "configurations"], N + ", with and without a basin boundary", "Every cell of every network and boundary; the tests compare counts of one example.",
  [S], [("get_cascades", S), ("_build_many_to_one_cascades", S)], ["get_cascades return value"])
p("C23", "Many-to-many cascades split flow by slope and sum to one",
  "Every active landscape cell sends to its active downslope neighbours fractions proportional to slope, those of one percent or less dropped and the rest rescaled to add up to 1; a stream cell sends everything to the cell it drains to, or to itself at a basin outlet. No inactive cell takes part and each link carries the segment of its receiving cell.",
  ["inputs", "configurations"], N + ", with and without a basin boundary", "Slope patterns and boundaries combine without bound; counts of one example are tested.",
  [S, F], [("get_cascades", S), ("_build_many_to_many_cascades", S), ("_calculate_slopes", F)], ["get_cascades return value"])
p("C24", "Stream lines follow every segment exactly once",
  "The stream lines contain one line per segment, through the centres of its cells in flow order and on to the first cell of the segment it flows into; no segment is missing or repeated, and single-point lines are left out.",
  ["inputs", "configurations"], N + " free of loops, grouped and ungrouped", "Traversal order depends on the network; one example is tested.",
  [S], [("create_stream_vectors", S)], ["create_stream_vectors return value"])
p("C25", "Results do not depend on what was computed before",
  "Any conditioning, flow or stream result equals the one computed on fresh objects from the same inputs, whatever neighbour queries, fills, direction runs, delineations, tables or drawings were made before on the same grid, flow and stream objects.",
  ["histories"], "every sequence of public calls on shared objects followed by one result", "The tests use every object once, in one order.",
  [D, F, S], [("neighbour lookup of each entry point", D + ", " + F + ", " + S), ("cached reverse directions, graphs and stream arrays", F + ", " + S)],
  ["all return values"], [dict(name="grid neighbour cache", meaning="neighbour lists remembered by the grid object", where="flopy grid"), dict(name="stream object state", meaning="stored stream array, graphs and reach table", where=S)])
p("C26", "The pyGSFLOW stream object carries consistent slopes and defaults",
  "In the pyGSFLOW stream object every reach has its cell's elevation and a slope equal to the drop to the next reach downstream over the distance between them, limited to the given minimum and maximum, with the default slope at an outlet; all other defaults are those documented or given by the caller, and runoff routing equals the one computed directly.",
  ["inputs", "configurations"], "every structured grid, loop-free network, stream array and supported keyword", "Every reach of every network; one example is built in the tests.",
  [S], [("get_pygsflow_builder_object", S), ("reach_data", S)], ["get_pygsflow_builder_object return value"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))

"""property id -> run-time contract checks (generator, oracle) used as labelled bounded stand-ins and for replay"""
from . import props_dem as D, props_flow as W, props_stream as S, props_hist as H

CHECKS = {
    "C01": [("never_lower", D.gen_fill, D.run_never_lower)],
    "C02": [("drains", D.gen_fill, D.run_drains)],
    "C03": [("minimal_flood", D.gen_flood, D.run_minimal)],
    "C04": [("minimal_drain", D.gen_drain, D.run_minimal)],
    "C05": [("mask", D.gen_mask, D.run_mask)],
    "C06": [("nan", D.gen_nan, D.run_nan)],
    "C07": [("steepest", W.gen_fdir, W.run_steepest)],
    "C08": [("terminal", W.gen_fdir, W.run_terminal)],
    "C09": [("acc", W.gen_acc, W.run_acc)],
    "C10": [("watershed", W.gen_ws, W.run_ws)],
    "C11": [("subbasins", W.gen_sub, W.run_sub)],
    "C12": [("attributes", W.gen_attr, W.run_attr)],
    "C13": [("area", W.gen_area, W.run_area)],
    "C14": [("delineation", S.gen_delin, S.run_delin)],
    "C15": [("control_points", S.gen_ctrl, S.run_ctrl)],
    "C16": [("mf6_graph", S.gen_mf6, S.run_mf6)],
    "C17": [("connectiondata", S.gen_conn, S.run_conn)],
    "C18": [("packagedata", S.gen_pack, S.run_pack)],
    "C19": [("segments", S.gen_seg, S.run_seg)],
    "C20": [("reach_table", S.gen_reach, S.run_reach)],
    "C21": [("irunbnd", S.gen_irun, S.run_irun)],
    "C22": [("cascade_m2o", S.gen_casc, S.run_m2o)],
    "C23": [("cascade_m2m", S.gen_m2m, S.run_m2m)],
    "C24": [("vectors", S.gen_vec, S.run_vec)],
    "C25": [("history", H.gen_hist, H.run_hist)],
    "C26": [("builder", S.gen_build, S.run_build)],
}

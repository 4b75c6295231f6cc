"""property -> proof parts (name, function, driver units)"""
import importlib

PARTS = {
    "C09": [("p_gauss", "c09_component", "gauss"), ("p_gauss", "c09_mixture", "gauss")],
    "C10": [("p_gauss", "c10_component", "gauss"), ("p_gauss", "c10_cv", "gauss"), ("p_birth", "newborn", "gauss")],
    "C11": [("p_gauss", "c11_update", "gauss"), ("p_gauss", "gm_update", "gauss"), ("p_gauss", "gm_normalize", "gauss"),
            ("p_gauss", "c11_cv", "gauss"), ("p_gauss", "c11_cv_ctor", "gauss"), ("p_gauss", "c11_nm", "gauss"), ("p_target", "predict", "cluster")],
    "C12": [("p_gauss", "gm_moments", "gauss")],
    "C14": [("p_frames", f, "frames") for f in ("rotation", "inverse", "forward", "planar", "inverse_chain")],
    "C22": [("p_sampling", f, "sampling") for f in ("gaussian_samples", "mixture_samples")],
    "C23": [("p_sensor", f, "gauss") for f in ("overlap_count", "detection", "missed", "reports")],
    "C16": [("p_boxes", f, "boxes") for f in ("gaussian_boxes", "mixture_boxes")],
    "C17": [("p_boxes", f, "boxes") for f in ("axis_boxes", "box_hull", "box_intersects", "box_within")],
    "C02": [("p_tracker", f, "tracker") for f in ("tree_index", "tree_new", "tree_erase", "tree_query", "predict")] + [("p_cluster", "correct", "cluster")],
    "C03": [("p_target", "viable", "cluster"), ("p_tracker", "predict", "tracker"), ("p_tracker", "tree_erase", "tracker"), ("p_cluster", "correct", "cluster")],
    "C08": [("p_birth", "births", "tracker"), ("p_birth", "newborn", "gauss"), ("p_tracker", "tree_new", "tracker")],
    "C18": [("p_tracker", f, "tracker") for f in ("counts", "lists", "summary", "tree_query")] + [("p_metric", f, "tracker") for f in ("intensity", "ospa", "gospa")],
    "C20": [("p_tracker", f, "tracker") for f in ("counts", "lists", "summary")],
    "C07": [("p_target", f, "cluster") for f in ("false_target", "posterior", "match")] + [("p_cluster", "correct", "cluster"), ("p_cluster", "moves", "cluster")],
    "C13": [("p_mix", f, "mix") for f in ("prune", "sums", "join")] + [("p_gauss", "gm_normalize", "gauss")],
    "C04": [("p_components", f, "components") for f in ("component", "graph")] + [("p_clusters", "cluster", "tracker")],
    "C01": [("p_rtree", f, "rtree") for f in ("boxes", "search", "add", "split", "partition", "pick", "insert_rec", "insert", "remove_rec", "remove")],
    "C21": [("p_metric", "intensity", "tracker")],
    "C19": [("p_metric", f, "tracker") for f in ("ospa", "gospa", "distance", "cost", "origins", "bounds")],
    "C05": [("p_assign", f, "assign") for f in ("rlap", "rlap_one", "match_row", "solver", "cost", "lemmas")],
    "C06": [("p_murty", f, "murty") for f in ("allbut", "allbut_vector", "child", "whole", "partition_with", "partition_without", "less", "partition_index", "sort_by_dual", "solve", "draw", "murty", "lemmas")],
    "C15": [("p_frames", f, "frames") for f in ("geodetic", "accuracy", "inverse_chain", "planar")],
}


def func(mod, name):
    return getattr(importlib.import_module("proofs." + mod), name)

# what every check trusts
BASE_TRUST = [
    "clang 18 front end and the opt passes inline/sroa/early-cse/simplifycfg (C++ to LLVM IR of the real functions)",
    "the obligation generator /verif/vc (symbolic execution, loop summaries, memory model)",
    "polynomial normal forms over the rationals (vc/poly.py), z3 4.x, cvc5 1.1.2",
]
ASSUME = [
    "double arithmetic is treated as exact real arithmetic; the harness runs the compiled code in real doubles",
    "integer counters do not overflow; allocation succeeds",
    "sin, cos, atan2, asin, acos, exp, log, sqrt, pow, floor are the real functions",
    "sequential execution (OpenMP pragmas ignored, as in a build without -fopenmp)",
]
ASSUME_PROP = {
    "C01": ["induction over the level of a node and over the history of calls combines the contracts of the functions (recursive calls are checked against the same contract)",
            "two multisets of entries are equal if every weight function gives them the same weight", "box corners are finite and ordered (min <= max)",
            "an item is stored under one box at a time", "instance RTree<Item*, double, 2> with 8 branches per node, at least 4"],
    "C06": ["lap::lap gives an optimal assignment with duals that prove it (C05)", "entries are not NaN or minus infinity",
            "std::priority_queue, std::shared_ptr and std::sort meet the standard's contract (top: an element that no other is before, in the order of MurtyStatePtrCompare)",
            "induction over the history of draws: what holds of the queue at first (Murty::Murty, lemma: the whole matrix) is kept by every draw (draw; the models of solve, sort_by_dual, partition_with and partition_without there say what their contracts mean for one arbitrary assignment y: lemmas)"],
    "C05": ["entries are not NaN or minus infinity",
            "the steps from contracts to the statement are lemmas proved by induction (sums, pigeonhole, weak duality)"],
    "C07": ["Murty::draw delivers the hypotheses in order of nondecreasing cost, H of them (C06)", "sums over a finite range split summand by summand"],
    "C02": ["the spatial index does what its contract says (C01)"],
    "C04": ["std::map, std::set and std::vector meet the standard's contract", "std::sort, std::unique, std::set_difference and std::inserter meet the standard's contract; sensor.get_targets and TargetTree_::query list each target once (C01, C02)",
            "inductions over the length of a chain and over the list connect get_component's contract (closed, connected) with `the class of the first report' used in SILMB::cluster"],
    "C21": ["the spatial index returns the targets whose box touches the region (C01)", "GM::sample_pos fills every column (C22)", "the grid has at least one cell"],
    "C19": ["lap::lap gives an optimal assignment (C05)", "for x >= 0 and p >= 1, pow(x, p) is increasing and pow(pow(x, p), 1/p) = x", "the optimal assignment cost does not depend on the order of rows or columns"],
    "C13": ["std::sort, std::remove_if, std::priority_queue and std::vector insertion meet the standard's contract for the comparisons the code gives them", "hypothesis weights are not negative (C07)"],
    "C22": ["mixture weights are not negative and sum to one (C09, C13)", "column counts below 2^32"],
    "C23": ["a sum of n indicators lies in [0, n] (induction step discharged)"],
}
# functions of a property not (fully) under contract: the concrete harness samples them
BOUNDED = {
    "C06": ["rounding of the costs (harness: matrices up to 6 x 6 against complete enumeration, larger ones for order and validity)"],
    "C05": ["rounding of the costs (harness: matrices up to 14 x 24 with infinite entries against shortest paths and duals)"],
}

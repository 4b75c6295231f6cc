#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Spatial index answers every box query exactly",
 "After any sequence of inserting rectangles with items, removing them and clearing the spatial index, a rectangle query reports exactly the stored entries whose rectangle touches the query rectangle (shared edges and corners included), each stored entry once. Inserting adds exactly one entry, removing an item with the rectangle it was stored under takes away exactly that entry, removing an item that is not stored changes nothing, and clearing leaves nothing behind.",
 ["inputs", "histories"], "all finite rectangles (including degenerate points), all items, all insert/remove/clear histories and so all tree shapes and depths",
 "test_targettree inserts a handful of targets and never forces a node split, an underflow reinsertion or a root collapse in every combination; the claim is over all histories.",
 ["include/RTree.h", "include/targettree.hpp"],
 [("Insert/InsertRect/InsertRectRec, AddBranch, SplitNode (quadratic split), NodeCover, PickBranch", "include/RTree.h"),
  ("Remove/RemoveRect/RemoveRectRec with reinsertion of under-full nodes", "include/RTree.h"),
  ("Search/Overlap", "include/RTree.h")],
 [("m_root, Node::m_count/m_level/m_branch", "tree shape; branch rectangle bounds everything below it", "include/RTree.h")],
 ["RTree::Search", "TargetTree_::query"])

prop("C02", "Every live target is indexed once, with a unique id",
 "Between tracker operations the list of live targets and the spatial index hold exactly the same targets: every live target is found by a query that touches its current bounding box, exactly once, and no query returns a target that is no longer live. Each newly created target gets an id that no other target of the tracker ever had, and a target keeps its id for life.",
 ["histories", "inputs"], "all sequences of predict, correct (with births and deletions) and query calls with any reports",
 "Tests look at one or two targets after a few steps; a stale or missing index entry only appears on particular histories (deletion inside a cluster, boxes changing while indexed).",
 ["include/targettree.hpp", "include/lmb.hpp", "include/cluster.hpp"],
 [("new_target/replace/remove/erase/remove_all", "include/targettree.hpp"), ("remove-before-update and replace-after-update", "include/cluster.hpp Cluster_::correct"), ("remove_all and re-insert", "include/lmb.hpp SILMB::predict")],
 [("targets, tree, id_counter", "registry, index, next id", "include/targettree.hpp")], ["TargetTree_::query", "SILMB::get_targets"])

prop("C03", "Exactly the non-viable targets are dropped",
 "After a prediction, and after a correction for the targets it touched, a target is still tracked if and only if its existence probability is at least r_lim and the Frobenius norm of its positional covariance is at most cov_lim. No other target is removed and no viable target is lost.",
 ["inputs", "histories"], "all targets, thresholds and update sequences",
 "Tests only see a target survive or one disappear; they do not cover values at the thresholds or many targets deleted in one pass.",
 ["include/target.hpp", "include/lmb.hpp", "include/cluster.hpp"],
 [("viable", "include/target.hpp"), ("erase/replace decision", "include/lmb.hpp predict, include/cluster.hpp correct")],
 [("r, poscov, r_lim, cov_lim", "viability inputs", "include/target.hpp")], ["SILMB::get_targets", "TargetTree_::targets"])

prop("C04", "Clusters are the connected groups of reports and targets",
 "A correction splits the reports of a scan and the targets it affects into clusters such that every report and every affected target is in exactly one cluster, a report and a target whose bounding boxes match are always in the same cluster, and two members share a cluster only if a chain of such matches links them. Targets matched by no report form clusters of their own, and the cluster numbers recorded on reports and targets and the reported numbers of clusters agree with this grouping.",
 ["inputs"], "all scans and target sets, any match graph (chains, stars, cycles, isolated nodes)",
 "test_connectedcomponents uses one or two fixed graphs and test_lmb one or two clusters; the partition claim is over all graphs.",
 ["include/connectedcomponents.hpp", "include/lmb.hpp"],
 [("ConnectedComponents::init/connect/get_component", "include/connectedcomponents.hpp"), ("SILMB::cluster", "include/lmb.hpp")],
 [("connections", "remaining adjacency", "include/connectedcomponents.hpp")], ["Cluster_::reports/targets", "report cid, target cid", "nof_clusters, cluster_ntargets, cluster_nreports"])

prop("C05", "The assignment solver returns a minimum-cost assignment",
 "For every cost matrix with at least as many columns as rows, entries finite or +infinity, the solver returns a column for each row, all different, with the smallest possible total cost, whenever a finite-cost assignment exists; when none exists it says so. It always comes to an end, also when costs are tied or nearly tied. The dual variables it returns (whenever they are finite) prove the optimum: no entry is below the sum of its row and column dual, and chosen entries are equal to it.",
 ["inputs"], "all cost matrices (rectangular, with ties, negative and infinite entries)",
 "Tests use a few fixed matrices; optimality must hold over a continuum of costs and every tie and infinity pattern.",
 ["include/rlapjv.h"], [("rlap: augmenting row reduction and shortest augmenting path", "include/rlapjv.h"), ("lap: feasibility test", "include/rlapjv.h")],
 [("rowsol, colsol, u, v", "assignment and duals", "include/rlapjv.h")], ["lap::lap", "lap::cost"])

prop("C06", "Hypotheses are enumerated best first, once each, completely",
 "Drawing hypotheses from a cost matrix yields every complete finite-cost assignment exactly once, in order of nondecreasing total cost, each with the correct total cost in terms of the original matrix, and then reports exhaustion. No assignment is skipped, repeated or produced with an infinite-cost entry.",
 ["inputs"], "all cost matrices with negative, tied and infinite entries, all numbers of draws",
 "test_hypgen compares a few fixed matrices; the claim quantifies over all matrices and the whole enumeration.",
 ["include/murty.hpp", "include/rlapjv.h"], [("partition_with/partition_without, get_partition_index, sort_by_dual", "include/murty.hpp"), ("draw, solve", "include/murty.hpp")],
 [("queue", "open subproblems, ordered by cost bound", "include/murty.hpp")], ["Murty::draw", "Murty::draw_tuple"])

prop("C07", "Association weights are probabilities; existence stays in [0,1]",
 "In a correction of one cluster, hypotheses are used best first until one contributes less than w_lim or nhyp_max are used; each used one weighs exp(-cost) divided by the total of the used ones, a target's posterior existence probability is the total weight of the used hypotheses in which it is detected or missed (values below 1e-6 become zero), and a report's leftover birth probability is one minus the total weight of the hypotheses that assign it. All of these lie in [0,1] and are never NaN, and every tracked target's existence probability is in [0,1] after any sequence of operations.",
 ["inputs", "histories"], "all clusters, report sets, detection models and hypothesis limits",
 "Tests check one or two scalar cases; the sums run over hypothesis sets no fixed test enumerates, and extreme likelihoods (underflow, certain targets) are not sampled.",
 ["include/cluster.hpp", "include/target.hpp"], [("cost matrix and hypothesis accumulation", "include/cluster.hpp Cluster_::correct"), ("match/false_target/correct", "include/target.hpp")],
 [("R, w_sum, rB", "association weights, normaliser, leftover", "include/cluster.hpp")], ["Target r", "report rB"])

prop("C08", "Births follow the leftover-probability rule",
 "After a correction each report spawns at most one new target, and it does so exactly when its share lambdaB * rB / sum(rB) reaches r_lim (and the leftovers together reach r_lim); the newborn's existence probability is that share capped at rB_max. The newborn is one unit-weight Gaussian centred on the report with zero velocity, the report covariance for position and the sensor's velocity covariance, carries the report's cluster number, and total expected births never exceed lambdaB.",
 ["inputs"], "all scans, leftovers, lambdaB, r_lim and rB_max",
 "Tests birth from one or two reports with default parameters.",
 ["include/lmb.hpp", "include/sensors.hpp"], [("SILMB::birth", "include/lmb.hpp"), ("pdf_init1", "include/sensors.hpp"), ("new_target", "include/targettree.hpp")],
 [("rB, lambdaB, r_lim, rB_max", "birth inputs", "include/lmb.hpp")], ["SILMB::get_targets"])

prop("C09", "Measurement update is the exact Bayes/Kalman update",
 "Correcting a Gaussian component with a position report gives the exact linear-Gaussian posterior mean and covariance, and multiplies its weight by detection probability times the Gaussian likelihood of the innovation divided by the report's clutter intensity. Correcting a mixture does this to every component, returns the sum of the new weights as normaliser and leaves weights that sum to one (or an empty mixture if the total vanishes).",
 ["inputs"], "all means, positive definite covariances, reports, weights and component counts",
 "test_gaussian checks one numeric example per state size.",
 ["include/gaussian.hpp", "include/gm.hpp", "include/report.hpp"], [("Gaussian_::correct", "include/gaussian.hpp"), ("GaussianReport_::likelihood", "include/report.hpp"), ("GM::correct, normalize", "include/gm.hpp")],
 [("x, P, w, eta", "component state and normaliser", "include/gaussian.hpp")], ["Gaussian_::correct", "GM::correct"])

prop("C10", "Covariances stay symmetric positive semidefinite",
 "Starting from symmetric positive semidefinite covariances, prediction, correction and mixture reduction keep every component covariance, every mixture covariance and every newborn covariance symmetric positive semidefinite. A correction never increases a component's covariance, and a prediction with the constant-velocity model never adds anything that is not positive semidefinite.",
 ["inputs", "histories"], "all states and covariances, all dt >= 0, any sequence of operations",
 "Definiteness is a for-all-directions claim; tests compare single numbers.",
 ["include/gaussian.hpp", "include/models.hpp", "include/gm.hpp", "include/sensors.hpp"], [("linear_update, correct", "include/gaussian.hpp"), ("process noise", "include/models.hpp"), ("cov", "include/gm.hpp"), ("pdf_init1", "include/sensors.hpp")],
 [("P", "component covariance", "include/gaussian.hpp")], ["Gaussian_::cov", "GM::cov"])

prop("C11", "Prediction follows the motion model and composes over time",
 "Constant-velocity prediction over dt moves position by velocity times dt (scaled by tscale), leaves velocity unchanged, transforms every component's covariance with the matching transition and white-acceleration noise of intensity q, keeps weights, and multiplies existence by pS^dt; the random-walk model adds its Q and multiplies existence by pS. With constant velocity, predicting t0 to t1 and then t1 to t2 equals predicting t0 to t2, and dt = 0 changes nothing.",
 ["inputs", "histories"], "all states, dt, pS, q, tscale and component counts",
 "Tests predict one target for one time step with default parameters.",
 ["include/models.hpp", "include/gaussian.hpp", "include/gm.hpp", "include/target.hpp"], [("CV::operator(), NM::operator()", "include/models.hpp"), ("linear_update", "include/gm.hpp"), ("Target_::predict", "include/target.hpp")],
 [("x, P, r", "state, covariance, existence", "include/target.hpp")], ["SILMB::predict", "SILMB::get_targets"])

prop("C12", "Mixture mean and covariance are moment matched",
 "The reported mean of a mixture is the weighted sum of the component means, and its covariance is the weighted sum of the component covariances plus the weighted spread of the component means about the reported mean, for any number of components. Position and velocity views are the leading and trailing parts of these.",
 ["inputs"], "all mixtures, any number of components",
 "Tests evaluate one or two components.",
 ["include/gm.hpp"], [("mean, cov, pos, poscov, velcov", "include/gm.hpp")], [("c", "components", "include/gm.hpp")], ["GM::mean", "GM::cov"])

prop("C13", "Mixture reduction keeps the heaviest components, normalised",
 "After pruning or merging, a mixture has at most the maximum number of components, in order of nonincreasing weight, with weights summing to one; components below the weight limit are dropped (when merging: components whose share of the weight kept so far, themselves included, is below the limit, and all lighter ones), and no dropped component outweighs a kept one. Each kept component has unchanged mean and covariance and a weight proportional to its input weight (times its hypothesis weight when mixtures are merged).",
 ["inputs"], "all component lists, weights, hypothesis weights and limits",
 "Tests prune small fixed mixtures and never exceed the component limit.",
 ["include/gm.hpp"], [("normalize, prune, join, operator+=", "include/gm.hpp")], [("c, eta", "components and normaliser", "include/gm.hpp")], ["GM::prune", "GM::join"])

prop("C14", "Local tangent frames are exact and invertible",
 "For every origin the conversion from earth-centred to local north-east-down coordinates and back is an exact inverse pair, maps the origin to zero, preserves all distances, and has axes pointing north, east and down. Forward geodetic conversion puts points of zero altitude on the WGS-84 ellipsoid and moves along its normal with altitude, and every two-dimensional variant gives the same answer as the three-dimensional one at zero altitude.",
 ["inputs"], "all origins, points, latitudes, longitudes and altitudes",
 "test_cf compares a handful of coordinates.",
 ["include/cf.hpp"], [("nedrot, nerot, lla2ecef, ll2ecef, ecef2ned, ned2ecef, ecef2ne, ll2ne, lla2ned", "include/cf.hpp")], [], ["cf::lla2ned", "cf::ll2ne", "cf::ned2ecef"])

prop("C15", "Geodetic conversion and local round trips lose nothing",
 "Converting geodetic coordinates to earth-centred ones and back returns the same point to well below a millimetre for latitudes in [-90,90] and altitudes between -10 km and 20 km, and the two-dimensional variant agrees with the three-dimensional one. Moving a position to local north-east coordinates and back again returns it to within a relative error that vanishes with distance (better than 1e-5 of the distance within 10 km).",
 ["inputs"], "all coordinates on and near the ellipsoid, both branches of the series, both hemispheres, all longitudes",
 "test_cf round-trips a few points in one region of the globe.",
 ["include/cf.hpp"], [("ecef2lla, ecef2ll (Olson series)", "include/cf.hpp"), ("ne2ecef, ne2ll, ll2ne", "include/cf.hpp")], [], ["cf::ecef2lla", "cf::ne2ll"])

prop("C16", "Gaussian bounding boxes have the right size and orientation",
 "The axis-aligned box of a Gaussian is centred on the mean with half-width nstd standard deviations along each axis, that is nstd times the square root of the matching diagonal covariance entry. The oriented box is the rectangle centred on the mean whose half-axes are nstd standard deviations along the principal axes, and a mixture's axis-aligned box is exactly the hull of its components' boxes.",
 ["inputs"], "all means, positive semidefinite covariances, nstd > 0, any number of components",
 "test_bbox uses one isotropic or diagonal covariance, which cannot tell the axes apart.",
 ["include/bbox.hpp", "include/gm.hpp", "include/gaussian.hpp"], [("AABBox::from_gaussian, BBox::from_gaussian", "include/bbox.hpp"), ("update_local_bbox", "include/gm.hpp")], [("min, max, corners", "box geometry", "include/bbox.hpp")], ["AABBox", "BBox", "GM::aabbox"])

prop("C17", "Box containment and intersection are geometrically correct",
 "Axis-aligned boxes intersect exactly when they share a point, contain exactly the points inside or on them, and are built with minimum below maximum whatever corner order is given. Convex four-corner boxes contain every interior point and no exterior point, two of them are reported as intersecting when their interiors overlap and as disjoint when they are separated, the answer does not depend on argument order, and the axis-aligned hull of a box contains all its corners tightly.",
 ["inputs"], "all boxes and points, including crossing, nested, rotated and nearly separated boxes",
 "test_bbox tries a few positions; crossings without contained corners and argument order are not covered.",
 ["include/bbox.hpp"], [("AABBox::intersects/within", "include/bbox.hpp"), ("BBox::within/intersects/aabbox", "include/bbox.hpp")], [("corners, min, max", "box geometry", "include/bbox.hpp")], ["BBox::intersects", "AABBox::intersects"])

prop("C18", "Queries and metrics do not change the tracker",
 "Asking for the number, list, intensity map, OSPA or GOSPA of targets changes neither any target (state, covariance, weights, existence, bounding boxes, ids) nor the spatial index, so repeating or interleaving such calls anywhere leaves all later results exactly the same (for a fixed stream of random draws, which the intensity map also consumes). Returned summaries own their data and stay valid when copied, moved or stored.",
 ["histories", "inputs"], "all interleavings of queries with updates, all metric origins",
 "Tests call each query once and do not compare the state before and after.",
 ["include/lmb.hpp", "include/target.hpp"], [("ospa, gospa, pos_phd, get_targets, enof_targets, nof_targets", "include/lmb.hpp"), ("TargetSummary_", "include/target.hpp")], [("pdf, bbox, aabbox", "target state", "include/gm.hpp")], ["SILMB::ospa", "SILMB::gospa", "SILMB::pos_phd", "SILMB::get_targets"])

prop("C19", "OSPA and GOSPA are the defined metrics",
 "OSPA equals the p-th root of the average of cut-off distances (to the power p) over the best assignment of targets to truths with every unmatched one charged the cut-off c; GOSPA equals the p-th root of the assigned sum with c^p/2 for every unmatched one. Hence both are never negative, OSPA is never above c, both vanish when truth and targets coincide, and neither depends on the order of the truths.",
 ["inputs"], "all target and truth sets (also of different sizes and empty), cut-offs c > 0 and orders p >= 1",
 "Tests evaluate a couple of fixed scenes.",
 ["include/lmb.hpp", "include/target.hpp", "include/rlapjv.h"], [("ospa, gospa", "include/lmb.hpp"), ("distance", "include/target.hpp"), ("lap, cost", "include/rlapjv.h")], [], ["SILMB::ospa", "SILMB::gospa"])

prop("C20", "Target counts and lists agree with the tracked targets",
 "The expected number of targets is the sum of existence probabilities, the number of targets at a limit counts exactly those at or above the limit, and the target list has one entry per target with its mean, covariance, existence probability, id and cluster number. The region versions do the same over exactly the targets whose bounding box touches the region.",
 ["inputs", "histories"], "all target populations, limits and regions",
 "Tests use one to three targets and a single limit.",
 ["include/lmb.hpp", "include/target.hpp", "include/targettree.hpp"], [("enof_targets, nof_targets, get_targets", "include/lmb.hpp"), ("query", "include/targettree.hpp")], [("targets", "registry", "include/targettree.hpp")], ["SILMB::enof_targets", "SILMB::nof_targets", "SILMB::get_targets"])

prop("C21", "The intensity map never invents targets",
 "Every cell of the position intensity map is non-negative, a target contributes at most its existence probability in total and only in cells its samples fall in, and targets whose boxes lie outside the requested region contribute nothing. When the region contains essentially all of a target's probability mass, the map sums to its existence probability.",
 ["inputs"], "all targets, mixtures (any component weights), regions and grid sizes",
 "test_lmb prints a map of one target and asserts nothing about mass.",
 ["include/lmb.hpp", "include/gm.hpp"], [("pos_phd", "include/lmb.hpp"), ("sample_pos", "include/gm.hpp")], [("samples, res", "sample buffer, map", "include/lmb.hpp")], ["SILMB::pos_phd"])

prop("C22", "Samples have the requested mean and covariance",
 "Every Gaussian sample drawn is the mean plus a fixed linear image of independent standard normal draws, one fresh draw per dimension and sample, and the linear map times its transpose is exactly the requested covariance. Every column asked for is filled and nothing else is written; drawing from a mixture fills every requested column, taking columns from the components in proportion to their weights.",
 ["inputs"], "all means, positive semidefinite covariances, sample counts and mixtures",
 "test_statistics compares empirical moments with a loose tolerance for one covariance.",
 ["include/statistics.hpp", "include/gm.hpp", "include/gaussian.hpp"], [("nrand", "include/statistics.hpp"), ("sample, sample_pos", "include/gm.hpp, include/gaussian.hpp")], [], ["nrand", "GM::sample_pos"])

prop("C23", "Detection and missed-detection probabilities are consistent",
 "The detection probability of a component is the sensor's pD times the fraction (estimated from samples) of its distribution inside the field of view as seen in the local frame, so it lies between zero and pD and is pD (respectively zero) when the component is entirely inside (outside) the view. The missed-detection factor of a mixture is one minus the weighted sum of its components' detection probabilities, and a report built from a sensor carries the sensor's kappa.",
 ["inputs"], "all components, fields of view, pD in [0,1] and mixtures",
 "Tests use full coverage with pD = 1 or a single value.",
 ["include/sensors.hpp", "include/gaussian.hpp", "include/gm.hpp", "include/report.hpp"], [("pD, kappa", "include/sensors.hpp"), ("overlap", "include/gaussian.hpp"), ("missed, overlap", "include/gm.hpp")], [], ["PositionSensor::pD", "GM::missed"])

prop("C24", "Parallel execution gives the sequential result",
 "With OpenMP enabled, the parallel loops over targets, components, clusters and reports have no data races, so for a fixed stream of random draws every schedule and thread count gives the result of sequential execution up to the numbering of newborn targets.",
 ["schedules"], "all thread counts and interleavings",
 "Tests run one schedule on small inputs.",
 ["include/omp.hpp", "include/lmb.hpp", "include/statistics.inc"], [("PARFOR, CRITICAL(ttree)", "include/omp.hpp")], [("gen, ndist", "shared generator", "include/statistics.inc")], ["SILMB::predict", "SILMB::correct"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=True) + "\n")

"""what MANIFEST.json says about each property"""
TECHNIQUE = "contracts on the real functions (LLVM IR), obligations discharged by polynomial identities and SMT"
TECH = {}
NOTE = {
    "C01": "Proved for nodes of any content and level (every branch count 0..8): comparison and covers of boxes, search, adding and removing branches, splits (every branch in exactly one half, at least four each), insertion and removal down the tree with the cover invariant and conservation of entries, re-insertion, root growth and collapse, clearing, construction. Assumed: induction over levels and calls. Bounded: whole histories in real doubles (harness). Load/Save and iterators are not part of the claim.",
    "C02": "Proved for any number of targets: new ids are the counter's old value and the counter grows by one per call, list and index change together, erase drops exactly the named entries, queries return what the index callback visits, prediction and cluster correction remove every target under its old box and store it under its new one or erase it. Assumed: the spatial index contract (C01).",
    "C03": "Proved: the viability predicate equals r >= r_lim and Frobenius norm of the positional covariance <= cov_lim; prediction keeps exactly the viable targets; the correction of a cluster stores every viable target again once and erases every other one once, for any number of targets, reports and hypotheses.",
    "C04": "Proved for graphs of any size, against the containers' contracts: get_component lists each node once, the list contains the map's first node, is closed under neighbours and connected (each node is the neighbour of one listed before), exactly its entries are erased, and says when nothing is left; init and connect; SILMB::cluster for any number of reports and targets: the match lists, the graph (reports are connected exactly if a target matches both: symmetric), the rounds that turn components into clusters, the targets left over: every report and every affected or matched target is in exactly one cluster, with that cluster's number; matching reports and targets share one; equal numbers only where a chain of matches leads; nof_clusters.",
    "C05": "Proved for matrices of any size, over the reals, with any pattern of infinite entries: Jonker-Volgenant (row reduction, shortest augmenting paths, prices) returns different columns by finite entries, with duals that prove the optimum (columns whose price falls to minus infinity are settled: every assignment gives them to their rows), and ends; lap::lap says yes exactly when a finite assignment exists (Kuhn's matching, Hall's theorem); cost is the sum of the entries. Bounded: rounding (harness).",
    "C06": "Proved for matrices of any size and any number of draws: the subproblems (an entry bound, an entry excluded: matrix, maps, duals, costs), solving one, the bound of each row, the order of the queue; the loops of draw over the queue of subproblems, seen through one arbitrary assignment: it is in exactly one subproblem or has been drawn, once; draws end, come in order of cost, say no only when nothing is left; the offset of the constructor. Lemmas: what the contracts mean for sets of assignments. Assumed: C05, std::priority_queue. Bounded: rounding.",
    "C07": "Proved for any number of targets, reports and hypotheses: cost matrix, use of hypotheses up to the first below w_lim or nhyp_max, weights exp(-cost) over their total, each target's row, leftover birth probability, false-target factors, posterior mixture and existence. Assumed: Murty's contract (C06).",
    "C08": "Proved for any number of reports and clusters: share lambdaB*rB/sum(rB), the two thresholds, the cap, one call per report, newborn's fields, total births at most lambdaB. Bounded: which rB a correction leaves (C07).",
    "C18": "Proved: counts, lists, summaries, intensity map, OSPA and GOSPA leave every target, the index and the counters as they were (frame conditions over every store; mixtures moved to the local frame get their saved copies back), and return owned copies. Bounded: interleaved histories (harness).",
    "C20": "Proved for any number of targets: sum of r, number at or above a limit, one summary per target with its fields, region versions over exactly what the query returns. Assumed: the query's contract (C01).",
    "C09": "Proved for all inputs over the reals: component posterior (information form), weight factor, mixture normalisation for any number of components. Detection probability is any value here (C23). Bounded: floating-point accuracy, sampled by the harness.",
    "C10": "Proved over the reals: corrected covariance = (I-KH)P(I-KH)'+KRK', decrease = PH'S^-1HP, CV noise as a sum of outer products with nonnegative factors, symmetry. Trusted: congruences and nonnegative sums of PSD matrices are PSD; mixture reduction keeps component covariances (C13). Bounded: rounding, histories.",
    "C11": "Proved over the reals for every F, Q, dt, tscale, pS, q and component count: CV and NM contracts, composition, dt=0. Trusted: pS^(a+b)=pS^a pS^b. Bounded: the round trip through the local frame inside SILMB::predict.",
    "C12": "Proved over the reals for any number of components (loop summaries by induction).",
    "C13": "Proved for any number of components and hypotheses (limit 10 components): prune keeps exactly those at or above the limit, heaviest first, at most ten, each once and unchanged; sums reduce the concatenation; merging takes the heaviest remaining component each round, stops only at the limit, the maximum or the end; weights sum to one. Assumed: contracts of the standard library's sort, remove_if, heap and vector. Bounded: rounding, limit 200 (harness).",
    "C14": "Proved over the reals for all origins and points: axes, orthonormality, inverse pair, isometry, ellipsoid equation, normal, planar = spatial at altitude zero. Bounded: rounding (harness).",
    "C15": "Proved over the reals for all latitudes, longitudes and altitudes in [-10 km, 20 km]: latitude within 3e-12 rad, altitude within 0.01 mm (Taylor models of the functions' own expressions), exact longitude, mirror symmetry, planar = spatial. Bounded: relative error of the local round trip, rounding (harness).",
    "C16": "Proved over the reals for every covariance, mean, nstd and component count, against the contract of Eigen's 2x2 eigen solver (assumed: orthonormal ascending eigenpairs). Bounded: rounding, singular covariances (harness).",
    "C17": "Proved over the reals for all boxes and points. Trusted: the separating axis theorem (disjoint convex quadrilaterals are separated by an edge normal); its converse is proved. Bounded: rounding (harness).",
    "C19": "Proved for any number of targets and truths: the cost matrix entry by entry, the cut-off, the padding, the aggregation over an optimal assignment, the frame of the distance (origin at the mean of all points), swap symmetry of one entry, 0 <= OSPA <= c. Assumed: optimality of lap::lap (C05). Bounded: metric axioms across sets (harness).",
    "C21": "Proved for any number of targets and grid size: each cell is the sum over the queried targets of r times the share of its 1000 local samples falling in that cell; no cell is negative, a sample counts in one cell at most and in one exactly when it lies in the region; the region queried is the one asked for; every target's mixture is restored. Assumed: the index's query (C01), samples (C22). Bounded: the statistical statement about mass (harness).",
    "C22": "Proved over the reals for every mean, covariance, column count and block: linear map of fresh draws, T T' = P, every column written once, mixture columns by rounded cumulative weight. Assumed: Eigen's decomposition P = E L E', independence and normality of the generator's draws.",
    "C23": "Proved over the reals: overlap is the share of samples inside, pD = sensor pD times overlap with the local field of view, missed factor, kappa. The estimate's accuracy is statistical (harness).",
}
NA = {
    "C24": "data-race freedom over all OpenMP schedules is a property of interleavings: the contracts here describe sequential executions, and the shared random generator makes the claim false as stated for any sampled field-of-view overlap",
}

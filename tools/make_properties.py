"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


AZP = "region/p_regions/azp.py"
AZU = "region/p_regions/azp_util.py"
PEX = "region/p_regions/exact.py"
MEX = "region/max_p_regions/exact.py"
MHE = "region/max_p_regions/heuristics.py"
OBJ = "region/objective_function.py"
UTI = "region/util.py"
CSG = "region/csgraph_utils.py"
SKA = "region/skater/skater.py"

prop("P01", "Heuristic p-regions results are complete, contiguous and have exactly p regions",
     "For every contiguity graph (connected or not), attribute table and feasible number of regions p, each of AZP, AZPSimulatedAnnealing, AZPBasicTabu and AZPReactiveTabu finishes without an error and leaves in labels_ one label per area, exactly p distinct labels, and every label's areas connected in the graph. This holds with a random start and with any valid starting partition, for every seed, search parameter and objective function.",
     ["inputs", "configurations"],
     "all symmetric contiguity graphs incl. disconnected ones and islands, 1 <= p <= n with p at least the number of components, all attribute values incl. ties, all seeds, all four algorithms, all documented parameter values and objective functions, with or without starting labels (any distinct non-negative integers as labels)",
     "The unit tests run one 3x3 grid with p=2 and one seed per algorithm; the 12 reactive-tabu tests do not even pass. Feasibility must survive every sequence of random moves on every graph.",
     [AZP, AZU, UTI, CSG],
     [("donor-contiguity test before every move", AZP + " AZP._azp_connected_component"), ("_make_move revert", AZP + " AZPTabu._make_move"), ("component-wise solving", AZP + " AZP.fit_from_scipy_sparse_matrix"), ("random start", UTI + " generate_initial_sol")],
     ["labels_ after fit*"],
     [("region_neighbors", "areas bordering each region, maintained incrementally while areas move", AZP), ("tabu / visited", "search memory of the tabu variants", AZP)])

prop("P02", "AZP and tabu never worsen the objective and AZP stops at a local optimum",
     "Started from any valid partition, AZP, AZPBasicTabu and AZPReactiveTabu return a partition whose objective value is not larger than that of the start. When no two candidate moves tie, the partition AZP returns cannot be strictly improved by moving any single area into an adjacent region without emptying or disconnecting the region it leaves.",
     ["inputs", "configurations"],
     "all graphs, attributes, valid starts, seeds and objective functions; the local-optimum part over all runs in which no considered move changed the objective by zero",
     "Tests compare one run on one map with the known best clustering; a bookkeeping error that hides a candidate move or accepts a worsening one still reaches that clustering.",
     [AZP, AZU, OBJ],
     [("accept only non-positive differences", AZU + " AllowMoveAZP.__call__"), ("repeat until no improving move", AZP + " AZP._azp_connected_component"), ("candidate bookkeeping", AZP + " region_neighbors")],
     ["objective of labels_ vs objective of the start", "all single-area moves from labels_"])

prop("P03", "Objective value follows its definition and update() is the exact change",
     "Calling an objective function on (labels, attributes) returns the documented quantity: the sum of pairwise within-region distances, or the reduction of the distances to the region centres, whatever the labels' values or the order of the areas. For every area and every other existing region whose choice leaves the donor non-empty, update() equals the objective after the move minus the objective before it, and neither call changes its arguments.",
     ["inputs", "configurations"],
     "all label arrays, attribute tables with one or more columns, metrics (the scikit-learn names and vectorised callables), centres and reductions, and all moves that leave the donor region non-empty",
     "There are three doctest values for __call__ and none at all for update(), on which every heuristic decision rests.",
     [OBJ, UTI],
     [("pairwise value and difference", OBJ + " ObjectiveFunctionPairwise"), ("centre value and difference", OBJ + " ObjectiveFunctionCenter"), ("metric lookup", UTI + " get_metric_function")],
     ["return values of __call__ and update", "labels and attr after the call"])

prop("P04", "PRegionsExact returns an optimal feasible clustering with every method",
     "For every feasible p-regions problem each of the methods 'flow', 'order' and 'tree' returns a partition of all areas into exactly p contiguous regions whose sum of pairwise within-region distances under the requested metric is the minimum over all such partitions. After the fit method, metric, n_regions and solver report what was requested.",
     ["inputs", "configurations"],
     "all contiguity graphs (connected or not), attributes with one or more columns incl. ties and constants, metrics, every p from the number of components to n, all three formulations",
     "The tests solve one 3x3 map with p=2 and duplicated columns; the formulations differ exactly at the extremes (regions of size n-p+1, p=n, p=n-1, zero distances, several attributes).",
     [PEX, UTI],
     [("flow model", PEX + " _flow"), ("order model", PEX + " _order"), ("tree model", PEX + " _tree"), ("solution read-out", PEX)],
     ["labels_ vs brute-force optimum", "method, metric, n_regions, solver attributes"])

prop("P05", "MaxPRegionsExact maximises the number of regions, then homogeneity",
     "For every feasible max-p-regions problem the returned partition has contiguous regions, every region reaches the threshold in every spatially extensive attribute, the number of regions is the largest possible, and among partitions with that many regions its sum of pairwise within-region distances is minimal.",
     ["inputs", "configurations"],
     "all contiguity graphs (connected or not), attributes incl. constants and ties (magnitudes well above the solver's tolerances), one or several spatially extensive attributes, scalar or per-attribute thresholds, all metrics",
     "The tests solve one 2x2 map. The weighting of the two goals, the threshold rows and the contiguity orders only matter on other maps.",
     [MEX, UTI],
     [("two-level objective weight h", MEX), ("threshold constraints", MEX), ("contiguity order constraints", MEX)],
     ["labels_ vs brute-force optimum"])

prop("P06", "MaxPRegionsHeu regions are contiguous, complete and all reach the threshold",
     "For every feasible max-p-regions problem with non-negative spatially extensive attributes, MaxPRegionsHeu assigns every area to exactly one contiguous region, and each region's sum reaches the threshold in every spatially extensive attribute, whichever local search is configured. The number of regions never exceeds the best possible number.",
     ["inputs", "configurations"],
     "all contiguity graphs incl. disconnected ones in which every component can reach the threshold, all attributes, one or several spatially extensive attributes with scalar or array thresholds, all seeds, max_it values, objective functions and local searches (default, AZP, simulated annealing, basic and reactive tabu)",
     "Tests run one 2x2 map with unit weights and the default local search; nothing checks the threshold itself nor the other local searches.",
     [MHE, AZU, AZP],
     [("grow_regions / assign_enclaves", MHE), ("threshold-preserving move filter", AZU + " AllowMoveAZPMaxPRegions"), ("local search hand-over", MHE)],
     ["labels_ after fit*"])

prop("P07", "The max-p move filter keeps thresholds and hides no other improving move",
     "The threshold filter permits a move exactly when the wrapped strategy permits it and both the region the area leaves and the region it joins still reach the threshold in every spatially extensive attribute, including negative values; a move that the threshold rules out leaves the wrapped strategy's state unchanged. Consequently, without ties, no single contiguity- and threshold-preserving move improves the partition returned by MaxPRegionsHeu with its default local search.",
     ["inputs", "histories"],
     "all label arrays whose regions reach the threshold, all moves and sequences of moves, spatially extensive attributes of any sign with one or several columns; all max-p problems for the local-optimum part",
     "No test calls the filter; with the unit weights of the only max-p test map every move out of a two-area region is forbidden, so neither branch is told apart.",
     [AZU, MHE],
     [("AllowMoveAZPMaxPRegions.__call__", AZU), ("decorated strategy state (objective_val)", AZU)],
     ["return value of the strategy", "objective_val", "labels_ of MaxPRegionsHeu"])

prop("P08", "All input formats describe the same problem to the algorithms",
     "A problem given as sparse matrix, neighbour dictionary, networkx graph (attributes as node attribute names or as dict), PySAL W or GeoDataFrame is solved as the same problem: adjacency, attributes, spatially extensive attributes and starting labels stay attached to the same areas whatever the area names and their order. labels_ is in matrix/W/GeoDataFrame row order, in sorted key order for dictionaries, and in node order for graphs.",
     ["inputs"],
     "all maps, area names (integers, strings, tuples) in any insertion order, one or several attributes, all fit_from_* methods of all estimators, with and without starting labels",
     "In the test data every format lists the areas 0..8 in sorted order, so any mix-up of orders is invisible, and no test passes starting labels.",
     [AZP, PEX, MEX, MHE, UTI],
     [("fit_from_dict / fit_from_networkx / fit_from_w / fit_from_geodataframe", AZP + ", " + PEX + ", " + MEX + ", " + MHE), ("converters", UTI)],
     ["problem seen by the objective function", "optimality of labels_ for the keyed problem"])

prop("P09", "Infeasible or malformed problems are rejected and publish no labels",
     "A request that has no solution or is malformed is answered with an exception (ValueError where the arguments can be checked) instead of labels: more regions than areas, fewer regions than connected components, a non-positive number of regions, starting labels that are non-contiguous or have the wrong number of regions, an unreachable threshold, unknown method, solver, metric or contiguity names, mismatching dict keys, invalid search parameters. A rejected fit leaves the estimator's earlier labels_ as they were.",
     ["inputs", "histories"],
     "all infeasible problems and invalid argument values of the listed kinds for every estimator and entry point, on fresh and on previously fitted instances",
     "Tests only cover two ValueErrors of assert_feasible; no estimator is ever given an infeasible problem.",
     [AZP, AZU, PEX, MEX, MHE, UTI, SKA],
     [("argument checks", PEX + ", " + MHE + ", " + MEX), ("assert_feasible / generate_initial_sol checks", UTI), ("solver status check", PEX + ", " + MEX)],
     ["exception type", "labels_ after the failed call"])

prop("P10", "A given random_state makes every heuristic reproducible",
     "Creating an estimator with a fixed random_state (int, str or bytes) and fitting it on the same problem gives identical labels every time, irrespective of how the global random number generators were used before, and of the process or hash seed it runs in.",
     ["inputs", "histories", "configurations"],
     "all problems, all heuristics (AZP, simulated annealing, both tabus, MaxPRegionsHeu with default or seeded local search), all seeds, all prior states of the global generators, all PYTHONHASHSEED values",
     "The tests fix random_state=0 but never compare two runs; an unseeded source of randomness passes as long as the small map has one answer.",
     [AZP, MHE, UTI],
     [("random.seed in constructors", AZP + ", " + MHE), ("all randomness through random", UTI)],
     ["labels_ of repeated runs"])

prop("P11", "Earlier fits do not influence later fits",
     "An estimator instance can be fitted any number of times, on problems of different size and through different entry points and also after a failed fit, and every fit satisfies the same guarantees as on a fresh instance. For estimators that draw no random numbers or reseed on every fit (exact solvers, SKATER, seeded simulated annealing) the labels equal those of a fresh instance.",
     ["histories"],
     "all sequences of successful and rejected fits on one or several interleaved instances of every estimator",
     "Every test constructs a new object and fits once.",
     [AZP, AZU, PEX, MEX, MHE, SKA],
     [("per-fit state reset", AZP + " reset_tabu, visited"), ("allow_move_strategy hand-over", MHE)],
     ["labels_ after each fit of a sequence"],
     [("visited, tabu, avg_it_until_rep, move_made", "search memory kept on the instance", AZP), ("local_search.allow_move_strategy", "strategy replaced by the max-p filter", MHE)])

prop("P12", "Fitting never modifies the caller's data",
     "No fit method changes its inputs: adjacency matrix, attribute arrays, dictionaries, graphs, W objects (including their transformation), GeoDataFrames, thresholds and starting labels are the same before and after, whether the fit succeeds or fails.",
     ["inputs", "histories"],
     "all estimators and all entry points on all valid problems and on rejected ones",
     "No test looks at its inputs after the call; module-level test data are shared between tests without ever being compared.",
     [AZP, MHE, PEX, MEX, SKA, UTI],
     [("copies of starting labels", UTI + " separate_components"), ("region growing on copies", MHE + " grow_regions"), ("W transformation", SKA + " fit")],
     ["inputs before vs after"])

prop("P13", "SKATER regions are contiguous, respect the quorum and have the requested number",
     "Spanning_Forest.fit returns one label per observation, numbered 0..k-1, with every region connected in the weights graph and, if the map can satisfy it at all, no region smaller than the quorum. On a connected map k equals n_clusters unless no further cut of the spanning forest satisfies the quorum; on a disconnected map k counts the map's components as documented for islands='ignore' (towards n_clusters) or 'increase' (added to n_clusters).",
     ["inputs", "configurations"],
     "all symmetric binary weights (connected, disconnected, islands), all data incl. duplicates and no data at all, all n_clusters incl. infinity, quorums, dissimilarities or affinities, centres and reductions",
     "The only SKATER tests need a download, cannot run offline and check nothing but absence of exceptions.",
     [SKA],
     [("minimum spanning forest then best-cut loop", SKA + " Spanning_Forest.fit"), ("quorum via infinite score", SKA + " score")],
     ["current_labels_, minimum_spanning_forest_"])

prop("P14", "SKATER cuts a minimum spanning tree greedily by correct scores",
     "The forest SKATER prunes is a minimum-dissimilarity spanning forest of the contiguity graph, and every cut it makes gives the lowest score among all quorum-respecting single-edge cuts available at that point. score() is the reduction of the dissimilarities between the members and the centre of each region for arbitrary label values, and infinite exactly if some region is below the quorum.",
     ["inputs", "histories"],
     "all weights graphs, data tables, quorums, dissimilarities, centres and reductions; every prefix of the sequence of cuts; all label arrays for score()",
     "No offline test exercises skater.py at all.",
     [SKA],
     [("minimum_spanning_tree", SKA + " fit"), ("find_cut / make_cut", SKA), ("score", SKA)],
     ["minimum_spanning_forest_", "_trace via trace=True", "score(), find_cut(), make_cut()"])

prop("P15", "Random initial solutions are feasible for every map and p",
     "generate_initial_sol partitions every map into exactly the requested number of regions: one array per connected component that is -1 outside the component, with regions that are contiguous, lie inside one component and are never shared between components. Every component gets at least one region and never more than it has areas.",
     ["inputs"],
     "all contiguity graphs, all p between the number of components and the number of areas, all states of the random number generator",
     "One doctest splits one path graph; disconnected maps and the extremes p=1, p=n and p=number of components are never generated.",
     [UTI],
     [("distribute_regions_among_components", UTI), ("_randomly_divide_connected_graph", UTI), ("generate_initial_sol", UTI)],
     ["yielded arrays"])

prop("P16", "Feasibility checks and graph helpers agree with graph theory",
     "assert_feasible raises exactly when some region is disconnected in the adjacency graph or the number of regions differs from the requested one, and boolean_assert_feasible gives the same verdict as a bool for contiguity. is_connected, neighbors, sub_adj_matrix (with and without excluded nodes) and separate_components agree with their definitions on every graph.",
     ["inputs"],
     "all adjacency matrices, label arrays and node subsets",
     "Four hand-made two-node cases and a few doctests; every move decision of the heuristics goes through these helpers.",
     [UTI, CSG],
     [("assert_feasible, boolean_assert_feasible, separate_components", UTI), ("is_connected, neighbors, sub_adj_matrix", CSG)],
     ["return values and exceptions"])

prop("P17", "Simulated annealing accepts by the Metropolis rule and keeps exact books",
     "The simulated-annealing strategy always accepts a move that does not worsen the objective and accepts one that worsens it by d with probability exp(-d/T) at the current temperature T, which is multiplied by cooling_factor after every round of step b; its running objective value changes by the true difference of every accepted move and of no refused one. It reports every accepted move, and reports reaching the limit of worsening moves as soon as, and never before, that many were accepted since the last reset; with a vanishing temperature the whole algorithm never ends worse than it started.",
     ["inputs", "histories"],
     "all partitions, moves, temperatures and move sequences with temperature updates and resets, all seeds",
     "The tests only look at the final clustering of one map, which a wrong acceptance probability or wrong accounting leaves unchanged.",
     [AZU, AZP],
     [("AllowMoveAZPSimulatedAnnealing.__call__", AZU), ("observer notification", AZU), ("cooling", AZP + " AZPSimulatedAnnealing")],
     ["acceptance frequencies", "objective_val", "observer calls"])

prop("P18", "Every heuristic terminates, also on maps full of ties",
     "On every feasible problem, including maps where many or all moves leave the objective unchanged, AZP, both tabu variants and MaxPRegionsHeu return after a bounded number of objective evaluations. AZPBasicTabu stops wandering along equivalent solutions once one has been seen repetitions_before_termination times, and AZPReactiveTabu stops within max_iterations iterations. AZPSimulatedAnnealing with finite parameters stops as soon as a round of step b has ended with a solution for the repetitions_before_termination + 1st time, or nonmoving_steps_before_stop rounds went by without a move.",
     ["inputs", "configurations"],
     "all maps with constant, two-valued or otherwise tied attributes, all graph shapes, tabu lengths, repetition limits, iteration limits and seeds",
     "The test maps have distinct attribute values, so the plateau moves on which the searches can cycle never occur.",
     [AZP, MHE],
     [("repetition counter", AZP + " AZPBasicTabu, AZPSimulatedAnnealing"), ("strict improvement between sweeps", AZP + " AZP"), ("max_iterations", AZP + " AZPReactiveTabu")],
     ["number of objective evaluations", "return of fit"])

prop("P19", "Converters keep every value attached to its area",
     "The conversion helpers (dict, list of regions, networkx graph, W, DataFrame and GeoDataFrame to arrays or sparse matrices, and dataframe_to_dict) neither lose, invent nor permute values: row i of the result belongs to the i-th area in the documented order, columns keep the requested order, and adjacency entries are non-zero exactly for neighbouring areas. Rook contiguity joins exactly the areas sharing an edge and queen contiguity those sharing an edge or a corner.",
     ["inputs"],
     "all key types, key orders, scalar and vector values, several columns, region lists, lattices with missing cells in any row order and with any index",
     "Doctests cover sorted integer keys with one or two values each.",
     [UTI],
     [("array_from_dict_values, array_from_graph_or_dict, array_from_region_list, array_from_df_col, dataframe_to_dict", UTI), ("scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf", UTI)],
     ["returned arrays, matrices and dicts"])

prop("P20", "Basic tabu takes the best permitted move and does not undo recent moves",
     "Until it has seen a solution repetitions_before_termination times, AZPBasicTabu makes, from every partition it visits, the best move among all moves that keep the donor region non-empty and contiguous and are not tabu, as long as that does not worsen the objective. A move is not reversed while it is among the last tabu_length moves made, unless the reversal strictly improves the objective, and the final partition admits no strictly improving move that is not tabu. If only a tabu move improves the partition, it is made.",
     ["histories", "configurations"],
     "all graphs, attributes incl. ties, starting partitions and tabu lengths; the whole sequence of partitions visited during a fit",
     "The tests look only at the final labels of one map, on which plain AZP gives the same answer.",
     [AZP],
     [("global best move search", AZP + " AZPBasicTabu._azp_connected_component"), ("tabu list of reverse moves", AZP + " AZPTabu._make_move")],
     ["label arrays handed to the objective function during the search", "labels_"],
     [("tabu", "the reverse moves of the last tabu_length moves", AZP)])

prop("P21", "Reactive tabu takes the best improving move, max_iterations times at most",
     "From the starting labels AZPReactiveTabu makes, in every connected component, the move which lowers the objective most among all moves that keep the donor region non-empty and contiguous, and repeats this until no move lowers the objective or max_iterations moves have been made. The partition it returns is the best it has reached, whatever k1 and k2 are and whatever the instance was fitted on before.",
     ["histories", "configurations"],
     "all graphs, attributes incl. ties, starting partitions, max_iterations, k1 and k2, sequences of fits on one instance",
     "The tests look only at the final labels of one map, where one or two moves lead to the answer from every start.",
     [AZP],
     [("search for the best move, tabu list, strict improvement between iterations, best_labels", AZP + " AZPReactiveTabu._azp_connected_component")],
     ["labels_"])

prop("P22", "MaxPRegionsHeu keeps its best constructions and the best local search result",
     "MaxPRegionsHeu makes max_it constructions, in each of which regions grow from a random unassigned area by the least dissimilar adjacent unassigned area until they reach the threshold in every attribute, and areas left over join the least dissimilar of the regions they border. The constructions with the most regions are handed, as starting labels, to the configured local search, and the partition with the best objective value that the local search returned is the result. Every outcome such a construction can have occurs for some random_state.",
     ["inputs", "configurations"],
     "all feasible max-p problems, objective functions, max_it, seeds and local searches, incl. user-defined subclasses of AZP which return no better partition than they were given",
     "Tests run one 2x2 map on which any construction ends in the same two regions after the default local search.",
     [MHE],
     [("grow_regions, find_best_area", MHE), ("assign_enclaves, find_best_region_idx", MHE), ("selection of the constructions and of the best result", MHE + " fit_from_scipy_sparse_matrix")],
     ["arguments and results of the local search", "labels_"])

prop("P23", "AZP works region by region on random improving moves",
     "From given starting labels AZP makes passes over the regions in random order. For each region it moves randomly chosen adjacent areas, whose donor region stays non-empty and contiguous, into the region as long as such a move does not worsen the objective, and it stops after a pass without improvement. Hence every partition it returns is one this procedure can end in, and, where moves do not tie, every partition in which the procedure is likely to end is returned for some random_state.",
     ["inputs", "schedules"],
     "all graphs, attributes without ties, starting partitions, objective functions and seeds",
     "Tests fix one seed on one map whose optimum is reached on any path of moves, so neither a lost random choice nor a skipped step shows.",
     [AZP, AZU, UTI],
     [("random choice of regions and areas", UTI + " pop_randomly_from"), ("steps 3 to 7", AZP + " AZP._azp_connected_component")],
     ["labels_ over many seeds"])

prop("P24", "Random starts can be any partition a map without cycles allows",
     "Without starting labels a random partition is drawn: each connected component gets one region, the further regions go to the components of randomly drawn areas (larger components get more on average), and each component is cut along random links of a spanning tree, preferring those that leave balanced parts. On maps without cycles every partition that this is likely to produce occurs for some random state, whichever areas and components come first, and balanced first cuts are more frequent than among single random links.",
     ["inputs", "configurations"],
     "all maps, numbers of regions and random states, through generate_initial_sol and through AZP without starting labels",
     "Feasibility of single draws says nothing about areas, links or components which are never drawn; tests draw once.",
     [UTI, AZP],
     [("distribute_regions_among_components", UTI), ("_randomly_divide_connected_graph", UTI)],
     ["partitions over many random states"])

prop("P25", "A move strategy of the user decides about exactly the legal moves",
     "An AllowMoveStrategy passed to AZP is told about every connected component (the areas, their labels and attributes, the objective function) and is then asked, region by region, about every move of an adjacent area whose donor region stays non-empty and contiguous, and about no other move, always with the current labels. Moves it permits are made and refused ones are not, also if they worsen the objective; the search goes on after every pass that improved the objective value the strategy keeps. As local search of MaxPRegionsHeu it is asked about exactly those moves that keep the thresholds. An exception it raises reaches the caller, leaves the earlier labels_ in place and does not affect later fits.",
     ["inputs", "histories", "fault_sequences"],
     "all graphs, attributes, starts, thresholds, answers of the strategy and points at which it raises",
     "Tests use the built-in strategies only, which never see their index argument, permit no worsening move in AZP and never raise.",
     [AZP, AZU, "region/max_p_regions/heuristics.py"],
     [("steps 3 to 7", AZP + " AZP._azp_connected_component"), ("AllowMoveAZPMaxPRegions", AZU)],
     ["questions the strategy is asked", "labels_"])

prop("P26", "Results do not depend on the units of the attributes",
     "Multiplying all clustering attributes by the same positive number (as a change of units does) changes no result: the heuristics, MaxPRegionsHeu and SKATER return the same labels for the same random_state (with the initial temperature of simulated annealing in the same unit), objective values and their changes are multiplied likewise, and the exact methods return partitions that are optimal for the original problem. The same holds for adding a constant to an attribute, reflecting, reordering or repeating attributes, and for the units of the spatially extensive attributes with their thresholds.",
     ["inputs", "configurations"],
     "all problems and factors from 2**-40 to 2**40 (exact in floating point)",
     "Tests use attributes between 1 and 1000, for which absolute tolerances and rounding never matter.",
     [AZP, AZU, "region/max_p_regions/heuristics.py", "region/max_p_regions/exact.py", "region/p_regions/exact.py", "region/objective_function.py", "region/skater/skater.py"],
     [("comparisons of objective values", AZP), ("solver_scale", UTI)],
     ["labels_ before and after", "objective values before and after"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

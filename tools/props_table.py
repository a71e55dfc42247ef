IN, HI, CO, TI = "inputs", "histories", "configurations", "schedules"

prop("C01", "LCM discovers exactly the closed frequent itemsets with exact supports",
     "Mining a transactional dataset with LCM returns every itemset that is closed and occurs in at least the requested number of transactions, no other itemset, and none twice. The support reported for each is the exact number of transactions that contain it.",
     [IN, CO], "every transactional dataset (any number and multiplicity of transactions), every minimum support",
     "the tests mine a handful of fixed datasets; closure and completeness quantify over every dataset and threshold",
     ["skmine/itemsets/lcm.py", "skmine/utils.py"],
     [("prefix-preserving closure extension", "skmine/itemsets/lcm.py:LCM._inner"), ("frequency filter", "skmine/itemsets/lcm.py:LCM.fit"), ("item to transaction-ids index", "skmine/itemsets/lcm.py:item_to_tids")],
     note="Unbounded number of transactions (symbolic multiplicities) over 3 items (4 with item frequency order fixed); datasets of up to 13 items in 5 groups of identical transactions; explicit containers up to 3-4 rows, falsy items (0, empty name), empty and repeated rows.")

prop("C02", "LCM results do not depend on output options, refits or storage",
     "Transaction ids returned by LCM are exactly the transactions containing the itemset; length and lexicographic options filter or reorder the same itemsets without changing them; writing results to files gives the same itemsets and supports as returning them. Fractional minimum supports mean that fraction of the number of transactions, and a miner that was already used on other data or transforms again gives the same answer as a fresh one.",
     [IN, CO, HI], "every dataset, every combination of minimum support, maximum length, ids, ordering and output file, every earlier use of the same miner",
     "tests fix one dataset per option; option combinations and re-use histories are a product space",
     ["skmine/itemsets/lcm.py", "skmine/utils.py"],
     [("transform options", "skmine/itemsets/lcm.py:LCM.transform"), ("threshold conversion", "skmine/utils.py:_check_min_supp"), ("lexicographic output", "skmine/itemsets/lcm.py:LCM._lexicographic_order"), ("file writer", "skmine/itemsets/lcm.py:LCM._stream_to_file")],
     note="2-3 items, unbounded multiplicities; up to 13 items in 5 groups, integer and string, also through files.")

prop("C03", "LCMMax returns exactly the maximal frequent itemsets",
     "Mining with LCMMax returns every frequent itemset that has no frequent proper superset, no other itemset, none twice, with exact supports and transaction ids. The same holds under every output option and after any earlier use of the miner; a length limit only keeps the maximal itemsets that respect it.",
     [IN, CO, HI], "every dataset, minimum support, output option and earlier use",
     "tests check one or two datasets; maximality is a statement about all supersets",
     ["skmine/itemsets/lcm.py"],
     [("maximality flag and border", "skmine/itemsets/lcm.py:LCMMax._inner"), ("superset removal", "skmine/itemsets/lcm.py:LCMMax.transform")],
     note="3-4 items, unbounded multiplicities; up to 13 items in 5 groups.")

prop("C04", "SLIM code tables are lossless",
     "After fitting SLIM, or after inserting any sequence of itemsets by hand, the code table covers each transaction with disjoint itemsets whose union is exactly that transaction, and reconstruction gives the original dataset back. This holds for transaction lists, binary arrays and data frames, with or without pruning, and for an estimator fitted before on other data.",
     [IN, HI, CO], "every dataset, every sequence of insertions, pruning on or off, earlier fits",
     "the reconstruction tests use a few databases; loss shows only when particular covers overlap or when pruning cascades",
     ["skmine/itemsets/slim.py"],
     [("cover update on insertion", "skmine/itemsets/slim.py:SLIM.evaluate/update_usages"), ("pruning", "skmine/itemsets/slim.py:SLIM._prune"), ("decoding", "skmine/itemsets/slim.py:SLIM.reconstruct")],
     note="Every accept/reject outcome of the MDL comparison is explored (logarithms havocked) or the comparison is exact for bounded multiplicities.")

prop("C05", "SLIM usages are the greedy cover in standard cover order",
     "After fitting, the code table lists itemsets by decreasing size, then decreasing support, and each itemset's usage is exactly the set of transactions in which a greedy cover that walks the table in this order uses it. This remains true after any sequence of insertions and prunings and after refitting on other data.",
     [IN, HI, CO], "every dataset, insertion sequence, pruning choice, earlier fits",
     "tests compare a few code tables; the incremental usage maintenance must agree with a cover from scratch on every history",
     ["skmine/itemsets/slim.py"],
     [("standard cover order", "skmine/itemsets/slim.py:SLIM._standard_cover_order/standard_candidate_order"), ("support cache", "skmine/itemsets/slim.py:SLIM.get_support"), ("incremental cover", "skmine/itemsets/slim.py:SLIM.evaluate")],
     note="3 items unbounded multiplicities, 4 items with frequency order fixed.")

prop("C06", "SLIM description lengths match its code table and never exceed the baseline",
     "The data and model sizes SLIM reports equal the Shannon description lengths computed from the code table's own usages and the item frequencies of the data. Fitting never ends with a total description length larger than that of the singleton-only code table.",
     [IN, HI], "every dataset and every sequence of insertions, with pruning on or off",
     "tests compare a few numbers; sizes are maintained incrementally and must agree with recomputation on every history",
     ["skmine/itemsets/slim.py"],
     [("incremental sizes", "skmine/itemsets/slim.py:SLIM.compute_sizes/evaluate"), ("standard codes", "skmine/itemsets/slim.py:SLIM.get_standard_codes")],
     note="log2 uninterpreted (equality of closed forms, unbounded multiplicities) plus exact evaluation for bounded multiplicities; tolerance 2e-4 relative.")

prop("C11", "Maximal and minimal filtering keeps exactly the extreme sets",
     "Filtering a collection of sets for maximal (minimal) elements keeps every set that has no proper superset (subset) in the collection, and drops every other set. The result does not depend on the order of the collection.",
     [IN], "every finite collection of finite sets, every order, repeats included",
     "tests use two examples",
     ["skmine/utils.py"], [("filter_maximal / filter_minimal", "skmine/utils.py")],
     note="Up to 4 sets over 3-4 elements, membership symbolic; longer collections with part of the sets fixed.")

prop("C12", "Border operations describe exactly the itemsets of the difference",
     "The border computed from a set and a list of sets bounds exactly the itemsets included in the former and in none of the latter, with a minimal left side; the borders computed from two collections together bound exactly the itemsets included in some set of the second and in no set of the first. Listing the patterns of a border gives exactly the itemsets it bounds above the requested size, strictly between its sides, once each, longest first.",
     [IN], "every pair of finite collections of sets, every minimum size",
     "tests use the two examples of the paper",
     ["skmine/emerging/mbdldorber.py"], [("border_diff", "skmine/emerging/mbdldorber.py:border_diff"), ("mbdllborder", "skmine/emerging/mbdldorber.py:mbdllborder"), ("borders_to_patterns", "skmine/emerging/mbdldorber.py:borders_to_patterns")],
     note="Up to 3 sets over 3-4 elements, membership symbolic; wider collections with part of the sets fixed.")

prop("C13", "MBDLLBorder characterises exactly what emerges between two collections",
     "The borders learnt from a two-class dataset bound exactly the itemsets whose support reaches growth rate times the minimum support in the second class while staying below the minimum support in the first. The patterns it then enumerates are exactly the itemsets strictly between the two sides of each border that respect the requested minimum size, and each of them satisfies those support conditions.",
     [IN, CO], "every two-class dataset in any row order, minimum support, growth rate and minimum size",
     "tests use one toy dataset; emergence is a claim about every itemset of every dataset",
     ["skmine/emerging/mbdldorber.py", "skmine/itemsets/lcm.py"], [("fit", "skmine/emerging/mbdldorber.py:MBDLLBorder.fit"), ("discover", "skmine/emerging/mbdldorber.py:MBDLLBorder.discover")],
     note="Up to 2+2 transactions over 3 items, 1+1 over 4; minimum support any real in (0, 1] (a ValueError is accepted only where growth rate x support exceeds 1), default and other indexes.")

prop("C07", "Viewing a SLIM model shows its code table exactly and changes nothing",
     "The table SLIM returns, or writes to a file, lists exactly the itemsets of the code table in its order with their usages or transaction ids; hiding singletons or unused itemsets removes exactly those rows, and lexicographic order sorts items inside itemsets only. Asking for it never changes the fitted model.",
     [IN, CO, HI], "every code table reachable by fitting or inserting, every option combination",
     "tests try a few option values on one database",
     ["skmine/itemsets/slim.py"], [("transform", "skmine/itemsets/slim.py:SLIM.transform")],
     note="3-4 items, unbounded multiplicities, all 16 option combinations; files on up to 3 branched transactions.")

prop("C08", "SLIM covers unseen data greedily and scores it by smoothed code lengths",
     "Covering unseen transactions uses the code table in its order, each itemset where it still fits, ignoring items never seen; the code length of a transaction is the sum of the codes that cover it with usages increased by one, and infinite only if nothing covers it. The decision value strictly decreases with the code length.",
     [IN, CO], "every training dataset, every new dataset as lists or frames, with missing, unseen and empty entries",
     "tests use one training set and one or two new rows",
     ["skmine/itemsets/slim.py"], [("cover", "skmine/itemsets/slim.py:SLIM.cover"), ("code lengths", "skmine/itemsets/slim.py:SLIM.get_code_length"), ("decision values", "skmine/itemsets/slim.py:SLIM.decision_function")],
     note="Training: 3 items, unbounded multiplicities for the cover; 2-3 branched transactions for lengths.")

prop("C09", "SlimClassifier predicts the class whose compressor gives the shortest code",
     "Each transaction is assigned the class whose own compressor, fitted with the classifier's items and pruning settings on that class's transactions only, encodes it with the minimal length. Transactions no compressor can encode get the first class.",
     [IN, CO], "every labelled training set and every transaction to classify, any label type, items and pruning settings",
     "tests check accuracy on one dataset",
     ["skmine/itemsets/slim_classifier.py", "skmine/itemsets/slim.py"], [("fit", "skmine/itemsets/slim_classifier.py:SlimClassifier.fit"), ("predict", "skmine/itemsets/slim_classifier.py:SlimClassifier.predict")],
     note="2-3 classes of up to 2 branched transactions over 2-3 items, every transaction to classify, plus transactions with codes of hundreds of bits.")

prop("C10", "SLIMVectorizer encodes data with its k most used itemsets",
     "The columns produced for new data are the k most used itemsets among those whose items all occur in it, most used first, and a cell is non-zero exactly where a greedy cover in that order uses the itemset, holding one or the itemset's share of usages depending on the strategy. Stop items appear in no column and influence nothing.",
     [IN, CO], "every training set and new data, every k, strategy, stop items, pruning",
     "tests check one small example per strategy",
     ["skmine/feature_extraction/slim_vectorizer.py", "skmine/itemsets/slim.py"], [("transform", "skmine/feature_extraction/slim_vectorizer.py:SLIMVectorizer.transform"), ("stop items", "skmine/feature_extraction/slim_vectorizer.py:_filter_stop_items")],
     note="3 items, unbounded multiplicities (column choice and cover); 2-3 branched training transactions for values.")

prop("C14", "Occurrences of a periodic pattern and its corrections determine each other",
     "The occurrences a periodic pattern generates are the ones its definition gives: each repetition starts one period after the previous one, each block at its distance from the block before it, and a correction moves an occurrence together with everything placed relatively to it. Corrections computed from occurrences generate those occurrences again, and corrections are recovered exactly from the occurrences they generate.",
     [IN], "every pattern tree, period, distance, starting time and list of corrections",
     "tests compare a few trees with stored output; the correspondence must hold for every tree and every correction",
     ["skmine/periodic/pattern.py"],
     [("perfect occurrences", "skmine/periodic/pattern.py:Pattern.getOccsStar"), ("corrected occurrences", "skmine/periodic/pattern.py:Pattern.getOccs/getCovSeq"), ("corrections from occurrences", "skmine/periodic/pattern.py:Pattern.computeEFromO")],
     note="Trees of depth up to 5, up to 12 repetitions, up to 16-30 occurrences; all numbers unbounded symbolic integers.")

prop("C15", "Combining periodic patterns loses and invents no occurrence",
     "A cycle built from occurrences, a pattern obtained by nesting or concatenating patterns, and a pattern whose repetitions are merged or factorised stand for exactly the occurrences they were built from. The occurrences a combined candidate claims are those its pattern, start and corrections generate.",
     [IN, CO], "every set of occurrences, every pair or group of patterns that can be combined",
     "tests build a handful of combinations; the construction rewrites trees and corrections and must be exact for all of them",
     ["skmine/periodic/candidate.py", "skmine/periodic/run_mine.py", "skmine/periodic/pattern.py"],
     [("candidates", "skmine/periodic/candidate.py:Candidate"), ("nesting", "skmine/periodic/run_mine.py:prepare_candidate_nested"), ("concatenation", "skmine/periodic/run_mine.py:prepare_candidate_concats"), ("factorisation", "skmine/periodic/candidate.py:Candidate.factorizePattern"), ("tree operations", "skmine/periodic/pattern.py:Pattern.append/merge/repeat")],
     note="Patterns with up to 3 levels, 4 children and 3-4 repetitions; times unbounded symbolic integers.")

prop("C16", "Periodic patterns and residuals together give back exactly the event log",
     "After fitting, the occurrences reconstructed from the patterns and the residuals together are exactly the distinct (time, event) pairs of the log, each once, with the original times: nothing lost, invented, shifted or in both. The residuals of any selection of patterns are the complement of what that selection reconstructs.",
     [IN, CO, HI], "every event log: integer or date index, any resolution, order, duplicates, simultaneous events, any miner settings, also on a miner fitted before",
     "tests look at a few logs and at selected rows; being lossless is a claim about every log and every time scale",
     ["skmine/periodic/cycles.py", "skmine/periodic/run_mine.py", "skmine/periodic/extract_cycles.py", "skmine/periodic/pattern_collection.py"],
     [("fit", "skmine/periodic/cycles.py:PeriodicPatternMiner.fit"), ("automatic time scale", "skmine/periodic/cycles.py:autoscale_time_unit"), ("reconstruct", "skmine/periodic/cycles.py:PeriodicPatternMiner.reconstruct"), ("residuals", "skmine/periodic/cycles.py:PeriodicPatternMiner.get_residuals"), ("uncovered occurrences", "skmine/periodic/pattern_collection.py:PatternCollection.getUncoveredOccs")],
     note="16 families of logs with up to 27 occurrences; starting time any integer; one occurrence moved symbolically, dropped or repeated; scales from ns to days; events that are words, digits or numbers; imported patterns that repeat an occurrence. Logs of dates within the int64 nano-second range.")

prop("C17", "The table of periodic patterns describes exactly their occurrences",
     "Each row returned by transform describes, through its start, displayed pattern and corrections, exactly the occurrences reconstruct gives for that pattern id, in the units of the user's index, durations of dates being shown to the microsecond. Its repetition, period and sum of corrections agree with them; ordering or summing changes nothing else and asking for the table never changes the model.",
     [IN, CO], "every fitted or imported collection of patterns, every time scale, integers or dates",
     "tests compare the table of a few logs; units and corrections must agree for every pattern and scale",
     ["skmine/periodic/cycles.py", "skmine/periodic/pattern.py", "skmine/periodic/pattern_collection.py"],
     [("transform", "skmine/periodic/cycles.py:PeriodicPatternMiner.transform"), ("display", "skmine/periodic/pattern.py:Pattern.__str__"), ("rows", "skmine/periodic/pattern_collection.py:PatternCollection.output_pattern_list_and_cost")],
     note="Imported patterns: up to 6-7 occurrences with unbounded symbolic start, periods, distances and corrections, 8 time scales; mined patterns: 12 families of logs with symbolic start.")

prop("C18", "Exporting and importing periodic patterns gives back the same model",
     "A miner that imports what another one exported shows the same patterns, reconstructs the same occurrences and has the same residuals, whatever its state before, and so does a miner that imports what this one exports in turn. Exporting does not change the exporting miner.",
     [IN, HI], "every fitted or imported miner, every log, number of export and import steps",
     "tests round-trip one or two logs",
     ["skmine/periodic/cycles.py", "skmine/periodic/pattern_collection.py"],
     [("export", "skmine/periodic/cycles.py:PeriodicPatternMiner.export_patterns"), ("import", "skmine/periodic/cycles.py:PeriodicPatternMiner.import_patterns")],
     note="Same patterns and logs as C17, two export/import steps, events that are strings or numbers, same auto_time_scale setting.")
prop("C19", "Cycles extracted from an event are its occurrences, priced at their code length",
     "Every cycle proposed for an event consists of at least three successive (possibly non-adjacent for chains and triples) occurrences of that event in increasing order, and its cost is the code length of the pattern it stands for. The segmentation into runs of adjacent occurrences found by the dynamic programme, with what it leaves out priced as single occurrences, costs no more than any other segmentation into such runs (up to 200 occurrences). Chains and triples returned respect the efficiency threshold, the bound on the shift and the largest period they were asked for, and of cycles with the same start, length and period the cheapest is kept.",
     [IN], "every increasing list of times of an event, every log around it, every threshold",
     "tests check the helpers combine_splits and recover_splits_rec on four lists; optimality and prices quantify over all segmentations and times",
     ["skmine/periodic/extract_cycles.py", "skmine/periodic/class_patterns.py", "skmine/periodic/run_mine.py"],
     [("segmentation", "skmine/periodic/extract_cycles.py:compute_cycles_dyn"), ("chains and triples", "skmine/periodic/extract_cycles.py:extract_cycles_fold"),
      ("candidates of one event", "skmine/periodic/run_mine.py:mine_cycles_alpha"), ("price of triples", "skmine/periodic/class_patterns.py:cost_triple")],
     note="3-4 (quick) or 3-5 (thorough) occurrences at unbounded symbolic times, log of any extent, logarithm uninterpreted (so for every cost function of that form); 4-6 occurrences within 10-20 time units with exact logarithms, in short and long logs. The block-wise variant used beyond 200 occurrences is run with small blocks (form and prices only, it is not optimal). Not covered: the chunked extraction of chains and triples beyond 2000 occurrences.")
prop("C20", "Periodic mining never makes the description of a log longer",
     "The code length of a simple cycle is -log2 of the event's adjusted frequency plus the block delimiters, plus log2 of its number of occurrences, of the largest possible period and of the possible starts, plus two bits and the magnitude of each shift correction; the candidate cost used during mining equals the code length of the pattern. The greedy selection of candidates never pays more than it saves, respects the minimum number of newly covered occurrences, and leaves out no candidate that would pay for itself. On every log, the patterns found together with the residuals cost no more bits than listing the occurrences one by one.",
     [IN], "every log of events, every set of candidates with any costs",
     "tests fix the code length of a few patterns; that mining never loses bits must hold for every log",
     ["skmine/periodic/class_patterns.py", "skmine/periodic/pattern.py", "skmine/periodic/pattern_collection.py", "skmine/periodic/run_mine.py", "skmine/periodic/data_sequence.py"],
     [("cost of a cycle", "skmine/periodic/class_patterns.py:computeLengthCycle"), ("code length of a pattern", "skmine/periodic/pattern.py:Pattern.codeLength"),
      ("selection", "skmine/periodic/run_mine.py:filter_candidates_cover"), ("code length of the result", "skmine/periodic/pattern_collection.py:PatternCollection.codeLength")],
     note="Cycles of 3-5 (6) occurrences at unbounded times, logarithm uninterpreted; 2-3 candidates over 3-4 occurrences with any positive costs; every log of 4-5 occurrences of one event within 24/14 (40/20) time units, and of 4 occurrences of two events within 8 (12), from any start. Not covered: code lengths of nested patterns from an independent definition (they are taken as the code computes them).")
prop("C21", "MDLPDiscretizer cuts where the MDL criterion says and maps values to intervals",
     "For any column of numbers and any integer labels, fit returns exactly the cut points of the recursive minimal-entropy partition: on the rows sorted by value the boundary of least class entropy is taken, and kept only if its gain exceeds the MDL threshold (log2(N-1) + delta) / N; each cut point lies half-way between the two neighbouring values, whatever the number type, whatever the order of the rows. transform maps every value, seen or new, to the number of cut points strictly below it; on DataFrames every column gets its own cut points, whatever the order of the columns, and rows keep their labels.",
     [IN], "every column of values (ties included), every label vector, every row and column order",
     "tests check the documented cut points of iris and a handful of columns; the criterion and the interval of each value must hold for all data",
     ["skmine/preprocessing/mdlp_discretizer.py"],
     [("best boundary", "skmine/preprocessing/mdlp_discretizer.py:generate_cut_point"), ("MDL criterion", "skmine/preprocessing/mdlp_discretizer.py:MDLPVectDiscretizer.evaluate"),
      ("recursion", "skmine/preprocessing/mdlp_discretizer.py:MDLPVectDiscretizer.fit"), ("intervals", "skmine/preprocessing/mdlp_discretizer.py:MDLPDiscretizer.transform")],
     note="Values unbounded reals (8-bit integers modulo 256 in one harness): 3-4 (5) rows in any order with ties, 8 (11) ordered rows with any labels of 2, 6 (8) with 3, runs of labels up to 20 rows, DataFrames of 2 (3) columns. Label vectors are forked, values symbolic. Where values tie with different labels only the shape of the cut points is asked (the result depends on the shuffle, as documented). Entropy ties within 1e-9 accept either outcome. Not covered: floating-point rounding of cut points, random_state itself.")
prop("C22", "GraphMDL: rewritten graph and patterns give back exactly the data graph",
     "After GraphMDL.fit, and after covering a data graph with any code table, unfolding every embedding of the rewritten graph (its pattern, glued to the data at the ports) gives back exactly the data graph: the same vertices, every label of every vertex and every edge with its label, each told once for edges, none lost and none invented. Usages of patterns, ports and singletons are what the rewritten graph contains, patterns() gives exactly the patterns in use, and fit always ends, also when its time limit passes at any moment or when the miner or the graph was used before.",
     [IN, TI, HI], "every directed graph or multigraph with labelled edges (no self-loops, parallel edges have different labels, no label both on vertices and edges), every code table, every moment the time limit can pass, every previous fit",
     "tests cover and fit a few fixed graphs; being lossless must hold for every graph, every coincidence of labels and every pattern",
     ["skmine/graph/graphmdl/code_table.py", "skmine/graph/graphmdl/graph_mdl.py", "skmine/graph/graphmdl/candidate.py", "skmine/graph/graphmdl/utils.py", "skmine/graph/graphmdl/code_table_row.py"],
     [("fit, pruning, patterns", "skmine/graph/graphmdl/graph_mdl.py:GraphMDL"), ("cover and rewritten graph", "skmine/graph/graphmdl/code_table.py:CodeTable.cover"),
      ("ports", "skmine/graph/graphmdl/code_table.py:CodeTable.search_port"), ("candidates", "skmine/graph/graphmdl/utils.py:generate_candidates"), ("merging", "skmine/graph/graphmdl/candidate.py:Candidate.merge_candidate")],
     note="Labels are symbolic texts of one (some harnesses one or two) characters: all coincidences and orders. Shapes are bounded: every weakly connected graph of 2-3 vertices, about 50 of 4-7 vertices, code tables of one or two given patterns, about 30 multigraphs. Not covered: self-loops, equal parallel edges, empty graphs (ValueError), larger graphs.")
prop("C23", "GraphMDL's description lengths are those of its definition and never grow",
     "The description length of a code table is, for every pattern in use, that of its structure under the label codes (log2 of the number of labels, universal code of its vertices, code and positions of every label) and of its ports; that of the rewritten graph is the universal code of its embeddings, the port counts and the prequential codes of pattern, port and data-port usages. Code lengths of patterns, ports and singletons are -log2 of their share of the usages. initial_description_length() is the sum for singletons only, description_length() the sum for the final code table, and the latter is never greater, nor greater than after a fit stopped earlier by a time limit.",
     [IN, TI, HI], "every directed graph or multigraph with labelled edges (no self-loops, parallel edges have different labels), every code table, every previous fit or time limit",
     "tests fix lengths of a few graphs; the definition must be met for every graph, every code table and every step of the search",
     ["skmine/graph/graphmdl/code_table.py", "skmine/graph/graphmdl/utils.py", "skmine/graph/graphmdl/label_codes.py", "skmine/graph/graphmdl/graph_mdl.py", "skmine/graph/graphmdl/code_table_row.py"],
     [("code table", "skmine/graph/graphmdl/code_table.py:CodeTable.compute_total_description_length"), ("rewritten graph", "skmine/graph/graphmdl/code_table.py:CodeTable.compute_rewritten_graph_description"),
      ("structure", "skmine/graph/graphmdl/utils.py:encode"), ("codes", "skmine/graph/graphmdl/code_table_row.py:CodeTableRow.compute_code_length"), ("search", "skmine/graph/graphmdl/graph_mdl.py:GraphMDL.fit")],
     note="Same graphs as C22. Lengths are floats of concrete counts on every path (path conditions: which labels coincide), compared within 1e-7; an edge singleton is charged 2 extra bits for its ports, as the code defines. Not covered: graphs larger than stated, self-loops, equal parallel edges.")

EST = ["skmine/itemsets/lcm.py", "skmine/itemsets/slim.py", "skmine/itemsets/slim_classifier.py", "skmine/feature_extraction/slim_vectorizer.py",
       "skmine/emerging/mbdldorber.py", "skmine/preprocessing/mdlp_discretizer.py", "skmine/periodic/cycles.py", "skmine/graph/graphmdl/graph_mdl.py", "skmine/base.py"]
prop("C24", "Estimators leave the caller's data and their own settings as they are",
     "Fitting any estimator and querying it (transform, discover, predict, score, reconstruct, residuals, decision_function) leaves the data it is given - transactions, arrays, frames, series, labels, sets of items, graphs - exactly as they were: same values, order, labels and types. The parameters the estimator was made with (get_params) are the same after every call.",
     [IN, HI, CO], "every dataset and container, every estimator (LCM, LCMMax, SLIM, SlimClassifier, SLIMVectorizer, MBDLLBorder, MDLPDiscretizer, PeriodicPatternMiner, GraphMDL), every parameter setting and sequence of calls",
     "tests look at results, hardly ever at the inputs afterwards; a change in place may depend on the values (order, repeats, gaps)",
     EST,
     [("LCM", "skmine/itemsets/lcm.py:LCM.fit"), ("SLIM", "skmine/itemsets/slim.py:SLIM.fit"), ("classifier", "skmine/itemsets/slim_classifier.py:SlimClassifier.fit"), ("vectorizer", "skmine/feature_extraction/slim_vectorizer.py:SLIMVectorizer.fit"),
      ("borders", "skmine/emerging/mbdldorber.py:MBDLLBorder.fit"), ("cut points", "skmine/preprocessing/mdlp_discretizer.py:MDLPDiscretizer.fit"), ("periodic", "skmine/periodic/cycles.py:PeriodicPatternMiner.fit"), ("graphs", "skmine/graph/graphmdl/graph_mdl.py:GraphMDL.fit")],
     note="Data is symbolic within the bounds of the sessions (transactions: unbounded multiplicities over 3 items or up to 3 explicit rows in every container; columns of 4 values; logs of up to 6 events with any times; graphs of up to 5 vertices with any labels); the sequence of calls in a session is fixed. Not covered: other containers, attributes other than the parameters.")
prop("C25", "An estimator that was used before gives the same results as a new one",
     "Whatever an estimator was used for before - fitted on other data, with other settings or a time limit, on the same data, queried in between - fitting it gives the same model and the same answers to every query as a new estimator with the same parameters fitted on the same data. Nothing of an earlier fit is left.",
     [IN, HI, CO], "every dataset, every estimator, every earlier use (other data, other settings, the same data, an expired time limit)",
     "tests fit new estimators; state that survives a fit shows only for particular pairs of datasets",
     EST,
     [("LCM", "skmine/itemsets/lcm.py:LCM.fit"), ("SLIM", "skmine/itemsets/slim.py:SLIM.prefit"), ("classifier", "skmine/itemsets/slim_classifier.py:SlimClassifier.fit"), ("vectorizer", "skmine/feature_extraction/slim_vectorizer.py:SLIMVectorizer.fit"),
      ("borders", "skmine/emerging/mbdldorber.py:MBDLLBorder.fit"), ("cut points", "skmine/preprocessing/mdlp_discretizer.py:MDLPDiscretizer.fit"), ("periodic", "skmine/periodic/cycles.py:PeriodicPatternMiner.fit"), ("graphs", "skmine/graph/graphmdl/graph_mdl.py:GraphMDL.fit")],
     note="The second dataset is symbolic (bounds as for C24), the earlier uses are: other fixed data and settings, the same data, a fit that ran out of time (GraphMDL). Sizes in bits are compared within 1e-6.")

prop("C26", "Random transactional datasets have exactly the form asked for",
     "For every random draw, make_transactions gives n_transactions transactions of different items out of the n_items integers from item_start on. make_classification gives n_samples such transactions with one label each, the classes in the proportions of the weights (to the nearest sample) and every transaction made of its class's n_items items, the alphabets of successive classes moved by class_sep of them; shuffling changes their order only. The same random_state, an integer or a generator in the same state, gives the same dataset.",
     [IN, CO], "every random draw, every density, number of items, transactions, classes, weights, separation and seed",
     "tests draw once with one seed; what must hold for every draw cannot be sampled",
     ["skmine/datasets/_samples_generator.py"],
     [("transactions", "skmine/datasets/_samples_generator.py:make_transactions"), ("classes", "skmine/datasets/_samples_generator.py:make_classification")],
     note="numpy's generators are stand-ins whose draws are symbolic (any value the distribution can give; same seed, same stream). 1-3 transactions of 1-3 items (4 thorough), any density, 1-3 classes with listed weights, densities and separations. The distribution of sizes is not checked.")
prop("C27", "Transaction files and downloaded datasets are read and described exactly",
     "fetch_file gives one transaction per line of the file, with exactly the items between separators, in order, as text or integers; nothing between two separators or on an empty line is an item. The fetch_* functions give the same for a dataset that was downloaded before, and split off exactly the class of each transaction when labels are asked for. describe and describe_logs give the true numbers of items, transactions and events, average sizes, density and average time span per event.",
     [IN, CO], "every file content, separator and item type; every dataset and log",
     "tests read one or two small files; items, separators, blank lines and missing line ends combine without limit",
     ["skmine/datasets/fimi.py", "skmine/datasets/utils.py"],
     [("reading", "skmine/datasets/fimi.py:_read_dat"), ("files", "skmine/datasets/fimi.py:fetch_file"), ("datasets", "skmine/datasets/fimi.py:fetch_any"), ("describe", "skmine/datasets/utils.py:describe"), ("describe logs", "skmine/datasets/utils.py:describe_logs")],
     note="Every text of 5-6 characters (8 thorough) with symbolic characters; items hold no white space. Logs of up to 4 occurrences at any integer times; dates only in witnesses. Not covered: downloading, encodings, other line ends.")
prop("C28", "Reading a log file gives exactly its events at their times",
     "periodic.fetch_file gives one event per line of the file, with exactly its text and time (a date, an integer, or the line number when there is none).",
     [IN, CO], "every file content, separator and date format",
     "tests read one or two small files",
     ["skmine/datasets/periodic.py"],
     [("reading", "skmine/datasets/periodic.py:fetch_file")],
     na="The function consists of calls of pandas.read_csv and pandas.to_datetime: the reading and conversion of text happen in compiled C/Cython code that cannot be executed symbolically here; nothing would be left of the property without it.")

"""What each check runs. cases/thorough are per shard (8 shards)."""
COMMON = ["The instruction pool, data sources and graphs are those the generators in harness/gen.cpp can make.",
          "g++ 13 and its sanitizer run-times are trusted."]
CHECKS = {}


def chk(cid, rule, runs, require=(), assumptions=(), technique=None, note=None):
    CHECKS[cid] = dict(rule=rule, runs=runs, require=list(require), assumptions=list(assumptions) + COMMON,
                       technique=technique, note=note)


def run(variant, cases, thorough, **k):
    return dict(variant=variant, cases=cases, thorough=thorough, **k)


chk("P01",
    "Random environments (registers, constants, 1-D/2-D/wrapper/pointer sources of double/int/float), random programs; "
    "each execution of the real engine is compared with an independent interpreter. Distinct = (program text, result) "
    "with at least one live line.",
    [run("plain", 12000, 600000)],
    ["executions", "operand_source2D_rank2", "operand_register_rank1", "operand_constant_rank0", "operand_location_wrapped",
     "calls_traced", "last_line_dead", "empty_programs", "executions_interrupted", "lines_with_unknown_source", "lines_with_unknown_instruction"],
    technique="online monitor: reference interpreter compared with every execution")
chk("P02",
    "Random programs and edited copies; marks compared with an independent liveness analysis, identity verdicts with "
    "executions on random data. Distinct = program (pair) texts that have both live and dead lines or are edited pairs.",
    [run("plain", 12000, 600000)],
    ["dead_lines", "identical_same", "distinct_differ", "dead_line_removed", "dead_line_inserted"],
    technique="online monitor: liveness and interpretation oracles over generated and edited programs")
chk("E01",
    "Random acyclic graphs with shared programs (ties), NaN and infinite bids, roots and inner vertices as starting points; "
    "every path, bid, evaluation count is compared with the reference. Distinct = (graph, path, data) with at least one team.",
    [run("plain", 9000, 600000)], ["executions", "ties", "bids_minus_inf", "edges_evaluated", "teams_without_edge"],
    technique="online monitor: every path and bid compared with a reference model of the graph walk")
chk("C01",
    "Random environments of printable instructions and random policy graphs; code generated in both modes is compiled with "
    "gcc and run on 120 random data sets each, its actions compared with the engine's. Distinct = (graph, mode) where "
    "at least two different actions were chosen.",
    [run("plain", 100, 4000)], ["compiled", "inferences", "stack_mode", "switch_mode", "inferences_from_other_vertices",
     "unprintable_refused", "destinations_refused", "generated_with_unprintable_available"],
    technique="differential run-time monitor: compiled generated code against the engine on the same data")
chk("D01",
    "All kinds of data source over 7 element types and random shapes, live and cloned; for 14 operand types each, every "
    "address inside and some outside the address space is read and compared. Distinct = (element type, operand type, "
    "kind, shape).",
    [run("dbg", 1500, 100000)], ["reads_scalar", "reads_row", "reads_block", "reads_refused", "null_reads_refused", "types_refused",
     "conversions_refused", "earlier_reads_checked"],
    technique="online monitor: every address of every type compared with a reference layout, in a build with the library's own checks on")
chk("D02",
    "Random histories of creations, clones, copies, assignments, writes, swaps, fills, resets and pointer changes; the map "
    "(identity, contents) -> hash observed must be a function and injective, contents must equal the shadow copies. "
    "Distinct = operation histories.",
    [run("plain", 4800, 400000)], ["hash_observations", "contents_seen_again", "assignments", "clones", "pointers_refused", "detached"],
    assumptions=["Two different contents colliding by chance (probability about 2^-64 per pair) would be reported."],
    technique="offline/online history checker over hash observations and shadow contents")
chk("V01",
    "Random environments (instructions of all operand types, sources of all kinds) compared with the reference "
    "capabilities; lines receive values at and around every bound; environments in which no program can be written. "
    "Distinct = environments.",
    [run("plain", 4800, 400000)],
    ["environments", "instructions_filtered", "instructions_kept", "accepted", "refused", "different_lines", "environments_refused",
     "arguments_accepted", "arguments_refused"],
    technique="online monitor: reference capabilities and shadow line fields compared after every operation")
chk("R01",
    "Random histories of draws (bounds at powers of two, extremes, full ranges), re-seedings and copies, compared with an "
    "independent MT19937-64 and range reduction; frequency tables on small and very large ranges. Distinct = histories of bounds.",
    [run("plain", 2000, 200000)],
    ["draws_u64", "draws_i32", "draws_double", "draws_i32_full_range", "copies", "draws_from_copies", "reseeds",
     "frequency_tables", "bias_tables"],
    technique="online monitor: each draw compared with an independent generator; statistical oracle")
chk("A01",
    "Random histories of recordings (forced, probabilistic), data changes and returns to former data, queries, re-seedings "
    "and clearings, compared after each operation with a model that has its own generator and snapshots of the data; "
    "recordings made by executing random policies. Distinct = histories or graphs.",
    [run("plain", 9000, 600000)],
    ["accepted", "declined", "evictions", "data_released", "unique_answers", "duplicate_answers", "clears", "bids_recorded",
     "data_sets_verified"],
    assumptions=["Uniqueness compares |a-b| <= tolerance, so an infinite or NaN result never counts as reproduced."],
    technique="online monitor: model of the archive compared after every operation")
chk("M01",
    "Random environments and mutation parameters; programs are initialised and mutated 40 times, each state compared with "
    "the previous one by a search for an explaining edit; each mutation operator alone, 600 times from one program, and each "
    "line operator 9000 times, must be valid and reach every alternative. Distinct = (program before, after) and environments.",
    [run("plain", 200, 20000)],
    ["programs_validated", "mutations_done", "mutations_not_done", "mutations_visible", "edits_explained", "constants_changed",
     "operation_coverages", "line_coverages", "operands_adapted", "alterations"],
    assumptions=["Reachability is judged on thousands of draws with fixed seeds: an alternative drawn with a probability below "
                 "about one in a thousand would be reported as unreachable."],
    technique="online monitor: validity, edit-search and coverage oracles over generated mutation histories")
chk("G01",
    "Random histories of 20-300 operations (additions, clonings, removals, re-targetings, program changes, clearing, moves, "
    "assignments and swaps, with foreign vertices and edges as arguments) on plain and instrumented graphs; the full "
    "graph is compared with a shadow graph after each. Distinct = histories.",
    [run("plain", 7500, 1000000)],
    ["states_compared", "edges_added", "refused", "edges_removed", "vertices_removed", "vertices_cloned", "edges_cloned",
     "destinations_set", "sources_set", "clears", "moves", "assignments", "swaps", "programs_released"],
    technique="online monitor: shadow graph compared after every operation")
chk("G02",
    "Random mutation parameters, environments and graphs (initialised, evolved over generations with random removals, or "
    "made by the generator with teams over teams, root actions, shared programs); the graph is compared before and after "
    "each initialisation and population; targets of re-targeting counted over 400 draws. Distinct = final graphs.",
    [run("plain", 2000, 300000)],
    ["initialisations", "populations", "new_teams", "new_teams_full", "edges_inherited", "edges_mutated", "edges_to_teams",
     "populations_from_nothing", "retargetings", "retarget_teams_only", "settings_refused", "populations_idle", "edge_counts_settled"],
    assumptions=["Mutation parameters are valid: 2 <= initial edges <= min(actions, maximum edges), positive probability of mutating programs.",
                 "Uniformity is judged at 5.5 standard deviations."],
    technique="online monitor: before/after comparison of the whole graph at every population step; statistical oracle")
chk("M02",
    "Random rich environments (at least 2 registers, 4 instructions and an array of doubles), archives filled by running "
    "policies on random data, then programs (mostly copies of archived ones) mutated alone, in batches by 1 to 5 threads, "
    "or by population steps; each result is re-evaluated by the independent interpreter on the harness's copy of the data. "
    "Distinct = (graph, behaviour of a mutated program).",
    [run("plain", 400, 20000)],
    ["recordings", "programs_checked", "programs_compared", "bids_equal", "bids_different", "partly_reproduced",
     "behaviour_changes_forced", "batches_parallel", "batches_sequential", "programs_from_population"],
    assumptions=["A bid is reproduced when it differs by at most the default tolerance 1e-4; infinite or NaN results never are.",
                 "Archived programs are kept alive, so that an address identifies a program."],
    technique="online monitor: independent re-evaluation of every mutated program on recorded data")
chk("L02",
    "Random learning problems (sources of all kinds, array operands, constants, archiving, instrumentation, validation) trained "
    "for 1-3 generations by the parallel, adversarial and classification agents with 2-6 threads and random pauses, under "
    "ThreadSanitizer. Distinct = trained graphs.",
    [run("tsan", 12, 400)],
    ["generations", "recordings", "agents_plain", "agents_instrumented", "agents_adversarial", "agents_classification", "testings"],
    assumptions=["A race is reported when its two accesses happen, unordered, in an execution that was run.",
                 "The environments' clone() and the instructions' functions are the harness's and race-free."],
    technique="ThreadSanitizer on generated parallel trainings with injected pauses")
chk("L01",
    "Random learning problems trained for 2-5 generations, each once as reference (sequential agent, ascending addresses) and four "
    "times otherwise, in a process each: 1-8 threads with random pauses, allocators handing out ascending, descending, most "
    "and least recently freed addresses, agents used before. Traces (graphs, programs, scores, archive, validation, "
    "generator) compared line by line. Distinct = reference traces.",
    [run("plain", 50, 1500)],
    ["generations", "recordings_compared", "evaluations_recorded", "observations_compared"] +
    ["variants_%d_threads" % n for n in (0, 1, 2, 3, 4, 8)] +
    ["variants_" + n for n in ("malloc", "ascending", "descending", "lifo", "fifo", "fresh", "reinitialised",
                               "reinitialised_pruned", "second_agent")],
    assumptions=["Environments are deterministic functions of seed, mode and actions, and their clones keep the identity of data sources."],
    technique="differential trace comparison over threads, schedules, address layouts and histories")
chk("L03",
    "Random learning problems trained for 2-7 generations by the sequential and parallel agents, with evaluations of all or one "
    "policy in every mode, forgetting, pruning and re-initialisation in between; every run of the environment is logged and "
    "re-simulated; twin trainings with and without extra validations for all agents. Distinct = final graphs.",
    [run("plain", 1200, 60000)],
    ["iterations_replayed", "actions_replayed", "skipped", "accumulated", "runs_cut", "runs_without_action", "ended_on_last_action",
     "trainings", "validations", "testings", "single_evaluations", "evaluations_refused", "purity_checks", "forgotten", "pruned", "reinitialised",
     "twins_sequential", "twins_parallel", "twins_adversarial", "twins_classification", "extra_evaluations"],
    assumptions=["A mean is compared with a relative tolerance of 1e-11."],
    technique="online monitor: logged runs replayed by a reference interpreter, model of all scores; twin trainings")
chk("L04",
    "Random learning problems trained for 1-7 generations by the sequential, parallel and adversarial agents (deletion ratios 0 "
    "to 1), and selections on hand-made scores (ties, infinities, stored results) with root actions and cloned teams; "
    "graph, results, records and best policy compared before and after; then pruning, also when the best policy is "
    "used by others. Distinct = final graphs.",
    [run("plain", 1200, 60000)],
    ["selections", "roots_removed", "ties", "root_actions_present", "worse_root_actions_kept", "all_teams_removed", "records_checked",
     "best_first", "best_vanished", "best_beaten", "best_kept", "best_reevaluated", "best_internal", "best_made_internal", "prunings",
     "prunings_without_best", "direct_selections", "empty_results", "forgotten"],
    assumptions=["Scores are numbers (not NaN)."],
    technique="online monitor: before/after comparison of graph, results and records at every selection")
chk("L05",
    "Random adversarial problems (1-4 seats, 1-12 iterations, 1-4 threads) trained for 1-5 generations, with validation, testing, "
    "pruning, forgetting and re-initialisation; every job and match logged, all matches re-simulated by the reference "
    "interpreter, champions compared with those expected. Distinct = final graphs.",
    [run("plain", 800, 20000)],
    ["matches_replayed", "turns_replayed", "opponents", "several_teams", "ended_within_a_turn", "matches_cut", "root_scores", "trainings",
     "other_evaluations", "champions_designated", "champions_removed", "no_champion", "reinitialised", "pruned", "not_copyable_refused",
     "results_combined", "results_refused"],
    assumptions=["Champions are read from the protected member of the agent that lists them."],
    technique="online monitor: logged matches replayed by a reference interpreter, combinatorial oracle")
chk("L06",
    "Confusion tables made by hand (1-7 classes: empty, perfect, single-class), results accumulated in chains with empty classes, "
    "selections on hand-made class scores (specialists, ties, root actions, ratios 0 to 1), and whole classification "
    "trainings whose every evaluation is replayed by the reference interpreter. Distinct = final graphs.",
    [run("plain", 1000, 50000)],
    ["tables", "perfect_tables", "tables_without_true_positive", "empty_classes", "results_judged", "refusals", "class_quotas",
     "selections_with_quota", "selections_with_root_actions", "kept_for_a_class", "roots_removed", "runs_replayed", "runs_announced", "accumulated",
     "skipped", "validations", "generations"],
    assumptions=["Scores are compared with a relative tolerance of 1e-11.", "Ties between equal scores may be broken either way."],
    technique="online monitor: evaluations replayed by a reference interpreter, threshold oracle on every selection")
chk("F01",
    "Random graphs (shared programs with equal or different destinations, root actions, repeated identifiers, empty programs, programs "
    "of up to 600 lines, negative constants, edges moved and redirected, clones) and trained graphs, exported whole or from one "
    "vertex and imported into an equal environment, by new and reused exporters and importers, into empty and used graphs; "
    "truncated and missing files. Distinct = canonical forms of the graphs.",
    [run("plain", 150, 8000)],
    ["teams_compared", "edges_compared", "shared_uses", "shared_to_other_destination", "executions_compared", "whole_graphs", "sub_graphs",
     "sub_graphs_of_an_action", "root_actions", "long_programs", "negative_constants", "empty_programs", "importers_reused",
     "imported_twice", "descriptions_compared", "imported_scores", "trained_further", "missing_files", "truncations_reported",
     "truncations_harmless"],
    assumptions=["Graphs are acyclic.", "Actions of one identifier may become one vertex.",
                 "The head comments of a file (version and date) are no part of the description."],
    technique="round-trip monitor: canonical forms, executions and descriptions compared")
chk("F02",
    "Random values of all 30 parameters (0, 32- and 64-bit limits, short and long fractions, negative bounds) written, read and written "
    "again; files with random subsets of parameters in random order, comments and unknown names at every level; missing, "
    "truncated, ill-formed files and values of another type. Distinct = files.",
    [run("plain", 4000, 200000)],
    ["parameters_restored", "above_32_bits", "short_fractions", "long_fractions", "parameters_set", "parameters_kept", "unknown_names",
     "broken_truncated", "broken_missing", "broken_a value that is no value", "broken_no comma", "broken_wrong type",
     "broken_not an object", "broken_empty"],
    assumptions=["Fractions are written with six significant digits, as the code says.", "Probabilities are finite."],
    technique="round-trip monitor with an independent table of parameters")
chk("I01",
    "Random instrumented graphs (root actions, shared programs) with 40 random operations each: executions by two engines from roots and "
    "inner vertices, single evaluations, resets, clearing, analyses, file output, growth of the graph; removal of unused "
    "elements; concurrent executions by 2-6 threads; twin trainings of all agents. Distinct = graphs.",
    [run("plain", 3000, 40000), run("tsan", 150, 3000)],
    ["counters_checked", "executions", "executions_of_an_action", "plain_executions", "teams_evaluated", "edges_evaluated", "resets",
     "traces_cleared", "averages_checked", "traces_analysed", "averages_of_traces", "graph_analyses", "trace_analyses", "analyses",
     "files_checked", "graph_changes", "removals", "elements_removed", "parallel_executions", "twin_trainings", "trainings_counted",
     "actions_in_trainings"],
    assumptions=["Graphs are acyclic, as the engine assumes.", "Lines counted are all lines of evaluated programs, dead ones included."],
    technique="online monitor: model of all counters and traces fed by a reference interpreter; twin executions")
chk("I02",
    "Random graphs (root actions, several actions with one identifier, programs shared by any edges, empty programs) with 12 random "
    "operations each on one statistics object: clearing, analyses of policies from any vertex, single programs, vertices and lines, "
    "writing, several environments in turn; all policies of trained agents over four generations. Distinct = graphs.",
    [run("plain", 3000, 60000), run("asan", 200, 4000)],
    ["policies", "policies_without_program", "deep_policies", "programs_analysed", "dead_lines", "analyses_after_clearing", "single_programs",
     "single_vertices", "single_lines", "environments_changed", "written", "written_judged", "trained_policies", "judged"],
    assumptions=["The text written for a user has one label per line, as it has now; means are written with six digits."],
    technique="reference account of every policy compared with the library's statistics; address and UB sanitizers")
chk("O01",
    "Trainings of all agents (scores from 1e-5 to 1e200, negative ones, with or without validation, initialised again half-way, slow "
    "evaluations) observed by two monitors around the library's loggers, with a twin without loggers; ten random graphs per case given to "
    "the cycle detector; whole trainings, stopped or not, compared with the same generations one by one. Distinct = trainings and graphs.",
    [run("plain", 600, 10000), run("asan", 25, 600)],
    ["generations", "validations", "rows", "rows_with_validation", "rows_with_spread", "rows_with_negative_scores", "durations_told_apart",
     "policies_logged", "best_policy_kept", "initialised_again", "trainings_searched_for_cycles", "twin_trainings", "rooted_cycles",
     "cycles_without_root", "acyclic_graphs", "trainings_completed", "trainings_stopped", "trainings_not_started", "progress_checked"],
    assumptions=["Scores are comparable (no NaN).", "The system clock does not jump during a case.", "Numbers are written with two decimals, as the logger is set up."],
    technique="online monitors bracketing the loggers; parsed logs compared with observed results; twin executions; reference search of cycles")

# Cases per shard of the other properties' workloads, under the sanitizers (F01 and L01 are slow there).
MEM = {"F01": 3, "L01": 8, "C01": 20, "L02": 30, "L03": 40, "L05": 40, "L06": 40, "O01": 30, "L04": 60, "M01": 20, "G02": 60}
GRIND = {"M01": 2, "O01": 4, "L06": 4, "L05": 5, "C01": 5}
chk("S01",
    "Random lives of all five kinds of agents: up to 35 operations each out of initialisation, generations, single evaluations, training, "
    "validation, surgery on the graph, import and export, code generation, statistics, instrumentation, loggers, kept programs and results, "
    "destroyed in any permitted order; damaged graph and parameter files; and the workloads of all other properties, of which only what the "
    "sanitizers report counts here. Distinct = lives, damaged files, and the other workloads' cases.",
    [run("asan", 60, 3000)] +
    [run("asan", MEM.get(h, 150), 20 * MEM.get(h, 150), harness=h, memory_only=True)
     for h in sorted(set(CHECKS) - {"S01"})] +
    [run("plain", 6, 200, memcheck=True)] +
    # L01 replaces the allocator; F01 is too slow here.
    [run("plain", GRIND.get(h, 8), 40 * GRIND.get(h, 8), harness=h, memory_only=True, memcheck=True) for h in sorted(set(CHECKS) - {"S01", "L01", "F01"})],
    ["complete_lives", "op_code", "op_environment_copy", "op_evaluate_all", "op_evaluate_one", "op_execution", "op_export", "op_export_best",
     "op_forget", "op_generation", "op_import", "op_import_and_continue", "op_init", "op_instrumented_execution", "op_jobs",
     "op_keep_best", "op_kept_program", "op_logger", "op_parameters", "op_policy_statistics", "op_populate", "op_shares", "op_surgery",
     "op_train", "damaged_graphs_loaded", "damaged_graphs_refused", "damaged_parameters_loaded", "damaged_parameters_refused"]
    + ["evaluations_of_" + h for h in sorted(set(CHECKS) - {"S01"})],
    assumptions=["Objects that were imported into an agent's graph require forgetting previous results (documented use).",
                 "Reads of uninitialised memory are looked for in a part of the cases only (valgrind is slow)."],
    technique="AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, checked containers and valgrind memcheck under generated life cycles")

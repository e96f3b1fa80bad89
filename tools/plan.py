"""Which units decide which property, in which builds and environments."""

ASAN = ["clang++", "-std=c++17", "-O0", "-g1", "-w", "-DDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
        "-fno-omit-frame-pointer"]
VARIANTS = {
    # optimised, production thresholds
    "opt": {"cmd": ["clang++", "-std=c++17", "-O1", "-w", "-DNDEBUG"], "scale": 1.0, "weight": 3},
    "gcc": {"cmd": ["g++", "-std=c++17", "-O1", "-w", "-DNDEBUG"], "scale": 1.0, "weight": 3},
    # debug thresholds and the library's own assertions
    "dbg": {"cmd": ["clang++", "-std=c++17", "-O0", "-w", "-DDEBUG"], "scale": 0.3, "weight": 1},
    "asan": {"cmd": ASAN + ["-DPARLAY_USE_STD_ALLOC"], "scale": 0.3, "weight": 2},
    "asanp": {"cmd": ASAN, "scale": 0.3, "weight": 2},      # with the library's own allocator
    "tsan": {"cmd": ["clang++", "-std=c++17", "-O1", "-g1", "-w", "-DDEBUG", "-fsanitize=thread"], "scale": 0.15, "weight": 5},
    "noise": {"cmd": ["clang++", "-std=c++17", "-O1", "-w", "-DDEBUG",
                      "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"],
              "extra_obj": ["noise.o"], "scale": 0.2, "weight": 4},
    "seq": {"cmd": ["clang++", "-std=c++17", "-O1", "-w", "-DNDEBUG", "-DPARLAY_SEQUENTIAL"], "scale": 1.0, "weight": 3},
    "omp": {"cmd": ["g++", "-std=c++17", "-O1", "-w", "-DNDEBUG", "-DPARLAY_OPENMP", "-fopenmp"], "scale": 1.0, "weight": 3},
    "stdalloc": {"cmd": ["clang++", "-std=c++17", "-O1", "-w", "-DNDEBUG", "-DPARLAY_USE_STD_ALLOC"], "scale": 1.0, "weight": 3},
    # uninitialised values and leaks: valgrind memcheck (threads take turns)
    "vg": {"cmd": ["clang++", "-std=c++17", "-O1", "-g1", "-w", "-DNDEBUG", "-DPARLAY_USE_STD_ALLOC"], "scale": 0.1, "weight": 3,
           "wrap": ["valgrind", "-q", "--fair-sched=yes", "--leak-check=full", "--show-leak-kinds=definite", "--num-callers=25",
                    "--fullpath-after=", "--error-limit=no"]},
}


def R(unit, variant, threads=None, thorough_only=False, timeout=None, **env):
    r = {"unit": unit, "variant": variant, "env": dict(env)}
    if threads:
        r["env"]["PARLAY_NUM_THREADS"] = threads
    if variant == "omp":    # spinning OpenMP threads crawl when several runs share the machine
        r["env"]["OMP_WAIT_POLICY"] = "passive"
        r["env"]["OMP_NUM_THREADS"] = threads or 8
    if thorough_only:
        r["thorough_only"] = True
    if timeout:
        r["timeout"] = timeout
    return r


PLAN = {}

PLAN["P01"] = {
    "runs": [R("u_sched", "opt", 8), R("u_sched", "opt", 1), R("u_sched", "opt", 3), R("u_sched", "opt", 17),
             R("u_sched", "noise", 8, VF_NOISE=11), R("u_sched", "noise", 4, VF_NOISE=15, VF_NOISE_SLEEP=60),
             R("u_sched", "dbg", 8), R("u_sched", "tsan", 6), R("u_sched", "omp", 5), R("u_sched", "seq"),
             R("u_sched", "noise", 16, True, VF_NOISE=8), R("u_sched", "tsan", 12, True)],
    "rule": "one evaluation is one parallel call (loop, blocked loop, fork tree, chain, nest) whose per-index counters, join and "
            "written results were checked; distinct = distinct (range, assignment of index runs to workers) observed",
    "require_events": ["bodies", "calls_spread_over_workers", "fork_nodes", "trees_with_steals"],
}

PLAN["P02"] = {
    "runs": [R("u_deque", "opt"), R("u_deque", "noise", VF_NOISE=7), R("u_deque", "noise", VF_NOISE=10, VF_NOISE_SLEEP=30, VF_SCALE=0.1),
             R("u_deque", "tsan"), R("u_deque", "noise", None, True, VF_NOISE=5, VF_SCALE=0.5)],
    "rule": "one evaluation is a history of one queue (a burst of pushes and pops by the owner against 1-7 thieves, or a "
            "2000-operation single-thread history) checked for exactly-once, owner LIFO, thief FIFO in real time and visibility of the "
            "payload; distinct = distinct outcome sequences in which a thief took part",
    "parallel": 2,
    "require_events": ["model_ops", "tasks_stolen", "tasks_popped_by_owner", "lost_steal_races"],
}

PLAN["P03"] = {
    "runs": [R("u_sid", "opt", 8), R("u_sid", "opt", 1), R("u_sid", "opt", 5), R("u_sid", "noise", 6, VF_NOISE=9), R("u_sid", "dbg", 13),
             R("u_sid", "tsan", 4), R("u_sid", "opt")],
    "rule": "one evaluation is a loop, a (nested) scheduler or a group of application threads whose bodies recorded worker id, "
            "worker count and owner of every id; distinct = distinct spreads of bodies over ids or nest shapes",
    "require_events": ["loops_on_several_workers", "explicit_schedulers", "nested_schedulers", "application_threads"],
}

PLAN["P04"] = {
    "runs": [R("u_life", "opt", 8), R("u_life", "opt", 2, VF_SCALE=0.5), R("u_life20", "opt", 8), R("u_life20", "noise", 6, VF_NOISE=9),
             R("u_life", "noise", 4, VF_NOISE=8), R("u_lifene", "opt", 4), R("u_life", "tsan", 4), R("u_life", "opt", 1),
             R("u_life20", "noise", 8, VF_NOISE=6, VF_NOISE_SLEEP=100), R("u_life20", "gcc", 5)],
    "parallel": 3,
    "rule": "one evaluation is a burst of work after an idle period, a scheduler life, a wake-up trial or a group of threads, that "
            "finished under a watchdog with all its work done; distinct = distinct configurations and outcomes",
    "require_events": ["bursts_after_idle", "schedulers_shut_down", "wake_trials", "wake_all_trials", "conservative_waits_under_lock"],
}

PLAN["P06"] = {
    "runs": [R("u_tid", "opt", 8), R("u_tid", "noise", 5, VF_NOISE=7), R("u_tid", "noise", 5, VF_NOISE=9, VF_NOISE_SLEEP=50, VF_SCALE=0.1),
             R("u_tid", "tsan", 4), R("u_tid", "asanp", 4)],
    "rounds": 4,
    "rule": "one evaluation is a group of threads (or a storage) whose ids, element addresses, initialiser calls and iterations were "
            "recorded and checked; distinct = distinct id sets, element sets or use counts per worker",
    "require_events": ["threads", "id_reuses", "ts_elements", "ts_first_touch_races", "worker_elements"],
}

PLAN["P07"] = {
    "runs": [R("u_alloc", "opt", 8), R("u_alloc", "noise", 6, VF_NOISE=9, VF_SCALE=0.1), R("u_alloc", "asanp", 4), R("u_alloc", "tsan", 4),
             R("u_alloc", "gcc", 8)],
    "rule": "one evaluation is a block (or a run of threads exchanging blocks) whose alignment, exclusiveness and content were monitored "
            "from allocation to free; distinct = distinct (API, size, alignment) or exchange histories",
    "require_events": ["blocks", "cross_thread_frees", "list_transfer_blocks", "task_blocks", "grid_blocks"],
}

PLAN["P08"] = {
    "runs": [R("u_acct", "opt", 8), R("u_acct", "dbg", 4), R("u_acct", "noise", 4, VF_NOISE=10), R("u_acct", "gcc", 3, True)],
    "rule": "one evaluation is a history of allocations and frees at whose quiescent points the usage figures were compared with the "
            "live blocks, or a pattern repeated to see the reserve stay bounded; distinct = distinct (API, size) or histories",
    "require_events": ["usage_reads", "cross_thread_frees", "reuse_rounds", "block_clears", "pool_clears"],
}

PLAN["P09"] = {
    "runs": [R("u_stack", "opt"), R("u_stack", "noise", VF_NOISE=6), R("u_stack", "noise", VF_NOISE=8, VF_NOISE_SLEEP=40, VF_SCALE=0.05),
             R("u_stack", "asanp"), R("u_stack", "tsan")],
    "parallel": 2,
    "rule": "one evaluation is a concurrent history decided by a linearizability search (or a stress run checked for exactly-once, "
            "conservation and bounded garbage); distinct = distinct histories with overlapping operations",
    "require_events": ["histories_with_overlap", "empty_pops", "values_popped", "model_operations"],
}

PLAN["P10"] = {
    "runs": [R(f"u_seq#{i}", v, t) for i in (1, 2, 3) for v, t in (("opt", 8), ("opt", 1), ("asan", 4))]
            + [R("u_seq#4", v, t) for v, t in (("opt", 8), ("asan", 4))]
            + [R(f"u_seq#{i}", "asanp", 3) for i in (2, 3)] + [R(f"u_seq#{i}", v, 4, True) for i in (1, 2, 3, 4) for v in ("tsan", "gcc")],
    "rule": "one evaluation is a history of operations on a sequence whose length, elements, returned positions, comparisons, buffer "
            "stability and element lifetimes were compared with a std::vector model after each operation; distinct = distinct histories",
    "require_events": ["operations", "growths", "allocator_blocks", "allocator_elements"],
}

PLAN["P12"] = {
    "runs": [R(f"u_sort#{i}", v, t) for i in (1, 2, 3, 4, 5) for v, t in (("opt", 8), ("asan", 4), ("opt", 3))] + [R("u_sort#4", "dbg", 1)]
            + [R(f"u_sort#{i}", v, t, True) for i in (1, 2, 3, 4, 5) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 1))],
    "rounds": 3,
    "rule": "one evaluation is an input (keys, order, element type) given to several sorting, merging or selecting calls whose outputs were "
            "compared with std::stable_sort or std::merge; distinct = distinct inputs with more than one element",
    "require_events": ["copying_sorts", "inplace_sorts", "merges", "selections", "ranks"],
}

PLAN["P13"] = {
    "runs": [R(f"u_isort#{i}", v, t) for i in (1, 2, 3, 4) for v, t in (("opt", 8), ("asan", 4), ("opt", 3))] + [R("u_isort#1", "opt", 1), R("u_isort#2", "dbg", 7)]
            + [R(f"u_isort#{i}", v, t, True) for i in (1, 2, 3, 4) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 2))],
    "rounds": 2,
    "rule": "one evaluation is a set of keyed elements given to an integer or counting sort whose output order, stability and bucket "
            "offsets were compared with an exact sequential result; distinct = distinct inputs with more than one element",
    "require_events": ["integer_sorts", "keyed_sorts", "counting_sorts"],
}

PLAN["P14"] = {
    "runs": [R(f"u_red#{i}", v, t) for i in (1, 2, 3, 4) for v, t in (("opt", 8), ("asan", 4), ("opt", 3))] + [R("u_red#1", "opt", 1), R("u_red#2", "dbg", 7)]
            + [R(f"u_red#{i}", v, t, True) for i in (1, 2, 3, 4) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 2))],
    "rounds": 8,
    "rule": "one evaluation is a range and a monoid for which reduce and the four scans were compared with the sequential left-to-right "
            "fold, or one triple of values on which the laws of a predefined monoid were checked; distinct = distinct (monoid, length, round)",
    "require_events": ["reductions", "scans", "inplace_scans", "laws", "legacy_monoids"],
}

PLAN["P16"] = {
    "runs": [R(f"u_find#{i}", v, t) for i in (1, 2) for v, t in (("opt", 8), ("asan", 4), ("opt", 3))] + [R("u_find#1", "opt", 1), R("u_find#2", "dbg", 7)]
            + [R(f"u_find#{i}", v, t, True) for i in (1, 2) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 2))],
    "rounds": 20,
    "rule": "one evaluation is a range (or a pair of ranges) on which several searching, counting or comparing calls were compared with the "
            "standard library's answer; distinct = distinct (round, lengths, content) with more than one element",
    "require_events": ["calls", "pattern_longer_than_text"],
}

PLAN["P15"] = {
    "runs": [R(f"u_map#{i}", v, t) for i in (1, 2) for v, t in (("opt", 8), ("asan", 4), ("opt", 3))] + [R("u_map#1", "opt", 1), R("u_map#2", "dbg", 7)]
            + [R(f"u_map#{i}", v, t, True) for i in (1, 2) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 2))],
    "rounds": 3,
    "rule": "one evaluation is an input given to a family of mapping, packing or rearranging calls whose outputs (and whose inputs and the "
            "space around destinations afterwards) were compared with the sequential definition; distinct = distinct (round, lengths, selection)",
    "require_events": ["outputs", "nothing_selected", "all_selected"],
}

PLAN["P17"] = {
    "runs": [R(f"u_group#{i}", v, t) for i in (1, 2, 3, 4, 5, 6, 7, 8) for v, t in (("opt", 8), ("asan", 4), ("opt", 3))] + [R("u_group#4", "opt", 1), R("u_group#5", "dbg", 7)]
            + [R(f"u_group#{i}", v, t, True) for i in (1, 2, 3, 4, 5, 6, 7, 8) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 2))],
    "rule": "one evaluation is an input given to the grouping, keyed-reduction, histogram and duplicate-removal calls whose entries were "
            "compared with an ordered map; distinct = distinct (element type, round, length, number of keys)",
    "require_events": ["groupings", "groups", "constant_hash"],
}

PLAN["P18"] = {
    "runs": [R(f"u_delayed#{i}", v, t) for i in (1, 2, 3, 4, 5, 6, 7) for v, t in (("opt", 8), ("asan", 4))]
            + [R("u_delayed#1", "opt", 3), R("u_delayed#5", "opt", 1), R("u_delayed#6", "opt", 3)]
            + [R(f"u_delayed#{i}", v, t, True) for i in (1, 2, 4, 5, 6) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 2), ("dbg", 7))],
    "rounds": 20,
    "rule": "one evaluation is a delayed range (the root of a random tree of delayed operations, or a concrete composition) whose size, "
            "iteration, forced copy, reductions and applications were compared with the eager model after copies, moves, assignments and swaps; "
            "distinct = distinct programs or (composition, length, content) with elements",
    "require_events": ["programs", "copied", "moved", "assigned", "swapped", "several_blocks", "writes_through_views", "concrete_views"],
}

PLAN["P19"] = {
    "runs": [R(f"u_io#{i}", v, t) for i in (1, 2, 3, 4) for v, t in (("opt", 8), ("asan", 4))] + [R("u_io#1", "opt", 3), R("u_io#1", "opt", 1), R("u_io#2", "opt", 3)]
            + [R(f"u_io#{i}", v, t, True) for i in (1, 2, 3, 4) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 2), ("dbg", 7))],
    "rule": "one evaluation is a text (or a number, or a file) that was tokenised, split, parsed, formatted, written or read back and compared "
            "with a sequential reference and the C++ library's conversions; distinct = distinct texts, numbers or files",
    "require_events": ["tokens", "pieces", "parallel_tokenisings", "integers", "floats", "out_of_range_floats", "files", "ranges_read",
                       "ranges_past_the_end", "empty_files", "mappings"],
}

PLAN["P20"] = {
    "runs": [R("u_rand", "opt", t) for t in (8, 3, 1)] + [R("u_rand", v, t) for v, t in (("asan", 4), ("dbg", 7), ("gcc", 5), ("noise", 8))]
            + [R("u_rand", v, 4) for v in ("seq", "omp", "stdalloc")] + [R("u_rand", "tsan", 8, True)],
    "rounds": 10,
    "rule": "one evaluation is a shuffle, a permutation or a family of random streams whose result was checked to be a permutation, to be "
            "spread over all positions and to be the same when repeated, drawn in another order, drawn from inside parallel work, and (by "
            "digest) in every other build and with every other worker count; distinct = distinct (type, length, seed)",
    "require_events": ["permutations", "spread_checks", "streams", "multisets", "digests_compared"],
}

PLAN["P21"] = {
    "runs": [R("u_hash", "opt", 8), R("u_hash", "opt", 3), R("u_hash", "noise", 8), R("u_hash", "asan", 6), R("u_hash", "tsan", 8), R("u_hash", "dbg", 7),
             R("u_hash", "gcc", 5, True), R("u_hash", "noise", 4, True, VF_NOISE=8)],
    "rounds": 8,
    "rule": "one evaluation is a phase (concurrent insertions, updates or deletions) on a table, after which count, entries, order of the "
            "entries, index and searches for present and absent keys were compared with an ordered map and with a fresh table of the same "
            "content; distinct = distinct (table size, hash placement, phase, contents before and after)",
    "require_events": ["insertions", "deletions", "searches", "inspections", "cas_lost", "pair_insertions", "pointer_phases", "numeric_phases"],
}

PLAN["P22"] = {
    "runs": [R("u_atomic#1", v, t) for v, t in (("opt", 8), ("noise", 8), ("tsan", 8), ("asan", 6), ("gcc", 8), ("dbg", 7))]
            + [R("u_atomic#2", v, t) for v, t in (("opt", 8), ("gcc", 3), ("asan", 4), ("dbg", 5))] + [R("u_atomic#2", "tsan", 8, True), R("u_atomic#1", "noise", 5, True, VF_NOISE=9)],
    "rounds": 6,
    "rule": "one evaluation is a contest of threads adding to, or taking the minimum or maximum in, one location, whose recorded calls were "
            "checked against the values read and the final value (or a padded type, a family of hashes, a family of logarithms); distinct = "
            "distinct contests (threads, calls, delays, successes, outcome)",
    "require_events": ["additions", "extreme_calls", "successes", "changes_observed", "padded_types", "hashes", "digests_compared"],
}

PLAN["P11"] = {
    "runs": [R(f"u_objects#{i}", v, t) for i in (1, 2, 3, 4, 5, 6) for v, t in (("opt", 8), ("asan", 4))] + [R("u_objects#2", "dbg", 7)]
            + [R(f"u_objects#{i}", v, t, True) for i in (1, 2, 3, 4, 5, 6) for v, t in (("noise", 8), ("asanp", 8), ("gcc", 3), ("dbg", 8))],
    "rule": "one evaluation is an operation on elements whose every construction, use, move, assignment and destruction (or whose owned "
            "token's release) was registered, after which values were compared with the model and nothing may be alive; distinct = distinct "
            "(operation, element type, length, objects constructed)",
    "require_events": ["operations", "objects", "uses_checked", "kinds_of_operation"],
}

PLAN["P23"] = {
    "runs": [R(f"u_conf#{i}", v, t) for i in (1, 2, 3, 4, 5)
             for v, t in (("opt", 8), ("opt", 1), ("opt", 3), ("opt", 17), ("seq", None), ("omp", 5), ("stdalloc", 6), ("dbg", 7), ("gcc", 2))]
            + [R(f"u_conf#{i}", v, t, True) for i in (1, 2, 3, 4, 5) for v, t in (("noise", 8), ("opt", 2), ("opt", 33), ("asan", 4), ("asanp", 5), ("dbg", 1))],
    "rule": "one evaluation is an operation on an input whose result, at top level and from several calls inside parallel loops and branches, was "
            "the same, and whose digest was compared with that of every other build, back-end, allocator and worker count; distinct = distinct "
            "(operation, input, result)",
    "require_events": ["operations", "nested_calls", "digests_compared"],
}

PLAN["P24"] = {
    "runs": [R(f"u_conf#{i}", v, t) for i in (1, 2, 3, 4, 5) for v, t in (("vg", 2), ("asan", 4), ("asanp", 3))]
            + [R(u, "asan", 4) for u in ("u_seq#1", "u_seq#2", "u_seq#3", "u_find#1", "u_find#2", "u_map#1", "u_map#2", "u_io#1", "u_io#2", "u_io#3",
                                         "u_io#4", "u_delayed#1", "u_delayed#6", "u_group#4", "u_group#5", "u_red#1", "u_isort#1", "u_sort#1",
                                         "u_hash", "u_rand", "u_objects#4", "u_sched")]
            + [R(u, "asanp", 4) for u in ("u_alloc", "u_stack", "u_tid")]
            + [R(f"u_objects#{i}", "vg", 2, True) for i in (1, 2, 3, 4, 5, 6)]
            + [R(u, "vg", 2, True) for u in ("u_seq#1", "u_seq#2", "u_seq#3", "u_find#1", "u_map#1", "u_io#1", "u_io#2", "u_io#3", "u_io#4", "u_delayed#1",
                                             "u_delayed#6", "u_group#4", "u_group#5", "u_hash", "u_rand")]
            + [R(f"{u}#{i}", "asan", 4, True) for u, m in (("u_sort", 5), ("u_isort", 4), ("u_red", 4), ("u_group", 8), ("u_delayed", 7), ("u_objects", 6)) for i in range(1, m + 1)],
    "keys": ["asan:*", "ubsan:*", "crash:*", "vg:*"],
    "parallel": 4,
    "rule": "one evaluation is a call (or a history of calls) that respected its preconditions and ran under AddressSanitizer and "
            "UndefinedBehaviorSanitizer, or under valgrind memcheck with leak checking; distinct = distinct inputs as counted by the unit",
    "require_events": ["operations", "nested_calls", "outputs", "files", "insertions", "programs"],
}

PLAN["P05"] = {
    "runs": [R(f"u_conf#{i}", "tsan", t) for i, t in ((1, 8), (2, 6), (3, 8), (4, 5), (5, 8))]
            + [R(u, "tsan", t) for u, t in (("u_sched", 6), ("u_deque", None), ("u_sid", 4), ("u_life", 4), ("u_life20", 4), ("u_tid", 4), ("u_alloc", 4), ("u_acct", 4), ("u_stack", None),
                                            ("u_hash", 8), ("u_atomic#1", 8), ("u_objects#4", 8), ("u_seq#2", 4), ("u_io#1", 6))]
            + [R(f"u_conf#{i}", "tsan", t, True) for i in (1, 2, 3, 4, 5) for t in (2, 3, 16)]
            + [R(f"{u}#{i}", "tsan", 8, True) for u, m in (("u_sort", 5), ("u_isort", 4), ("u_red", 4), ("u_group", 8), ("u_delayed", 7), ("u_objects", 6), ("u_seq", 3), ("u_find", 2), ("u_map", 2), ("u_io", 4)) for i in range(1, m + 1)],
    "keys": ["tsan:*"],
    "parallel": 3,
    "rule": "one evaluation is a parallel call (or a concurrent history) whose memory accesses were watched by ThreadSanitizer; distinct = distinct inputs "
            "or histories as counted by the unit",
    "require_events": ["operations", "nested_calls", "bodies", "tasks_stolen", "histories_with_overlap", "insertions", "cross_thread_frees"],
}

# The monitors of the example algorithms. They are not claimed: see not_applicable in MANIFEST.json and DESIGN.md.
EXAMPLES = {}
EXAMPLES["P25"] = {
    "runs": [R(f"u_exg#{i}", v, t) for i in (1, 2, 3) for v, t in (("opt", 8), ("asan", 4))]
            + [R("u_exm#3", v, t) for v, t in (("opt", 8), ("asan", 4))]
            + [R(f"u_exg#{i}", v, t, True) for i in (1, 2, 3) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 3), ("dbg", 7))]
            + [R("u_exm#3", v, t, True) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 3), ("dbg", 7))],
    "rounds": 2,
    "rule": "one evaluation is a graph given to one of the example graph algorithms, whose answer was checked against a sequential "
            "algorithm or against the definition of a valid answer; distinct = distinct graphs",
    "require_events": ["graphs", "searches", "forests", "sets", "colourings", "triangles", "flows", "covers", "negative_cycles", "graph_files"],
}

EXAMPLES["P26"] = {
    "runs": [R(f"u_exs#{i}", v, t) for i in (1, 2, 3) for v, t in (("opt", 8), ("asan", 4))]
            + [R(f"u_exm#{i}", v, t) for i in (1, 2) for v, t in (("opt", 8), ("asan", 4))]
            + [R(f"u_exs#{i}", v, t, True) for i in (1, 2, 3) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 3), ("dbg", 7))]
            + [R(f"u_exm#{i}", v, t, True) for i in (1, 2) for v, t in (("noise", 8), ("tsan", 8), ("gcc", 3), ("dbg", 7))],
    "rounds": 2,
    "rule": "one evaluation is an input given to one of the example algorithms on sequences, strings, numbers, maps or points, whose answer "
            "was checked against a sequential algorithm or the definition; distinct = distinct inputs",
    "require_events": ["sorts", "sequences", "numeric", "strings", "matches", "trees", "queries", "map_operations", "points", "triangles", "boxes", "clusterings", "decision_nodes", "regressions", "particles", "ray_hits"],
}

# boundary-length sweeps
for _i, _p in enumerate(["P12", "P13", "P14", "P15", "P16", "P17", "P18"], 1):
    PLAN[_p]["runs"] += [R(f"u_bound#{_i}", "opt", 8), R(f"u_bound#{_i}", "gcc", 5, True), R(f"u_bound#{_i}", "asan", 4, True), R(f"u_bound#{_i}", "dbg", 3, True)]
    PLAN[_p]["require_events"] = PLAN[_p].get("require_events", []) + ["boundary_inputs", "long_boundary_inputs"]

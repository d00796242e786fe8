"""What is compiled and run for every property."""

INSTR = ["-fsanitize=address"]
FLAVOURS = {
    "asan": {"cflags": ["-O1", "-fsanitize=address", "-w"], "ldflags": ["-fsanitize=address"], "libs": ["-lgmpxx", "-lgmp"], "instrument": INSTR},
    # own thread-sanitizer runtime, scheduler and allocator
    "mt": {"cxx": "clang++", "cflags": ["-O1", "-fsanitize=thread", "-DSIM_MT", "-w", "-isystem", "sim/mtinc"], "ldflags": ["-pthread"],
           "libs": ["-lgmpxx", "-lgmp"], "instrument": ["-fsanitize=thread"], "plain": ["core", "mt"]},
    # own allocator decides addresses and contents of all memory; optimised differently
    "layout": {"cflags": ["-O2", "-w", "-fno-stack-protector", "-fno-pie"], "ldflags": ["-static", "-no-pie"], "libs": ["-lgmpxx", "-lgmp"], "instrument": []},
}

EIGEN = "-I/usr/include/eigen3"

# unit: (source, defines, {flavour-specific flags, cost})
TUS = {
    "core": ("core.cpp", [], {}),
    "rbtree": ("rbtree.cpp", [], {}),
    "userlib": ("userlib.cpp", [], {}),
    "mt": ("mt.cpp", [], {}),
    "m": ("scen_m.cpp", [], {"cost": 4}),
    "a0": ("scen_a.cpp", ["-DSIM_CONF=0"], {"cost": 20}),
    "a1": ("scen_a.cpp", ["-DSIM_CONF=1"], {"cost": 20}),
    "a2": ("scen_a.cpp", ["-DSIM_CONF=2"], {"cost": 20}),
    "e0": ("scen_e.cpp", ["-DSIM_CONF=0"], {"cost": 9}),
    "e1": ("scen_e.cpp", ["-DSIM_CONF=1"], {"cost": 9}),
    "e2": ("scen_e.cpp", ["-DSIM_CONF=2"], {"cost": 9}),
    "e3": ("scen_e.cpp", ["-DSIM_CONF=3"], {"cost": 9}),
    "e4": ("scen_e.cpp", ["-DSIM_CONF=4"], {"cost": 9}),
    "ops": ("ops.cpp", [], {}),
    "l0": ("scen_l.cpp", ["-DSIM_CONF=0"], {"cost": 16}),
    "l1": ("scen_l.cpp", ["-DSIM_CONF=1"], {"cost": 15}),
    "l2": ("scen_l.cpp", ["-DSIM_CONF=2"], {"cost": 15}),
    "h0": ("scen_h.cpp", ["-DSIM_CONF=0"], {"cost": 8}),
    "h1": ("scen_h.cpp", ["-DSIM_CONF=1"], {"cost": 8}),
    "h2": ("scen_h.cpp", ["-DSIM_CONF=2"], {"cost": 8}),
    "p0": ("scen_p.cpp", ["-DSIM_CONF=0"], {"cost": 10}),
    "p1": ("scen_p.cpp", ["-DSIM_CONF=1"], {"cost": 10}),
    "p2": ("scen_p.cpp", ["-DSIM_CONF=2"], {"cost": 10}),
    "views0": ("views.cpp", ["-DSIM_CONF=0", EIGEN], {"cost": 12}),
    "views1": ("views.cpp", ["-DSIM_CONF=1", EIGEN], {"cost": 12}),
    "views2": ("views.cpp", ["-DSIM_CONF=2", EIGEN], {"cost": 12}),
    "v0": ("scen_v.cpp", ["-DSIM_CONF=0"], {"cost": 8}),
    "v1": ("scen_v.cpp", ["-DSIM_CONF=1"], {"cost": 8}),
    "v2": ("scen_v.cpp", ["-DSIM_CONF=2"], {"cost": 8}),
    "t0": ("scen_t.cpp", ["-DSIM_CONF=0"], {"cost": 12}),
    "t1": ("scen_t.cpp", ["-DSIM_CONF=1"], {"cost": 12}),
    "t2": ("scen_t.cpp", ["-DSIM_CONF=2"], {"cost": 12}),
    "s0": ("scen_s.cpp", ["-DSIM_CONF=0"], {"cost": 6}),
    "s1": ("scen_s.cpp", ["-DSIM_CONF=1"], {"cost": 6}),
    "s2": ("scen_s.cpp", ["-DSIM_CONF=2"], {"cost": 6}),
    "o0": ("scen_o.cpp", ["-DSIM_CONF=0"], {"cost": 14}),
    "o1": ("scen_o.cpp", ["-DSIM_CONF=1"], {"cost": 14}),
    "o2": ("scen_o.cpp", ["-DSIM_CONF=2"], {"cost": 14}),
    "x0": ("scen_x.cpp", ["-DSIM_CONF=0"], {"cost": 25}),
    "x1": ("scen_x.cpp", ["-DSIM_CONF=1"], {"cost": 26}),
    "x2": ("scen_x.cpp", ["-DSIM_CONF=2"], {"cost": 22}),
    "g0": ("scen_g.cpp", ["-DSIM_CONF=0", EIGEN], {"cost": 14}),
    "g1": ("scen_g.cpp", ["-DSIM_CONF=1", EIGEN], {"cost": 14}),
    "b0": ("scen_b.cpp", ["-DSIM_CONF=0"], {"cost": 12}),
    "b1": ("scen_b.cpp", ["-DSIM_CONF=1"], {"cost": 12}),
    "b2": ("scen_b.cpp", ["-DSIM_CONF=2"], {"cost": 12}),
}
for _u in TUS:
    if _u[-1] == "1":
        TUS[_u][2]["layout"] = ["-O0", "-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/"]
BASE = ["core", "rbtree", "userlib"]
OPS = BASE + ["ops"]
VIEWS = OPS + ["views0", "views1", "views2"]
LETTERS = "ehlpvtsobx"
ALL = VIEWS + [c + k for c in LETTERS for k in "012"] + ["g0", "g1"]
ALL_SCENS = [c.upper() + k for c in LETTERS for k in "012"] + ["G0", "G1"]

MT = ["mt"] + ALL + ["m"]

# violations that count for a property checked over all scenarios
ERRORS = ["wrong-error", "missing-error", "swallowed-error", "stale-error", "stray-error", "unexpected-exception", "spurious-error",
          "failure-hidden", "terminate", "abort"]
LIFETIME = ["asan-*", "crash", "stale-object", "moved-from-read"]
LEAKS = ["leak", "user-object-leak", "bad-free", "runaway-allocation"] + LIFETIME

PROBES = {
    10: "an operator application ran inside the traversal of another one",
    11: "operator refused because of an unknown generator",
    13: "products below the tolerance kept in a dense result",
    12: "coefficients of a parametric operator stored in a reused buffer",
    1: "add() refused because the space would not fit",
    2: "construction refused because the space would not fit",
    3: "two different Hilbert spaces compared equal",
    4: "factory refused a generator",
    20: "a merge changed the partition",
    21: "subspace of a non-member state refused",
    30: "view or vector with a complete list of basis states",
    31: "amplitude cancelled by an update",
    32: "operator applied into a view",
    33: "operator result refused by a mapping",
    34: "operator applied to the content of a view",
    35: "constant view of a shared vector",
    40: "three traversals in progress at once",
    41: "several nested traversals abandoned together",
    42: "an object traversed inside a traversal of itself",
    43: "something ran inside an operator application",
    50: "mapper built from an operator, three or more states",
    51: "mapper built from products of operators, three or more states",
    52: "request refused by the library with the documented error",
    53: "sector list with more than three states",
    54: "list of several sectors with more than three states",
    55: "sector with more than 2^40 states counted",
    60: "printing to a stream already in an error state",
    61: "buffer failure delivered as an exception of the stream",
    62: "long text printed completely",
    70: "operator, view or mapper whose Hilbert space was destroyed right after",
    71: "self-referential operation",
    72: "copy assignment between objects",
    80: "error crossed another library call",
    81: "coefficient incompatible with the scalar type refused",
    82: "index outside a mapping refused",
    83: "error copied by value",
    84: "commutation rule raised an error of the library's own",
    0: "failed in-place operation left a mixture of old and new terms",
}

REAL = ["libcommute headers compiled unchanged from /repo/include", "libstdc++ containers, shared_ptr, exceptions"]
STUBS = ["operator new/delete (fault points, accounting)", "red-black tree primitives of libstdc++ (recompiled with instrumentation)",
         "user-supplied scalar, index, generator types (heap-owning, every operation a fault point)"]

REAL_MT = REAL + ["threads (real pthreads, one of which runs at a time)", "atomic operations of shared_ptr"]
STUBS_MT = STUBS + ["scheduler", "thread-sanitizer runtime (own: scheduling points, happens-before order, allocation map)",
                    "pthread mutexes, rwlocks, once, condition variables, static-initialisation guards (simulated)",
                    "allocator (one region per thread, nothing reused)"]

CHECKS = {
    "C01": {
        "parts": [
            {"name": "sharing", "units": ["mt"] + VIEWS + ["a0", "a1", "a2"], "scens": ["A0", "A1", "A2"], "flavour": "mt", "classes": ["mt-*"],
             "quick": {"count": 800, "variants": 6}, "thorough": {"count": 40000, "variants": 10, "seconds": 820}},
        ],
        "technique": "deterministic simulation: two to four threads under a seeded scheduler that switches at memory accesses, with injected failures; "
                     "happens-before race detection and comparison of every result with the thread's solitary run",
        "note": "Sampled operations, interleavings and failure points; oracle: no conflicting unordered accesses, every operation of every thread "
                "gives what it gives without the other threads, the shared objects are the same afterwards.",
        "rule": "One case = one simulated run: 1-6 non-modifying operations per thread on a common set of about 50 objects of all kinds, every "
                "thread first alone (in a process of its own), then all together under a seeded schedule. Two runs are distinct if the hashes of "
                "their event logs and schedules differ; only runs with a failure or a switch of threads are counted.",
        "real": REAL_MT, "stubs": STUBS_MT, "probes": [],
        "assumptions": ["operations that the library declares const are the ones that may run concurrently",
                        "code inside of libstdc++.so and libc is not instrumented (its writes to private data are not seen)"],
    },
    "C02": {
        "parts": [
            {"name": "threads", "units": MT, "scens": ["M"], "flavour": "mt", "classes": ["mt-*"],
             "quick": {"count": 400, "variants": 6}, "thorough": {"count": 20000, "variants": 10, "seconds": 820}},
        ],
        "technique": "deterministic simulation: two to four threads under a seeded scheduler that switches at memory accesses, each running a workload of "
                     "any other property on its own objects, with injected failures; happens-before race detection and comparison of every "
                     "result with the thread's solitary run",
        "note": "Sampled workloads, interleavings and failure points; oracle: no conflicting unordered accesses, every operation of every thread "
                "gives what it gives without the other threads, everything is released at the end.",
        "rule": "One case = one simulated run: 2-7 operations per thread (of the scenarios of C03-C14), every thread first alone (in a process of "
                "its own), then all together under a seeded schedule; generators and copied objects share parts between the threads. Two "
                "runs are distinct if the hashes of their event logs and schedules differ; only runs with a failure or a switch of threads are "
                "counted.",
        "real": REAL_MT, "stubs": STUBS_MT, "probes": [],
        "assumptions": ["code inside of libstdc++.so and libc is not instrumented (its writes to private data are not seen)"],
    },
    "C03": {
        "parts": [
            {"name": "traversals", "units": VIEWS + ["t0", "t1", "t2"], "scens": ["T0", "T1", "T2"],
             "quick": {"count": 300, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 400}},
            {"name": "eigen", "units": OPS + ["g0", "g1"], "scens": ["G0", "G1"],
             "quick": {"count": 300, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 400}},
        ],
        "technique": "deterministic simulation: seeded trees of nested and abandoned traversals, scheduled inside each other's callbacks, with injected failures",
        "note": "Sampled interleavings (up to four traversals in progress); oracle: every completed traversal visits the full list, "
                "every abandoned one a prefix, all objects traverse correctly afterwards.",
        "rule": "One case = one simulated run of 3-14 seeded traversal trees (depth up to 4) over Hilbert spaces, partitions, expressions, "
                "monomials, 22 kinds of vectors and views and operator applications, abandoned by exceptions at seeded visits and by injected "
                "failures; or one of 6-24 operations on 14 Eigen objects. Two runs are distinct if their event log hashes differ.",
        "real": REAL, "stubs": STUBS, "probes": [40, 41, 42, 43],
        "assumptions": ["callbacks do not modify the traversed objects"],
    },
    "C04": {
        "parts": [
            {"name": "expressions", "units": BASE + ["e0", "e1", "e2", "e3", "e4"], "scens": ["E0", "E1", "E2", "E3", "E4"],
             "quick": {"count": 450, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 800}},
        ],
        "technique": "deterministic simulation: seeded operation histories with injected allocation and user-code failures, reference model",
        "note": "Sampled histories and failure points; oracle: exact monomial representation of all algebras plus an independent canonical-form check. Trusts the fault-injecting user types and the model.",
        "rule": "One case = one simulated run of a seeded workload of 4-24 operations on six expressions sharing generators, with "
                "seeded failures (allocation, scalar arithmetic, generator rules and comparisons, index copies and comparisons, functors). "
                "Two runs are distinct if the hashes of their event logs (all results, all failures) differ; trivial (empty) logs do not occur.",
        "real": REAL, "stubs": STUBS, "probes": [0],
        "assumptions": ["user-supplied scalars give the strong guarantee per operation; is_zero() and moves do not throw"],
    },
    "C05": {
        "parts": [
            {"name": "spaces", "units": BASE + ["h0", "h1", "h2"], "scens": ["H0", "H1", "H2"],
             "quick": {"count": 450, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 800}},
        ],
        "technique": "deterministic simulation: seeded histories of Hilbert spaces with injected allocation, user-space and factory failures, reference model",
        "note": "Sampled histories and failure points; oracle: an independent model answering every query, asked of all spaces after every attempt.",
        "rule": "One case = one simulated run of 4-26 operations on four Hilbert spaces (construction from lists, vectors, expressions; "
                "add, copy, move, assign, query, traverse) with seeded failures. Two runs are distinct if their event log hashes differ; "
                "only runs in which at least one failure was injected are counted.",
        "real": REAL, "stubs": STUBS, "probes": [1, 2, 3, 4],
        "assumptions": ["user-supplied elementary spaces answer consistently; moved-from Hilbert spaces are only assigned to"],
    },
    "C06": {
        "parts": [
            {"name": "operators", "units": OPS + ["l0", "l1", "l2"], "scens": ["L0", "L1", "L2"],
             "quick": {"count": 400, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 400}},
            {"name": "eigen", "units": OPS + ["g0", "g1"], "scens": ["G0", "G1"],
             "quick": {"count": 300, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 400}},
        ],
        "technique": "deterministic simulation: seeded operator applications with injected allocation, scalar, coefficient and state-vector failures, dense reference model",
        "note": "Sampled operators, spaces, vectors and failure points; oracle: independent action of every generator on basis states.",
        "rule": "One case = one simulated run of 6-22 operations (constant and parametric operators applied to dense, sparse, user "
                "and Eigen vectors and to views, in all calling forms, nested and repeated after failures). Two runs are distinct if their event log "
                "hashes differ; only runs in which at least one failure was injected are counted.",
        "real": REAL, "stubs": STUBS, "probes": [10, 11, 12, 13],
        "assumptions": ["source and destination are different vectors; the destination of a failed application has unspecified amplitudes"],
    },
    "C07": {
        "parts": [
            {"name": "partitions", "units": OPS + ["p0", "p1", "p2"], "scens": ["P0", "P1", "P2"],
             "quick": {"count": 400, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 800}},
        ],
        "technique": "deterministic simulation: seeded partition histories with injected allocation, scalar, action and callback failures, union-find reference model",
        "note": "Sampled Hamiltonians, operator pairs and failure points; oracle: connected components of independently computed matrix elements.",
        "rule": "One case = one simulated run of 3-12 operations on two partitions of one Hilbert space (construction with and without matrix "
                "elements, merging, connections, queries, traversals, copies) with seeded failures. Two runs are distinct if their event log "
                "hashes differ; only runs in which at least one failure was injected are counted.",
        "real": REAL, "stubs": STUBS, "probes": [20, 21],
        "assumptions": ["matrix elements cancel exactly or not at all (small integer coefficients)"],
    },
    "C08": {
        "parts": [
            {"name": "leaks", "units": ALL, "scens": ALL_SCENS, "salt": 8, "repeat": 3, "classes": LEAKS,
             "quick": {"count": 240, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 820}},
        ],
        "technique": "deterministic simulation: seeded workloads over the whole library with injected failures, run three times in one process; "
                     "accounting of all blocks and user-supplied objects, address sanitizer",
        "note": "Sampled workloads and failure points; oracle: no user-supplied object lives after a workload, the number of live blocks "
                "does not grow between repetitions, no invalid or repeated release.",
        "rule": "One case = one simulated run (a seeded workload of any scenario with seeded failures, three times over). Two runs are distinct if "
                "their event log hashes differ; only runs in which at least one failure was injected are counted.",
        "real": REAL, "stubs": STUBS, "probes": [0, 4, 10, 30, 41, 43, 70, 71],
        "assumptions": ["memory that the standard library and the simulator keep for the whole process appears in the first two repetitions"],
    },
    "C09": {
        "parts": [
            {"name": "printing", "units": BASE + ["s0", "s1", "s2"], "scens": ["S0", "S1", "S2"],
             "quick": {"count": 500, "variants": 8}, "thorough": {"count": 9000, "variants": 12, "seconds": 800}},
        ],
        "technique": "deterministic simulation: seeded printing histories on streams whose buffers fail, throw, break or take data in pieces, "
                     "with injected allocation and user-code failures, independent text model",
        "note": "Sampled objects, settings and failure points; oracle: text composed independently from the object's value.",
        "rule": "One case = one simulated run of 4-22 operations on three streams (printing expressions, monomials, generators, index "
                "sequences and numbers, changing formats, exception masks, locales, repairing) with seeded failures. Two runs are "
                "distinct if their event log hashes differ; only runs in which at least one failure was injected are counted.",
        "real": REAL + ["std::ostream and its number formatting"], "stubs": STUBS + ["stream buffers"], "probes": [60, 61, 62],
        "assumptions": ["no field width is set", "allocation failures inside the standard library's printing of std::complex are left out "
                        "(it hides them)"],
    },
    "C10": {
        "parts": [
            {"name": "layouts", "units": ALL, "scens": ALL_SCENS, "salt": 10, "layouts": 3, "flavour": "layout", "classes": ["layout-dependence"],
             "quick": {"count": 600, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 820}},
        ],
        "technique": "deterministic simulation: seeded workloads over the whole library with injected failures, each run under several seeded "
                     "memory layouts and compared event by event",
        "note": "Sampled workloads, failure points and layouts (ascending, descending, shuffled addresses; zero, one, random and small leftover "
                "contents of heap and stack); oracle: all runs of a workload log the same results.",
        "rule": "One case = one simulated run of a seeded workload with seeded failures, executed in three memory layouts. Two runs are distinct if "
                "their event log hashes differ; fault-free runs count, because the layouts are what is varied.",
        "real": REAL, "stubs": STUBS + ["allocator (decides all addresses and the contents of fresh memory)", "contents of the unused stack"],
        "probes": [0, 4, 10, 30, 41, 43, 70, 71],
        "assumptions": ["traversal order of views over hash maps is unspecified and not logged"],
    },
    "C11": {
        "parts": [
            {"name": "errors", "units": ALL, "scens": ["X0", "X1", "X2"], "classes": ERRORS + LIFETIME,
             "quick": {"count": 300, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 400}},
            {"name": "errors", "units": ALL, "scens": ALL_SCENS, "salt": 11, "classes": ERRORS,
             "quick": {"count": 54, "variants": 5}, "thorough": {"count": 2700, "variants": 8, "seconds": 450}},
        ],
        "technique": "deterministic simulation: seeded workloads over the whole library with injected failures of many types; the simulator compares "
                     "the error leaving every call with the injected one, and the library's own errors with a model, immediately and after all "
                     "objects are gone",
        "note": "Sampled workloads and failure points; oracle: identity, type and origin of every injected error; model of the errors the library raises.",
        "rule": "One case = one simulated run of a seeded workload (a history of error-raising calls for scenario X, any workload of the other "
                "properties otherwise) with seeded failures. Two runs are distinct if their event log hashes differ; runs without failures "
                "count for scenario X only, where the errors are the library's own.",
        "real": REAL + ["GMP and boost::rational scalars"], "stubs": STUBS, "probes": [80, 81, 82, 83, 84],
        "assumptions": ["messages are compared with those documented or tested", "shrink_to_fit() may tolerate failing allocations"],
    },
    "C12": {
        "parts": [
            {"name": "ownership", "units": VIEWS + ["o0", "o1", "o2"], "scens": ["O0", "O1", "O2"],
             "quick": {"count": 450, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 800}},
        ],
        "technique": "deterministic simulation: seeded histories of copies, moves, assignments, derivations and destructions of all kinds of "
                     "objects with injected failures; every object's value is compared after every step",
        "note": "Sampled histories and failure points over 20 kinds of objects; oracle: the value recorded when the object was made "
                "(differential for self-referential operations), address sanitizer, poisoning user types.",
        "rule": "One case = one simulated run of 5-26 operations on eight objects (expressions, monomials, generators, spaces, operators, "
                "partitions, mappers, vectors, views, linear functions, ...) with seeded failures. Two runs are distinct if their event log "
                "hashes differ; only runs in which at least one failure was injected are counted.",
        "real": REAL, "stubs": STUBS, "probes": [70, 71, 72],
        "assumptions": ["moved-from objects are only assigned to or destroyed", "mapped views keep their mapper, by-reference views their "
                        "vector and partitions their Hilbert space alive"],
    },
    "C13": {
        "parts": [
            {"name": "storage", "units": VIEWS + ["v0", "v1", "v2"], "scens": ["V0", "V1", "V2"],
             "quick": {"count": 400, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 400}},
            {"name": "eigen", "units": OPS + ["g0", "g1"], "scens": ["G0", "G1"],
             "quick": {"count": 300, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 400}},
        ],
        "technique": "deterministic simulation: seeded storage histories with injected allocation, scalar, vector-access and callback failures, map-of-amplitudes reference model",
        "note": "Sampled histories and failure points over 21 kinds of vectors and views (three storage types, three ranking algorithms); "
                "oracle: a map from basis states to amplitudes per underlying vector.",
        "rule": "One case = one simulated run of 5-26 operations on six vectors and views of one Hilbert space (small, fermionic or with up to "
                "63 bits), or of 6-24 operations on 14 Eigen objects, with seeded failures. Two runs are distinct if their event log hashes differ; only runs in which at least one failure "
                "was injected are counted.",
        "real": REAL, "stubs": STUBS, "probes": [30, 31, 32, 33, 34, 35],
        "assumptions": ["dyadic amplitudes, so that sums are exact", "each amplitude is old or zero after an interrupted set_zeros()"],
    },
    "C14": {
        "parts": [
            {"name": "maps", "units": VIEWS + ["b0", "b1", "b2"], "scens": ["B0", "B1", "B2"],
             "quick": {"count": 400, "variants": 6}, "thorough": {"count": 9000, "variants": 10, "seconds": 800}},
        ],
        "technique": "deterministic simulation: seeded histories of map, list and view constructions with injected allocation, scalar, action and index failures, enumeration model",
        "note": "Sampled spaces (up to 63 bits), operators, sectors and failure points; oracle: independent enumeration of combinations, 128-bit "
                "binomials, independent operator action.",
        "rule": "One case = one simulated run of 4-16 constructions (basis mappers from lists, operators and operator products; sector and "
                "multisector lists, sizes and views; refused requests) with seeded failures. Two runs are distinct if their event log hashes "
                "differ; only runs in which at least one failure was injected are counted.",
        "real": REAL, "stubs": STUBS, "probes": [50, 51, 52, 53, 54, 55],
        "assumptions": ["lists given to mappers have no duplicates", "operators whose amplitudes cancel only up to rounding are left out"],
    },
}

_PURE = ("pure function of its input: no thread, clock, I/O, callback or failure takes part, so there is nothing to schedule or "
         "to inject; ")
NOT_APPLICABLE = {
    "N01": _PURE + "canonical forms are nevertheless checked as part of the oracle of C04.",
    "N02": _PURE + "products and conjugates are nevertheless compared with an exact representation in C04.",
    "N03": _PURE + "operator action on states is nevertheless compared with a dense matrix model in C06.",
    "N04": _PURE + "would be decided by exhaustive enumeration of sectors (C14 uses the default ranking only).",
    "N05": _PURE + "would be decided by comparing two template instantiations on generated inputs.",
    "N06": _PURE + "would be decided by generated inputs and type-level tests.",
    "N07": _PURE + "would be decided by exhaustive comparison of two compilations or by proof.",
    "N08": _PURE + "a statement about a numerical threshold, to be decided by boundary-value tests.",
}

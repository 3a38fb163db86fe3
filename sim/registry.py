"""What each check builds and runs. (runs, wall cap in s) per tier."""
BASE_FLAGS = ["-std=c++17", "-mavx", "-mfma", "-DBLASBOOSTER_USE_TRACKER", "-DWITH_OPENBLAS", "-ftemplate-depth=10000",
              "-DWITH_EIGEN", "-I@repo/include", "-I@sim/stubs", "-iquote", "@repo/src", "-idirafter", "/usr/include/eigen3", "-w"]
ASAN = ["-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
LIBS = ["-lboost_serialization", "-lboost_filesystem", "-lopenblas", "-lgtest", "-lpthread"]
BLAS = ["@repo/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp"]
TRACK = ["@repo/src/Utilities/tracker.cpp"]

CLOCK_WRAP = ["-Wl,--wrap=time,--wrap=clock_gettime,--wrap=gettimeofday,--wrap=clock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort"]
THR_WRAP = ["-Wl," + ",".join("--wrap=" + f for f in (
    "memcpy memmove memset memcmp malloc calloc realloc __cxa_allocate_exception pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_clocklock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock "
    "pthread_rwlock_unlock pthread_once __cxa_thread_atexit sched_yield nanosleep dgemm_ sgemm_").split())]
CORE = ["@sim/core/sim.cpp", "@sim/core/alloc.cpp", "@sim/core/clock.cpp"]

KINDS = {
    "asan": {"sources": CORE, "target_flags": ASAN, "core_flags": ASAN,
             "link_flags": ["-fsanitize=address", "-rdynamic"] + CLOCK_WRAP, "libs": LIBS},
    # instrumented as for ThreadSanitizer, but linked with the simulator's own callbacks
    "thr": {"sources": CORE + ["@sim/core/thr.cpp"], "target_flags": ["-O0", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
            "core_flags": ["-O1", "-g1"], "link_flags": ["-rdynamic"] + CLOCK_WRAP + THR_WRAP, "libs": LIBS + ["-ldl"]},
}
BINARIES = {
    "arith": {"kind": "asan", "sources": ["@sim/worlds/w_arith.cpp"] + BLAS + TRACK},
    "block": {"kind": "asan", "sources": ["@sim/worlds/w_block.cpp"] + BLAS + TRACK},
    "cache": {"kind": "asan", "sources": ["@sim/worlds/w_cache.cpp"] + BLAS + TRACK},
    "view": {"kind": "asan", "sources": ["@sim/worlds/w_view.cpp"] + BLAS + TRACK},
    "det": {"kind": "asan", "sources": ["@sim/worlds/w_det.cpp"] + BLAS + TRACK},
    "time": {"kind": "asan", "sources": ["@sim/worlds/w_time.cpp"] + TRACK},
    "track": {"kind": "thr", "sources": ["@sim/worlds/w_track.cpp"] + BLAS + TRACK},
    "conc": {"kind": "thr", "sources": ["@sim/worlds/w_conc.cpp"] + BLAS + TRACK},
    "gen": {"kind": "thr", "sources": ["@sim/worlds/w_gen.cpp", "@repo/src/MatrixFactory/MatrixGenerator.cpp"] + BLAS + TRACK},
    "file": {"kind": "asan", "sources": ["@sim/core/io.cpp", "@sim/worlds/w_file.cpp", "@repo/src/MatrixFactory/MatrixFileImporter.cpp"] + BLAS + TRACK, "libs": ["-ldl"]},
    "print": {"kind": "asan", "sources": ["@sim/worlds/w_print.cpp", "@sim/worlds/w_print2.cpp"] + BLAS + TRACK},
    "tool_gen": {"kind": "asan", "sources": ["@sim/core/io.cpp", "@sim/worlds/w_tool_gen.cpp", "@sim/worlds/w_tool_gen_main.cpp"] + BLAS + TRACK, "libs": ["-ldl"]},
    "tool_show": {"kind": "asan", "sources": ["@sim/core/io.cpp", "@sim/worlds/w_tool_show.cpp", "@sim/worlds/w_tool_show_main.cpp"] + BLAS + TRACK, "libs": ["-ldl"]},
    "tool_bench": {"kind": "asan", "sources": ["@sim/core/io.cpp", "@sim/worlds/w_tool_bench.cpp", "@sim/worlds/w_tool_bench_main.cpp"]
                   + ["@repo/src/Benchmark/" + f for f in ("ActionProvider.cpp", "MatrixProvider.cpp", "time.cpp")] + BLAS + TRACK, "libs": ["-ldl"]},
    "life": {"kind": "asan", "sources": ["@sim/worlds/w_life.cpp"] + BLAS + TRACK},
}

REAL_CORE = ["every header under include/BlasBooster/Core and Utilities that the world uses, compiled from /repo's working tree",
             "src/Interfaces/OpenBLAS and the installed OpenBLAS library", "boost serialization"]
STUBS_CORE = ["blaze::allocate/deallocate (package not available offline): same contract, routed through the simulated allocator",
              "BrainTwister::Record (package not available offline): plain record macro"]
A_CORE = ["AddressSanitizer detects out-of-bounds and use-after-free accesses outside its redzones' blind spots only",
          "values are small integers, so that float and double arithmetic is exact and the reference model is unambiguous"]

REAL_FILE = ["the headers that read and write files, compiled from /repo's working tree", "the C++ library's file streams, on real files in a scratch directory"]
STUBS_FILE = STUBS_CORE + ["system calls on files: executed by the simulator, which may shorten, interrupt or fail them"]
A_FILE = ["all file access goes through open, fopen, read, write, writev, lseek, close, fclose, rename or unlink of the C library"]
FILE_FAULTS = ["fault:open_error", "fault:read_error", "fault:short_read", "fault:interrupted_read", "fault:truncated_file", "fault:missing_file", "fault:allocation_failure", "probe:retry_after_failure"]

CHECKS = {
    "C01": {
        "worlds": [{"name": "life/faults", "bin": "life", "quick": (36000, 80), "thorough": (600000, 700),
                    "must": ["fault:allocation_failure", "probe:operation_failed_on_allocation", "probe:retry_after_failure"]}],
        "rule": "One run is a seeded history of 3-20 operations (construct, copy, move, swap, assign, resize, convert, transpose, arithmetic, multiply, destroy) over 21 slots of 7 matrix kinds, with a seeded allocation of each operation failing and fresh memory filled with seeded junk.",
        "real": REAL_CORE, "stubs": STUBS_CORE, "assumptions": A_CORE,
        "technique": "deterministic simulation: seeded operation histories with injected allocation failures, reference model and leak/ASan invariants",
        "note": "Exploration by seeded search: histories of up to 20 operations over matrices up to 40x40, one failing allocation per operation.",
    },
    "C02": {
        "worlds": [{"name": "life/values", "bin": "life", "quick": (48000, 90), "thorough": (600000, 700)}],
        "rule": "One run is a seeded history of 3-20 value operations over 21 slots of 7 matrix kinds; after every operation each live matrix is read back and compared with the reference model.",
        "real": REAL_CORE, "stubs": STUBS_CORE, "assumptions": A_CORE,
        "technique": "deterministic simulation: seeded operation histories over junk-filled memory checked against an executable reference model",
        "note": "Exploration by seeded search: histories of up to 20 operations over matrices up to 40x40, values scaled by a seeded power of two.",
    },
    "C03": {
        "worlds": [{"name": "arith/values", "bin": "arith", "quick": (36000, 70), "thorough": (600000, 400), "must": ["probe:compound_refused"]},
                   {"name": "arith/faults", "bin": "arith", "quick": (30000, 70), "thorough": (400000, 300),
                    "must": ["fault:allocation_failure", "probe:operation_failed_on_allocation", "probe:retry_after_failure"]}],
        "rule": "One run is a seeded chain of 2-13 sums, differences, products and compound assignments over six shared dynamically typed operands of 7 kinds, interleaved with statically typed operations of both orientations; results and all operands are compared with the reference model after every operation.",
        "real": REAL_CORE, "stubs": STUBS_CORE, "assumptions": A_CORE,
        "technique": "deterministic simulation: seeded operation chains over shared handles with failing allocations and junk memory, checked against an executable reference model",
        "note": "Exploration by seeded search: chains of up to 13 operations over matrices up to 40x40, integer values scaled by a seeded power of two, with double-only digits in a third of the runs.",
    },
    "C06": {
        "worlds": [{"name": "cache/history", "bin": "cache", "quick": (30000, 60), "thorough": (400000, 350)},
                   {"name": "cache/faults", "bin": "cache", "quick": (24000, 60), "thorough": (300000, 350), "must": ["fault:allocation_failure"]}],
        "rule": "One run is a seeded history of mutations and whole-object operations over 24 slots of 8 matrix kinds (three norm kinds), interleaved with norm and occupation queries of seven value-range kinds.",
        "real": REAL_CORE, "stubs": STUBS_CORE, "assumptions": A_CORE,
        "technique": "deterministic simulation: seeded histories of mutations, failing allocations and cached queries against recomputation",
        "note": "Exploration by seeded search over histories of up to 22 steps.",
    },
    "C04": {
        "worlds": [{"name": "block/values", "bin": "block", "quick": (24000, 60), "thorough": (600000, 400)},
                   {"name": "block/faults", "bin": "block", "quick": (18000, 60), "thorough": (400000, 300),
                    "must": ["fault:allocation_failure", "probe:operation_failed_on_allocation", "probe:retry_after_failure"]}],
        "rule": "One run is a seeded history of blocking, combining, multiplying, reading back and dropping of blocked matrices under seeded partitions and thresholds, each entry of each block compared with the model's bounds.",
        "real": REAL_CORE, "stubs": STUBS_CORE, "assumptions": A_CORE,
        "technique": "deterministic simulation: seeded histories of blocked operations with failing allocations and junk memory, checked against a reference model with per-element error bounds",
        "note": "Exploration by seeded search over blocked matrices of up to about 40 rows.",
    },
    "C05": {
        "worlds": [{"name": "conc/read", "bin": "conc", "quick": (30000, 100), "thorough": (600000, 400)},
                   {"name": "conc/faults", "bin": "conc", "quick": (24000, 100), "thorough": (400000, 300),
                    "must": ["fault:allocation_failure", "probe:operation_failed_on_allocation"]}],
        "rule": "One run executes 1-7 simulated threads with 1-5 operations each over the same shared matrices under a seeded schedule (a switch is possible at every memory access and synchronisation call); every result is compared with the reference model, every access with the happens-before order.",
        "real": REAL_CORE + ["src/Utilities/tracker.cpp"],
        "stubs": STUBS_CORE + ["operating system scheduler, pthread mutexes and static-initialisation guards: replaced by the simulator's scheduler"],
        "assumptions": ["atomics are modelled as sequentially consistent for writes; relaxed and acquire loads may return older values",
                        "data races inside the C++ library and OpenBLAS are not seen (not instrumented); the operands and results of gemm calls are declared to the detector"],
        "technique": "deterministic simulation: seeded thread schedules and failing allocations over shared matrices, results compared with a reference model; vector-clock race detection",
        "note": "Exploration by seeded search: up to 7 threads, 35 operations.",
    },
    "C13": {
        "worlds": [{"name": "gen/threads", "bin": "gen", "quick": (36000, 100), "thorough": (800000, 350), "must": ["probe:generated_again"]},
                   {"name": "gen/faults", "bin": "gen", "quick": (24000, 100), "thorough": (600000, 350),
                    "must": ["probe:generated_again", "fault:allocation_failure", "probe:operation_failed_on_allocation"]}],
        "rule": "One run lets 1-7 simulated threads generate and fill matrices from three parameter sets (one generator object shared), in a seeded order and schedule over junk memory and with failing allocations, then generates all of them again; equal parameters have to give equal bits, every element has to lie in range.",
        "real": REAL_CORE + ["src/MatrixFactory/MatrixGenerator.cpp"],
        "stubs": STUBS_CORE + ["operating system scheduler, pthread mutexes and static-initialisation guards: replaced by the simulator's scheduler"],
        "assumptions": ["the C++ library's random engine is the same in all runs"],
        "technique": "deterministic simulation: seeded thread schedules, memory contents and failing allocations, every generated matrix compared bit for bit with earlier ones of equal parameters",
        "note": "Exploration by seeded search: up to 7 threads, 35 operations, matrices up to 6x6.",
    },
    "C09": {
        "worlds": [{"name": "file/load", "bin": "file", "quick": (6000, 60), "thorough": (200000, 200)},
                   {"name": "file/load-faults", "bin": "file", "quick": (24000, 100), "thorough": (800000, 500), "must": FILE_FAULTS + ["fault:seek_error", "fault:contradicting_descriptor", "probe:load_refused"]}],
        "rule": "One run is a seeded sequence of 1-4 loads of seeded windows of matrices in four kinds (two precisions, two orientations) through the simulated file system, each with seeded damage of the files and seeded I/O or allocation faults, each failed one repeated without the faults.",
        "real": REAL_FILE, "stubs": STUBS_FILE, "assumptions": A_FILE,
        "technique": "deterministic simulation: seeded loads over a simulated file system with short, interrupted and failing calls, damaged files and failing allocations, compared with the stored matrix",
        "note": "Exploration by seeded search: files up to 60x60, one error per load besides any number of short and interrupted reads.",
    },
    "C10": {
        "worlds": [{"name": "file/import", "bin": "file", "quick": (6000, 60), "thorough": (200000, 200)},
                   {"name": "file/import-faults", "bin": "file", "quick": (24000, 100), "thorough": (800000, 500), "must": FILE_FAULTS + ["fault:foreign_act", "fault:contradicting_descriptor", "probe:load_refused"]}],
        "rule": "One run is a seeded sequence of 1-4 imports, each asked once or twice, through the simulated file system, with seeded damage of the files, seeded acts of another process between the calls and seeded I/O or allocation faults.",
        "real": REAL_FILE + ["src/MatrixFactory/MatrixFileImporter.cpp"], "stubs": STUBS_FILE, "assumptions": A_FILE,
        "technique": "deterministic simulation: seeded imports over a simulated file system with short, interrupted and failing calls, damaged and concurrently changed files and failing allocations, compared with the written matrix",
        "note": "Exploration by seeded search: matrices up to 60x60.",
    },
    "C11": {
        "worlds": [{"name": "file/save", "bin": "file", "quick": (4500, 60), "thorough": (150000, 200)},
                   {"name": "file/save-faults", "bin": "file", "quick": (24000, 100), "thorough": (800000, 500),
                    "must": ["fault:write_error", "fault:close_error", "fault:open_error", "fault:disk_full", "fault:crash", "fault:foreign_act", "fault:short_write", "fault:interrupted_write", "fault:allocation_failure", "probe:crashed_write", "probe:overwriting_refused"]}],
        "rule": "One run is a seeded history of 2-10 writes and reads of four files (records, numbers and dense matrices, XML and binary) through the simulated file system, with seeded I/O errors, full disks, crashes after which only what reached the disk is read back, other processes creating files, and failing allocations.",
        "real": REAL_FILE + ["boost serialization archives"], "stubs": STUBS_FILE,
        "assumptions": A_FILE + ["a crash ends the process: what was written before reaches the disk in order (no loss of page cache), the write in progress in part",
                                 "allocations do not fail while an XML archive is read: boost's archive destructor would end the process"],
        "technique": "deterministic simulation: seeded write/read histories over a simulated file system with I/O errors, full disks, crashes, concurrent creation and failing allocations, checked against a model of acknowledged objects",
        "note": "Exploration by seeded search: histories of up to 10 operations over four files.",
    },
    "C12": {
        "worlds": [{"name": "file/pattern", "bin": "file", "quick": (6000, 60), "thorough": (200000, 200)},
                   {"name": "file/pattern-faults", "bin": "file", "quick": (24000, 100), "thorough": (800000, 500),
                    "must": ["fault:write_error", "fault:close_error", "fault:open_error", "fault:disk_full", "fault:short_write", "fault:interrupted_write", "fault:allocation_failure", "probe:write_refused"]}],
        "rule": "One run writes 1-3 images of seeded matrices with seeded palettes through the simulated file system, with seeded I/O and allocation faults; the file is parsed and compared pixel by pixel.",
        "real": REAL_FILE, "stubs": STUBS_FILE, "assumptions": A_FILE,
        "technique": "deterministic simulation: seeded images over a simulated file system with I/O errors, full disks and failing allocations, parsed and compared with a reference image",
        "note": "Exploration by seeded search: matrices up to 100x100.",
    },
    "C15": {
        "worlds": [{"name": "part/sizes", "bin": "block", "quick": (36000, 60), "thorough": (1000000, 700), "cpu": 5}],
        "rule": "One run is a seeded sequence of partition requests over junk-painted heap and stack; a request that does not terminate is ended by the run's CPU limit and reported.",
        "real": REAL_CORE, "stubs": STUBS_CORE, "assumptions": A_CORE + ["a partition request that burns 5 s of CPU on matrices of at most 200 rows does not terminate"],
        "technique": "deterministic simulation: seeded partition requests over seeded memory contents with a progress bound",
        "note": "Exploration by seeded search over shapes, contents and block-size settings.",
    },
    "C07": {
        "worlds": [{"name": "track/threads", "bin": "track", "quick": (24000, 100), "thorough": (600000, 400)},
                   {"name": "track/faults", "bin": "track", "quick": (18000, 100), "thorough": (400000, 300), "must": ["fault:allocation_failure"]}],
        "rule": "One run executes 1-7 simulated threads in up to two waves that enter and leave tracked scopes under a seeded schedule (a switch is possible at every memory access and synchronisation call), seeded clock steps and failing allocations.",
        "real": REAL_CORE + ["src/Utilities/tracker.cpp"],
        "stubs": STUBS_CORE + ["operating system scheduler, pthread mutexes and static-initialisation guards: replaced by the simulator's scheduler",
                               "steady and system clocks: simulated time"],
        "assumptions": ["atomics are modelled as sequentially consistent for writes; relaxed and acquire loads may return older values",
                        "data races inside the C++ library and OpenBLAS are not seen (not instrumented)"],
        "technique": "deterministic simulation: seeded thread schedules, simulated clock and failing allocations, totals compared with the sum of what was tracked; vector-clock race detection",
        "note": "Exploration by seeded search: up to 7 threads in two waves, up to 65600 calls of a scope.",
    },
    "C08": {
        "worlds": [{"name": "time/timers", "bin": "time", "quick": (36000, 100), "thorough": (1000000, 700),
                    "must": ["fault:wall_clock_step_back", "fault:wall_clock_step_forward", "probe:operation_failed_on_allocation"]}],
        "rule": "One run is a seeded history of nested timers and trackers over simulated clocks, the wall clock being stepped in both directions and scopes being left normally, by return or by exceptions.",
        "real": REAL_CORE + ["src/Utilities/tracker.cpp"], "stubs": STUBS_CORE + ["steady and system clocks: simulated time"],
        "assumptions": ["all time sources of the C++ and C library are behind the simulated clock"],
        "technique": "deterministic simulation: seeded histories over simulated clocks with clock steps and failing allocations, reports compared with the simulated time",
        "note": "Exploration by seeded search.",
    },
    "C14": {
        "worlds": [{"name": "view/history", "bin": "view", "quick": (36000, 60), "thorough": (1000000, 400)},
                   {"name": "view/faults", "bin": "view", "quick": (24000, 60), "thorough": (600000, 300), "must": ["fault:allocation_failure"]}],
        "rule": "One run is a seeded history of operations on matrices over guarded caller memory and on windows of owning matrices, with every byte of the caller's memory and of the surrounding matrix compared after each operation.",
        "real": REAL_CORE, "stubs": STUBS_CORE, "assumptions": A_CORE,
        "technique": "deterministic simulation: seeded histories over caller-owned memory and windows with failing allocations, compared with a shadow copy of that memory",
        "note": "Exploration by seeded search over histories on small matrices.",
    },
    "C17": {
        "worlds": [{"name": "print/text", "bin": "print", "quick": (18000, 50), "thorough": (400000, 300), "must": ["probe:complete_print", "fullprint"]},
                   {"name": "print/faults", "bin": "print", "quick": (24000, 70), "thorough": (500000, 500),
                    "must": ["fault:device_error", "fault:device_exception", "fault:flush_error", "fault:allocation_failure", "probe:complete_print", "probe:failed_print", "probe:operation_failed_on_allocation"]}],
        "rule": "One run is a seeded history of 2-15 prints of matrices of fourteen kinds onto two streams that keep their state (print manipulators, number format, error state, exception mask), interleaved with manipulators, from two translation units; the device behind a stream fails at a seeded character, throws or refuses to flush, allocations fail.",
        "real": REAL_CORE + ["the C++ library's output streams"], "stubs": STUBS_CORE + ["the device behind the streams: a stream buffer of the simulator"], "assumptions": A_CORE[:1] + ["number formats that separate columns (no forced plus sign, no internal padding)"],
        "technique": "deterministic simulation: seeded histories of prints onto failing devices with failing allocations, the text parsed and compared with the matrix",
        "note": "Exploration by seeded search: matrices up to 103x103, histories of up to 15 steps.",
    },
    "C18": {
        "worlds": [{"name": "tool/generate", "bin": "tool_gen", "quick": (9000, 24), "thorough": (200000, 120), "must": ["tool_refused", "tool_succeeded"]},
                   {"name": "tool/generate-faults", "bin": "tool_gen", "quick": (18000, 30), "thorough": (400000, 200),
                    "must": ["fault:allocation_failure", "fault:open_error", "fault:write_error", "fault:disk_full", "fault:short_write", "probe:tool_reported_a_failure", "probe:retry_after_failure"]},
                   {"name": "tool/pattern", "bin": "tool_show", "quick": (7500, 24), "thorough": (150000, 120), "must": ["block_images", "tool_refused", "tool_succeeded"]},
                   {"name": "tool/pattern-faults", "bin": "tool_show", "quick": (9000, 30), "thorough": (200000, 200),
                    "must": ["fault:allocation_failure", "fault:open_error", "fault:read_error", "fault:write_error", "fault:disk_full", "fault:close_error", "probe:tool_reported_a_failure", "probe:retry_after_failure"]},
                   {"name": "tool/benchmark", "bin": "tool_bench", "quick": (6000, 24), "thorough": (150000, 120), "must": ["difference files", "tool_refused", "tool_succeeded"]},
                   {"name": "tool/benchmark-faults", "bin": "tool_bench", "quick": (7500, 30), "thorough": (200000, 200),
                    "must": ["fault:allocation_failure", "fault:open_error", "fault:read_error", "fault:disk_full", "probe:tool_reported_a_failure", "probe:retry_after_failure"]}],
        "rule": "One run is a seeded history of 1-3 invocations of one command-line tool in a scratch directory with seeded arguments, settings and input files (good, missing, truncated, impossible); seeded file system calls or allocations of the first attempt fail, and every success is judged by the files the tool leaves, every failure by whether something was wrong.",
        "real": ["the tools of src/Benchmark of /repo's working tree with their own main(), run in-process"] + REAL_FILE, "stubs": STUBS_FILE + ["clara, BrainTwister::JSON and BrainTwister::benchmark (packages not available offline): command line, settings and measuring loop with the same contract"],
        "assumptions": A_CORE[:1] + A_FILE,
        "technique": "deterministic simulation: seeded invocations of the tools against a file system and an allocator that fail at seeded calls, judged by the files left behind",
        "note": "Exploration by seeded search: matrices up to 150x150, up to three invocations per run.",
    },
    "C16": {
        "worlds": [{"name": "det/repeat", "bin": "det", "quick": (30000, 60), "thorough": (400000, 400)},
                   {"name": "det/faults", "bin": "det", "quick": (30000, 60), "thorough": (400000, 300), "must": ["fault:allocation_failure"]}],
        "rule": "One run executes one seeded history three times over heaps and stacks filled with zeros, ones and pseudo-random bytes, and compares every result bit for bit, every refusal, the number of allocations and the tracked calls.",
        "real": REAL_CORE, "stubs": STUBS_CORE, "assumptions": A_CORE,
        "technique": "deterministic simulation: one seeded history re-executed under different memory contents and equal faults, outcomes compared bit for bit",
        "note": "Exploration by seeded search; memory contents are three fill patterns.",
    },
}

NOT_APPLICABLE = {
    "C30": "a pure function of its arguments: no schedule, time, I/O, fault or history for a simulation to control",
    "C31": "decided at compile time: no execution for a simulation to control",
    "C32": "stateless argument forwarding: no schedule, time, I/O, fault or history for a simulation to control",
}

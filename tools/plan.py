"""What each property's check runs: drivers, builds, workload modes, case counts."""

SAN = ["-fsanitize=address,alignment,signed-integer-overflow,shift,bounds,bool,enum,return,unreachable,vla-bound,integer-divide-by-zero",
       "-fno-sanitize-recover=all"]
# clang's alignment check also reports pointers that are only formed (a list's sentinel cast to a node type), not used
CSAN = [SAN[0].replace("alignment,", "")] + SAN[1:]
BASE = ["-std=gnu++11", "-w", "-g1", "-pthread"]

CONFIGS = {
    # exceptions on / off under AddressSanitizer + UBSan, assertions on
    "exa": {"cxx": "g++", "exc": "ex", "flags": BASE + ["-O0"] + SAN},
    "nxa": {"cxx": "g++", "exc": "nx", "flags": BASE + ["-O0", "-fno-exceptions"] + SAN},
    # assertions off, other compilers and language version, still under sanitizers
    "exn": {"cxx": "clang++", "exc": "ex", "flags": ["-std=c++17", "-w", "-g1", "-pthread", "-O1", "-DNDEBUG"] + CSAN},
    "nxn": {"cxx": "g++", "exc": "nx", "flags": BASE + ["-O1", "-DNDEBUG", "-fno-exceptions"] + SAN},
    # optimised, no sanitizer: cost and timing
    "exo": {"cxx": "g++", "exc": "ex", "flags": BASE + ["-O2"]},
    "nxo": {"cxx": "clang++", "exc": "nx", "flags": BASE + ["-O1", "-fno-exceptions"]},
    # ThreadSanitizer
    "ext": {"cxx": "clang++", "exc": "ex", "flags": BASE + ["-O1", "-fsanitize=thread"]},
    "nxt": {"cxx": "g++", "exc": "nx", "flags": BASE + ["-O1", "-fsanitize=thread", "-fno-exceptions"]},
    # other build modes, for comparing what is observed (assertions off / other compiler, standard, optimisation level)
    "exr": {"cxx": "g++", "exc": "ex", "flags": BASE + ["-O2", "-DNDEBUG"]},
    "nxr": {"cxx": "g++", "exc": "nx", "flags": ["-std=c++14", "-w", "-g1", "-pthread", "-O3", "-DNDEBUG", "-fno-exceptions"]},
    "exc": {"cxx": "clang++", "exc": "ex", "flags": ["-std=c++17", "-w", "-g1", "-pthread", "-O1"] + CSAN},
    "nxc": {"cxx": "clang++", "exc": "nx", "flags": BASE + ["-O2", "-DNDEBUG", "-fno-exceptions"]},
}

# parts: one executable each, to keep compile time down
DRIVERS = {
    "vector": {"parts": {"ex": [0, 1, 2, 3, 4], "nx": [0, 1, 2]}, "weight": 5},
    "list": {"parts": {"ex": [0, 1, 2, 3], "nx": [0, 1, 2]}, "weight": 5},
    "set": {"parts": {"ex": [0, 1, 2], "nx": [0, 1]}, "weight": 4},
    "sptr": {"parts": {"ex": [0], "nx": [0]}, "weight": 6},
    "build": {"parts": {"ex": [0, 1, 2, 3], "nx": [0, 1, 2]}, "weight": 4},
    "algo": {"parts": {"ex": [0, 1, 2], "nx": [0, 2]}, "weight": 3},
    "limits": {"parts": {"ex": [0, 1], "nx": [0, 1]}, "weight": 4},
    "throw": {"parts": {"ex": [0, 1, 2, 3], "nx": []}, "weight": 4},
    "cost": {"parts": {"ex": [0, 1, 2], "nx": [0, 1, 2]}, "weight": 3},
    "threads": {"parts": {"ex": [0], "nx": [0]}, "weight": 4},
    "real": {"parts": {"ex": [0, 1, 2, 3], "nx": [0, 1, 2]}, "weight": 4},
}


def job(driver, mode, quick, thorough=None, configs=("exa", "nxa", "exn", "nxn"), **kw):
    d = {"driver": driver, "mode": mode, "quick": quick, "thorough": thorough or quick * 30, "configs": list(configs)}
    d.update(kw)
    return d


MODES = ("exa", "nxa", "exr", "nxr", "exc", "nxc")

PLAN = {
    "C01": [job("vector", "random", 5000), job("vector", "storm", 1000), job("cost", "cost", 200, parts=[0], configs=("exo", "nxo")),
            job("throw", "throw", 800, parts=[0, 1], configs=("exa", "exn")),
            job("real", "random", 900, parts=[0, 1, 2]), job("real", "storm", 400, parts=[0, 1]), job("real", "random", 600, parts=[3], configs=("exa", "exn"))],
    "C02": [job("list", "random", 4000), job("list", "storm", 1000), job("cost", "cost", 400, parts=[1], configs=("exo", "nxo")),
            job("throw", "throw", 800, parts=[2, 3], configs=("exa", "exn")),
            job("real", "random", 900, parts=[0, 1, 2]), job("real", "storm", 400, parts=[0, 2]), job("real", "random", 600, parts=[3], configs=("exa", "exn"))],
    "C03": [job("set", "random", 5000), job("set", "storm", 1000), job("cost", "cost", 300, parts=[2], configs=("exo", "nxo")),
            job("real", "random", 1200, parts=[0, 1, 2]), job("real", "storm", 400, parts=[0, 2]), job("real", "random", 600, parts=[3], configs=("exa", "exn"))],
    "C04": [job("set", "random", 5000), job("set", "storm", 600), job("cost", "cost", 1600, parts=[2], configs=("exo", "nxo"))],
    "C05": [job("vector", "storm", 1500), job("vector", "random", 800), job("list", "storm", 1500), job("list", "random", 800),
            job("set", "storm", 1500), job("set", "random", 800), job("sptr", "storm", 1000), job("sptr", "random", 800),
            job("build", "build", 1500),
            job("throw", "throw", 1000, configs=("exa", "exn")),
            job("real", "random", 600, parts=[0, 2]), job("real", "storm", 600, parts=[0, 2])],
    "C06": [job("vector", "random", 1200), job("vector", "allocfault", 250), job("list", "random", 1200), job("list", "allocfault", 250),
            job("set", "random", 1200), job("set", "allocfault", 250), job("sptr", "random", 1000), job("sptr", "allocfault", 250),
            job("throw", "throw", 1500),
            job("real", "random", 500, parts=[0, 2]), job("real", "allocfault", 120, parts=[0, 2])],
    "C07": [job("vector", "allocfault", 900), job("list", "allocfault", 900), job("set", "allocfault", 900), job("sptr", "allocfault", 600),
            job("vector", "storm", 600), job("list", "storm", 600), job("set", "storm", 600), job("sptr", "storm", 400),
            job("build", "build", 3000, parts=[2, 3]),
            job("throw", "throw", 1500, configs=("exa", "exn")),
            job("real", "allocfault", 300, parts=[0, 1, 2]), job("real", "storm", 400, parts=[0, 1, 2])],
    "C08": [job("vector", "elemfault", 1200), job("list", "elemfault", 1200), job("set", "elemfault", 1200), job("sptr", "elemfault", 600),
            job("vector", "storm", 600), job("list", "storm", 600), job("set", "storm", 600), job("sptr", "storm", 400),
            job("build", "build", 3000, parts=[2, 3]),
            job("throw", "throw", 1500, configs=("exa", "exn"))],
    "C09": [job("throw", "throw", 12000)],
    "C10": [job("sptr", "random", 12000), job("sptr", "storm", 4000), job("sptr", "allocfault", 600),
            job("real", "random", 1500, parts=[2]), job("real", "storm", 800, parts=[2])],
    "C11": [job("sptr", "random", 12000), job("sptr", "storm", 4000),
            job("real", "random", 1500, parts=[2]), job("real", "storm", 800, parts=[2])],
    "C12": [job("build", "build", 9000), job("vector", "random", 600), job("list", "random", 600), job("set", "random", 600), job("throw", "throw", 600, configs=("exa", "exn")),
            job("real", "random", 800, parts=[0, 2])],
    "C13": [job("algo", "algo", 16000)],
    "C14": [job("limits", "limits", 6000, parts=[0]), job("limits", "limits", 1200, parts=[1], cost=18)],
    "C15": [job("vector", "random", 2000), job("vector", "storm", 600), job("list", "random", 2000), job("list", "storm", 600),
            job("set", "random", 2000), job("set", "storm", 600)],
    "C16": [job("threads", "threads", 6000, configs=("ext", "nxt"), shard=1000)],
    "C17": [job(d, m, n, configs=MODES, parts=ps, digest=True, args=("--digest", "1"))
            for d, ps in (("vector", [0, 1, 2]), ("list", [0, 1, 2]), ("set", [0, 1]), ("sptr", [0]), ("algo", [0, 2]), ("real", [0, 1, 2]))
            for m, n in ((("random", 1200), ("storm", 400), ("allocfault", 60)) if d != "algo" else (("algo", 1500),))],
    "C18": [job("vector", "random", 2000), job("list", "random", 2500), job("set", "random", 2000), job("sptr", "random", 2500),
            job("throw", "throw", 1200, configs=("exa", "exn")),
            job("real", "random", 600, parts=[0, 2])],
    "C19": [job("cost", "cost", 2000, parts=[0, 1], configs=("exo", "nxo")),
            job("vector", "random", 400), job("list", "random", 600)],
    "C20": [job("vector", "allocfault", 300), job("vector", "elemfault", 400), job("list", "allocfault", 300), job("list", "elemfault", 400),
            job("set", "allocfault", 300), job("set", "elemfault", 400), job("sptr", "allocfault", 200), job("sptr", "elemfault", 200),
            job("limits", "errors", 1200, parts=[0], cost=6), job("limits", "limits", 2000, parts=[0]), job("build", "build", 1500), job("algo", "algo", 2000),
            job("throw", "throw", 1000, configs=("exa", "exn"))],
}

LEVEL = {p: "exploration" for p in ["C%02d" % i for i in range(1, 21)]}
for p in ("C07", "C08", "C09", "C12", "C13", "C20"):
    LEVEL[p] = "fault_enumeration"

HIST = ("A case is a pseudo-random history of library calls (seed, driver part, case number) on several instrumented containers or pointers at once, "
        "mirrored step by step in an ideal model. A case is non-trivial if at least one judged library call was made; "
        "two cases are distinct if their types or their sequences of step signatures (operation, sizes, position, fault point) differ. ")
FAULT = ("For enumeration modes each history is re-run with the fault placed at every successive allocation (or element construction) of its final call, "
         "so a case is one (history, fault point) pair. ")
RULES = {
    "C01": HIST, "C02": HIST, "C03": HIST, "C04": HIST + "Comparator calls of every find, insert and erase are counted against the bound.", "C05": HIST + "Storm mode injects random faults.", "C06": HIST + FAULT,
    "C07": HIST + FAULT, "C08": HIST + FAULT, "C10": HIST + "Objects own pointers to each other and run pointer operations inside their constructors and destructors.",
    "C11": HIST + "Objects own pointers to each other and run pointer operations inside their constructors and destructors.",
    "C09": "A case is one operation on throwing containers in a pseudo-random state (driver part, seed, case number), re-run with an allocation fault and with an element fault at every point until it completes, inside and outside active handlers. "
           "Non-trivial if at least one judged library call was made; distinct if type, operation, sizes or fault point differ.",
    "C12": "A case is one pseudo-random scenario (driver part, seed, case number): a direct construction or assignment, a construction routed through a container or make_shared with a random argument list, or a history on containers of containers; "
           "each re-run with the failure at every successive allocation and element construction. Distinct if types, argument kinds, sizes or fault point differ.",
    "C13": "A case is one algorithm call on ranges drawn at random (or tiny ranges in full) over pointer, forward, bidirectional, random-access and single-pass iterators that check every access, re-run with every element assignment failing. "
           "Distinct if types, lengths, contents class or fault point differ.",
    "C14": "A case is one container or allocator state followed by requests of sizes placed around element-size multiples of SIZE_MAX, PTRDIFF_MAX and max_size and at random magnitudes, or by growth against an arena with a byte limit. "
           "Distinct if type, state or request class differ.",
    "C15": HIST + "Addresses and iterators of all elements are recorded before each call and compared after it.",
    "C18": HIST + "Element and allocation event counters are compared across each transferring call.",
    "C16": "A case is 2 to 6 threads started together, each running its own pseudo-random sequence of const operations on shared containers, pointers and error objects, or of arbitrary operations (with faults) on objects of its own; "
           "the observations of every thread are compared with the same work done alone. Distinct if the observed interleaving of operations (global ticket order) differs.",
    "C17": HIST + "Every return value, size, content, error category, event count and capacity a history observes is folded into a digest; the digests of the same history in different builds are compared. ",
    "C19": "A case is one growth history, list sort, merge, edit or splice of pseudo-random size and content whose element constructions, reallocations and comparator calls are counted against the promised bound. Distinct if type, operation or sizes differ.",
    "C20": HIST + FAULT,
}

ASSUME = [
    "Verdicts cover the executions produced by this run only; nothing is claimed about histories that were not driven.",
    "The reference models and the element, block and fault registries in harness/vf.hpp are trusted.",
    "AddressSanitizer and UBSan see adjacent overflows and use after free; instrumented elements catch misuse inside valid storage.",
    "Callers respect the documented preconditions (see DESIGN.md): error object clear on entry, positions inside the container, no self-merge.",
]

NEED = {
    "C18": ["sets used after being moved from"],
    "C01": ["push_back const&", "push_back &&", "push_back aliasing", "insert const&", "insert aliasing", "range insert input", "range insert random",
            "range assign input", "assign own range", "resize value", "reserve", "shrink", "clear", "swap", "move assign", "equality", "ranges of another type", "moved ranges", "generated ranges", "reversed ranges", "ranges from lists"],
    "C02": ["emplace", "insert count", "range insert input", "erase", "erase range", "splice list", "merge", "sort", "swap", "copy_nothrow", "move assign", "ranges of another type", "moved ranges", "generated ranges", "reversed ranges", "ranges from lists"],
    "C03": ["insert const&", "insert &&", "erase by key", "erase by iterator", "copy_nothrow", "move construct", "move assign", "sets used after being moved from"],
    "C04": ["comparison counts judged", "copy_nothrow"],
    "C16": ["switches between threads", "interleaved runs", "readers of shared containers and pointers", "threads on unrelated objects", "readers mixed with unrelated work"],
    "C17": ["histories compared across builds"],
    "C19": ["growth totals judged", "shrink", "throwing push_back", "sorts judged", "merges judged", "list edits judged", "long lists timed", "whole long lists spliced"],
    "C06": ["copies between sets whose allocators may be handed over"],
    "C07": ["faults reported", "fault points enumerated", "argument intact checks", "failed steps over ordinary types"],
    "C08": ["faults reported", "sets with fallible comparison objects copied", "fault points enumerated"],
    "C10": ["make", "crowds larger than 65536", "group pointers reassigned to another part of the same object", "converting construct", "pointer assigned from inside its own object", "operations inside constructors or destructors", "owners in containers counted"],
    "C11": ["weak construct", "crowds larger than 65536", "twin locks", "weak move assign", "object observes itself", "lock during the object's destructor", "observers in containers outlived the object"],
    "C09": ["faithful throws", "throwing operations that succeeded", "fault points enumerated"],
    "C12": ["constructions", "failed constructions", "two-phase initialisation failures", "forwarded argument lists compared", "forwarded through containers or pointers", "rvalues seen handed over",
            "nested operations", "failed nested operations", "failed constructions in containers or pointers", "moved ranges"],
    "C13": ["copies compared", "copies stopped by a failed assignment", "lexicographical_compare with comparison", "equal with one-sided predicate", "overlapping copies", "copies through move iterators", "plain ranges copied", "plain ranges compared"],
    "C14": ["allocations granted", "allocations refused", "capacity compared with storage obtained", "growth requests judged", "list requests refused", "unallocatable requests refused"],
    "C15": ["within-capacity stability checks"],
    "C20": ["faults reported", "error objects compared", "errors rethrown"],
}

_MON = "runtime monitoring: reference-model oracle over instrumented %s histories, under AddressSanitizer and UBSan, exceptions on and off"
TECH = {
    "C01": _MON % "vector", "C02": _MON % "list", "C03": _MON % "set",
    "C04": "runtime monitoring: comparator-call counting against the analytic bound over set histories",
    "C05": "runtime monitoring: object-lifetime registry over container and pointer histories with random faults, ASan/UBSan",
    "C06": "runtime monitoring: allocator block ledger (owner, size, pairing) over histories with allocation faults, ASan/UBSan",
    "C07": "fault injection at every allocation point with state, argument and leak monitors, ASan/UBSan",
    "C08": "fault injection at every element construction or copy with state and leak monitors, ASan/UBSan",
    "C10": "runtime monitoring: ownership-graph model over shared pointer histories with re-entrant constructors and destructors, ASan/UBSan",
    "C11": "runtime monitoring: ownership-graph model over weak pointer histories with re-entrant destructors, ASan/UBSan",
    "C09": "fault injection at every allocation and element construction of every throwing operation; exception type and value, state and leaks compared with the error-object twin, ASan/UBSan",
    "C12": "fault injection over direct, forwarded and nested construction with argument-category and lifetime monitors, ASan/UBSan",
    "C13": "runtime monitoring: range-checking iterators and fault injection at every element assignment, outputs compared with the definitions, ASan/UBSan",
    "C14": "runtime monitoring: hostile size requests with reported capacity compared with the storage the allocator really handed out, ASan/UBSan",
    "C15": "runtime monitoring: address and iterator identity recorded before and compared after every call, ASan",
    "C18": "runtime monitoring: element and allocation event counters across transferring calls, ASan",
    "C16": "ThreadSanitizer over concurrent readers and threads on unrelated objects, plus comparison of each thread's observations with a solo run",
    "C17": "runtime monitoring: the same histories run in six builds (two compilers, -O0 to -O3, exceptions and assertions on and off, C++11/14/17) and their observation digests compared",
    "C19": "runtime monitoring: element construction, allocation and comparator counters against analytic bounds",
    "C20": "fault injection with decoding of every error object (built-in and user types)",
}
_N = ("Held on the executions of the run (counts in the evidence file), for the instrumented element, allocator, comparator, iterator and error types; "
      "trusts the model and registries in harness/ and the sanitizers. Nothing is claimed for histories that were not driven.")
NOTE = {p: _N for p in TECH}
for p in ("C07", "C08", "C09", "C12", "C13", "C20"):
    NOTE[p] = "Every fault point of the enumerated calls was hit, for sampled histories. " + _N

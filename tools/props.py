ASAN = ["-O1", "-g", "-DNDEBUG", "-fno-omit-frame-pointer",
        "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-fno-sanitize=vptr,returns-nonnull-attribute,nonnull-attribute",
        "-fno-delete-null-pointer-checks", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    "asan": {"cxx": "g++", "flags": ASAN,
             "ldflags": ["-fsanitize=address,undefined"]},
}
# As built where the compiler lacks some features.
VARIANTS["plain"] = dict(VARIANTS["asan"], lacks=[
    "-DVECMEM_HAVE_BUILTIN_CLZL", "-DVECMEM_HAVE_STD_ALIGNED_ALLOC"])
# Compiled for the thread sanitizer, but linked with our own scheduler.
SCHED = ["-O1", "-g", "-DNDEBUG", "-fsanitize=thread", "-fno-omit-frame-pointer"]
WRAP = ["-Wl,--wrap=" + f for f in ("malloc", "aligned_alloc", "memcpy", "memmove",
                                    "memset")]
VARIANTS["sched"] = {"cxx": "g++", "flags": SCHED, "ldflags": WRAP}
EXES = {
    "memres": {"variant": "asan", "src": ["memres.cpp"]},
}
EXES["memres_plain"] = {"variant": "plain", "src": ["memres.cpp"]}
PLAIN = [{"exe": "memres"}, {"exe": "memres_plain", "args": ["--arg", "plain=1"]}]
EXES["routing"] = {"variant": "asan", "src": ["routing.cpp"]}
PROPS = {}
UPSTREAM = ("Memory is provided by a recording upstream that hands out addresses "
            "of unmapped memory; it never returns better alignment than asked "
            "for. Behaviour depends on addresses only through their order, "
            "adjacency and alignment, which the placements cover.")
SEQ = "Bounded exhaustive: nothing is claimed beyond the stated alphabet and depth."


LONG = ("; in addition all regular long programs of a family: larger sizes, 20-50 "
        "(thorough 20-150) steps whose decisions follow b, b+a, b+2a, ... (b growing by "
        "one every p decisions), for all a, b < 13 (thorough 31) and p of "
        "{never, 3} (thorough also 7, 16)")
MARATHON = "; in addition regular programs of 120 (thorough 450) steps over two sizes"
NOT_LONG = ("C06", "C07", "C11", "C12", "C14", "C15", "C26", "C32")


def prop(id, technique, note, exe, bounds, assumptions=(), level="model_checking",
         **kw):
    if id <= "C05":
        bounds += MARATHON
    elif id not in NOT_LONG and id <= "C31":
        bounds += LONG
    runs = exe if isinstance(exe, list) else [{"exe": exe}]
    PROPS[id] = dict(level=level, technique=technique, note=note, runs=runs,
                     bounds=bounds, assumptions=list(assumptions) + [SEQ], **kw)


HIST = ("stateless model checking of the implementation: exhaustive enumeration "
        "of operation histories")
prop("C01", HIST,
     "Every allocate/release/move history of bounded length runs on the real "
     "resource above a recording mock upstream; disjointness and containment "
     "are checked after every step. Trusts the mock and the explorer.",
     PLAIN, "29 resource configurations incl. two-level stacks; 3-7 sizes per "
     "configuration at its boundaries; histories of 5 (thorough 6) steps, where "
     "a step is an allocation, a release of one of the 2 oldest/newest, a burst "
     "of 6 allocations, or releasing everything in 3 orders; upstream "
     "placements: ascending/descending adjacent, reuse (thorough: also gaps); "
     "host resource: 3 steps over 6 sizes x 8 alignments with contents checked",
     [UPSTREAM])
prop("C02", HIST, "As C01, checking the alignment of every returned address, with "
     "an upstream that never over-aligns.",
     PLAIN, "as C01 with alignments 8,16,32,256,512,4096, at one step less",
     [UPSTREAM])
prop("C03", HIST, "As C01, checking every upstream release against what was "
     "obtained, and that nothing is left after destruction, move assignment "
     "included.", PLAIN, "as C01, plus one move construction or assignment "
     "anywhere", [UPSTREAM])
prop("C04", "exhaustive fault enumeration on the implementation: every upstream "
     "call of every bounded history fails",
     "Every history is run with every single upstream call failing (thorough: "
     "pairs) and with oversized requests; the recovery is checked by using the "
     "resource afterwards.", PLAIN,
     "histories of 4 (thorough 5) steps as in C01 x every upstream call failing "
     "(quick: one, thorough: up to two failures); request sizes 2^62, 2^63+1, "
     "SIZE_MAX-100, SIZE_MAX", [UPSTREAM], level="fault_enumeration",
     rule="One evaluation is one operation history with one assignment of "
     "success or failure to every upstream call it makes; distinct_nontrivial "
     "counts the distinct (live blocks, upstream blocks) situations reached.")
prop("C05", HIST, "Every bounded program is repeated on the real resource until a "
     "repetition takes nothing from upstream; more than 16 repetitions is a "
     "violation.", "memres", "programs of up to 5 (thorough 6) allocations, "
     "bursts and releases over the sizes of each configuration, 3 upstream "
     "placements, up to 16 repetitions", [UPSTREAM])
prop("C06", HIST, "Every sequence of requests is compared, step by step, with a "
     "bump pointer reference.", "memres",
     "5 total sizes, 9 sizes x 6 alignments + zero size + release, 3 (thorough 4) "
     "steps, 3 placements", [UPSTREAM])
prop("C07", HIST, "Every combination of option values is constructed and, when "
     "valid, driven through every bounded history with the limits checked on "
     "every upstream request.", "memres",
     "pool: 4x4x5x4x3x4x4 option values x 3 cache settings, histories of 2 (3 "
     "when at most two options deviate from the simplest; thorough one more) "
     "steps; about 10000 option combinations with 50 (thorough 120) allocations "
     "from each pair of buckets; arena: 3 initial x 5 maximum sizes, 4 (thorough 6) steps",
     [UPSTREAM])

RECORD = "Upstreams are recording mocks sharing one address space."

prop("C08", HIST, "Every history over three recording upstreams sharing one address "
     "space; the whole upstream traffic of every step is compared with the rule.",
     "routing", "identity, choice (4 rules), conditional (3), coalescing (0-3 "
     "upstreams, 2 orders), coalescing over conditionals and a terminal, "
     "terminal; 3 sizes x 2 alignments, 4 (thorough 5) steps, one move, up to "
     "1-3 (thorough 2-6) failing upstream calls", [RECORD])
prop("C09", HIST, "Every history of correct and wrong uses against a reference "
     "list of live blocks, over an upstream which places blocks adjacent, "
     "overlapping, containing or equal as the explorer decides.", "routing",
     "3 (thorough 4) sizes x 7 placements, 5 kinds of wrong release, 4 (thorough "
     "5) steps, one move", [RECORD])
prop("C10", HIST, "Every history is compared after each step with the expected "
     "event log, hook calls and statistics.", "routing",
     "3 requests, releases, up to 5 hooks of 3 kinds, 2 monitors attached at "
     "different times, one move, up to 2 failing upstream calls, 5 (thorough 6) "
     "steps", [RECORD, "A memory monitor must not see the release of a block "
     "allocated before it was attached."])
prop("C12", "stateless model checking of the implementation: exhaustive "
     "enumeration of pairs of resources", "Every ordered pair is compared; if it "
     "claims equality, blocks are exchanged both ways and the upstream traffic "
     "is checked for wrong routing and for loss.", "routing",
     "all ordered pairs of about 90 resources, 2 block sizes, 1500 exchanges per "
     "pair and direction", [RECORD])
EXES["containers"] = {"variant": "asan", "src": ["containers.cpp"]}
TRACKED = ("The element types are int and a type which reports every lifetime "
           "error; other types are covered as far as the code is generic in them.")
prop("C13", HIST, "Every bounded operation history on the real template runs in "
     "lockstep with a std::vector; every access path and the surrounding memory "
     "are compared after each step.", "containers",
     "capacities 0,1,3 (thorough also 2,5), every initial size, 17 kinds of "
     "operation with all their arguments, 3 (thorough 3-4) steps, element types "
     "int and lifetime-tracking", [TRACKED])
prop("C16", HIST, "As C13, for the static vector, with the object between canaries.",
     "containers", "capacities 0 to 5 and an over-aligned type, 5 constructors, "
     "17 kinds of operation with all positions and counts, 2-3 (thorough 3-4) "
     "steps", [TRACKED])
prop("C17", HIST, "Every sequence of iterator operations is compared with the "
     "arithmetic of positions; every shape of rows with the contents put there.",
     "containers", "9 kinds of iterator over 0-3 elements, 4 (thorough 5) steps; "
     "0-3 (thorough 4) rows of fixed/resizable kind, capacity 0-2, 2 steps",
     [TRACKED])
prop("C18", HIST, "Every sequence of modifications on every array type and size is "
     "compared with the expected contents.", "containers",
     "vecmem::array 0-3, static_array 1-4 (0 for its size only), device_array "
     "0,1,3; 2 (thorough 3) steps; 6 indices past the end", [TRACKED])
EXES["copies"] = {"variant": "asan", "src": ["copies.cpp"]}
DEVMEM = ("Device memory is modelled by a mapping without access rights: any "
          "access by the host faults, and the harness uses a second mapping.")
prop("C19", HIST, "The layout of every buffer is checked against the blocks held "
     "by the resources after every step, and contents written through it must "
     "survive all moves.", "copies",
     "12 buffer types, 4-6 capacities or 6 shapes (thorough: all shapes of 0-3 rows "
     "of 0-3 elements), 3 placements, 3 failing allocations, 2 (thorough 3) steps",
     [DEVMEM, "Resources return memory aligned exactly as requested."])
prop("C20", HIST, "Every history of copies runs in lockstep with a model of all "
     "elements, sizes and capacities, compared in full after each step.",
     "copies", "5 kinds, capacities 0,1,3, 4 element types, 8 operations, 2 "
     "(thorough 3) steps, with and without declared direction", [DEVMEM])
prop("C21", HIST, "As C20, for jagged vectors.", "copies",
     "5 kinds, 10 shapes (thorough: all of 0-3 rows of 0-2 elements), 3 element "
     "types, 9 operations, 2 steps", [DEVMEM, "A copy from no rows into some is not "
     "covered, nor are the elements beyond the copied sizes."])
prop("C22", HIST, "As C20, for SoA containers.", "copies",
     "6 schemas, 5 kinds, 3-4 sizes or 10 shapes, 7 operations, 2 steps",
     [DEVMEM, "The targets of a refused copy may have been copied in part; "
      "elements beyond the copied sizes are not covered."])
prop("C23", "stateless model checking of the implementation: exhaustive "
     "enumeration of operation histories and of the progress of the operation "
     "queue", "The low level operations are queued by the harness's copy object "
     "and run when the explorer says so, checking that source and target still "
     "exist and hold what they held.", "copies",
     "as C20-C22 with 2 capacities or 4 shapes, 2 element types or 4 schemas, 2 "
     "steps; the operations of a call run in the order in which they were started, or "
     "in the opposite one", [DEVMEM, "The operations of different calls run in the order "
                            "of the calls."])
EXES["concur"] = {"variant": "sched", "src": ["concur.cpp"],
                  "extra_src": [("sched.cpp", ["-O2", "-fno-strict-aliasing"])]}
EXES["concur20"] = dict(EXES["concur"], std="gnu++20")
SCHED = ("stateless model checking of the implementation: exhaustive enumeration of "
         "thread schedules with race detection")
SCHEDMEM = ("Schedules are sequentially consistent interleavings of the atomic "
            "operations, locks and upstream calls; plain accesses are checked for data "
            "races in every schedule, by the order which the memory orders used imply.")
BOTH = [{"exe": "concur"}, {"exe": "concur20"}]
prop("C11", SCHED, "Every schedule of small programs, with an upstream that yields in "
     "the middle of each call and notices to be entered twice, and with real "
     "resources under the race detector.", [{"exe": "concur"}],
     "2 or 3 threads, 1-3 (thorough 1-4) allocations and releases each (3 threads: 4 "
     "in total, thorough 6), unbounded preemptions (2, thorough 4, for 3 threads with "
     "vectors), one failing allocation; 7 kinds of upstream", [SCHEDMEM])
prop("C14", SCHED, "Every schedule; the elements given out and their contents are "
     "compared with the claims of the threads.", BOTH,
     "2 threads with 2 (thorough 3) and 3 with 1 (thorough 2) appends or reads of the "
     "size each, 2 element types; 2-3 threads with 2-3 removals; 2 (thorough 3) threads "
     "appending twice to 2 rows; unbounded preemptions; POSIX and C++20 atomics",
     [SCHEDMEM, "Removals are not mixed with appends (not supported)."])
prop("C15", SCHED, "As C14.", BOTH,
     "2 threads with 3 (thorough 7) and 3 with 1 (thorough 4) appends, unbounded "
     "preemptions; POSIX and C++20 atomics", [SCHEDMEM])
prop("C26", SCHED, "Every schedule; the results must be those of some order of the "
     "operations, and accesses ordered by release and acquire must not race.", BOTH,
     "2 threads with 2 and 3 with 1 (thorough 2) operations of 10 (thorough 3 threads: "
     "4) kinds, 4 types, 2 (thorough 5) memory orders, unbounded preemptions; POSIX and "
     "C++20 atomics", [SCHEDMEM])
EXES["owners"] = {"variant": "asan", "src": ["owners.cpp"]}
OWN = "Resources return memory aligned exactly as requested, filled with garbage."
prop("C24", HIST, "Every history of making, moving, swapping, resetting and releasing "
     "pointers, with every failure, compared after each step with the objects and "
     "memory that must exist.", "owners",
     "14 kinds of pointers and makers, arrays of 0-2 (thorough 5) elements, 2 resources, "
     "2 pointers, 8 operations, 3 (thorough 4) steps, every allocation, construction or "
     "copy failing; 9 huge lengths", [OWN, TRACKED])
prop("C25", HIST, "Every history of allocations, constructions and releases, with every "
     "failure, compared after each step with the traffic at the resource.", "owners",
     "4 element types, 3 allocators over 2 resources, 7 operations, 3 (thorough 4) "
     "steps, every allocation or construction failing, huge lengths", [OWN, TRACKED])
EXES["views"] = {"variant": "asan", "src": ["views.cpp"]}
prop("C27", HIST, "After each step every element is read, and its address compared, "
     "through every variable, proxy, view and device container.", "views",
     "6 schemas, sizes 0-3, rows of 0-2 elements, 6 kinds of operation with 8 access "
     "paths for writes, 3 (thorough 4) steps, failing allocations", [OWN])
prop("C28", HIST, "After each step every field of every view is compared with the "
     "container it was made from, and all pairs of views are compared.", "views",
     "6 sources, sizes 0-3, 6 shapes of rows, two views and two descriptions of each "
     "kind, 7 operations, 3 (thorough 4) steps, failing allocations", [OWN])

BACK = {"variant": "asan", "src": ["backends.cpp"], "repo": ["cuda", "hip", "sycl"],
        "incdirs": ["{verif}/harness/mock", "{repo}/cuda/include", "{repo}/hip/include",
                    "{repo}/sycl/include"],
        "repo_src": ["cuda/src/**/*.cpp", "hip/src/**/*.cpp", "sycl/src/memory/*.sycl",
                     "sycl/src/utils/sycl/[!c]*.sycl", "sycl/src/utils/sycl/copy.sycl"]}
EXES["backends"] = dict(BACK, flags=["-DVECMEM_HAVE_SYCL_MEMSET"])
EXES["backends2"] = dict(BACK)
RUNTIME = ("The runtimes are stand-ins which keep devices, memory, streams, queues and "
           "events, run pending operations when told to, and report wrong uses; what they "
           "accept is taken from the documentation of the real ones.")
BACKS = [{"exe": "backends"}, {"exe": "backends2"}]
prop("C29", HIST, "Every history over real CUDA, HIP and SYCL resources above stand-ins "
     "for the runtimes; the memory held, its kind and place, the current device and all "
     "comparisons are checked after each step.", [{"exe": "backends"}],
     "2 resources of 5 kinds (SYCL: 3 kinds x 3 queues), 3 devices, 4 sizes, 6 "
     "operations, 4 (thorough 5) steps, every call of the runtime failing", [RUNTIME])
prop("C30", HIST, "Every history of copies, fills, waits and of operations which the "
     "stand-in runs early, in lockstep with a model of all contents.", BACKS,
     "5 copy classes, 2 objects with a stream or queue each, 5 areas of 3 kinds, single "
     "arrays and groups of rows, 2 (asynchronous: 3; thorough one more) steps, any call "
     "of the runtime failing; with and without a native SYCL fill", [
         RUNTIME, "A stream's own device is current when it is used for copies, and "
         "giving back a stream or event at destruction does not fail."])
prop("C31", HIST, "Every history of making, copying, moving and assigning wrappers, "
     "compared after each step with the streams which exist.", [{"exe": "backends"}],
     "3 wrappers, 2 foreign streams or queues, 3 devices, 8 operations, 4 (thorough 5; "
     "SYCL one more) steps, every call of the runtime failing", [RUNTIME])

# Device code, compiled for the host with stand-ins for the atomics of the device.
DEV = dict(EXES["concur"], posix_atomics=False, incdirs=["{verif}/harness/mockdev"])
VOL = ["--param=tsan-distinguish-volatile=1", "-DDEVICE"]
EXES["device_cuda"] = dict(DEV, flags=VOL + [
    "-DDEVICE_CUDA", "-D__CUDACC__", "-D__CUDA_ARCH__=700", "-include", "intrinsics.hpp"])
EXES["device_hip"] = dict(DEV, flags=VOL + [
    "-DDEVICE_CUDA", "-D__HIPCC__", "-D__HIP__", "-D__HIP_DEVICE_COMPILE__",
    "-include", "hip/hip_runtime.h"])
EXES["device_sycl"] = dict(DEV, flags=VOL + ["-DSYCL_LANGUAGE_VERSION=202001"])
EXES["device_sycl2"] = dict(DEV, flags=VOL + [
    "-DSYCL_LANGUAGE_VERSION=202001", "-DVECMEM_HAVE_SYCL_ATOMIC_REF"])
EXES["no_atomics"] = dict(DEV, flags=["-DALONE"])
prop("C32", SCHED, "The code for devices is compiled for the host, with stand-ins for "
     "the atomic functions of the devices; every schedule, as C14, C15 and C26.",
     [{"exe": "device_cuda"}, {"exe": "device_hip"}, {"exe": "device_sycl"},
      {"exe": "device_sycl2"}, {"exe": "no_atomics"}],
     "as C14 and C26, for 3 types and 3 kinds of objects in 4 kinds of device code; one "
     "thread: 2 (thorough 3) operations of 10 kinds with 3 arguments", [
         SCHEDMEM, "The stand-ins are relaxed atomics; in device code, accesses of words "
         "after a fence, and of volatile ones, are indivisible."])

EXES["apart"] = {"variant": "sched", "src": ["apart.cpp"],
                 "extra_src": [("sched.cpp", ["-O2", "-fno-strict-aliasing"])]}
prop("C33", SCHED, "Each thread's program is run alone first; in every schedule of two "
     "threads it must observe the same again, without data races.", [{"exe": "apart"}],
     "2 (thorough 3) threads; 13 kinds of resources with 3 programs each; 12 kinds of "
     "programs with containers, copies and pointers; at most 3 (thorough 5) preemptions"
     ", 1 (thorough 3) for resources of different kinds",
     [SCHEDMEM])
EXES["tuples"] = {"variant": "asan", "src": ["tuples.cpp"]}
prop("C34", HIST, "Every history of making, copying, moving, converting, tying and writing "
     "tuples in lockstep with lists of values.", "tuples",
     "5 lists of 1 to 5 element types (numbers, strings, lifetime-tracking and move-only "
     "types), 2 tuples, 11 operations, 4 (thorough 5) steps", [TRACKED])

# Debug builds: assertions, and all messages.
VARIANTS["debug"] = dict(VARIANTS["asan"], lacks=["-DVECMEM_DEBUG_MSG_LVL=0"], flags=[
    f for f in ASAN if f != "-DNDEBUG"] + ["-DVECMEM_DEBUG_MSG_LVL=5"])
DEBUG = (("memres", "C01 C04 C05 C06 C07"), ("routing", "C08 C09 C10 C12"),
         ("containers", "C13 C16 C17 C18"), ("copies", "C19 C20 C21 C22 C23"),
         ("owners", "C24 C25"), ("views", "C27 C28"), ("backends", "C29 C30 C31"))
for e, _ in DEBUG:
    EXES["debug_" + e] = dict(EXES[e], variant="debug")
prop("C35", HIST, "The explorations of C01 to C31 (without the concurrent ones), at one step "
     "less, on builds with assertions and all debug messages, with all their oracles.",
     [{"exe": "debug_" + e, "prop": p, "quiet": True,
       "args": ["--arg", "short=1"]}
      for e, ps in DEBUG for p in ps.split()],
     "as the quick (thorough: thorough) checks of C01, C04-C10, C12, C13, C16-C25, C27-C31 "
     "at one step less", [UPSTREAM, DEVMEM, TRACKED, RUNTIME],
     budget={"quick": 700, "thorough": 1400})

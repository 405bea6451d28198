"""Configuration of the checks: sources, budgets, builds, and what is real and what is simulated."""
LIB = "vmmlib headers of /repo's working tree (compiled with ThreadSanitizer instrumentation)"
STD = "libstdc++ (streams, containers) and glibc beneath the simulated calls"
O0 = {"name": "o0", "flags": ["-O0"]}
O2N = {"name": "o2ndebug", "flags": ["-O2", "-DNDEBUG"]}
O1 = {"name": "o1", "flags": ["-O1"]}
O2 = {"name": "o2", "flags": ["-O2"]}
# without the conversions to pointers, where vectors have checked element brackets of their own
NOCONV = {"name": "o0noconv", "flags": ["-O0", "-DVMMLIB_NO_CONVERSION_OPERATORS"]}
DISK = "device behaviour at the system-call boundary (short transfers, EINTR, errors, full disk, process death); the stored bytes live in a tmpfs scratch directory"
SCHED = "thread scheduling: real threads, one runs at a time, switches only at the instrumented accesses and calls the plan names"
CRASH = "a crash is a process death: system calls already made are durable, nothing later happens; loss of cached pages in a power failure is not simulated (the library promises nothing about it)"
SEQCST = "memory is sequentially consistent at the grain of instrumented accesses; weak-memory reorderings are not simulated"
SAMPLE = "A sample of the space, not a proof. "

PROPS = {}
def part(v, share):
    return dict(v, share=share)
def add(id, source, runs, over, note, stub, assumptions, variants=None, real=None, **kw):
    PROPS[id] = dict({"source": source, "runs": runs, "over": over, "note": SAMPLE + note,
                      "variants": variants or {"quick": [part(O0, 0.7), part(O2N, 0.3)], "thorough": [O0, O2N]},
                      "real": real or [LIB, STD], "stub": stub, "assumptions": assumptions}, **kw)

IO = "file access goes through the C library's file calls (fopen, open, read, write, writev, ... as libstdc++ makes them)"
OUT = "standard output captured"
add("C01", ["files.cpp"], 96000, "histories of raw writes and reads and transfer splittings",
    "Compares files and matrices with a model after every operation of every simulated history, with short and interrupted system calls decided by the plan.",
    [DISK, OUT], [IO])
add("C02", ["files.cpp"], 120000, "histories of damaged files and failing reads at chosen bytes",
    "After each failing read the matrix must be untouched and a message printed; good reads must deliver.",
    [DISK, OUT], [IO])
add("C03", ["files.cpp"], 60000, "device failure positions and crash points of raw writes",
    "After each failed or interrupted write the file is read back; only the complete old or new matrix or a rejected read passes.",
    [DISK, OUT], [CRASH, IO])
add("C04", ["files.cpp"], 32000, "device failure positions, crash points and splittings of CSV exports",
    "The file is compared with a complete export and its content parsed back; after failures it must be a prefix and a message printed.",
    [DISK, OUT], [CRASH, IO])

def fam(name, types):
    return ["%s.cpp:TYPE=%s" % (name, t) for t in types]
ALL, FLT = ["float", "double", "int"], ["float", "double"]
VEC = fam("ops_vector", ALL)
MAT = fam("ops_matrix", ALL) + [s + ",TALL" for s in fam("ops_matrix", ALL)] + fam("ops_square", ALL) + fam("ops_big", ALL)
QUA = fam("ops_quaternion", FLT)
GEO = fam("ops_geometry", FLT)
ISO = "Every operation of every simulated multi-threaded program is executed once more alone on copies of its operands, at other addresses and over other memory contents and history; results and written bytes must be identical bit for bit."
PROG = "programs, interleavings at memory-access grain, and process histories"
LD = ["LongDouble"]
add("C10", ["conc.cpp"] + VEC + fam("ops_vector", LD), 120000, PROG, ISO, [SCHED, OUT], [SEQCST])
add("C11", ["conc.cpp"] + MAT + fam("ops_matrix", LD) + [s + ",TALL" for s in fam("ops_matrix", LD)] + fam("ops_square", LD) + fam("ops_big", LD), 120000, PROG, ISO, [SCHED, OUT], [SEQCST])
add("C12", ["conc.cpp"] + QUA + fam("ops_quaternion", LD), 120000, PROG, ISO, [SCHED, OUT], [SEQCST])
add("C13", ["conc.cpp"] + GEO + fam("ops_geometry", LD), 120000, PROG, ISO, [SCHED, OUT], [SEQCST])
add("C19", ["conc.cpp"] + VEC + MAT + QUA + GEO, 160000, "programs, interleavings, rejected operations and allocation failures",
    "All constants of the instantiated types are compared with their documented values after every operation and at every context switch.",
    [SCHED, OUT], [SEQCST], variants={"quick": [part(O0, 0.7), part(O2, 0.3)], "thorough": [O0, O2]})

GEN = "the C library's generator, replaced by a scripted one (spread values, extremes, small and large values)"
add("C08", ["rand.cpp"], 240000, "histories of fills, perturbations, reseeding and generator outputs",
    "Element ranges, extremes, reproducibility per seed and reseeding are checked after every operation of every history.",
    [GEN, OUT], ["random numbers come from the C library's rand and srand, as documented"])
add("C09", ["rand.cpp"] + [s for s in VEC + MAT + QUA + GEO if "TYPE=int" not in s], 160000, "programs and interleavings of fills, perturbations and other operations",
    "Every draw is logged per operation and thread; results are compared with the operation's own draws, and each operation is run again alone with the same draws and with one draw inverted.",
    [GEN, SCHED, OUT], [SEQCST, "random numbers come from the C library's rand and srand, as documented"])

add("C15", ["filter.cpp"], 200000, "histories of additions, factor changes, copies and failed allocations over several filters and threads",
    "After every step every filter is compared, within rounding, with the documented formula over its recorded samples.",
    [SCHED, OUT, "failing allocations at the planned requests"], [SEQCST])
NET = "the network between workers and reducer (the harness's: loss, duplication, delay, reordering)"
add("C16", ["boxes.cpp"], 300000, "reductions with delivery order, duplication, loss, restarts and interleavings",
    "Every box is compared exactly with the bound of what was merged into it after every step, and with the bound of all points after faults stop.",
    [NET, SCHED, OUT], [SEQCST, "coordinates are finite"])

add("C17", ["bounds.cpp"], 240000, "histories of accepted and rejected operations and failing allocations",
    "Every operation's acceptance, exception and effect are compared with a model, and all objects with their modelled contents after each operation.",
    [OUT, "failing allocations at the planned requests"], ["checked accessors are enabled (builds without NDEBUG)"],
    variants={"quick": [part(O0, 0.5), part(NOCONV, 0.25), part(O2, 0.25)], "thorough": [O0, NOCONV, O2]})

STREAM = "stream buffers (the harness's: chunked delivery, refusal, exceptions, failing flushes)"
add("C05", ["text.cpp"], 400000, "histories of objects, foreign tokens, number formats and chunkings",
    "Every restored element is compared with the written one, or with the value of its printed form where the precision is too small; foreign tokens must come back intact.",
    [STREAM, OUT], ["the stream's own extraction and insertion of single numbers are correct"])
add("C06", ["text.cpp"], 400000, "histories of truncated, damaged and failing sources",
    "The delivered prefix is what extracting single numbers from an identical source gives; everything after the failing element must be unchanged and the failure visible.",
    [STREAM, OUT], ["the stream's own extraction of single numbers is correct"])
add("C07", ["text.cpp"], 400000, "histories of prints, formatting states and sink failures",
    "Text is compared with a model of the documented format, stream settings and all objects after every print, failed or not.",
    [STREAM, OUT], ["the stream's own insertion of single numbers is correct"])
add("C14", ["par.cpp"], 240000, "programs, interleavings at memory-access and system-call grain, transfer splittings",
    "Every file, stream and object of every thread is compared after each operation with what the thread's own operations give alone.",
    [DISK, STREAM, SCHED, OUT], [SEQCST, IO], flags=["-D_GLIBCXX_EXTERN_TEMPLATE=0"])
add("C18", ["oom.cpp"] + VEC + MAT + QUA + GEO, 100000, "histories of operations with each of their memory requests failing",
    "After each failing request: reported or complete, nothing left allocated or open, operands as before, and the repetition gives the normal result.",
    [OUT, "failing allocations (operator new and malloc)"], [IO], variants={"quick": [part(O0, 0.7), part(O2, 0.3)], "thorough": [O0, O2]})

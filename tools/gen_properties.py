#!/usr/bin/env python3
"""Writes properties.jsonl (run from /verif). The text lives here so that it can be edited as text."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MX="vmmlib/matrix.hpp"; VX="vmmlib/vector.hpp"; QX="vmmlib/quaternion.hpp"; FX="vmmlib/frustum.hpp"
CX="vmmlib/frustum_culler.hpp"; AX="vmmlib/aabb.hpp"; LX="vmmlib/lowpass_filter.hpp"; IX="vmmlib/intersection.hpp"
EX="vmmlib/exception.hpp"; QR="vmmlib/qr_decomposition.hpp"; UX="vmmlib/util.hpp"

# ---------------------------------------------------------------- files
prop("C01", "A raw matrix file round-trips bit for bit",
 "Writing a matrix to a raw file and reading that file into a matrix of the same shape and element type reproduces every element bit for bit (NaNs, infinities and signed zeros included), however the operating system splits, shortens or interrupts the transfers and whatever the file or the target matrix held before. "
 "The file is the directory, a separator unless the directory already ends in one, and the given name (with \".raw\" appended on writing unless the name already ends in \"raw\"), and holds exactly the element bytes, column by column. "
 "No other file is changed, no descriptor or memory is kept, the written matrix is unchanged, and nothing is reported.",
 ["histories","inputs","fault_sequences"],
 "Every history of raw writes and reads of matrices of any shape and type over any set of names, every splitting of each transfer into short or interrupted system calls.",
 "No repository test writes or reads a raw file; a test would only see whole, uninterrupted transfers into a fresh file.",
 [MX], [("write_to_raw", "matrix.hpp: path building, open (truncating), one block write"), ("read_from_raw", "matrix.hpp: block read, element copy")],
 observe=["bytes of the file on the simulated disk", "elements of the matrix after the read", "open descriptors, allocations, other files"])
prop("C02", "A raw read that cannot complete changes nothing and says so",
 "When a raw file is missing, cannot be opened, is shorter than the matrix, or fails to read at any byte, reading it into a matrix leaves every element of that matrix as it was and prints a message on standard output, without an exception, a crash, or a kept descriptor or allocation. "
 "A file longer than the matrix is read from its beginning and its surplus is ignored. "
 "Reading never changes any file, and a later read of a good file works normally.",
 ["fault_sequences","histories","inputs"],
 "Every length of the stored file, every byte position at which a read may fail, every failure to open, in any history of other reads and writes.",
 "The tests never read a raw file, and a failing read at a chosen byte cannot be produced by an ordinary test.",
 [MX], [("read_from_raw", "matrix.hpp: open check, count of bytes delivered, copy into the elements")],
 observe=["elements of the target", "standard output", "open descriptors and outstanding allocations"])
prop("C03", "A failed or interrupted raw write never passes for a good file",
 "If writing a raw matrix file fails (cannot open, disk full, I/O error at any byte) the call says so on standard output, leaves the matrix and all other files unchanged and keeps no descriptor; it never reports nothing about an incomplete file. "
 "If the process dies at any point of the write, reading the file afterwards yields the complete old matrix, the complete new matrix, or a rejected read (target unchanged) - never a mixture of old, new or foreign data. "
 "Once the fault is gone, repeating the write produces a complete and correct file.",
 ["crash_points","fault_sequences","histories"],
 "Every byte position at which the device fails or fills up, every system call at which the process dies, over any history of overwrites of longer and shorter files; readers of the same matrix type.",
 "Tests never see a full disk, an I/O error or a crash in the middle of a write.",
 [MX], [("write_to_raw", "matrix.hpp: truncating open, write, close, failure message")],
 observe=["file bytes after the restart", "standard output", "a following read"])
prop("C04", "CSV export is complete or says it failed",
 "Exporting a matrix as CSV writes one line per row, rows and columns in order, every element with five significant digits, to the directory, separator (if needed) and name (with \".csv\" appended unless the name already ends in \"csv\"), however the operating system splits or interrupts the writes and whatever the file held before. "
 "If the file cannot be opened or not all of it can be written, the call says so on standard output, and what is in the file is a prefix of the correct export. "
 "The matrix and every other file stay unchanged, and no descriptor or memory is kept.",
 ["fault_sequences","crash_points","histories","inputs"],
 "Every shape and element value (element types that are numbers, not characters), every device failure position, crash point and short-write pattern, over histories of exports onto existing files.",
 "No repository test exports CSV; failing and short writes cannot be produced by an ordinary test.",
 [MX], [("write_csv_file", "matrix.hpp: path building, operator<<, close, failure message")],
 observe=["file bytes", "standard output"])

# ---------------------------------------------------------------- streams
prop("C05", "Text serialisation of vectors and matrices round-trips and frames",
 "Writing vectors and matrices one after another as text to a stream and reading them back in the same order restores each one - exactly where the stream's precision suffices for the element type, else to the printed precision - however the characters are split on their way and whatever surrounds them. "
 "Each read consumes exactly its own elements, so data before and after it stays intact. "
 "Neither writing nor reading changes the stream's formatting settings or the written object.",
 ["histories","inputs","fault_sequences"],
 "Every sequence of objects and interleaved foreign tokens, every precision and number format accepted by stream extraction, every splitting of the byte stream into chunks (finite values; elements that are numbers, not characters).",
 "No repository test serialises to a stream; a string stream delivers all characters at once.",
 [VX, MX], [("write_to_stream", "vector.hpp, matrix.hpp"), ("read_from_stream", "vector.hpp, matrix.hpp")],
 observe=["restored elements", "stream position and flags"])
prop("C06", "Broken text input keeps the delivered prefix and shows failure",
 "If the text from which a vector or matrix is read ends, is malformed or stops being delivered after some elements, the elements before that point hold the delivered values, those after it keep the values they had, and the stream is left in a failed state; with exceptions enabled on the stream the failure is thrown and the same holds. "
 "Nothing outside the object is changed. "
 "After the error is cleared and the input supplied again, reading works normally.",
 ["fault_sequences","inputs","histories"],
 "Every truncation point and corruption position of every text, with failure as end of input, malformed token, or an error raised by the source.",
 "No test reads a vector or matrix from a failing stream.",
 [VX, MX], [("read_from_stream", "vector.hpp, matrix.hpp: element-wise extraction in storage-independent order")],
 observe=["elements", "stream state"])
prop("C07", "Printing shows the value and leaves stream and value as they were",
 "Printing a vector, matrix, quaternion, box, frustum or culler emits its elements in order, whatever the sink's buffering and the stream's settings, and printing does not change the printed object. "
 "Vector, matrix and frustum print floating values with five significant digits in columns ten wide, whatever precision was set before. "
 "Formatting flags and precision of the stream are the same after the print as before, also when the sink fails or throws in the middle of it.",
 ["fault_sequences","inputs","histories"],
 "Every object and value, every position at which the sink fails or throws, every chunking, every prior formatting state of the stream, any number of prints in a row.",
 "The tests print at most for diagnostics, to a sink that never fails, and never look at the stream state.",
 [VX, MX, QX, FX, CX, AX], [("operator<<", "vector.hpp, matrix.hpp, quaternion.hpp, frustum.hpp, frustum_culler.hpp, aabb.hpp: save, format, restore")],
 observe=["delivered bytes", "flags and precision of the stream"])

# ---------------------------------------------------------------- randomness
prop("C08", "Seeded random filling is reproducible and stays in [-1,1]",
 "Filling a vector or matrix with random values from a given non-negative seed produces the same values every time, whatever was drawn or computed before, and filling without a seed continues the running sequence without reseeding it. "
 "Every element lies in [-1,1], including when the generator returns its extreme values, with the extremes mapped to -1 and 1. "
 "A fill sets every element.",
 ["histories","inputs","fault_sequences"],
 "Every seed, every history of seeded and unseeded fills, perturbations and other operations, every sequence of generator outputs including long runs of extremes.",
 "Tests fill with random numbers only as input material; extremes of the generator are practically never drawn.",
 [VX, MX], [("set_random", "vector.hpp, matrix.hpp: srand/rand")],
 observe=["elements", "calls of the generator"])
prop("C09", "Every random element gets its own draw, and only random operations draw",
 "A random fill takes exactly one draw from the shared generator per element and a perturbation one per component, each used for that element alone, even when several threads fill and perturb distinct objects at the same time. "
 "A perturbation moves each component by exactly plus or minus the given amount. "
 "No other operation draws from the generator or reseeds it.",
 ["schedules","histories"],
 "Every interleaving of several threads' fills, perturbations and other operations on distinct objects.",
 "Tests are single-threaded and do not observe the generator.",
 [VX, MX], [("set_random", "vector.hpp, matrix.hpp"), ("perturb", "vector.hpp")],
 observe=["generator calls per thread", "elements"])

# ---------------------------------------------------------------- concurrency / isolation
CONC = (" Every operation's result depends on the values of its operands alone - not on earlier operations, on the address or age of the objects, or on what uninitialised memory happened to contain."
        " Operands that an operation only reads keep their values.")
def conc(id, what, title, files, mech, extra=""):
    prop(id, title,
     what + CONC, ["schedules","histories","programs"],
     "Every program of public operations per thread over private objects and shared read-only objects (a separate result object is distinct from the operands), every interleaving of the threads' memory accesses, every prior history of the process." + extra,
     "The tests run each operation once, on one thread, in a fresh process: hidden shared state, caches and scratch buffers are invisible to them.",
     files, mech, observe=["results of every operation, compared with the same operation executed alone on fresh copies"])
conc("C10", "Threads working on distinct vectors, or only reading shared ones, get the same results as each would alone.",
     "Vectors: concurrent use of distinct or shared read-only vectors is isolated", [VX, "vmmlib/math.hpp"],
     [("no shared mutable state", "vector.hpp: all members and free functions"), ("static const defaults", "vector.hpp")])
conc("C11", "Threads working on distinct matrices, or only reading shared ones, get the same results as each would alone, for arithmetic, inversion, determinants, convolution, decompositions, quantisation and all other matrix operations.",
     "Matrices: concurrent use of distinct or shared read-only ones is isolated", [MX, QR, "vmmlib/matrix_functors.hpp"],
     [("no shared mutable state", "matrix.hpp, qr_decomposition.hpp: temporaries are automatic"), ("static const IDENTITY, ZERO", "matrix.hpp")])
conc("C12", "Threads working on distinct quaternions, or only reading shared ones, get the same results as each would alone, for algebra, conversion to and from matrices, normalisation and interpolation.",
     "Quaternions: concurrent use of distinct or shared read-only ones is isolated", [QX],
     [("no shared mutable state", "quaternion.hpp"), ("static const IDENTITY, QUATERI..", "quaternion.hpp")])
conc("C13", "Threads working on distinct frusta, cullers, boxes and ray tests, or only reading shared ones, get the same results as each would alone.",
     "Frusta, culling, boxes, ray tests: concurrent use is isolated", [FX, CX, AX, IX],
     [("no shared mutable state", "frustum.hpp, frustum_culler.hpp, aabb.hpp, intersection.hpp"), ("planes kept in the culler", "frustum_culler.hpp: setup, test_sphere, test_aabb")])
prop("C14", "Concurrent file and stream operations on distinct targets do not mix",
 "When several threads write and read distinct raw and CSV files and print, serialise and deserialise on distinct streams at the same time, each file, stream and object ends up with exactly what the same thread's operations would have produced alone. "
 "Path handling, buffers and formatting of one operation are never seen by another, and the same holds when the same thread works on several targets in turn.",
 ["schedules","histories","fault_sequences"],
 "Every interleaving of the threads' memory accesses and system calls, with short and interrupted transfers.",
 "The tests use neither files nor threads.",
 [MX, VX, QX, FX, AX], [("write_to_raw, read_from_raw, write_csv_file", "matrix.hpp: local path strings and streams"), ("operator<<, *_stream", "all value types")],
 observe=["file bytes", "stream contents", "objects"])

# ---------------------------------------------------------------- stateful components
prop("C15", "The low-pass filter answers from exactly its last M samples",
 "At every moment of any history of adding samples and changing the smoothing factor, the filter's value is the newest sample blended with each older one of the last (at most M) samples added to this filter, the k-th older one with weight f^k, f being the factor in force when the newest was added; adding returns that value. "
 "Many filters in use at the same time, on one thread or several, never influence each other. "
 "If memory runs out while a sample is added, the filter's value and history are as before the call and the filter stays usable.",
 ["histories","schedules","fault_sequences"],
 "Every sequence of additions and factor changes, every window length and sample type, every interleaving of several filters' use, an allocation failure at any addition.",
 "The tests check one short sequence of one filter.",
 [LX], [("add", "lowpass_filter.hpp: push_front, pop_back, weighted sum"), ("set_smooth_factor", "lowpass_filter.hpp")],
 state=[("sample deque", "the last M samples, newest first", "lowpass_filter.hpp"), ("value", "the last result", "lowpass_filter.hpp")],
 observe=["return value of add and get"])
prop("C16", "Merged bounding boxes are the exact bound in any delivery order",
 "Merging points and boxes into a box yields exactly the componentwise minimum and maximum of everything merged, whatever the order, grouping, repetition or distribution of the merges over partial boxes - so bounds reduced over lossy, duplicating, reordering messages and restarted workers equal those computed at once. "
 "Every merged point is inside the result and a point beyond it on any axis is not. "
 "A fresh or emptied box is empty, merging an empty box changes nothing, and a box is empty exactly when its extent is not positive on some axis.",
 ["schedules","fault_sequences","histories","inputs"],
 "Every delivery order, duplication, loss with retransmission, partition of the points over workers and restart point, for every arithmetic coordinate type (finite coordinates).",
 "The tests check a handful of fixed boxes, merged in one order.",
 [AX], [("merge", "aabb.hpp: componentwise min and max"), ("isIn, isEmpty, reset", "aabb.hpp")],
 observe=["getMin, getMax, isIn, isEmpty"])
prop("C17", "A rejected operation throws a located error and changes nothing",
 "With checked access (the default of debug builds), every access or transfer outside a vector's or matrix's bounds - element, row, column, sub-matrix, minor, undersized source data - and every division of a quaternion by zero throws the library's exception naming description and source location instead of touching memory; filling from an iterator range takes no more than the range holds. "
 "The object and all others are then exactly as before the call, and stay fully usable. "
 "In-range use never throws.",
 ["histories","inputs","fault_sequences"],
 "Every operation and index in and out of range, at any point of any history of valid and rejected operations, also while memory is short.",
 "The tests call rejecting paths only incidentally and do not look at the object afterwards.",
 [MX, VX, EX], [("VMMLIB_SAFE_ACCESSORS checks", "matrix.hpp, vector.hpp"), ("VMMLIB_ERROR, vmml::exception", "exception.hpp")],
 observe=["exception type and text", "all objects after the throw"])
prop("C18", "Running out of memory is reported, leaks nothing and damages nothing",
 "If any single memory request fails during any operation, the operation either completes normally or ends in a bad-allocation exception or a reported failure; the program is not terminated. "
 "Nothing allocated by the operation stays allocated, no descriptor stays open, the operands it only reads are unchanged, and the objects it writes remain usable. "
 "Repeating the operation with memory available gives the normal result.",
 ["fault_sequences","histories"],
 "Every operation that requests memory, directly or through the standard library, and every one of its requests as the failing one, in any history.",
 "Tests never see an allocation fail.",
 [MX, LX, VX, QR, EX], [("temporaries of sum_rows, sum_columns, symmetric_covariance", "matrix.hpp"), ("file buffers", "matrix.hpp: read_from_raw, write_to_raw"), ("deque", "lowpass_filter.hpp")],
 observe=["outstanding allocations", "exception type", "operands", "result of a retry"])
prop("C19", "The library's shared constants never change",
 "Identity and zero matrices, the zero, one, unit and direction vectors, the quaternion constants and the default frustum hold their documented values at every moment of every program from the start of main, whatever operations ran before or run at the same time on other threads - including operations that failed. "
 "Copies of a constant can be modified freely without affecting the constant.",
 ["schedules","histories","fault_sequences"],
 "Every program of public operations using the constants as operands, every interleaving, every fault.",
 "The tests compare against constants once, at the start of a fresh process.",
 [VX, MX, QX, FX], [("static const members", "vector.hpp, matrix.hpp, quaternion.hpp, frustum.hpp"), ("const operands", "all operations")],
 observe=["bytes of the constants after every operation and at every context switch"])

# ---------------------------------------------------------------- pure functions (not applicable to this technique)
def pure(id, title, statement, files, mech, why="The tests check a few fixed values."):
    prop(id, title, statement, ["inputs"], "Every operand value (within floating-point accuracy).", why, files, mech)
pure("C20", "Matrix inverse is an inverse or is refused",
 "For every invertible 2x2, 3x3 and 4x4 matrix the computed inverse times the matrix is the identity up to rounding, and a matrix whose determinant is below the tolerance is refused.",
 [MX], [("inverse, compute_inverse", "matrix.hpp")])
pure("C21", "Determinant, cofactors, adjugate and minors are consistent",
 "For every square matrix the determinant agrees with its cofactor expansion, the adjugate times the matrix is the determinant times identity, and the determinant of a product is the product of determinants, up to rounding.",
 [MX], [("compute_determinant, get_cofactors, get_adjugate, get_minor", "matrix.hpp")])
pure("C22", "Matrix algebra obeys its laws",
 "Addition, scaling, product, transpose, Kronecker, Khatri-Rao, tensor and direct-sum operations compute their definitions for every operand, and negation gives the additive inverse.",
 [MX], [("multiply, transpose_to, kronecker_product, ...", "matrix.hpp")])
pure("C23", "Affine transform builders place rotation, scale and translation correctly",
 "Rotation, scale and translation builders yield matrices that transform every point as defined, and set/get of the translation agree.",
 [MX], [("rotate*, scale*, set_translation", "matrix.hpp")])
pure("C24", "Quaternion algebra and matrix conversion are correct",
 "Product, conjugate, inverse and vector rotation by quaternions obey quaternion algebra for every operand, and conversion to and from rotation matrices preserves the rotation.",
 [QX], [("operator*, invert, get_rotation_matrix, set", "quaternion.hpp")])
pure("C25", "Quaternion interpolation stays on the arc",
 "Spherical interpolation between unit quaternions returns the end points at 0 and 1, a unit quaternion in between, and constant angular speed.",
 [QX], [("slerp", "quaternion.hpp")])
pure("C26", "Frustum projections match their definition",
 "Perspective and orthographic matrices computed from a frustum map its corners to the clip volume, near-plane adjustment preserves the viewing volume's shape, and width and height are the plane differences.",
 [FX], [("compute_matrix, compute_ortho_matrix, adjust_near", "frustum.hpp")])
pure("C27", "Frustum culling never discards something visible",
 "No sphere or box intersecting the view volume is reported as not visible, and everything reported as fully visible is inside.",
 [CX], [("setup, test_sphere, test_aabb", "frustum_culler.hpp")])
pure("C28", "Ray-sphere intersection is exact",
 "A ray is reported to hit a sphere exactly when it does, with the distance to the nearest intersection in front of its origin.",
 [IX], [("test_sphere", "intersection.hpp")])
pure("C29", "QR decomposition reproduces the matrix",
 "For every full-rank matrix the decomposition yields orthonormal Q and upper-triangular R with Q*R equal to the matrix up to rounding.",
 [QR], [("qr_decompose_gram_schmidt, qr_decompose_householder", "qr_decomposition.hpp")])
pure("C30", "Quantisation round-trips within one step",
 "Quantising a matrix to an integer type and dequantising it changes no element by more than one quantisation step of the value range.",
 [MX], [("quantize, quantize_to, dequantize", "matrix.hpp")])
pure("C31", "Vector algebra is correct",
 "Arithmetic, dot and cross product, length, normalisation, distance, projection onto planes and spheres, and min/max search compute their definitions for every vector.",
 [VX], [("cross, dot, normalize, distance_to_plane, ...", "vector.hpp")])
pure("C32", "Element layout and accessors agree",
 "Row/column access, column-major iteration, pointer conversion, sub-vectors and homogeneous conversions all address the same elements.",
 [VX, MX], [("operator(), at, begin, get_sub_vector", "vector.hpp, matrix.hpp")])
pure("C33", "Matrix reductions compute their definitions",
 "Minimum, maximum, absolute extremes, norms, non-zero counts, sums and thresholds agree with their definitions for every matrix, all-negative ones included.",
 [MX], [("get_min, get_max, nnz, frobenius_norm, columnwise_sum", "matrix.hpp")])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

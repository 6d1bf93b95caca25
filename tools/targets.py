"""Which drivers decide which property, how they are built and how many cases they run."""
import os


class Target:
    def __init__(self, src, filter, quick, thorough, profile="asan", bounds=True, defs=(), std="c++14", libs=(), cost=1.0, hang=60, limit=500, solo=False, threads=1, more=()):
        self.src, self.filter, self.quick, self.thorough, self.profile, self.bounds = src, filter, quick, thorough, profile, bounds
        self.defs, self.std, self.libs, self.cost, self.hang, self.limit, self.solo, self.threads, self.more = tuple(defs), std, tuple(libs), cost, hang, limit, solo, threads, tuple(more)

    def key(self):
        return "%s|%s|%s|%s|%s" % (self.src, self.profile, "bounds" if self.bounds else "nobounds", self.std, " ".join(self.defs))


def elem(e, *more):
    return ["-DELEM=" + e, "-DELEM_NAME=\"%s\"" % e.replace("std::", "")] + list(more)


SHIM = "RAJA, camp, CHAI and Umpire are not installed: /verif/shim stands in for them and is trusted to have their documented behaviour."
SAN = "AddressSanitizer and UndefinedBehaviorSanitizer are trusted to notice what they are documented to notice."
CHECKS = {}


def check(id, rule, targets, assumptions=()):
    CHECKS[id] = {"rule": rule, "targets": targets, "assumptions": [SHIM, SAN] + list(assumptions)}


def arrays(filter, q, th, elems, bounds=(True, False)):
    r = []
    for part in (1, 2, 3):
        for i, e in enumerate(elems):
            r.append(Target("d_array.cpp", filter, q, th, bounds=bounds[(i + part) % len(bounds)], defs=elem(e, "-DPART=%d" % part)))
        r.append(Target("d_array.cpp", filter, 0, th, profile="asanO2", bounds=False, defs=elem(elems[0], "-DPART=%d" % part)))
        r.append(Target("d_array.cpp", filter, 0, th, profile="gcc", bounds=True, defs=elem(elems[-1], "-DPART=%d" % part)))
    return r


check("C01", "A case draws rank, permutation, index type and extents (6% zero, 25% one), writes distinct values through one access path and compares addresses, values, strides and linear indices of every index tuple, of every access path and of recursively taken slices with the reference layout. Non-trivial: more than one element; distinct by the hash of the drawn case.",
      arrays("layout/", 700, 6000, ["long", "Pod"]))
check("C02", "A case is a random history of resize, resizeDimension, resizeDefault, reserve, clear and resize-index changes on one array, compared with a reference after every step. Non-trivial: more than six operations; distinct by the hash of the history.",
      arrays("size", 900, 6000, ["long", "std::string"]) + [Target("d_array.cpp", "raw/", 300, 1500, defs=elem("Pod", "-DPART=%d" % p)) for p in (1, 2, 3)])
check("C12", "A case is a random history of copy, move, assignment, self-assignment, view and reuse operations on three containers, compared with references after every step, with allocation accounting and lifetime monitor. Non-trivial: the whole history ran; distinct by its hash.",
      arrays("value/", 400, 3000, ["Tracked", "long"]))


# Types that fast paths for arithmetic or small types would single out; optimised builds, where such paths are chosen.
SMALL = ("short", "double")


def vec(filter, q, th, elems=("long", "std::string", "Tracked", "TrackedCopy", "Pod")):
    r = [Target("d_vector.cpp", filter, q, th, bounds=i % 2 == 0, defs=elem(e)) for i, e in enumerate(elems)]
    r += [Target("d_vector.cpp", filter, q, th, profile="plainO2", bounds=i % 2 == 0, defs=elem(e)) for i, e in enumerate(SMALL)]
    r += [Target("d_vector.cpp", filter, 0, th, profile=p, bounds=i % 2 == 1, defs=elem(e)) for p in ("asanO2", "gcc") for i, e in enumerate(elems)]
    return r


check("C03", "A case is a random history on one one-dimensional array, compared with a std::vector after every step, with data-pointer and capacity monitors. Non-trivial: more than ten operations; distinct by the hash of the history.",
      vec("vec/", 800, 6000), ["Arguments are not references into the container itself."])
check("C27", "A case applies one primitive to a range inside guarded raw memory and checks every slot's value and liveness and every guard byte. Non-trivial: at least two elements; distinct by the hash of the drawn case.",
      vec("prim/", 6000, 60000))


def srt(filter, q, th, elems=("long", "std::string", "Tracked", "TrackedCopy", "Pod")):
    r = [Target("d_sorted.cpp", filter, q, th, bounds=i % 2 == 0, defs=elem(e)) for i, e in enumerate(elems)]
    r += [Target("d_sorted.cpp", filter, q, th, profile="plainO2", bounds=i % 2 == 0, defs=elem(e)) for i, e in enumerate(SMALL)]
    r += [Target("d_sorted.cpp", filter, 0, th, profile=p, bounds=i % 2 == 1, defs=elem(e)) for p in ("asanO2", "gcc") for i, e in enumerate(elems)]
    return r


check("C06", "A case is a random history of single and batch insertions and removals, reserve, clear, copies and moves of two sorted arrays, compared with std::set after every step. Distinct by the hash of the history; every history is non-trivial.",
      srt("set/", 700, 6000))
check("C07", "A case sorts, uniques or searches one sequence (patterns, duplicates, quicksort adversary) or applies insertions and removals to a raw sorted range with recorded call backs. Non-trivial: more than two elements; distinct by the hash of the drawn case.",
      srt("sam/", 1600, 12000))


def family(src, filter, q, th, elems=("long", "std::string", "Tracked", "TrackedCopy", "Pod")):
    r = [Target(src, filter, q, th, bounds=i % 2 == 0, defs=elem(e)) for i, e in enumerate(elems)]
    r += [Target(src, filter, q, th, profile="plainO2", bounds=i % 2 == 0, defs=elem(e)) for i, e in enumerate(SMALL)]
    r += [Target(src, filter, 0, th, profile=p, bounds=i % 2 == 1, defs=elem(e)) for p in ("asanO2", "gcc") for i, e in enumerate(elems)]
    return r


check("C08", "A case is a random history of operations on two ragged arrays, compared with vectors of vectors after every step, with capacity, offset and aliasing monitors. Non-trivial: more than ten operations; distinct by the hash of the history.",
      family("d_aoa.cpp", "aoa/", 500, 5000))
check("C09", "A case is a random history of operations on two arrays of sets ( assimilation of arrays of every declared kind included ), compared with vectors of sets after every step, with capacity, offset and aliasing monitors. Non-trivial: more than ten operations; distinct by the hash of the history.",
      family("d_aos.cpp", "aos", 500, 5000))


def crs(filter, q, th, elems=("long", "float", "std::string", "Tracked", "TrackedCopy")):
    r = [Target("d_crs.cpp", filter, q, th, bounds=i % 2 == 0, defs=elem(e, "-DWITH_CRS")) for i, e in enumerate(elems)]
    r += [Target("d_crs.cpp", filter, 0, th, profile=p, bounds=i % 2 == 1, defs=elem(e, "-DWITH_CRS")) for p in ("asanO2", "gcc") for i, e in enumerate(elems)]
    return r


def sp(filter, q, th):
    return [Target("d_crs.cpp", filter, q, th, bounds=True, defs=["-DWITH_SP"]), Target("d_crs.cpp", filter, q, th, bounds=False, defs=["-DWITH_SP"]),
            Target("d_crs.cpp", filter, 0, th, profile="asanO2", bounds=False, defs=["-DWITH_SP"]), Target("d_crs.cpp", filter, 0, th, profile="gcc", bounds=True, defs=["-DWITH_SP"])]


check("C10", "A case is a random history of operations on two sparsity patterns, compared with vectors of sets after every step, with capacity, offset and aliasing monitors. Non-trivial: more than ten operations; distinct by the hash of the history.",
      sp("sp", 1500, 15000))
check("C11", "A case is a random history of operations on two matrices, compared with vectors of maps after every step, with capacity, offset and aliasing monitors. Non-trivial: more than ten operations; distinct by the hash of the history.",
      crs("crs", 500, 5000))

# Everything that owns elements, under the element types with lifetime monitors ( C04 ) and under three sanitizer builds ( C05 ).
OWNING = (("d_vector.cpp", "vec/", 300, ()), ("d_sorted.cpp", "set/", 300, ()), ("d_aoa.cpp", "aoa", 300, ()), ("d_aos.cpp", "aos", 300, ()), ("d_crs.cpp", "crs", 250, ("-DWITH_CRS",)))


def owning(elems, profiles, q, th, extra=()):
    r = []
    for src, filter, n, defs in OWNING:
        for i, e in enumerate(elems):
            for j, p in enumerate(profiles):
                quick = int(n * q) if (i + j) % len(profiles) == 0 or len(profiles) == 1 else 0
                r.append(Target(src, filter, quick, int(n * th), profile=p, bounds=(i + j) % 2 == 0, defs=elem(e, *defs)))
    return r + list(extra)


LIFE = ("Tracked", "TrackedCopy", "std::string")
check("C04", "A case is a random history of operations on one or two containers ( or one raw range ) of elements that register their own address on construction, destruction, copy, move and read. Every life-cycle event is checked as it happens, values are compared with a reference after every step, and nothing may be alive at the end. Non-trivial: more than ten operations ( two elements for the raw range primitives ); distinct by the hash of the history.",
      owning(LIFE, ("asan",), 1.0, 10) + owning(LIFE, ("asanO2",), 0, 10)
      + [Target("d_vector.cpp", "prim/", 2500, 25000, bounds=i % 2 == 0, defs=elem(e)) for i, e in enumerate(LIFE)]
      + [Target("d_sorted.cpp", "sam/", 500, 5000, bounds=i % 2 == 0, defs=elem(e)) for i, e in enumerate(LIFE)]
      + [Target("d_array.cpp", f, 250, 2500, bounds=(p + i) % 2 == 0, defs=elem(e, "-DPART=%d" % p)) for p in (1, 2, 3) for i, (e, f) in enumerate((("Tracked", "value/"), ("std::string", "size")))]
      + [Target("d_array.cpp", "size", 0, 2500, bounds=p % 2 == 0, defs=elem("TrackedCopy", "-DPART=%d" % p)) for p in (1, 2, 3)])
check("C05", "A case is a random history of in-range operations on one or two containers under AddressSanitizer and UndefinedBehaviorSanitizer ( clang -O0, clang -O2 and gcc -O1 builds, bounds checking on and off ), with allocation accounting against leaks and a reference compared after every step so that stores inside the allocation but outside the addressed row are seen. Non-trivial: more than ten operations; distinct by the hash of the history.",
      owning(("long", "std::string", "Pod"), ("asan", "asanO2", "gcc"), 1.3, 8)
      + [Target("d_vector.cpp", "prim/", 2500, 25000, profile="gcc", bounds=False, defs=elem("std::string"))]
      + [Target("d_crs.cpp", "sp", 700, 7000, profile="asanO2", bounds=False, defs=["-DWITH_SP"])]
      + [Target("d_array.cpp", "", 500, 4000, profile=q, bounds=p % 2 == 0, defs=elem("long", "-DPART=%d" % p)) for p, q in ((1, "asan"), (2, "asanO2"), (3, "gcc"))])
# Value semantics of the ragged containers, on top of the arrays'.
CHECKS["C12"]["targets"] += [Target(src, filter, 300, 3000, bounds=i % 2 == 0, defs=elem(e, *defs)) for src, filter, defs in (("d_aoa.cpp", "aoaown", ()), ("d_aos.cpp", "aosown", ()), ("d_crs.cpp", "crsown", ("-DWITH_CRS",)))
                             for i, e in enumerate(("long", "Tracked"))] + [Target("d_crs.cpp", "spown", 300, 3000, bounds=False, defs=["-DWITH_SP"])]
CHECKS["C12"]["targets"] += [Target("d_sorted.cpp", "set/", 300, 3000, bounds=False, defs=elem("Tracked"))]

MATHLIB = "The long double functions of the C library are trusted as references."
check("C13", "A case gives two to eight threads programs over views of one kind of container: own elements, rows, sets or matrix rows are read and changed, shared ones read, shared rows appended to and added to atomically, under random delays, by thread teams or parallel loops capturing the views; or constructs from capacities under a parallel policy. ThreadSanitizer watches every access in one build; the results must be what the programs give one after another. Distinct by the hash of the case's seed and size; the schedules are not controlled ( alternations observed are counted in the events ).",
      [Target("d_threads.cpp", "threads/", q, th, profile=pr, bounds=b, defs=["-DPART=%d" % p], threads=8) for p in (1, 2)
       for q, th, pr, b in ((1500, 20000, "tsan", True), (4000, 60000, "plainO2", False), (500, 5000, "asan", True), (0, 20000, "plaingcc", False))],
      ["The stand-in for RAJA's loops and atomics is trusted to be correct; it implements them with std::thread and compiler atomics."])
check("C14", "A case builds one container in a drawn state and calls accessors and modifiers of it, its views and its slices with arguments drawn just inside, just outside and far outside their ranges: an error must be reported exactly for the invalid ones and then no size or element value may have changed. Non-trivial: at least one call; distinct by the hash of the calls and arguments.",
      [Target("d_bounds.cpp", "bounds/", q, 15000, profile=pr, bounds=b, defs=["-DPART=%d" % p]) for p in (1, 2, 3)
       for q, pr, b in ((1500, "asan", True), (1500, "asanO2", True), (0, "gcc", True), (500, "gcc", False))] + [Target("d_sizes.cpp", "bounds/tensor", q, 12000, profile=pr, bounds=b) for q, pr, b in ((1000, "plainO2", True), (300, "asan", True), (0, "gcc", True), (200, "plainO2", False))])
check("C15", "A case converts several drawn values ( limits, powers of two and their neighbours, small and random values ) of one type to thirteen types, or walks through the values of an eight or sixteen bit type, and compares value or error report with 128 bit arithmetic; one case compares the numeric limits with computed ones. Distinct by the hash of the drawn values.",
      [Target("d_scalar.cpp", "conv/", 1500, 12000, profile="plainO2"), Target("d_scalar.cpp", "conv/", 250, 2000, profile="asan", bounds=False), Target("d_scalar.cpp", "conv/", 0, 3000, profile="gcc"), Target("d_scalar.cpp", "conv/", 0, 3000, profile="asanO2")])
check("C26", "A case evaluates every function for twenty five drawn argument pairs ( special values, small, large, denormal and random ones ) and compares with long double references in units in the last place. Distinct by the hash of the arguments.",
      [Target("d_scalar.cpp", "math/", 3000, 60000, profile="plainO2", bounds=False), Target("d_scalar.cpp", "math/", 1500, 20000, profile="asan", bounds=False), Target("d_scalar.cpp", "math/", 1500, 30000, profile="gcc", bounds=False)], [MATHLIB])
check("C24", "A case is a random program of enable and disable calls and properly nested guards ( some left by exceptions ), compared after every step with a model of the trapped set, with operations that raise known exceptions in between to see whether SIGFPE is delivered. Non-trivial: more than six operations; distinct by the hash of the program.",
      [Target("d_system.cpp", "fpe/", 6000, 60000, profile="plain", defs=["-DTRACE_NAMES"]), Target("d_system.cpp", "fpe/", 6000, 60000, profile="plainO2", bounds=False), Target("d_system.cpp", "fpe/", 3000, 30000, profile="asan"), Target("d_system.cpp", "fpe/", 3000, 30000, profile="plaingcc", bounds=False)])
check("C25", "A case uses one reporting macro ( all comparisons, with and without message, error, throw, assert, warning and info forms ) on drawn operands and checks handler, exception, text, evaluation counts and flow, or drives handlers, signals, stack traces, demangling or sizes against references. Distinct by the hash of the drawn case.",
      [Target("d_system.cpp", "report/", 6000, 60000, profile="plain", defs=["-DTRACE_NAMES"]), Target("d_system.cpp", "report/", 3000, 30000, profile="plainO2", bounds=False), Target("d_system.cpp", "report/", 3000, 30000, profile="asan"),
       Target("d_system.cpp", "report/", 3000, 30000, profile="gcc"), Target("d_system.cpp", "report/", 3000, 30000, profile="asanO2"),
       Target("d_system.cpp", "stackTrace", 40, 400, profile="plain", defs=["-DTRACE_NAMES", "-DLVARRAY_ADDR2LINE_EXEC=/usr/bin/addr2line", "-fno-pie", "-no-pie"])],
      ["addr2line of binutils is trusted for source locations."])

TO = [(e, p) for e in ("double", "long", "float") for p in (1, 2, 3, 4)]
check("C20", "A case draws entries and applies every operation of one size to one combination of operand kinds ( C arrays, views, contiguous and strided slices ), compares each destination entry with the defining sum in long double arithmetic, and sources and surroundings of the destination with their old values. Distinct by the hash of the drawn values; every case is non-trivial.",
      [Target("d_tensor.cpp", "op/", 1500, 15000, bounds=i % 2 == 0, defs=elem(e, "-DPART=%d" % p)) for i, (e, p) in enumerate(TO) if e != "float"]
      + [Target("d_tensor.cpp", "op/", 3000 if e == "float" else 0, 30000, profile="plainO2", bounds=False, defs=elem(e, "-DPART=%d" % p)) for e, p in TO]
      + [Target("d_tensor.cpp", "op/", 0, 15000, profile=q, bounds=i % 2 == 1, defs=elem(e, "-DPART=%d" % p)) for q in ("gcc", "asanO2") for i, (e, p) in enumerate(TO) if e != "long"])


def tensor(filter, q):
    return [Target("d_tensor.cpp", filter, q, 10 * q), Target("d_tensor.cpp", filter, 4 * q, 200 * q, profile="plainO2", bounds=False), Target("d_tensor.cpp", filter, q, 10 * q, profile="gcc", bounds=False),
            Target("d_tensor.cpp", filter, 0, 10 * q, profile="asanO2", bounds=True)]


check("C21", "A case draws one 2x2 or 3x3 matrix ( general or symmetric, several styles and scales, integer entries included ), inverts it into a destination and in place and compares determinant and inverse with the adjugate formula in long double arithmetic, to rounding times the condition number. Every case is non-trivial; distinct by the hash of the drawn case.",
      tensor("inverse/", 20000))
check("C22", "A case draws one symmetric 2x2 or 3x3 matrix ( random, diagonal, zero, multiples of the identity, graded, or a chosen spectrum with gaps down to rounding, scaled over the exponent range ), and compares eigenvalues with a Jacobi iteration in long double arithmetic, and checks order, unit length, orthogonality and residual of the eigenvectors. Every case is non-trivial; distinct by the hash of the drawn case.",
      tensor("eigen/", 20000))
check("C16", "A case draws well-formed text of one rank and element type ( extents, tokens, spacing ), mutates two thirds of them ( characters, spans, delimiters moved, inserted and removed ), and compares acceptance, extents and values with an independent parser of the documented grammar; or prints an array and parses the text. Non-trivial: more than three characters; distinct by the hash of the text.",
      [Target("d_text.cpp", "input/", 20000, 200000, bounds=True, defs=["-DPART=1"]), Target("d_text.cpp", "input/", 120000, 2000000, profile="plainO2", bounds=False, defs=["-DPART=1"]),
       Target("d_text.cpp", "input/", 15000, 200000, profile="gcc", bounds=True, defs=["-DPART=1"]), Target("d_text.cpp", "input/", 0, 200000, profile="asanO2", bounds=False, defs=["-DPART=1"])],
      ["Text with white space other than blanks may be accepted or rejected ( the documentation asks not to use it ).", "A single token is judged with the C++ library's extraction operator."])
check("C17", "A case fills one container ( arrays of every rank and permutation with slices of every depth, sorted arrays, ragged arrays, matrices, C arrays ), prints it and its views and compares the text with one composed from a reference. Non-trivial: more than one element; distinct by the hash of the text.",
      [Target("d_text.cpp", "print/", 8000, 80000, bounds=True, defs=["-DPART=2"]), Target("d_text.cpp", "print/", 20000, 400000, profile="plainO2", bounds=False, defs=["-DPART=2"]),
       Target("d_text.cpp", "print/", 8000, 80000, profile="gcc", bounds=False, defs=["-DPART=2"]), Target("d_text.cpp", "print/", 0, 80000, profile="asanO2", bounds=True, defs=["-DPART=2"])])


def bulk(part, filter, q):
    d = ["-DPART=%d" % part]
    return [Target("d_bulk.cpp", filter, q, 10 * q, bounds=True, defs=d), Target("d_bulk.cpp", filter, 4 * q, 100 * q, profile="plainO2", bounds=False, defs=d), Target("d_bulk.cpp", filter, q, 10 * q, profile="gcc", bounds=False, defs=d),
            Target("d_bulk.cpp", filter, 0, 10 * q, profile="asanO2", bounds=True, defs=d)]


check("C18", "A case fills an array of one rank and permutation with drawn extents ( zero and one included ), visits it and slices of every depth with and without indices and compares the addresses and indices passed with the reference order; or sums over the first dimension into arrays of other permutations. Non-trivial: more than one element; distinct by the hash of the drawn case.",
      bulk(1, "traverse/", 8000))
check("C19", "A case copies between two drawn arrays or slices ( 15 combinations of ranks, leading indices, permutations and index types; three interfaces ), or sets, zeroes or reinterprets one, and compares every storage position with a reference; errors must be reported exactly where extents or bytes do not fit, and then nothing may have changed. Non-trivial: more than one element; distinct by the hash of the drawn case.",
      bulk(2, "bulk/", 8000) + bulk(3, "bulk/", 8000))


# CHAI is only supported together with Umpire.
CHAI = ("-DWITH_CHAI", "-DLVARRAY_USE_CHAI", "-DLVARRAY_USE_UMPIRE")


def buffers():
    es = ("long", "Pod", "std::string", "Tracked", "TrackedCopy")
    st = lambda e: ["-DWITH_STACK"] if e in ("long", "Pod") else []
    r = [Target("d_buffers.cpp", "buffer/", 3000 if st(e) else 1500, 15000, bounds=i % 2 == 0, defs=elem(e, *st(e))) for i, e in enumerate(es)]
    r += [Target("d_buffers.cpp", "buffer/", 4000 if p == "plainO2" or e == "long" else 0, 20000, profile=p, bounds=b, defs=elem(e, *st(e))) for p, b in (("plainO2", False), ("gcc", True), ("asanO2", False)) for e in es]
    # Containers over managed buffers ( on the host only ).
    over = (("d_vector.cpp", "vec/", 400, ()), ("d_sorted.cpp", "set/", 250, ()), ("d_aoa.cpp", "aoa", 300, ()), ("d_aos.cpp", "aos", 250, ()), ("d_crs.cpp", "crs", 250, ("-DWITH_CRS",)), ("d_array.cpp", "value/", 300, ("-DPART=1",)), ("d_array.cpp", "size", 300, ("-DPART=2",)))
    for i, (src, filter, q, defs) in enumerate(over):
        for j, e in enumerate(("Tracked", "std::string", "long")):
            r.append(Target(src, filter, q if (i + j) % 3 == 0 else 0, 10 * q, bounds=(i + j) % 2 == 0, defs=elem(e, *CHAI, *defs)))
    r.append(Target("d_crs.cpp", "sp", 300, 3000, bounds=True, defs=[*CHAI, "-DWITH_SP"]))
    return r


check("C28", "A case is a random history of reallocation, reservation, resizing, insertion, removal, copy, move, conversion and release on two buffers ( malloc, stack and managed ones ) compared with vectors after every step, with guard bytes, allocated sizes and live records watched; or calls that must report an error; or a container history over managed buffers. Non-trivial: more than ten operations; distinct by the hash of the history.",
      buffers())


def spaces():
    sim = ["-DLVARRAY_USE_CHAI", "-DLVARRAY_USE_UMPIRE"]
    r = []
    for part, q in ((1, 16000), (2, 12000)):
        for p, b in (("asan", True), ("asan", False), ("plainO2", False), ("gcc", False), ("asanO2", True)):
            n = q if p == "plainO2" or (p == "asan" and not b) else q // 2 if p == "asan" else 0
            r.append(Target("d_spaces.cpp", "spaces/", n, 10 * q, profile=p, bounds=b, defs=["-DPART=%d" % part] + sim))
    return r


check("C23", "A case is a random history of kernels on the host and on the device (const, assigning, structure-changing), moves with and without touch, host modifications behind a move to the host, zeroing, copying and ownership changes on one or two containers; every value read in either space is compared with a host model, memory of the other space is poisoned while a kernel runs, and the copies between spaces are counted. Non-trivial: more than ten operations; distinct by the hash of the history.",
      spaces(), ["The device is simulated: its memory is host memory that only kernels may touch, and its kernels run sequentially on the host."])

NAMES = ["-DPART=3", "-DLVARRAY_USE_CHAI", "-DLVARRAY_USE_UMPIRE"]
check("C33", "A case is a random history of naming, modifications, copies, moves of ownership, moves between memory spaces with and without touch and captures in kernels, of two containers of one kind or of a buffer; after each step the lines printed are compared with the copies the resource manager made: their number, order, sizes, directions, types, names and members. Non-trivial: more than two copies; distinct by hash.",
      [Target("d_spaces.cpp", "names/", q, 15 * q, profile=p, bounds=b, defs=NAMES) for p, b, q in (("plainO2", False, 30000), ("asan", True, 6000))] + [Target("d_spaces.cpp", "names/", 0, 60000, profile="gcc", bounds=False, defs=NAMES)],
      ["The device and CHAI are simulated by the stand-in headers, which call the callback of a record for each copy as CHAI does."])

check("C34", "A case builds one container and tries, on it and on every kind of view and slice of it, every expression that reads or might write a value, key, size or offset: what its type admits is carried out and the state of the container compared afterwards; modifiers and conversions that are not to be had are looked for. Non-trivial: every expression was tried; distinct by the hash of the drawn case.",
      [Target("d_access.cpp", "access/", 300, 3000, profile=p, bounds=b, defs=elem(e, *more)) for e, p, b, more in (("long", "asan", True, ()), ("std::string", "asan", False, ()), ("double", "plainO2", True, ()), ("long", "gcc", False, ()), ("long", "plainO2", False, CHAI))],
      ["An expression that its type admits but whose instantiation fails stops the check from compiling: no verdict."])

SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PYTHON = ["-DPYSITE=\"%s\"" % SITE, "-I%s/numpy/_core/include" % SITE, "-I/usr/include/python3.12"]


def python(q):
    return [Target("d_python.cpp", "py/", n, 15 * q, profile=p, bounds=b, defs=PYTHON, std="gnu++14", libs=("-lpython3.12",), more=("src/python/*.cpp",))
            for n, p, b in ((q, "asan", True), (q // 2, "asan", False), (2 * q, "plainO2", False), (0, "gcc", True), (0, "asanO2", False))]


check("C29", "A case is a random history of calls of the bindings of one container ( arguments of every acceptable and unacceptable kind, access levels, indices in and out of range ) interleaved with changes made in C++, compared with a reference after every step, or of detached objects, functions, scalars, strings and references. Non-trivial: a history ran to its end; distinct by the hash of the history; events: calls, refusals, exceptions, view elements.",
      python(2500), ["CPython, NumPy and SciPy are trusted."])

check("C31", "A case is a random history of operations on one container of up to several thousand elements, or one use of a sorting or searching function; constructions, assignments and comparisons of elements, bytes requested from the heap and changes of capacity are counted during each operation and compared with a bound of the documented order. Non-trivial: more than twenty elements, or a history that ran to its end; distinct by the hash of the history.",
      [Target("d_cost.cpp", "cost/", q, t, profile=p, bounds=False, defs=["-DNDEBUG", *d]) for p, q, t, d in (("plainO2", 24000, 400000, ()), ("plainO2", 6000, 100000, CHAI), ("asan", 2000, 20000, ()), ("gcc", 0, 20000, ()))],
      ["Bounds have generous constants ( 4 to 12 ); a slowdown by a constant factor below them is not noticed."])

TV = dict(defs=["-DLVARRAY_USE_TOTALVIEW_OUTPUT"], more=("src/totalview/tv_data_display.c",))
GDB = ["-DREPO_DIR=\"%s\"" % os.environ.get("VERIF_REPO", "/repo"), "-O0", "-g"]
check("C32", "A case either fills the row buffer of TotalView with random rows ( addresses of every width, tabs and new lines, rows that do not fit ) or reads the rows of one random array, view and slice back; or runs the driver under gdb, which stops with about 150 random containers, loads the printers the documented way and shows what they make of each, compared with what the process itself reads. Non-trivial: more than one element, or gdb showed every object; distinct by hash.",
      [Target("d_debug.cpp", "debug/", 3000, 40000, bounds=True, **TV), Target("d_debug.cpp", "debug/", 1000, 10000, profile="plainO2", bounds=False, **TV), Target("d_debug.cpp", "debug/", 0, 10000, profile="gcc", bounds=True, **TV),
       Target("d_debug.cpp", "debug/", 24, 300, profile="plaingcc", bounds=False, defs=GDB, hang=300), Target("d_debug.cpp", "debug/", 12, 200, profile="plaingcc", bounds=True, defs=GDB + list(CHAI), hang=300), Target("d_debug.cpp", "debug/", 0, 200, profile="plain", bounds=False, defs=GDB + ["-fstandalone-debug"], hang=300)],
      ["gdb is trusted to read memory correctly; without a usable gdb the cases that need it observe nothing, which the evidence shows as an event."])

CHECKS["C28"]["targets"] += [Target("d_spaces.cpp", "allocators/", q, 30000, profile=p, bounds=b, defs=NAMES) for p, b, q in (("plainO2", False, 3000), ("asan", True, 1000))]

# Extents, sizes and offsets behind 2^31, without assertions ( some of which would visit every element ).
for _id, _filter, _q in (("C01", "layout", 28), ("C03", "vector", 8), ("C07", "sorted", 60), ("C08", "ragged", 6), ("C09", "sets", 3), ("C11", "matrix", 3), ("C19", "bulk", 5), ("C28", "buffer", 5)):
    CHECKS[_id]["targets"].append(Target("d_huge.cpp", "huge/" + _filter, _q, 6 * _q, profile="plainO2", bounds=False, defs=["-DNDEBUG"], hang=20 if _id in ("C01", "C07") else 90, solo=True))

# The histories of containers are cheap: twice as many of them on every change.
for _id in CHECKS:
    for _t in CHECKS[_id]["targets"]:
        if _t.src in ("d_array.cpp", "d_vector.cpp", "d_sorted.cpp", "d_aoa.cpp", "d_aos.cpp", "d_crs.cpp", "d_buffers.cpp"):
            _t.quick *= 2

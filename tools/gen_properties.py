#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Multidimensional index mapping is the documented bijection for every layout",
 "For every rank, permutation, extent (zero and one included) and index type, an array, view or slice maps each index tuple to its own element of one dense storage block in which the permutation's last dimension has unit stride and the strides, sizes and linear indices it reports are exactly those. "
 "Parentheses, chained brackets, slices of every depth, views, const views and raw data all reach the same element, const-ness never changes which. "
 "A slice claims contiguity only when its elements really are one dense run, and always does for a whole array.",
 ["inputs","programs","configurations"], "all ranks 1-5, permutations, extents, index types, access paths and slice depths, with and without bounds checking",
 "The unit tests use a handful of fixed extents per permutation, all of them larger than one, and only compare the paths they enumerate.",
 ["src/Array.hpp","src/ArrayView.hpp","src/ArraySlice.hpp","src/indexing.hpp","src/typeManipulation.hpp"],
 [("stride computation","src/indexing.hpp calculateStrides"),("linear index","src/indexing.hpp getLinearIndex"),("slicing","src/ArraySlice.hpp operator[]"),("contiguity","src/ArraySlice.hpp isContiguous")],
 ["operator()","operator[]","linearIndex","strides()","dims()","data()"])
prop("C02", "Resizing an array yields the requested shape and preserves what it promises",
 "After any sequence of resizes an array has exactly the requested extents, consistent strides, size and a capacity of at least its size, and elements that are new are default (or the supplied default) valued. "
 "Resizing along the single resizable dimension, in any permutation, keeps every element whose indices remain valid at those indices; growing or shrinking a one-dimensional array does the same. "
 "Reserving never changes the contents, and no resize within the reserved capacity moves the data.",
 ["histories","inputs","configurations"], "all histories of resize, resizeDimension, resizeDefault, reserve, clear and re-shaping over ranks, permutations, resize dimensions and element types",
 "Tests resize fixed shapes one step at a time; the value-moving code depends on the combination of permutation, resize dimension, old and new extents and capacity.",
 ["src/Array.hpp","src/bufferManipulation.hpp","src/indexing.hpp"],
 [("default-dimension resize","src/Array.hpp resizeDefaultDimension"),("general resize","src/bufferManipulation.hpp resize, dynamicReserve"),("element shifting","src/arrayManipulation.hpp")],
 ["Array::resize*","Array::reserve","Array::capacity"])
prop("C03", "A one-dimensional array behaves like a sequence container",
 "Under any history of appending, emplacing, inserting single values or ranges, erasing, popping, clearing, resizing and reserving, a one-dimensional array holds exactly the elements, in exactly the order, that a standard vector given the same operations would. "
 "Its storage is not reallocated while the size stays within the reserved capacity, so pointers to preceding elements stay valid.",
 ["histories","inputs"], "all operation histories, positions (front, middle, back), range lengths including zero, and element types (trivial, move-only-efficient, copy-only)",
 "Each unit test applies one operation repeatedly; interleavings and insertion at the capacity boundary are not enumerated.",
 ["src/Array.hpp","src/bufferManipulation.hpp","src/arrayManipulation.hpp"],
 [("shifting","src/arrayManipulation.hpp shiftUp, shiftDown, emplace, insert, erase"),("growth","src/bufferManipulation.hpp dynamicReserve")],
 ["Array<T,1>::emplace_back/emplace/insert/erase/pop_back"])
prop("C04", "Element lifetimes are exact in every container",
 "Whatever happens to a container - growth, shrinking, shifting, compressing, copying, moving, clearing, destruction - every element is constructed exactly once before it is used, is destroyed exactly once, is never used after that, is relocated only through its own move or copy operations and keeps its value. "
 "When the last container is gone no element is left alive. Construction arguments reach every constructed element intact.",
 ["histories","inputs","programs"], "all operation histories of all containers over element types with observable constructors, assignments, destructors and self pointers (movable and copy-only)",
 "The tests use element types whose double construction, leak or bitwise relocation goes unnoticed, and do not run under an allocation or lifetime monitor.",
 ["src/bufferManipulation.hpp","src/arrayManipulation.hpp","src/Array.hpp","src/SortedArray.hpp","src/ArrayOfArrays.hpp","src/ArrayOfArraysView.hpp","src/ArrayOfSets.hpp","src/CRSMatrix.hpp","src/MallocBuffer.hpp"],
 [("buffer lifetime","src/bufferManipulation.hpp free, setCapacity, copyInto"),("primitive moves","src/arrayManipulation.hpp uninitializedMove, shiftUp, shiftDown"),("compress","src/ArrayOfArraysView.hpp compress")],
 ["element constructors and destructors"])
prop("C05", "No legal use of a container touches memory that is not its own or leaks",
 "No sequence of documented, in-range operations on any container or view reads or writes outside its allocations or the region owned by the addressed row, uses freed memory, frees twice, leaks, or executes undefined behaviour. "
 "Elements not addressed by an operation keep their values.",
 ["histories","inputs","configurations"], "all operation histories of Array, SortedArray, ArrayOfArrays, ArrayOfSets, SparsityPattern, CRSMatrix, their views and the stack and malloc buffers, in bounds-checked and unchecked builds",
 "The stable tests contain no container at all, and the container unit tests are not run under sanitizers or over random histories.",
 ["src/Array.hpp","src/SortedArray.hpp","src/ArrayOfArrays.hpp","src/ArrayOfArraysView.hpp","src/ArrayOfSets.hpp","src/ArrayOfSetsView.hpp","src/SparsityPattern.hpp","src/CRSMatrix.hpp","src/CRSMatrixView.hpp","src/bufferManipulation.hpp","src/arrayManipulation.hpp"],
 [("capacity checks","src/bufferManipulation.hpp reserve, dynamicReserve"),("offsets","src/ArrayOfArraysView.hpp")],
 ["every load and store (AddressSanitizer, UndefinedBehaviorSanitizer)"])
prop("C06", "A sorted array behaves like a set",
 "Under any history of single and batch insertions and removals, reserving, clearing, copying and moving, a sorted array holds exactly the distinct values a set would, in strictly increasing order, and the number of insertions and removals it reports is the number that changed it. "
 "Membership, indexing, iteration, the view and the slice all agree with its contents.",
 ["histories","inputs"], "all histories, batch sizes (empty, overlapping, disjoint, before, after, interleaved), capacities and element types",
 "Tests draw a few random batches at fixed sizes; the in-place merge depends on the capacity and on the interleaving of the batch with the contents.",
 ["src/SortedArray.hpp","src/SortedArrayView.hpp","src/sortedArrayManipulation.hpp","src/sortedArrayManipulationHelpers.hpp"],
 [("batch insert","src/sortedArrayManipulation.hpp insert"),("batch remove","src/sortedArrayManipulation.hpp remove"),("search","src/sortedArrayManipulation.hpp find, contains")],
 ["SortedArray::insert/remove/contains","SortedArrayView"])
prop("C07", "Sorting, unique-ing and searching of raw ranges is correct for every input",
 "Sorting any range with any strict weak order leaves a sorted permutation of it, and sorting two ranges together applies the same permutation to both. "
 "Making sorted-unique leaves exactly the distinct values in increasing order at the front and returns their number, removing duplicates from sorted input likewise; sortedness and uniqueness queries, lower-bound search and membership are exact. "
 "Batch insertion and removal on a raw sorted range yield exactly the set union and difference and report the exact count.",
 ["inputs"], "all lengths (through the insertion-sort, quicksort and heapsort regimes), duplicates, adversarial and random orders, comparators and element types",
 "Tests sort random vectors of a few lengths; the partition and heap fallbacks only act on particular sizes and orders.",
 ["src/sortedArrayManipulation.hpp","src/sortedArrayManipulationHelpers.hpp"],
 [("introsort","src/sortedArrayManipulationHelpers.hpp"),("dual sort","src/sortedArrayManipulation.hpp dualSort, DualIterator"),("makeSortedUnique","src/sortedArrayManipulation.hpp")],
 ["makeSorted, makeSortedUnique, removeDuplicates, isSorted, isSortedUnique, find, contains, insert, remove, dualSort"])
prop("C08", "A ragged array of arrays behaves like a vector of vectors",
 "Under any history of appending, inserting, erasing, resizing and clearing inner arrays and of emplacing, appending, inserting and erasing values in them, from the container or a view, the number of arrays, each size and every value equal those of a vector of vectors. "
 "Capacities are never below sizes nor overlap, a view never changes them, reserving changes no value, compressing leaves capacities equal to sizes and the values contiguous, building from capacities gives empty arrays with exactly those capacities. "
 "Views, slices and iteration agree with the container.",
 ["histories","inputs"], "all histories, positions, batch sizes (zero included), capacities and element types, through containers and views",
 "The tests apply each operation to separately prepared containers; combinations of gaps, shared capacity, empty arrays and compressing are sampled thinly.",
 ["src/ArrayOfArrays.hpp","src/ArrayOfArraysView.hpp","src/arrayManipulation.hpp"],
 [("offset maintenance","src/ArrayOfArraysView.hpp setCapacityOfArray, resizeImpl"),("compress","src/ArrayOfArraysView.hpp compress"),("resizeFromCapacities","src/ArrayOfArraysView.hpp")],
 ["ArrayOfArrays and ArrayOfArraysView members"])
prop("C09", "An array of sets behaves like a vector of sets",
 "Under any history of appending, inserting, erasing and clearing sets and of inserting and removing single values or sorted batches, from the container or a view, every set holds exactly the distinct values in increasing order that a set would, and the reported change counts are exact. "
 "Assimilating an array of arrays (sorted unique, unsorted or with duplicates, as declared) yields exactly its per-array sets and leaves the source empty. "
 "Capacities, compressing and reserving behave as for an array of arrays.",
 ["histories","inputs"], "all histories, batch shapes, capacities, declared orders for assimilation, and element types",
 "Tests insert random values into evenly prepared sets; histories that mix views, capacities and assimilation are not explored.",
 ["src/ArrayOfSets.hpp","src/ArrayOfSetsView.hpp","src/sortedArrayManipulation.hpp"],
 [("insertion callbacks","src/ArrayOfSets.hpp, src/ArrayOfSetsView.hpp CallBacks"),("assimilate","src/ArrayOfSets.hpp assimilate")],
 ["ArrayOfSets and ArrayOfSetsView members"])
prop("C10", "A sparsity pattern records exactly the inserted entries",
 "Under any history of inserting and removing single or batched non-zeros, resizing, reserving and compressing, each row of a sparsity pattern holds exactly the columns a set would, strictly increasing and below the column count, and the totals, emptiness queries and change counts agree. "
 "Building from row capacities leaves empty rows with exactly those capacities.",
 ["histories","inputs"], "all histories, matrix shapes including zero rows or columns, row capacities and column types",
 "Tests insert random batches into square patterns; capacity boundaries and mixed histories are sampled.",
 ["src/SparsityPattern.hpp","src/SparsityPatternView.hpp"],
 [("row insertion","src/SparsityPatternView.hpp insertNonZero(s)"),("resizeFromRowCapacities","src/SparsityPattern.hpp")],
 ["SparsityPattern and SparsityPatternView members"])
prop("C11", "A CRS matrix keeps values attached to their columns",
 "Under any history of inserting, removing and adding non-zeros, singly, in batches or by dense or sparse row addition (linear or binary search alike), setting values, zeroing, resizing, reserving and compressing, each row is exactly the column-to-value map a reference gives, columns strictly increasing and every value beside its own column. "
 "Assimilating a sparsity pattern gives that pattern with default values, and views, row slices and change counts agree.",
 ["histories","inputs"], "all histories, batch shapes, row capacities, column and value types, and both row addition algorithms",
 "Tests compare to a reference for a few fixed random histories; the parallel shifting of two arrays and the row-addition searches have size-dependent branches.",
 ["src/CRSMatrix.hpp","src/CRSMatrixView.hpp"],
 [("entry callbacks","src/CRSMatrix.hpp, src/CRSMatrixView.hpp CallBacks"),("addToRow","src/CRSMatrixView.hpp addToRow*"),("assimilate","src/CRSMatrix.hpp assimilate")],
 ["CRSMatrix and CRSMatrixView members"])
prop("C12", "Containers have value semantics, views alias",
 "Copying any container (by construction or assignment, whatever the target held before) gives an equal, independent one: later changes to either never show in the other. "
 "Moving transfers the contents, leaves the source empty and reusable, and releases what the target held. "
 "A view, its copies and its slices always read and write the very elements of the container they came from and never own them (containers on stack buffers, whose views are copies by design, excepted).",
 ["histories","programs"], "all histories of construction, copy, move, assignment and self-assignment among containers of all kinds, including moved-from and empty ones and stack-buffer ones",
 "Tests copy each container once, from one prepared state; assignment over non-empty targets and reuse of moved-from objects are not explored, leaks are not observed.",
 ["src/Array.hpp","src/ArrayView.hpp","src/SortedArray.hpp","src/ArrayOfArrays.hpp","src/ArrayOfSets.hpp","src/SparsityPattern.hpp","src/CRSMatrix.hpp","src/ArrayOfArraysView.hpp","src/bufferManipulation.hpp","src/StackBuffer.hpp"],
 [("copy","src/bufferManipulation.hpp copyInto; setEqualTo"),("move","operator=( && )"),("views","toView, toViewConst")],
 ["copy and move constructors and assignments","toView*"])
prop("C13", "Concurrent use of views loses nothing and races nowhere",
 "Any number of threads reading, or writing different elements, rows, sets or matrix rows through views, makes exactly the changes the same operations would make one after another, without data race. "
 "Concurrent atomic appends to one inner array lose and duplicate no value and never overrun it while capacity suffices, and concurrent atomic row additions to one matrix row, dense or sparse, add up exactly. "
 "Building a ragged structure from capacities in parallel gives the same structure as doing so serially.",
 ["schedules","histories"], "all interleavings of up to eight threads over views of all containers, on shared and disjoint rows, under injected delays",
 "The tests launch a few parallel loops and compare the end state of one schedule; races are not observed.",
 ["src/ArrayOfArraysView.hpp","src/CRSMatrixView.hpp","src/ArrayOfSetsView.hpp","src/SparsityPatternView.hpp","src/ArrayView.hpp"],
 [("atomic append","src/ArrayOfArraysView.hpp emplaceBackAtomic"),("atomic row addition","src/CRSMatrixView.hpp addToRow*< AtomicPolicy >"),("parallel construction","src/ArrayOfArraysView.hpp resizeFromCapacities")],
 ["every memory access (ThreadSanitizer)","final contents"])
prop("C14", "Bounds-checked builds report exactly the invalid uses",
 "With bounds checking and assertions enabled, every out-of-range index, dimension, row, column, position, emptiness violation, negative size or capacity overrun passed to a container, view or slice, and every operand of a tensor operation whose sizes are not the expected ones, is reported through the error handler before the value of any element is changed; the index checks do not need assertions. "
 "No in-range use is ever reported, in any configuration.",
 ["inputs","configurations"], "all accessors and modifiers of all containers and views, with every argument just inside, just outside and far outside its range in either direction",
 "Death tests probe one or two bad indices for a few accessors; most members and the negative side are not covered, nor is the absence of false errors.",
 ["src/indexing.hpp","src/ArraySlice.hpp","src/ArrayView.hpp","src/arrayManipulation.hpp","src/ArrayOfArraysView.hpp","src/SparsityPatternView.hpp","src/CRSMatrixView.hpp","src/SortedArrayView.hpp","src/Macros.hpp"],
 [("index checks","src/indexing.hpp checkIndices"),("row checks","src/ArrayOfArraysView.hpp ARRAYOFARRAYS_CHECK_BOUNDS*"),("range checks","src/arrayManipulation.hpp checkIndex*")],
 ["the LvArray error handler"])
prop("C15", "Checked integer conversion is exact or reports an error",
 "Converting any integer between any two integer types gives the same mathematical value whenever the destination can represent it and reports an error whenever it cannot; it never wraps, truncates or changes sign silently. "
 "The accompanying numeric limits equal the true limits of every type.",
 ["inputs"], "every ordered pair of fundamental integer types and every value",
 "The tests try a few values around the limits for some pairs.",
 ["src/limits.hpp"], [("integerConversion","src/limits.hpp")], ["integerConversion","NumericLimits"])
prop("C16", "Array text input accepts exactly well-formed text and nothing else",
 "Parsing any well-formed nested-brace text produces an array whose extents and values are exactly those written, whatever the blanks, and text printed from an array with no zero extent parses back to an equal array. "
 "Any other text - wrong nesting, ragged rows, missing delimiters, bad values, trailing characters - is rejected through the error handler, without crash, hang or out-of-bounds access.",
 ["inputs"], "all strings, valid and malformed, for all ranks, permutations and element types",
 "The tests feed a short list of hand-written strings.",
 ["src/input.hpp"], [("stringToArray","src/input.hpp")], ["input::stringToArray"])
prop("C17", "Printing shows the logical contents in order",
 "Printing an array, view or slice of any permutation, or any other container, writes its values in logical index order with the documented bracketing, independent of the memory layout and of excess capacity, and does not change it. "
 "Equal contents print equally.",
 ["inputs","configurations"], "all shapes, permutations, slices and container contents, empty ones included",
 "Tests print a few fixed contents.",
 ["src/output.hpp"], [("stream operators","src/output.hpp operator<<")], ["operator<<"])
prop("C18", "Slice traversals and reductions visit every element exactly once, in order",
 "Visiting the values of a slice calls back exactly once per element in logical index order whatever the permutation and strides, visiting with indices passes that element's indices, and the sum over the first dimension equals that of the logical contents. "
 "Slicing commutes with traversal.",
 ["inputs","configurations"], "all ranks, permutations, sub-slices (contiguous and strided), extents including zero",
 "Tests traverse one array per permutation with fixed extents.",
 ["src/sliceHelpers.hpp","src/ArraySlice.hpp"], [("forValuesInSlice","src/sliceHelpers.hpp"),("sumOverFirstDimension","src/sliceHelpers.hpp")], ["callbacks"])
prop("C19", "Bulk copies and type reinterpretation preserve the logical contents",
 "A bulk copy between slices of equal extents, whole arrays or sub-arrays, contiguous or not and of any pair of permutations, makes the destination logically equal to the source and changes nothing else, or reports an error when it is not supported; zeroing and setting values reach exactly the elements of the array. "
 "A view reinterpreted with a smaller or larger element type aliases the same bytes with exactly the proportional extents, and impossible reinterpretations are reported.",
 ["inputs","configurations"], "all ranks, slice positions, permutation pairs, element types and size ratios",
 "Tests copy a few fixed shapes between identical layouts.",
 ["src/memcpy.hpp","src/ArrayView.hpp","src/typeManipulation.hpp"], [("memcpy","src/memcpy.hpp"),("reinterpretation","src/ArrayView.hpp ArrayView( ArrayView< U > )")], ["memcpy","setValues","zero","ArrayView constructors"])
prop("C20", "Fixed-size tensor operations equal their index formula",
 "Every fixed-size vector, matrix and symmetric-matrix operation computes exactly its documented index formula for every supported size, over every combination of argument layout (C arrays, arrays, slices of any stride), writes only its destination and leaves its other arguments untouched. "
 "Symmetric storage follows the documented packed order, and packed operations agree with the dense ones.",
 ["inputs","configurations"], "all operations, all sizes the implementation distinguishes, all argument layouts and values",
 "Tests use a few sizes and permutations with one random filling each.",
 ["src/tensorOps.hpp","src/genericTensorOps.hpp","src/fixedSizeSquareMatrixOps.hpp","src/fixedSizeSquareMatrixOpsImpl.hpp"],
 [("generic operations","src/genericTensorOps.hpp"),("2x2 and 3x3 symmetric","src/fixedSizeSquareMatrixOpsImpl.hpp")], ["tensorOps functions"])
prop("C21", "Determinants and inverses are mathematically right",
 "For every well-conditioned 2x2 or 3x3 matrix, dense or packed symmetric, the determinant equals the exact one and the inverse times the matrix is the identity to rounding; the in-place and two-argument forms agree and the determinant returned is that of the original matrix.",
 ["inputs","configurations"], "all matrices of moderate condition, float and double, all layouts",
 "Tests invert a few random matrices.",
 ["src/fixedSizeSquareMatrixOpsImpl.hpp","src/fixedSizeSquareMatrixOps.hpp"], [("invert, determinant, symInvert, symDeterminant","src/fixedSizeSquareMatrixOpsImpl.hpp")], ["invert","determinant","symInvert","symDeterminant"])
prop("C22", "Symmetric eigenvalues and eigenvectors satisfy their definition",
 "For every finite symmetric 2x2 or 3x3 matrix - including diagonal, zero, repeated and nearly repeated spectra and any scale - the computed eigenvalues are finite, in ascending order and, relative to the matrix norm, right to rounding when separated and to the documented tolerance when (nearly) repeated. "
 "The computed eigenvectors are unit vectors, orthogonal and paired with the eigenvalues to that accuracy, and the eigenvalues beside them agree with the values-only function.",
 ["inputs"], "all finite symmetric matrices whose entries are far enough from the largest number for their sums not to overflow",
 "Tests use random matrices and a few degenerate ones; near-degenerate spectra are a thin set.",
 ["src/fixedSizeSquareMatrixOpsImpl.hpp"], [("symEigenvalues, symEigenvectors","src/fixedSizeSquareMatrixOpsImpl.hpp")], ["symEigenvalues","symEigenvectors"])
prop("C23", "Data is current in whatever memory space it is used in",
 "After any history of moves between memory spaces, captures in kernels, modifications and reallocations, code running in a space sees the values last written, wherever they were written, for every container, and nested containers follow their outer one. "
 "A move that did not touch the data causes no copy back, const views never mark values as modified, and no access goes to memory of another space.",
 ["histories","configurations"], "all histories of move, touch, resize and kernel launch over two spaces and all containers (with a simulated device space)",
 "The CUDA tests cannot run without a device, and the CPU-only tests make every move a no-op.",
 ["src/ChaiBuffer.hpp","src/ArrayView.hpp","src/Array.hpp","src/ArrayOfArraysView.hpp","src/SortedArrayView.hpp","src/CRSMatrixView.hpp","src/bufferManipulation.hpp"],
 [("touch bookkeeping","src/ChaiBuffer.hpp move, registerTouch"),("nested moves","src/bufferManipulation.hpp moveInner"),("container moves","move( space, touch )")],
 ["element values in each space","copies performed by the resource manager"])
prop("C24", "Floating-point exception guards restore the environment",
 "Inside a guard exactly the requested floating-point exceptions are trapped or masked, and when it ends, in any nesting of scopes and however they are left, the set trapped before it is in force again. "
 "Enable and disable calls report the previous set and change only the requested exceptions.",
 ["histories","configurations"], "all nestings of guards and all subsets of exceptions",
 "Tests nest two guards with one mask.",
 ["src/system.cpp","src/system.hpp"], [("FloatingPointExceptionGuard","src/system.hpp"),("enable/disable","src/system.cpp")], ["fegetexcept","delivered SIGFPE"])
prop("C25", "Error and assertion macros report the right failures, faithfully",
 "A checking macro reports, through the installed handler and with message, location and values, exactly when its condition says so, evaluates its operands exactly once when it reports nothing, and then has no effect; warning and info forms never stop the program. "
 "Throwing forms throw the named type with that text, signal handling is installed and removed as asked, and names, sizes and stack traces printed are right.",
 ["inputs","programs","configurations"], "all macros, comparisons, values (signed, unsigned, floating, NaN), handlers and byte counts",
 "Death tests run some of the macros on one pair of values each.",
 ["src/Macros.hpp","src/system.cpp","src/system.hpp"], [("macros","src/Macros.hpp LVARRAY_*"),("signals","src/system.cpp stackTraceHandler, setSignalHandling"),("calculateSize","src/system.cpp")], ["the error handler","std::cout","exceptions"])
prop("C26", "Math wrappers agree with the mathematical functions",
 "Every math function, for every supported type, returns the value of the mathematical function it names to the accuracy of its type - packed half types excepted on the host - over its whole domain, special values included, and combined functions agree with the separate ones.",
 ["inputs"], "all arguments of all supported types",
 "Tests evaluate a few points.",
 ["src/math.hpp"], [("wrappers","src/math.hpp")], ["math functions"])
prop("C27", "Raw range primitives move, shift and fill exactly the ranges they name",
 "Each primitive on raw ranges - resize, shift up, shift down, emplace, insert, erase, append, pop, copy, move, destroy, compare - leaves exactly the sequence its name says, with slots that must be constructed constructed and all others raw, and touches nothing outside the named range.",
 ["inputs"], "all sizes, positions, shift distances (including larger than the tail) and element types",
 "Tests call each primitive with a few sizes on trivial values.",
 ["src/arrayManipulation.hpp"], [("primitives","src/arrayManipulation.hpp")], ["the range and its guard zones","lifetime monitor"])
prop("C28", "Every buffer type honours the buffer contract",
 "Every buffer type keeps the first elements when its capacity changes, reports its capacity truthfully, releases its storage exactly once on free, aliases (or, for stack buffers, copies) when copied as documented, empties the source when moved, and reports an error - rather than overrunning - when a fixed buffer must grow beyond its length. "
 "Sizes and contents survive conversion between element constness. A buffer given allocators takes the storage of each memory space from the allocator of that space, also after it became an array, grew or changed owner.",
 ["histories","configurations"], "all histories of allocate, reallocate, free, copy and move for malloc, stack and managed buffers and element types",
 "Typed tests make a few calls on each buffer.",
 ["src/MallocBuffer.hpp","src/StackBuffer.hpp","src/ChaiBuffer.hpp","src/bufferManipulation.hpp"], [("reallocate, free","src/MallocBuffer.hpp, src/StackBuffer.hpp, src/ChaiBuffer.hpp"),("helpers","src/bufferManipulation.hpp")], ["buffer members","allocator"])
prop("C29", "Python bindings expose the same arrays safely",
 "Every array, sorted array, array of arrays, array of sets and CRS matrix exposed to Python shows exactly its contents and extents, permits modification only at the granted access level, and modifications made from Python appear in the C++ object with the same results as the C++ operation. "
 "References and memory balance, and arguments that cannot be used ( types, shapes, positions, columns ) raise a Python exception and change nothing rather than crash.",
 ["histories","inputs"], "all exposed objects, access levels and argument values from Python",
 "The Python tests need a built extension, which this build does not have.",
 ["src/python"], [("access levels","src/python/PyArray.cpp and siblings"),("numpy wrapping","src/python/numpyHelpers.hpp")], ["Python objects"])
prop("C30", "Device execution gives the same results as host execution",
 "Every operation usable in device code gives, on a real CUDA device, the results it gives on the host.",
 ["schedules","configurations"], "all device-callable functions on CUDA hardware",
 "The sandbox, like the CI of the baseline, has no CUDA device or compiler.",
 ["src/Macros.hpp","src/arrayManipulation.hpp","src/ArrayView.hpp"], [("host-device annotations","src/Macros.hpp LVARRAY_HOST_DEVICE")], ["device results"])
prop("C31", "Operations cost what their documentation says",
 "Appending to arrays and ragged arrays, growth included, costs amortised constant time per element; an inner array, set or row grown bit by bit changes its capacity only logarithmically often; operations within the capacity touch only the elements from their position on; whatever changes the layout, and batch insertion or removal, touches each element a bounded number of times; searches in sorted containers take logarithmically many comparisons and sorting O( N log N ). "
 "Making views and slices and moving containers touches no element and allocates nothing that grows with the container.",
 ["inputs","histories"], "all sizes and histories of every container, on the order of the cost rather than its constant",
 "Tests check results, and benchmarks are not part of the suite.",
 ["src/bufferManipulation.hpp","src/sortedArrayManipulation.hpp","src/sortedArrayManipulationHelpers.hpp","src/ArrayOfArraysView.hpp","src/SortedArray.hpp","src/CRSMatrixView.hpp"], [("growth","src/bufferManipulation.hpp dynamicReserve"),("search and sort","src/sortedArrayManipulation.hpp find, makeSorted, dualSort, insertSorted, removeSorted"),("ragged","src/ArrayOfArraysView.hpp setCapacityOfArray, compress; docs/sphinx/ArrayOfArrays.rst complexities"),("views","toView, toSlice, move constructors")], ["element constructors, assignments and comparisons","the heap","capacities"])
prop("C32", "Debuggers are shown the logical contents",
 "GDB finds the pretty printers through the binary and shows for every buffer, slice, view and array its current size and, in the default layout, its values as a C-array with the extents at run time, and for arrays of arrays and what derives from them each sub-array as a child of its size. "
 "With TotalView output enabled everything compiles, arrays and slices list rows with the right names, types and addresses, rows for any address and of any length are complete or refused, and nothing is written outside of the row buffer.",
 ["inputs","histories","configurations"], "all containers, extents, layouts and row texts, at any time of their histories",
 "No test looks at a debugger.",
 ["scripts/gdb-printers.py","src/totalview","src/ArrayView.hpp","src/ArraySlice.hpp"], [("gdb printers","scripts/gdb-printers.py; ArraySlice.hpp DEFINE_GDB_PY_SCRIPT; docs/sphinx/developmentAids.rst"),("TotalView rows","src/totalview/tv_data_display.c TV_ttf_add_row; src/totalview/tv_helpers.hpp format; TV_ttf_display_type of ArrayView and ArraySlice")], ["what gdb shows","the row buffer of TotalView"])
prop("C33", "Copies between memory spaces are announced truthfully",
 "Every time the data of a managed buffer or container is copied to another memory space exactly one line says how much was copied, to where, and the type and name of the container it belongs to, telling its member buffers apart; moves that copy nothing print nothing. "
 "The name last set stays through growth, shrinking, assignment to the container and moves of the buffer; a copy, and what a container takes over from one of another kind, starts without a name and announces the type of its new owner.",
 ["histories"], "all containers over managed buffers and all histories of naming, changing and moving",
 "Tests set a name and do not look at what is printed; there is no device in the tests.",
 ["src/ChaiBuffer.hpp","src/Array.hpp","src/SortedArray.hpp","src/ArrayOfArraysView.hpp","src/CRSMatrixView.hpp"], [("announcement","src/ChaiBuffer.hpp setName, reallocate"),("names of members","setName of every container; docs/sphinx/bufferClasses.rst")], ["standard output","copies of the resource manager"])
prop("C34", "Containers, views and slices grant exactly the access documented",
 "Every documented way of writing works through each kind of container, view and slice that grants it and reaches the container, while through a read-only kind no value, column, size or offset can be changed, nor a key of a set, pattern or matrix in place through any kind. "
 "A read-only view or slice does not turn back into one that writes, views of constant sizes not into ones that resize, views do not resize what they view beyond the inner modifications they document, and a container or view that is about to go away gives no view or slice.",
 ["inputs"], "all containers, views and slices, all of their accessors and conversions, all element and index types",
 "Tests use what is granted; that something is refused cannot be seen from code that compiles, and a wider grant breaks no test.",
 ["src/ArrayView.hpp","src/ArraySlice.hpp","src/Array.hpp","src/SortedArrayView.hpp","src/ArrayOfArraysView.hpp","src/ArrayOfSetsView.hpp","src/SparsityPatternView.hpp","src/CRSMatrixView.hpp"],
 [("view kinds","toView, toViewConstSizes, toViewConst, toSparsityPatternView, toArrayOfArraysView of every container and view; docs/sphinx"),("accessors","operator[], operator(), data, getValues, getSizes, getOffsets, getColumns, getEntries"),("temporaries","overloads for rvalues of toView*, toSlice* and the conversions")], ["state of the container after each attempt","whether the expression is admitted"])
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].replace("e.g.", "").count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P))

NOTES = "Drivers in harness/ are compiled from /repo's working tree by run_check.py with the stand-in RAJA/camp/CHAI/Umpire headers of shim/; see DESIGN.md."
ASAN = "AddressSanitizer + UndefinedBehaviorSanitizer runs of random histories against a reference model"
_T = {
    "C01": ASAN + " of the documented layout", "C02": ASAN + ", reference compared after every resize",
    "C12": "lifetime and allocation monitor with " + ASAN,
    "C15": "differential monitoring against 128 bit arithmetic, plain and UndefinedBehaviorSanitizer builds",
    "C16": "differential monitoring against an independent parser of the documented grammar on generated and mutated text, plain and sanitizer builds",
    "C13": "ThreadSanitizer on multi-threaded programs over views, with conservation and sequential-equivalence monitors and injected delays",
    "C14": "monitor of the error handler against a reference of the valid argument ranges, with state comparison around each report, sanitizer builds with and without assertions",
    "C17": "differential monitoring of printed text against a reference composition, plain and sanitizer builds",
    "C18": "monitor of the addresses and indices passed to call backs against the reference order, plain and sanitizer builds",
    "C19": "differential monitoring of every storage position against a reference, plain and sanitizer builds",
    "C20": "differential monitoring of every operation against long double index sums, with stray-write monitor and AddressSanitizer builds",
    "C21": "differential monitoring against long double adjugates, plain and sanitizer builds",
    "C22": "differential monitoring against a long double Jacobi iteration, plain and sanitizer builds",
    "C23": "monitor of values, copies, memory use and live elements over two simulated memory spaces, AddressSanitizer poisoning of the space not in use",
    "C28": "monitor of guard bytes, allocated regions, live records and values against vectors over random buffer histories, sanitizer builds",
    "C31": "counting monitor of element constructions, assignments, comparisons, heap bytes and capacity changes during every operation against bounds of the documented order",
    "C32": "monitor of what a debugger attached to the running process shows against what the process holds, and sanitizer builds of the TotalView support against a reference of its rows",
    "C33": "monitor comparing every printed announcement with the copies the resource manager made, over random histories in two simulated memory spaces",
    "C34": "monitor comparing the container with a model after every attempt to read or write through every kind of access, carried out as far as its type admits it; sanitizer and plain builds",
    "C29": "monitor of values, buffers, access, exceptions, references and allocations around every call of the bindings in an embedded interpreter, against a reference model, sanitizer and plain builds",
    "C24": "monitor comparing the trapped set and delivered signals with a model after every step of random programs",
    "C25": "monitor of handlers, exceptions, output, evaluation counts and flow around every reporting macro, plain and sanitizer builds",
    "C26": "differential monitoring against the long double C library functions in units in the last place",
}
BASE = "Holds on every execution explored (counts in the evidence); nothing is proved about executions that were not run. Trusts the sanitizers, the reference model in harness/ and the stand-in headers in shim/. "
_N = {
    "C31": "dualSort is documented not to fall back to a heap sort, so its bound is checked on ordinary patterns only. ",
    "C32": "TotalView itself is not installed: its rows are read from the buffer it reads. Values in permuted layouts are documented not to be shown correctly. ",
    "C29": "Sizes beyond the index type of a container ( an LvArray error by design ) and GPU arrays are not exercised; views of a container are not used after it has changed. ",
    "C22": "Tolerances were calibrated on two million matrices and leave a factor of about ten.",
    "C26": "Half precision types need CUDA and are not compiled here.",
    "C24": "x86-64 with glibc only.",
}


def technique(i):
    return _T.get(i, ASAN)


def note(i):
    return BASE + _N.get(i, "")


NOT_APPLICABLE = {
    "C30": "Needs a CUDA compiler and device; no runtime monitor can observe executions that cannot take place here. What can be run on the host, device-side copies included, is covered by C23.",
}

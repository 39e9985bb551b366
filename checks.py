"""Per property: which explorers run in which builds, and their bounds."""
STD = ["checked", "plain"]


def std(bin, shards=4, modes=STD):
    return [dict(mode=m, bin=bin, shards=shards) for m in modes]


CHECKS = {}
ENUM = "exhaustive enumeration of a bounded input space on the real code against a reference model"


def add(prop, level="model_checking", runs=None, quick="", thorough="", technique=ENUM, note="", **kw):
    CHECKS[prop] = dict(level=level, runs=runs or std(prop.lower()), bounds=dict(quick=quick, thorough=thorough or quick), technique=technique, note=note, **kw)


SMALL = "all shapes with dims 1..4 to rank 3, 1..3 at rank 4, 1..2 at rank 5-6"
SMALLT = "all shapes with dims 1..6 to rank 3, 1..4 at rank 4, 1..3 at rank 5-6"
LONG = "one long axis (both sides of powers of two to 1025) at every position, every rectangle to 20x20 and around 32, 64, 128 square, boxes to 7x7x7, some shapes of 10^4..10^5 elements to rank 6"
LONGT = "one long axis to 4097 at every position, every rectangle to 40x40 and around powers of two to 256 square, boxes to 10x10x10"
LEN = "every vector length to 160 and around powers of two to 2^17"
LENT = "every vector length to 600 and around powers of two to 2^20"
PROV = "fresh, clone, mapped, reshaped and seven kinds of view as operands"

add("C01", quick="~130 operations x 16 shapes x 11 provenances x 5 kinds of second operand, all drop orders; all pairs of operations; all histories of create/share/consume/drop actions to length 4 over a pool of 4; 11 element layouts; all numeric operations on all pairs of 16 shapes",
    thorough="as quick with all drop orders everywhere, more shapes for pairs, histories to length 5", technique="exhaustive enumeration of histories on the real code with tracked elements and a checking allocator")
add("C02", quick="~260 operations with 5 (11) argument configurations: all provenance pairs; every operation after every numeric one; reused addresses; consuming operations under all 32 sets of other holders; all pairs of operations over a pool sharing one storage; every operation inside every callback; in fresh processes all ordered pairs of operations, all pairs of sizes, and all of 28 sizes to 1025 in 8 orders for the operations with internal tables",
    thorough="all ordered pairs of operations and configurations", technique="exhaustive enumeration of operation histories on the real code, compared with runs in fresh processes")
add("C03", runs=[dict(mode="checked", bin="c03s", shards=1), dict(mode="checked", bin="c03", shards=16), dict(mode="plain", bin="c03", shards=8), dict(mode="tsan", bin="c03t", shards=8)],
    quick="2 threads, every operation against itself (2 preemptions) and against 21 others (1 preemption) at element-operation granularity; 3 threads with 1 preemption; 10x10 share/release programs and every numeric operation against itself at instruction granularity with 1 preemption; all merges of operation, release and read steps of 2-3 threads under a happens-before race monitor; Send/Sync of tensors of 15 element types",
    thorough="all pairs of operations, one preemption more", technique="stateless model checking of real threads: preemption-bounded schedules, with a happens-before race monitor on operation-level schedules",
    state_means="distinct scenario", note="Instruction-level schedules are sequentially consistent; missing ordering is found by the race monitor (ThreadSanitizer), whose shadow memory can forget old accesses.")
add("C04", level="fault_enumeration", quick="a panic at every callback, clone, comparison, default, formatting and arithmetic step of ~180 operations x 13 shapes x 5 provenances x 4 kinds of second operand; all pairs of two successive faults; faults of an operation nested in a callback; every call of every callback",
    thorough="the same with longer operands and all second operands", rule="one case per operation, shape, provenance and second operand: the number of points where user code runs is measured and the case is repeated with a panic at each of them; non-trivial: a distinct combination with at least one point",
    technique="exhaustive fault injection at every point where user code runs, with tracked elements and a checking allocator", note="Leaks after a panic are not counted.")
add("C05", quick="every element count 0..16 (and around powers of two to 1024) against every shape with dims 0..5 to rank 3, 0..3 at rank 4, 1..2 at rank 5-6, in 16 ways of building, reshaping, merging and viewing; all dimension lists from a set of limits (2^31..2^64) whose product is not the element count; ranks 7..9; all nestings of up to 4 rows of length 0..3 and all 3-level nestings; nestings to depth 5 with one or two changed nodes; all triples of 14 tensor shapes; every result of ~300 operations",
    thorough="element counts to 40 against dims 0..8; nestings of 5 rows")
add("C06", quick=f"{SMALL}; every offset/length window (incl. out of range and overflowing) of each; nested views to depth 2-3; every accessor and ~120 operations on view and fresh copy compared",
    thorough=f"{SMALLT}; as quick",
    note="Views are compared with fresh tensors of the same contents through every accessor and operation of the probe list; longer chains of views are assumed to compose.")
add("C07", quick=f"{SMALL}; every index tuple incl. one beyond each axis; boundary indices near usize::MAX; {PROV}", thorough=f"{SMALLT}; as quick")
add("C08", quick="all dimension lists of rank 0..6 over small dims incl. 0; all edits with all positions (negative, out of range); appends of every list length; edit sequences to depth 2 with states deduplicated",
    thorough="the same with larger dims, deeper edit sequences", technique="explicit-state search over edit sequences on the real Shape against a plain list")
add("C09", quick=f"{SMALL}; every target shape of the same size; chains; {PROV}", thorough=f"{SMALLT}; as quick")
add("C10", quick="every conversion, every nesting length 0..4 (to depth 5), strings, iterators of every length to 12 with right, low and missing size hints, options, lists of strings with every ASCII character, lists of tensors", thorough="iterators to length 40")
add("C11", quick=f"{SMALL}; eye/tri/diagflat sizes 1..70 and around powers of two to 1025; one-hot depth 0..6 and to 65537; grids to 6 per axis", thorough="sizes to 140, grids to 9 per axis")
add("C12", quick=f"{SMALL}; all pairs (incl. incompatible) rank<=3 dims 1..4; triples rank<=3 dims 1..2; {LEN}", thorough=f"{SMALLT}; pairs to rank 4; triples dims 1..3; {LENT}")
add("C13", quick="all pairs of boundary values per element type for every operator and function, all operand forms, small shapes and vector lengths to 160; u8/i8 exhaustively", thorough="all 8-bit pairs, longer vectors")
add("C14", quick=f"{SMALL}; {LONG}; every axis; results of 1..18 and to 257 columns", thorough=f"{SMALLT}; {LONGT}")
add("C15", quick=f"{SMALL}; {LONG}; every axis from either end", thorough=f"{SMALLT}; {LONGT}")
add("C16", quick=f"all vectors to length 4 over a value alphabet; {SMALL}; {LONG}; every axis; lengths to 2^20; double-precision data over a wide alphabet", thorough=f"all vectors to length 5; {SMALLT}; {LONGT}", note="Values are compared with a double-precision textbook evaluation within a rounding tolerance.")
add("C17", quick=f"{SMALL}; {LONG}; every axis; unit normalization of all vectors to length 4 over a value alphabet, of f64 ones beyond the f32 range", thorough=f"{SMALLT}; {LONGT}; vectors to length 5")
add("C18", quick="all lists of 1..3 operands with dims 1..3 to rank 4, 1..2 to rank 6, every axis from either end, every list form, incompatible shapes; all pairs and triples of windows of one storage", thorough="dims to 3 at rank 4")
add("C19", quick=f"{SMALL}; every axis; all sets of cut positions of every axis length to 7; equal splits into up to 300 pieces, up to 300 cuts, unstacking up to 1100; {LONG}", thorough="axis lengths to 9")
add("C20", quick=f"{SMALL}; {LONG}; all tile counts 1..3 with 1..rank+1 entries", thorough=f"{SMALLT}; {LONGT}")
add("C21", quick="all matrix sizes to 13x13x13, around powers of two to 128 square and to 70000 long; batches to rank 5 and to 1100 matrices; infinities, NaN and zeros at every position; all mismatches", thorough="all sizes to 20x20x20, squares to 256")
add("C22", quick="all steps 0..33, all start/end pairs of the value alphabet, batches; stepped ranges over all (start, end, step) with integers in -10..10 and quarter steps", thorough="steps 0..100; integers in -24..24", note="Endpoints and spacing are compared within a rounding tolerance.")
add("C23", quick="all 2^32 generator outputs through the conversion to uniform (plain build); seeds 0..2000 and boundary seeds; every interleaving of draws of two generators to depth 4", thorough="seeds to 100000, depth 6",
    technique="exhaustive enumeration of generator outputs and draw orders against the congruential recurrence")
add("C24", quick="2-3 threads, 1-2 operations each: all schedules at operation granularity; all schedules with one preemption (two for the smallest scenarios) at instruction granularity",
    thorough="more operations per thread and a second preemption", technique="stateless model checking of real threads: preemption-bounded schedules at machine-instruction granularity",
    state_means="distinct scenario and observed log", note="Sequentially consistent interleavings only: the processor's store buffering is not explored.")
add("C25", quick="all 65536 sample values in 1, 2 and 3 channels; 1..12 and boundary channel counts x 0..9 and boundary frame counts; every truncation; every value of every header byte; all size-field combinations near the true ones and at the extremes; all values of the 16-bit fields", thorough="1..40 channels, 0..40 frames, rates to 70000, files of 2^24 samples")
add("C26", level="fault_enumeration", quick="every file length 0..100 and around powers of two to 2^18; every sequence of answers (full, short by every small amount, EINTR, each error, early end) with at most 3 deviations; every open error; 49 unusual file names", thorough="lengths to 300 and 2^24, 4 deviations",
    rule="one case per file length, reported size and first answer; inside it every sequence of read answers with a bounded number of deviations from a full read is executed; non-trivial: a distinct sequence of answers actually consumed by the code",
    technique="exhaustive fault injection at the system-call boundary (interposed open/read)")
add("C27", quick="all signals to length 6 over a 3-value alphabet; every length to 140 and around powers of two to 1024; batches of 1..17 and long ones; every output count to length+4, many counts for every length to 140; every frame length and step to 16", thorough="alphabet to length 8, every length to 400, frames to 30", note="Compared with a direct double-precision transform within a rounding tolerance.")
add("C28", quick="all data to length 4 over a value alphabet x 1..12 bins; values at, next below and next above every edge for 1..130 bins; two-dimensional data to 4 points; up to 70000 bins, 1025 per axis in two dimensions; more than 2^24 values in one bin; 2^16+1 points in two dimensions", thorough="length 5, 1..20 bins; edges to 600 bins")
add("C29", quick="all sequences of setter calls to depth 3 for derived builders of 0..8 fields and for every option type of the crate, from every starting form", thorough="depth 4", build_failure_is_violation=True,
    technique="exhaustive enumeration of call sequences against a record of the last value per field",
    note="If the harness that uses the generated builder no longer compiles although the repository does, that counts as a violation.")
add("C30", quick="all pairs of all tensors with at most 4 elements over a small alphabet and all their shapes; all pairs of windows of one storage; one differing element at every position; formatting of all small shapes", thorough="at most 5 elements")
add("C31", runs=[dict(mode="checked", bin="c31", shards=8), dict(mode="plain", bin="c31", shards=8), dict(mode="asan_plain", bin="c31a", shards=8)], thorough_runs=[dict(mode="asan", bin="c31a", shards=8)],
    quick="~130 numeric operations on all shapes with dims 0..3 to rank 2 and samples of rank 3-6 (all pairs for binary operations), axes -9..9 and at the integer limits, counts 0..7; counts at the limits (2^31..2^64) in child processes; all pairs of 14 special values; 17 list operations on all triples of 17 shapes; owning elements and 5 element layouts",
    thorough="all shapes with dims 0..3 to rank 3, triples of special values, more limit counts", technique="exhaustive enumeration of argument combinations on the real code under a checking allocator and AddressSanitizer, with two contents of fresh memory and of the surroundings of views compared",
    note="A failed allocation (out of memory) ends the process by design of the language runtime and is not counted as a crash.")

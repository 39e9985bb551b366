#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the text stays reviewable)."""
import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":state,"meaning":state}]
    if observe:a["observe_at"]=[s.strip() for s in observe.split(",")]
    if hook is not None:a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
T='src/tensor/'
p("C01","Every element is dropped exactly once and storage is returned",
 "However tensors, clones, views and results are created, combined and discarded, every element value put into or produced by a tensor stays alive while any tensor or view sharing it is alive and is dropped exactly once afterwards. When the last tensor is gone all memory obtained on the way has been released, with the same layout it was obtained with.",
 ["histories"],"every sequence of construct / view / derive / clone / drop steps, in every drop order, for every element type including heap-owning and zero-sized ones",
 "Unit tests count drops on a few fixed shapes; a double drop, an early drop of storage shared with a view or a leak appears only for a particular order of drops or operation mix.",
 [T+"data.rs",T+"tensor.rs",T+"map.rs",T+"from.rs","src/array/stack.rs","src/array/split.rs"],
 [("shared storage and its destructor",T+"data.rs: TensorData, Drop, unsafe_init"),("reference sharing",T+"tensor.rs: Clone, subslice, subslice_flat")],
 state="live tensors/views and the storage each holds",observe="element Drop calls, allocator calls")
p("C02","Tensors never change; results depend only on the argument values",
 "No operation, including ones that consume their argument, changes the shape or contents seen through any other tensor, clone or view. Repeating an operation on equal arguments gives an equal result whatever was computed before, however the arguments were produced (fresh, clone, view, result), and also when it is called from inside another operation's callback.",
 ["histories"],"every sequence of operations up to the depth bound over a pool of tensors that share storage",
 "Tests check one call on fresh inputs; in-place reuse of shared storage or state kept between calls shows only for specific sequences on shared data.",
 [T+"tensor.rs",T+"map.rs",T+"shape.rs","src/math/num.rs","src/array/split.rs","src/array/stack.rs"],
 [("read-only shared storage",T+"data.rs: TensorData"),("value-consuming operators","src/math/num.rs: tensor_ops2")],
 state="pool of tensors with shared storage",observe="shape and contents of every live tensor after every step")
p("C03","Concurrent use of shared tensors equals sequential use",
 "Tensors with shareable elements may be cloned, viewed, read, operated on and dropped from several threads at once without locking. Under every interleaving each thread gets exactly the results of a sequential run, no element is dropped early or twice, and there is no data race; tensors whose elements are not shareable across threads are themselves not shareable.",
 ["schedules"],"all interleavings of 2-3 threads running short operation sequences on tensors that share storage, up to the preemption bound",
 "A test run observes one schedule; a lost reference or a torn shared scratch value needs a specific preemption inside an operation.",
 [T+"data.rs",T+"tensor.rs",T+"map.rs","src/array/stack.rs","src/math/num.rs"],
 [("thread-safety of shared storage",T+"data.rs: unsafe impl Send/Sync"),("reference counting",T+"tensor.rs: data: Arc<TensorData>")],
 state="shared storage reference counts",observe="results in each thread, element drops")
p("C04","A panicking callback or element operation leaves everything sound",
 "If a user callback, an element's clone or an element's arithmetic panics at any point inside an operation, the panic propagates to the caller, no element is dropped twice and no uninitialised slot is dropped. All other tensors keep their contents and the library keeps working as before.",
 ["fault_sequences"],"a panic injected at every callback, clone and element-operation point of every operation that has one",
 "No test makes a callback panic; soundness depends on partially initialised buffers at each possible panic point.",
 [T+"map.rs",T+"data.rs","src/array/stack.rs","src/array/split.rs","src/array/tile.rs",T+"from.rs"],
 [("partially initialised output buffer",T+"data.rs: unsafe_init"),("initialisation loops",T+"map.rs")],
 state="partially written output buffers",observe="element drops, later results")
p("C05","Size always equals the product of the dimensions; mismatches are rejected",
 "Every tensor handed to a user has as many readable elements as the product of its dimensions, and its reported size, rank, per-axis lengths, rows, columns and batch counts agree with each other. An attempt to build, reshape, merge or view data with a shape of a different element count, with ragged nesting, or with a dimension or total that cannot be represented, panics instead of producing a tensor.",
 ["inputs"],"all pairs of data length and requested shape within the bounds, all ragged nestings, dimensions around every power-of-two boundary",
 "Tests try a few matching shapes; acceptance of one wrong combination gives a tensor that reads foreign memory.",
 [T+"tensor.rs",T+"shape.rs",T+"from.rs",T+"data.rs"],
 [("size check at construction",T+"tensor.rs: Tensor::new, subslice_flat, from_merge"),("size arithmetic",T+"shape.rs: size, sublen, From<..> for Shape"),("ragged checks",T+"from.rs")],
 observe="constructors, reshape, views, size/rank/dim accessors")
p("C06","A view shows exactly its window of the parent, through every accessor",
 "Taking a range of outer entries, a flat range with a given shape, or a single outer entry of any tensor (itself possibly a view) yields a tensor whose contents are exactly that range of the parent. Every way of reading it (whole slice, element lookup, indexing, iteration, rows, wrapped reads, formatting) and every operation on it behaves as on a fresh tensor with those contents, and reads outside the window are refused or report nothing.",
 ["histories"],"every chain of nested windows up to the depth bound, every offset and length, every accessor and operation",
 "Tests read views taken at the front or only through one accessor; offset mistakes appear only for nested, non-zero offsets or particular accessors.",
 [T+"tensor.rs",T+"slice.rs",T+"index.rs",T+"map.rs"],
 [("window arithmetic",T+"tensor.rs: subslice, subslice_flat, get, as_slice, as_wrap_slice, as_wrap_slice_n, iter_row"),("entry selection",T+"slice.rs")],
 state="nested offset/size of each view",observe="all accessors of the view")
p("C07","Multi-index lookups address row-major order and refuse out-of-range indices",
 "Looking up an element with one index per axis returns the element at that row-major position, for every rank that supports it, and a flat index returns the element at that flat position. An index at or beyond the length of its axis panics, even when the combined position would still fall inside the data.",
 ["inputs"],"all shapes within the bounds of rank 1-5, all index tuples in and just outside the range, owned tensors and views",
 "Tests look up a handful of positions; swapped strides or a missing bound only show for unequal dimensions or specific out-of-range tuples.",
 [T+"index.rs",T+"tensor.rs"],
 [("index arithmetic and bounds",T+"index.rs: Index impls"),("optional lookup",T+"tensor.rs: get")],observe="indexing operators, get")
p("C08","Shape operations agree with operations on the list of dimensions",
 "Every way of inspecting or deriving a shape (per-axis lengths from either end or with negative positions, sizes of axis ranges, replacing, inserting, removing, pushing, popping, squeezing and expanding axes, reducing, batch counts, broadcasting) gives the result the same edit gives on the plain list of dimensions, for every rank up to the maximum of six. Shapes built in different ways compare equal exactly when their lists of dimensions are equal.",
 ["histories"],"all shapes up to rank 6 with small dimensions, all axis arguments, all short sequences of edits",
 "Edits are stored reversed with spare slots; an off-by-one or a stale slot shows only for some rank/axis/sequence and later breaks equality.",
 [T+"shape.rs",T+"axis.rs"],
 [("reversed fixed-size storage",T+"shape.rs: dims, rank"),("axis resolution",T+"axis.rs: axis_from_rank, reduce, reduce_row")],
 state="dims array and rank",observe="as_vec, equality, size, Debug")
p("C09","Reshaping, flattening, squeezing and expanding keep the element order",
 "Reshape, flatten, squeeze and axis insertion return a tensor with the same elements in the same row-major order and the requested dimensions, on owned tensors and on views, without copying or disturbing the source. They can be chained and undone: reshaping back gives a tensor equal to the original.",
 ["histories"],"all chains of shape-changing steps up to the depth bound over all factorizations of small sizes",
 "Tests cover a few shapes of fresh tensors; losing a view's offset or dropping the wrong unit axis needs chains on views.",
 [T+"shape.rs",T+"tensor.rs"],[("shape replacement",T+"shape.rs: Tensor::reshape, expand_dims, flatten, squeeze")],observe="shape and contents")
p("C10","Conversions preserve every element, its order and the nesting",
 "A tensor built from a scalar, an option, vectors, slices, arrays, nested vectors or arrays, strings, iterators, or a list of tensors holds exactly the source elements in source order with dimensions equal to the nesting lengths. Empty sources give an empty tensor and an absent option gives an empty vector.",
 ["inputs"],"all nesting shapes within the bounds for every conversion, every element type class, sources with spare capacity or inexact iterators",
 "Each conversion has its own copy loop; tests try one or two sizes of some of them.",
 [T+"from.rs",T+"tensor.rs",T+"data.rs","src/macros/mod.rs"],
 [("conversion impls",T+"from.rs"),("row-block reinterpretation",T+"data.rs: from_boxed_rows"),("merge and join",T+"tensor.rs: from_merge, join_vec, append")],observe="shape and contents")
p("C11","Generated tensors match their definition at every index",
 "Constant, zero, one, default, per-index, identity, triangular, diagonal, one-hot and coordinate-grid constructors produce at every index exactly the value their definition gives for that index, call an initialiser once per element in row-major order, and take lower or upper triangles separately in each matrix of a batch. Coordinate grids vary each input along its own axis in both orderings.",
 ["inputs"],"all shapes, sizes and axis lengths within the bounds",
 "Tests check small square cases; swapped axes and batch mistakes need rectangular or batched inputs.",
 ["src/init/matrix.rs","src/init/mod.rs","src/init/vector.rs",T+"map.rs"],
 [("indexed initialisation",T+"map.rs: init, init_rindexed"),("matrix builders","src/init/matrix.rs"),("one-hot","src/init/vector.rs: one_hot")],observe="shape and contents")
p("C12","Element-wise mapping and broadcasting follow one rule for all shapes",
 "Mapping a function over one, two or three tensors gives at each index the function of the operands' elements at that index, where an operand of lower rank is repeated along the missing outer axes, calling the function exactly once per element in row-major order. The result has the shape of the highest-rank operand, and operands whose trailing dimensions differ are refused.",
 ["inputs"],"all combinations of shapes within the bounds for one, two and three operands, compatible or not, as owned tensors or views",
 "Tests try equal shapes and one broadcast; three-operand mixes, scalar operands and incompatible shapes with divisible sizes are not sampled.",
 [T+"map.rs",T+"shape.rs",T+"tensor.rs"],
 [("mapping loops",T+"map.rs: map, map2, map3"),("broadcast rule",T+"shape.rs: broadcast_to"),("wrapped reads",T+"tensor.rs: as_wrap_slice")],observe="shape, contents, callback log")
p("C13","Operators and element-wise functions equal the scalar operation per element",
 "Every arithmetic, bitwise, shift, negation, min/max and mathematical function of a tensor yields at each index exactly what the same scalar operation yields on that element, for every numeric element type. The owned, borrowed, tensor-with-scalar and scalar-with-tensor forms agree, with the operands in the written order.",
 ["inputs"],"all operators and functions, all forms, all element types, over exhaustive 8-bit operand pairs and a dense grid of bit patterns of wider types including NaN, infinities and signed zeros",
 "Forty functions times many forms and types are expanded by macros; tests touch some with one symmetric value.",
 ["src/math/num.rs","src/math/float.rs","src/math/integer.rs","src/math/complex.rs"],
 [("operator macro","src/math/num.rs: tensor_ops2"),("function macros","src/math/float.rs, integer.rs, complex.rs")],observe="contents")
p("C14","Row-wise maps and folds see each row once, in order, and place results by row",
 "A row map passes each innermost row exactly once, in order, and writes its fixed-size result at that row's position; an expanding map does the same per element with a new innermost axis. A row fold combines, for each remaining position, exactly the rows along the chosen axis in order, and with no axis all rows.",
 ["inputs"],"all shapes within the bounds, all axes, all result widths, owned tensors and views",
 "Tests use one matrix; axis strides and views with offsets are not sampled.",
 [T+"map.rs",T+"axis.rs"],[("row loops",T+"map.rs: map_row, map_expand, fold_row"),("axis strides",T+"axis.rs: reduce_row")],observe="shape, contents, callback log")
p("C15","Axis folds and reductions combine exactly the lane of each output position",
 "Folding or reducing along an axis (counted from either end) yields for each remaining index the in-order combination of exactly the elements along that axis, starting from a fresh copy of the initial state, with the axis removed from the shape. Without an axis, or for a vector, all elements are combined in row-major order into a scalar.",
 ["inputs"],"all shapes within the bounds, all axes positive and negative, owned tensors and views, non-commutative combiners",
 "Tests use commutative sums on a 2-D case; order and middle-axis strides are unobserved.",
 [T+"map.rs",T+"axis.rs"],[("lane loops",T+"map.rs: fold, fold_axis, reduce, reduce_axis"),("axis strides",T+"axis.rs: reduce")],observe="shape, contents, callback log")
p("C16","Statistical reductions equal their mathematical definition",
 "Sum, product, min, max, mean, variance, standard deviation and root of the sum of squares of a tensor or of each lane along an axis equal the textbook (population) value of exactly those elements, up to floating rounding. Variance is never negative, the deviation is the root of the variance, and a single element has variance zero.",
 ["inputs"],"all value vectors over a small alphabet up to a length, long vectors, all shapes and axes within the bounds",
 "Tests check a few short vectors; streaming updates can be wrong only from some position or for some ordering of values.",
 ["src/math/reduce.rs",T+"map.rs"],[("streaming accumulators","src/math/reduce.rs: Mean, Std, Var, Hypot")],observe="contents")
p("C17","Normalization maps each element with the statistics of its own lane, in place",
 "Normalizing along an axis gathers the state of each lane from exactly its elements in order and writes each normalized element at the position it came from, keeping the shape; with no axis the whole tensor is one lane. Unit normalization maps the smallest element to 0, the largest to 1 and is monotone and affine in between.",
 ["inputs"],"all shapes within the bounds, all axes, all orderings of small value sets",
 "Tests normalize one vector; placement errors only show for rank 2 and up with an inner axis.",
 [T+"map.rs","src/math/normalize.rs"],[("lane normalization",T+"map.rs: normalize"),("unit scaling","src/math/normalize.rs")],observe="shape, contents, callback log")
p("C18","Joining tensors places every input element at its defined position",
 "Concatenating along any axis, stacking along any new axis, the horizontal, vertical and depth variants, appending and merging produce the dimensions and element positions of their definition, in argument order, whatever list form the arguments are given in. Inputs with incompatible shapes are refused.",
 ["inputs"],"all lists of 1-4 tensors with shapes within the bounds, all axes positive and negative, compatible or not, all list forms",
 "Tests join equal-sized pairs; unequal lengths along inner axes, many inputs and views are not sampled.",
 ["src/array/stack.rs",T+"from.rs",T+"tensor.rs"],[("join loops","src/array/stack.rs: concat_axis, stack_vec, dstack_vec, vstack_vec"),("validation","src/array/stack.rs: validate_concat"),("argument lists",T+"from.rs: IntoTensorList")],observe="shape and contents")
p("C19","Splitting and unstacking yield exactly the pieces; joining restores the input",
 "Splitting along any axis into equal sections or at increasing cut positions returns, in order, exactly the non-empty consecutive pieces, and unstacking returns one tensor per position without that axis. Concatenating the pieces, or stacking the unstacked ones, along the same axis gives back a tensor equal to the input.",
 ["inputs"],"all shapes within the bounds, all axes, all section counts that divide the axis and all increasing cut lists",
 "Tests split one or two shapes; piece offsets along inner axes and boundary cuts are not sampled.",
 ["src/array/split.rs","src/array/stack.rs"],[("split loops","src/array/split.rs: split_axis, split_by_axis"),("unstack","src/array/stack.rs: unstack")],observe="shape and contents")
p("C20","Transpose and tile follow their index laws for all shapes",
 "Transposing swaps the two innermost axes within every matrix of a batch, turns a vector into a column, and applied twice to a matrix is the identity. Tiling repeats the tensor the requested number of times along each axis, aligning the counts with the innermost axes, so that each result element is the source element at the index modulo the source dimensions.",
 ["inputs"],"all shapes within the bounds and all lists of repeat counts, shorter or longer than the rank",
 "Tests cover small cases; batches, non-square matrices and mixed ranks of repeat counts are not sampled.",
 ["src/array/transpose.rs","src/array/tile.rs"],[("transpose loop","src/array/transpose.rs"),("recursive tiling","src/array/tile.rs: tile, tile_rec")],observe="shape and contents")
p("C21","Matrix products equal the sum-of-products definition for every size and batch",
 "The product of two matrices, of equal-shaped batches of matrices, and of a matrix with one vector, several row vectors or batches of them has the defined dimensions and at each position the sum of products of the matching row and column. Operands whose inner dimensions or batch shapes do not match are refused.",
 ["inputs"],"all sizes up to the bound for rows, inner and columns, all batch shapes within the bounds, owned tensors and views",
 "Tests use small square matrices, where swapped dimensions or strides are invisible.",
 ["src/linalg/matmul.rs","src/linalg/matvec.rs","src/linalg/blas.rs",T+"shape.rs"],[("stride and shape selection","src/linalg/matmul.rs: mkn, sgemm"),("batched vectors","src/linalg/matvec.rs"),("batch broadcast",T+"shape.rs: broadcast_min")],observe="shape and contents")
p("C22","Spaced vectors have the requested length, endpoints and spacing",
 "Linear, logarithmic and geometric spacing between equal-shaped start and end values return the requested number of steps on a new outermost axis, beginning at the start, ending at the end and with constant difference, exponent difference or ratio, independently for each element of a batch. A stepped range begins at its start, advances by its step in either direction, stays strictly before its end and always terminates; start beyond end or a step pointing away is refused.",
 ["inputs"],"all lengths up to the bound, all small start/end/step combinations of both signs, batches of start and end values",
 "Tests use one scalar case each; negative steps, batches and length one are not sampled.",
 ["src/init/vector.rs"],[("spacing loops","src/init/vector.rs: arange, linspace, logspace_opt, geomspace")],observe="shape and contents")
p("C23","Seeded random numbers are reproducible, in range and finite for every seed",
 "A generator or random tensor created from a given seed yields the same sequence every time, on any thread and whatever else has drawn numbers, following the documented congruential recurrence; different draws of one generator advance its state. Uniform draws lie between 0 and 1, normal draws are finite, and random tensors apply the requested mean and deviation or bounds to those draws.",
 ["inputs"],"all 2^32 possible 32-bit outputs, dense grids of seeds and options, all interleavings of draws from two generators",
 "One bad output among 2^32 (a zero draw giving infinity, a maximum draw leaving the range) is not hit by a test.",
 ["src/random/random.rs","src/init/random.rs"],[("recurrences","src/random/random.rs: Rand32, Rand64"),("tensor fills and options","src/init/random.rs: random_normal, random_uniform, Normal, Uniform")],observe="draws, tensor contents")
p("C24","Concurrent threads get distinct, seed-determined random streams",
 "After seeding, the generators of threads that first draw concurrently are seeded as in some sequential order of those first draws and seedings: the streams are exactly the successive seeds derived from the set one, no two threads share a stream and none is skipped. Once a thread has its stream, nothing other threads do changes it.",
 ["schedules"],"all interleavings of 2-3 threads' first draws and seedings at every shared access, up to the preemption bound",
 "Two threads obtaining the same stream needs a preemption between reading and replacing the shared seed.",
 ["src/random/random.rs"],[("seed hand-out","src/random/random.rs: LOCAL_RNG initialiser, SEED, random_seed")],
 state="shared seed, per-thread generator",observe="first draws of each thread and later chain",hook="scheduling points at the shared-seed accesses and in the 64-bit generator step")
p("C25","WAV decoding returns exactly the samples or refuses the data",
 "Decoding a 16-bit PCM WAV file returns every sample as value/32768 in a frames-by-channels tensor, with frames and channels in file order, and the sample rate. Data that is truncated at any byte, has a wrong tag, size, format or bit-depth field, or whose data is not a whole number of frames panics without returning a tensor or reserving memory for data that is not there.",
 ["inputs"],"all 65536 sample values, all channel counts and lengths within the bounds, every truncation point, every header field altered",
 "There are no tests for the decoder's bounds; one swapped byte or missing check yields plausible sound.",
 ["src/io/decode_wav.rs"],[("header parsing and sample scaling","src/io/decode_wav.rs: decode_wav, Cursor")],observe="returned tensors or panic")
p("C26","Reading a file returns all of its bytes or an error, under any read behaviour",
 "Reading a file returns exactly the bytes the operating system delivered up to end of file, whatever sizes the individual reads return and however often they are interrupted. If opening or any read fails, that error is returned and never a partial or padded tensor, and no descriptor stays open.",
 ["fault_sequences"],"all sequences of short reads, interruptions and errors over a small file, up to the deviation bound",
 "Local file systems deliver small files in one read, so tests never see a short read or a late error.",
 ["src/io/read_file.rs"],[("read loop","src/io/read_file.rs: read_file")],observe="returned bytes or error, open descriptors")
p("C27","Spectrum and framing match their definitions for every length and batch",
 "The magnitude spectrum of each row equals the magnitudes of the discrete Fourier transform of the Hann-windowed row, for each row of a batch independently, cut or zero-padded to the requested number of outputs. Framing returns every full window of the requested length at multiples of the step, in order, and drops an incomplete tail.",
 ["inputs"],"all row lengths and batch shapes up to the bounds, all unit impulses (a basis of all inputs), all requested output lengths, all frame lengths and steps",
 "Tests check a single signal; odd lengths, batches and padding are not sampled.",
 ["src/signal/rfft.rs","src/signal/frame.rs"],[("windowed transform","src/signal/rfft.rs: rfft_norm, hann_window"),("framing","src/signal/frame.rs: frame")],observe="shape and contents")
p("C28","Histograms count every value exactly once in the bin that contains it",
 "A histogram of any non-empty data returns the requested number of bins with edges evenly spaced from minimum to maximum, and each value is counted once in the bin whose half-open interval contains it, the last bin also including the maximum. The two-dimensional histogram does the same independently per coordinate, with the second coordinate selecting the row.",
 ["inputs"],"all data multisets over a small value alphabet up to a length, all bin counts up to the bound",
 "Tests check one data set; edge values, constant data and bin counts of one are not sampled.",
 ["src/stats/histogram.rs","src/stats/histogram2d.rs"],[("binning","src/stats/histogram.rs, src/stats/histogram2d.rs")],observe="counts and edges")
p("C29","Option builders record exactly the options that were set",
 "Options built with the generated builder, starting from nothing or from an options value, hold for each field the last value set and the default for fields never set, whatever the order and number of setter calls. The statistics, spacing and random options follow the same rule.",
 ["programs"],"all sequences of setter calls up to the depth bound, on structs with every supported kind of field",
 "The only test sets one field once; a setter that resets other fields needs two different setters in a particular order.",
 ["crates/essay-opt/src/options.rs","src/init/random.rs","src/stats/histogram.rs"],[("generated setters","crates/essay-opt/src/options.rs: arg_methods, nil_methods"),("hand-written options","src/init/random.rs: Normal, Uniform")],observe="fields of the built options")
p("C30","Equality, ordering and formatting depend only on shape and elements",
 "Two tensors are equal exactly when their dimensions and all elements are equal, however they were produced and whichever window of whichever storage they show, and follow element rules for NaN. Ordering is the lexicographic order of the elements and reports equality only for equal tensors; formatting prints every element once, in order, grouped by dimension, with the dimensions.",
 ["inputs"],"all pairs of small shapes, contents over a small alphabet including NaN, and provenances",
 "Tests compare fresh tensors; comparing two windows of one storage or a prefix needs specific pairs.",
 [T+"tensor.rs","src/math/num.rs",T+"shape.rs"],[("comparison",T+"tensor.rs: PartialEq; src/math/num.rs: PartialOrd"),("formatting",T+"tensor.rs: fmt_tensor_rec")],observe="==, partial_cmp, Debug text")
p("C31","No call with any arguments touches memory outside its tensors",
 "Whatever arguments are passed to the safe operations, valid or not (mismatched shapes and batches, out-of-range axes, offsets, lengths and counts, empty or overflowing sizes, non-uniform lists), the call either completes or panics. It never reads or writes outside the elements of its operands and result, never exposes uninitialised memory and never crashes the process.",
 ["inputs"],"every operation with all combinations of small shapes and boundary arguments, in builds with and without overflow checks",
 "Tests pass valid arguments only; a missing bound is visible only as a stray read under an instrumented build.",
 [T+"data.rs",T+"tensor.rs",T+"map.rs","src/linalg/matmul.rs","src/linalg/matvec.rs","src/array/tile.rs","src/array/transpose.rs","src/signal/rfft.rs"],
 [("raw pointer writes",T+"data.rs: unsafe_init and its callers"),("raw matrix kernels","src/linalg/matmul.rs, src/linalg/matvec.rs")],observe="address-sanitized execution, result contents")
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))

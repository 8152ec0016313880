#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, functions=None):
    a = {"files": files}
    a["mechanism"] = [dict(name=f, where=files[0]) for f in (functions or [])] or \
                     [dict(name=os.path.basename(f), where=f) for f in files]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("C01", "User-storage blocks follow the admit/release protocol exactly",
  "For every block bound to user memory, admitting with update makes its elements equal to what the user memory held, writes through the block while admitted are all present in user memory after a release with update, and admitting an already admitted or releasing an already released block changes nothing. The pointers returned by release, find and rebind are those of the user array(s) last bound (null for a block that owns its storage), rebind redirects all later transfers to the new array(s) and leaves the old one alone, and memory outside the bound array(s) is never written. This holds for every dimension, dimension order, element type and complex storage format (single array, interleaved, split).",
  ["histories","inputs","configurations"],
  "every history of admit/release/rebind/find/get/put/assign on user-storage and self-owned blocks of 1-3 dimensions, all orders, real/complex types, user format x block format",
  "tests exercise a few fixed admit/put/release sequences on a handful of sizes; the guarantee is about every interleaving of transitions and user-side writes, and about memory that must NOT change",
  ["src/ovxx/storage/user.hpp","src/ovxx/storage/manager.hpp","src/vsip/dense.hpp","src/ovxx/strided.hpp"],
  ["storage_manager::admit","storage_manager::release","storage_manager::rebind","storage_manager::find"])

p("C02", "Subviews alias exactly the elements their domain selects",
  "A subview obtained by any composition of get/call operators with domains (any offset, positive or negative stride, length), row/column/diagonal/plane/slice selection, transposition, permutation and real/imaginary component selection denotes exactly the parent elements given by composing the index maps: reading it yields those elements, and writing it (elementwise, by scalar fill or by view assignment) changes those and no others. Reads and writes through parent and subviews are immediately mutually visible.",
  ["programs","inputs","configurations"],
  "every composition of view-forming operations over vectors, matrices and tensors of every layout order, real and complex, interleaved or split, over every index",
  "tests try single subview forms on fixed sizes; the guarantee quantifies over compositions of forms and every element outside the subview",
  ["src/vsip/vector.hpp","src/vsip/matrix.hpp","src/vsip/tensor.hpp","src/ovxx/expr/subset.hpp","src/ovxx/expr/sliced.hpp","src/ovxx/expr/transposed.hpp","src/ovxx/expr/permuted.hpp","src/ovxx/expr/diag.hpp","src/ovxx/expr/component.hpp"])

p("C03", "Domains and indices obey their set algebra",
  "A domain denotes the set {first + k*stride : 0 <= k < length} (per dimension, with positive or negative stride): shifting, scaling its stride, indexing, size, element- and product-conformance, and equality (equal iff exactly the same indices are contained) agree with that set, for 1, 2 and 3 dimensions. Intersecting a unit-stride domain with an increasing domain gives exactly the common indices in increasing order (or reports that there are none), and mapping an intersection back into either operand selects the same elements. Traversal of an extent in a dimension order visits every index exactly once in that order.",
  ["inputs"],
  "every pair of domains and every arithmetic operand that keeps indices non-negative; every extent and traversal order",
  "tests sample a dozen domains; corner cases (length 1, touching ends, strides that do not divide the gap, disjoint ranges) form an unbounded case analysis",
  ["src/vsip/domain.hpp","src/ovxx/domain_utils.hpp","src/ovxx/vertex.hpp"],
  ["intersect","apply_intr","subset_from_intr","next","Domain<1>::impl_equals"])

p("C04", "Block storage lives exactly as long as something refers to it",
  "The storage of a block stays allocated and its contents intact while any view, subview, transposed or component view, or counted block reference denoting it exists (expression views refer to their operands without owning them and stay usable as long as those live), in whatever order views are created, copied, assigned and destroyed, and is returned to its allocator exactly once, when the last of them dies. No program history leaks storage, frees it twice, or frees it with a different allocator or size than it was obtained from; a creation that fails because an allocation fails leaves nothing behind, and signal-processing and solver objects give back what they obtained.",
  ["histories","schedules"],
  "every history of creating, copying, sub-viewing, assigning and destroying views and blocks (including views of a block kept from several threads), with allocation observed through a user-installed allocator",
  "tests look at a few refcounts; lifetime errors need particular orders of destruction and are invisible to value assertions",
  ["src/ovxx/refcounted.hpp","src/ovxx/storage/manager.hpp","src/ovxx/storage/host.hpp","src/ovxx/allocator.hpp","src/ovxx/view/view.hpp"])

p("C05", "Maps partition every index set: each index has exactly one owner and home",
  "For every map (block, block-cyclic, whole; any processor grid and set; replicated and local) applied to any extent, every global index belongs to exactly one subblock (every one for replicated maps), subblock and patch domains are disjoint and cover the extent exactly, and the global-to-owner, global-to-local and local-to-global index translations are mutually inverse. Subblock sizes follow the distribution rule (block: sizes differ by at most one and earlier subblocks get the surplus; cyclic: contiguous runs dealt round-robin), and every subblock is held by exactly the processors the map lists for it.",
  ["inputs","configurations"],
  "every extent, number of subblocks, contiguity, processor grid and processor list in 1-3 dimensions",
  "tests check a few extents that mostly divide evenly; the guarantee is arithmetic over every extent/grid/contiguity combination including fewer elements than processors",
  ["src/vsip/map.hpp","src/vsip/impl/dist.hpp","src/vsip/impl/replicated_map.hpp","src/vsip/impl/local_map.hpp","src/ovxx/parallel/map_utils.hpp","src/ovxx/parallel/subset_map_decl.hpp"])

p("C06", "Distributed assignment moves exactly the right elements and never deadlocks",
  "After assigning one distributed view (or subview) to another of the same shape, each element of the destination, on every processor that holds it, equals the corresponding source element as it was before the assignment, and no other element anywhere changes, whatever the two maps (block, cyclic, whole, replicated, local, different processor sets and grids), dimension orders and element types. Every processor completes the assignment for every message timing and buffering, repeated any number of times and through any interleaving of different assignments issued in the same order by all processors.",
  ["configurations","schedules","histories"],
  "every pair of maps on 1..N processors, every subdomain pair, every message delivery timing, sequences of assignments",
  "tests run with two processors and fixed maps; ownership patterns with 3+ processors, unequal processor sets, uneven block sizes and rendezvous sends are never executed",
  ["src/ovxx/parallel/assign_chain.hpp","src/ovxx/parallel/assign_block_vector.hpp","src/ovxx/parallel/assign.hpp","src/ovxx/parallel/expr.hpp","src/ovxx/mpi/communicator.hpp","src/ovxx/mpi/chain_builder.hpp"])

p("C07", "Distributed views look like one shared array to every processor",
  "Element get and put, scalar fill, global reductions, index reductions, element-wise expressions on distributed views, and the communicator's broadcast, reduce and send/receive give every participating processor the result that the same operation on a single non-distributed array would give, for every map and processor count. Local subviews expose exactly the elements the map assigns to that processor, at their local positions.",
  ["configurations","schedules","programs"],
  "every SPMD program over get/put/fill/reduce/expressions/local views on distributed views, any map, 1..N processors",
  "tests run two processors with even blocks; uneven, empty and replicated subblocks and processors that own nothing are where owner/participation logic breaks",
  ["src/ovxx/parallel/distributed_block.hpp","src/ovxx/parallel/expr.hpp","src/ovxx/reductions/reductions.hpp","src/ovxx/reductions/reductions_idx.hpp","src/ovxx/parallel/service.hpp","src/ovxx/mpi/communicator.hpp","src/ovxx/parallel/support.hpp"])

p("C08", "Element-wise expressions assign pointwise, whatever the evaluator",
  "Assigning an expression built from views, scalars and element-wise operators/functions (including user-supplied functors and compound assignments) to a view gives each destination element the value of the scalar operation applied to the operand elements at the same index, independent of the layout, stride, alignment, dimension order, complex format or size of each operand and of which backend the library dispatches to. No operand and no element outside the destination changes, and scalar/view broadcast and type promotion follow the scalar rules.",
  ["programs","inputs","configurations"],
  "every expression tree over the operator set, every combination of operand and destination layouts, 1-3 dimensions, every size",
  "tests fix the expression, size and layout; evaluator selection (copy, transpose, memset, loop fusion, split/interleaved, scalar-operand variants) depends on their combination",
  ["src/ovxx/assign/copy.hpp","src/ovxx/assign/loop_fusion.hpp","src/ovxx/assign/rbo.hpp","src/ovxx/expr/evaluate.hpp","src/ovxx/expr/binary.hpp","src/ovxx/expr/unary.hpp","src/ovxx/expr/ternary.hpp","src/ovxx/view/operators.hpp","src/ovxx/view/functors.hpp","src/ovxx/view/fns_elementwise.hpp","src/ovxx/math/scalar.hpp"])

p("C09", "Direct data access honours its in/out/inout synchronisation contract",
  "While a direct-data-access object is alive its pointer, strides and sizes address, in the requested layout, exactly the block's elements; with input synchronisation the buffer initially holds the block's values, with output synchronisation whatever is stored there is in the block once the object is destroyed or explicitly synchronised, and read-only access never modifies the block. This holds for every block kind (owned, user-storage, subviews with any stride, transposed, component, expression) and requested layout (dimension order, packing, complex format), whether access is direct or through a copy, and the reported cost is zero only if no copy is made.",
  ["configurations","histories","inputs"],
  "every block kind x requested layout x sync policy, over histories of access, modification and resynchronisation",
  "tests check a few layouts with direct access; whether a temporary is used, and in which direction it is copied, depends on the block/layout/sync combination",
  ["src/vsip/dda.hpp","src/ovxx/dda/accessor.hpp","src/ovxx/dda/runtime.hpp","src/ovxx/dda/block_copy.hpp","src/ovxx/layout.hpp","src/ovxx/dda/persistent.hpp"])

p("C10", "FIR filtering is independent of how the input is cut into calls",
  "Feeding a signal to a state-saving FIR filter in successive blocks yields exactly the decimated convolution of the whole signal with the (symmetry-expanded) kernel, with the number of outputs produced per call adding up to it; a filter that does not save state filters each block as if it were the first. Copies of a state-saving filter evolve independently from the state at the time of the copy, reset restores the initial state, and neither input nor kernel is modified.",
  ["histories","inputs","configurations"],
  "every kernel, symmetry, decimation, block size, call history (apply/copy/assign/reset), real and complex types, strided inputs and outputs",
  "tests use a few fixed kernel/decimation/block triples; state hand-over when decimation does not divide the block depends on the call history",
  ["src/ovxx/signal/fir.hpp","src/vsip/impl/signal/fir.hpp"])

p("C11", "Convolution and correlation compute their defining sums for every support",
  "1-D and 2-D convolution and correlation objects produce, for every kernel/reference size, symmetry, support (full, same, minimum), decimation and bias, exactly the outputs of their defining sums with out-of-range input treated as zero, with the documented output sizes. Results depend only on argument values: not on strides, layout, complex format, previous calls or which implementation is dispatched to, and inputs are unchanged.",
  ["inputs","configurations","histories"],
  "every kernel size x input size x support x decimation x symmetry x layout, 1-D and 2-D, real and complex",
  "tests check particular sizes; boundary handling is a case analysis over kernel/input/decimation parities",
  ["src/ovxx/signal/conv.hpp","src/ovxx/signal/corr.hpp","src/vsip/impl/signal/conv.hpp","src/vsip/impl/signal/corr.hpp"])

p("C12", "IIR filtering is independent of how the input is cut into calls",
  "An IIR filter object of cascaded second-order sections computes the direct-form-II recurrence; with state saving, successive blocks behave as one long signal, without it each call starts from zero state. Copies and assignments take over coefficients and state and evolve independently afterwards, reset zeroes the state, and in-place operation equals out-of-place operation.",
  ["histories","inputs"],
  "every coefficient matrix, block size and call history (apply/copy/assign/reset)",
  "tests compare one or two block sizes; independence of copies and state carry-over are properties of call histories",
  ["src/vsip/impl/signal/iir.hpp"])

p("C13", "Histograms count every value in exactly one bin",
  "A histogram object puts each input value into exactly one bin: bin 0 for values below the minimum, the last bin for values at or above the maximum, and otherwise the equal-width interior bin containing it, so that counts always add up to the number of values seen since the last non-accumulating call. Accumulating calls add to, and non-accumulating calls replace, the previous counts; vectors and matrices of any layout give the same counts.",
  ["histories","inputs"],
  "every value sequence, range, bin count and accumulate history, integer and floating-point types, vector and matrix inputs",
  "tests feed one data set; edge values, non-dividing ranges and accumulate histories are not enumerated",
  ["src/vsip/impl/signal/histo.hpp"])

p("C14", "Reductions equal their defining fold over all elements, with correct indices",
  "Sum, mean, mean of squares, sum of squares, mean magnitude square, all-true, any-true, maxima/minima of values and of (squared) magnitudes over any real or complex view of 1-3 dimensions equal the defining fold over exactly the view's elements (with the documented accumulator type), independent of layout and expression form. Index-returning reductions return a position whose element attains the reported extremum, namely, for vectors the lowest index, and for plain matrix and tensor views the first in the order of the view's dimension ordering (row-major unless the view was given another).",
  ["inputs","configurations"],
  "every view shape, layout, order, value pattern (duplicates, negatives, all equal), element type",
  "tests use one matrix per reduction; tie-breaking, negative-only data, and dimension-ordered traversals are not enumerated",
  ["src/ovxx/reductions/reductions.hpp","src/ovxx/reductions/reductions_idx.hpp","src/ovxx/reductions/functors.hpp"])

p("C15", "Random streams are reproducible and split streams are the specified sequences",
  "A random generator constructed with the same seed, number of subsequences, id and portability flag yields the same sequence forever, defined by the documented linear-congruential recurrences (combined generator with per-id constants when portable; leap-frog split of one sequence when not). Vector, matrix and tensor requests consume the same stream as scalar requests would, in the dimension order of the destination (row-major by default), uniform/normal/complex draws consume the documented number of values, and distinct generators do not influence each other.",
  ["histories","inputs"],
  "every seed, numprocs, id, portability flag, and interleaving of scalar/vector/matrix/tensor uniform/normal draws over several generators",
  "tests compare the first few numbers of one seed; stream state across mixed histories and subsequence skipping are not enumerated",
  ["src/vsip/random.hpp","src/ovxx/expr/generator.hpp"])

p("C16", "Selection, generation and manipulation functions move exactly the selected data",
  "ramp, first, indexbool, gather, scatter, clip, inverse clip, swap and frequency swap produce for every input exactly their documented element-wise or positional result (counts, order, boundary and tie handling included), for vectors and matrices of any layout, stride and dimension order, and touch nothing else. swap twice and frequency swap of even sizes twice are identities.",
  ["inputs","configurations"],
  "every view content, threshold order, begin index, index list, size parity and layout combination",
  "tests use one or two sizes, mostly row-major; odd sizes, mixed layouts, truncated index lists and threshold ties are not enumerated",
  ["src/vsip/selgen.hpp","src/ovxx/signal/freqswap.hpp","src/vsip/impl/signal/freqswap.hpp"])

p("C17", "The library is initialised exactly while at least one library object lives",
  "Library objects may be created and destroyed in any nesting, repeatedly, and from several threads: one-time services (message passing, default allocator and processor sets) are brought up once when the first object appears and taken down once when the last disappears, never before or twice, and the library is fully usable by every thread that holds an object in between. Message passing already initialised by the application is used but not finalised by the library, and may then be used by any number of successive generations of library objects; message passing that the library itself finalised cannot be brought up again (an MPI limitation).",
  ["histories","schedules"],
  "every history of constructing/destroying library objects (with and without application-managed MPI), including concurrent construction by threads",
  "one test constructs two objects; concurrent and re-initialisation histories are never run",
  ["src/ovxx/library.cpp","src/vsip/initfin.hpp","src/ovxx/mpi/service.cpp","src/ovxx/allocator.cpp"])

p("C18", "FFT objects compute the DFT of their argument and nothing else",
  "FFT and multiple-FFT objects of every size, direction, dimension (1-3, row/column), element type (real-to-complex, complex-to-real, complex) and scale compute the defining scaled DFT sums (within floating-point error), so that scaled inverse after forward is the identity. Results are the same in place or out of place, by value or by reference, for any stride, layout, alignment, order or complex format of the arguments, on first and repeated use of the object, and out-of-place calls leave the input unchanged.",
  ["inputs","configurations","histories"],
  "every size/direction/type/scale/return-mode and every argument layout over repeated uses of the same object",
  "tests use a fixed grid of sizes with random data and one layout at a time; wrong workspace reuse, stride or scale handling depends on the combination",
  ["src/vsip/impl/signal/fft.hpp","src/ovxx/signal/fft.hpp","src/ovxx/signal/fft/workspace.hpp","src/ovxx/signal/fft/util.hpp","src/ovxx/signal/fft/dft.hpp","src/ovxx/fftw/fft.hpp","src/ovxx/fftw/fftw.cpp"])

p("C19", "Solver objects solve the system they last decomposed",
  "LU, Cholesky, QR and SVD objects, after decomposing a matrix, solve A*X=B, its transposed and Hermitian variants (and for QR the products with Q and solves with R and least squares; for SVD singular values, U and V and products with them) for the matrix most recently decomposed, however often and in whatever order solve calls and new decompositions are made. Copies are independent of the original, inputs other than the documented outputs are unchanged, decomposition failure (singular for LU, not positive definite for Cholesky and Toeplitz) is reported, and the function forms (covsol, llsqsol, toepsol, lusol...) agree with the object forms for any argument layout.",
  ["histories","inputs","configurations"],
  "every matrix size, right-hand side, transposition mode, upper/lower mode, call history and argument layout, real and complex",
  "tests decompose once and solve once per mode with well-behaved data; object reuse, copy and layout combinations are not enumerated",
  ["src/ovxx/lapack/lu.hpp","src/ovxx/lapack/cholesky.hpp","src/ovxx/lapack/qr.hpp","src/ovxx/lapack/svd.hpp","src/vsip/impl/solver/lu.hpp","src/vsip/impl/solver/qr.hpp","src/vsip/impl/solver/cholesky.hpp","src/vsip/impl/solver/toepsol.hpp"])

p("C20", "Matrix-vector functions compute their algebraic definition for any layout",
  "Dot and conjugate dot, outer, Kronecker, matrix and vector products (plain, transposed, Hermitian, conjugate, 3x3/4x4), generalised product and sum, transpose/Hermitian, vector-matrix multiply, cumulative sum and modulation compute exactly their algebraic definition for every conforming size, order, stride, storage format and element type. The result is independent of which backend is used and no argument other than the documented output changes.",
  ["inputs","configurations"],
  "every conforming shape, layout order, subview stride, complex format, operand conjugation/transposition",
  "tests compare a few shapes; BLAS dispatch depends on order/stride/format combinations, each needing its own leading-dimension and transposition bookkeeping",
  ["src/vsip/impl/matvec.hpp","src/vsip/impl/matvec_prod.hpp","src/vsip/impl/vmmul.hpp","src/ovxx/lapack/blas.hpp","src/ovxx/expr/vmmul.hpp"])

p("C21", "Serialisation descriptors describe the data and round-trip it",
  "Describing a direct-data-access object or a block's user storage yields a descriptor with the element type, complex format, dimensions and sizes of the data, such that every element of the view is found at the address the strides give. A descriptor is accepted as compatible exactly for dense block types of the same element type and number of dimensions whose dimension order matches the strides, if its format is one the type can have; binding such a block to a copy of the described storage restores every element. Incompatible descriptors are rejected.",
  ["inputs","configurations"],
  "every element type, dimension, size, layout order and storage format, and every single-field perturbation of a descriptor",
  "tests round-trip one block kind; rejection is a conjunction over every field",
  ["src/vsip/serialization.hpp"])

p("C22", "Numeric accuracy of transcendental functions and windows",
  "Transcendental element-wise functions and window generators (Blackman, Chebyshev, Hanning, Kaiser) are accurate to a few units in the last place of the mathematically defined values for every argument.",
  ["inputs"],
  "every argument in the functions' domains",
  "tests compare selected arguments with tolerances",
  ["src/ovxx/signal/window.cpp","src/ovxx/math/scalar.hpp"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))

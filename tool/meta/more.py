prop("C01", "Matrix and Vector act as exact maps from positions to values",
    "A Matrix or Vector acts as a map from positions to values over any history of calls. setElement, removeElement, hasElement, extractElement, clear, build, construction, copying, assignment and comparison do to it exactly what they do to a map, at the position named and nowhere else; build combines values of a repeated position in list order, later on the right; nvals is the number of stored positions. An index out of range raises IndexOutOfBoundsException, reading an empty position NoValueException, and a rejected call changes nothing.",
    "every size, every content and every history of calls; every scalar type; both platforms",
    "The tests run short fixed histories on containers of at most 12 rows; exact counts, out-of-range indices and repeated positions are hardly sampled.",
    ["src/graphblas/Matrix.hpp", "src/graphblas/Vector.hpp"] + pf("LilSparseMatrix.hpp", "BitmapSparseVector.hpp"),
    [("element access, build, counts", "LilSparseMatrix.hpp, BitmapSparseVector.hpp")], ["results and observable contents of Matrix and Vector"],
    over=("inputs", "histories"), technique=TECH + "; map model of each method, from an arbitrary well-formed state",
    note="Each method is analysed from an arbitrary well-formed state, which gives every history by induction. Resizing, tuple extraction and printing are not covered. Trusts clang's AST and the models of std containers.")
prop("S01", "Scalars keep their declared types between storage, operators and output",
    "In every operation on containers of different scalar types, a stored value reaches a user operator, an accumulator or the output converted at most once, directly from the type it was stored or returned in to the type the receiver declares. No intermediate container or variable squeezes it through an unrelated type on the way.",
    "every combination of scalar types and every operation", "The tests use one scalar type per call, almost always double, where every such conversion is the identity.",
    ["src/graphblas/operations.hpp"] + pf("sparse_helpers.hpp", "sparse_mxm.hpp", "sparse_ewiseadd.hpp", "sparse_ewisemult.hpp", "sparse_assign.hpp"),
    [("temporaries' scalar types", "sparse_*.hpp: TScalarType, ZScalarType, D3ScalarType")], ["arguments of the operators, stored values of the output"], over=("programs", "configurations"),
    technique=TECH + "; provenance and conversion chain of every value", note="Drivers use five different scalar types per call, so that each conversion shows in the types. Decides conversions on the analysed paths (inputs stored at the distinguished cell); says nothing about arithmetic inside user operators.")
prop("D01", "Mismatched dimensions are rejected before anything changes",
    "A call whose containers do not fit together raises DimensionException and leaves every argument as it was. This covers every pair of dimensions an operation requires to agree: output with mask, output with inputs (plain or transposed), inner dimensions, products of dimensions in the Kronecker product, index-list lengths with the dimension they replace. With AllIndices an extract takes what is there and an assign accepts a source no larger than its destination.",
    "every operation, every dimension of every argument, all sizes, both platforms",
    "The tests try a few mismatches of a few operations; an unchecked dimension ends in silent memory corruption, not in a failed test.",
    ["src/graphblas/operations.hpp", "src/graphblas/detail/checks.hpp"], [("dimension checks", "src/graphblas/detail/checks.hpp check_*"), ("calls of the checks", "src/graphblas/operations.hpp")],
    ["exceptions raised by the operations, arguments after a rejected call"], over=("inputs", "programs", "configurations"),
    technique=TECH + "; one dimension at a time given a size of its own",
    note="For every argument and dimension that must equal another one, that dimension alone is made different; every path must end in DimensionException with all arguments unchanged. Trusts clang's AST and the models of std containers.")
prop("I01", "Out-of-range indices are rejected before anything changes",
    "An extract or assign whose index list holds an entry out of range raises IndexOutOfBoundsException, and one whose row or column index is out of range raises InvalidIndexException, wherever the entry stands in the list; no argument is changed and no element outside a container is touched.",
    "every index list and position in it, all sizes and contents, every mask, accumulator and output control, both platforms",
    "The tests place a bad index in a few lists; an unchecked variant reads or writes out of bounds without failing a test.",
    ["src/graphblas/operations.hpp", "src/graphblas/detail/checks.hpp"] + pf("sparse_extract.hpp", "sparse_assign.hpp", "sparse_helpers.hpp"),
    [("check_index_array_content", "sparse_helpers.hpp"), ("check_index_within_*", "src/graphblas/detail/checks.hpp")],
    ["exceptions raised by extract and assign, arguments after a rejected call"], over=("inputs", "configurations"),
    technique=TECH + "; one index equal to the size of its dimension",
    note="The distinguished entry of an index list (any entry, by symmetry), or the row or column index, equals the size of its dimension; the other entries are arbitrary valid ones. Trusts clang's AST and the models of std containers.")
prop("Y01", "One object may serve as output, input and mask of the same call",
    "An operation gives the same result when the output is also one of its inputs or its mask, or two of its inputs are the same object, as it gives for separate copies: every value it reads from the shared object is the one held before the call.",
    "every operation, every pair of roles, all sizes and contents, every mask kind, accumulator and output control, both platforms",
    "The tests pass one object twice in a handful of calls; an operation that starts writing its output too early differs only then.",
    ["src/graphblas/operations.hpp"] + pf("sparse_mxm.hpp", "sparse_mxv.hpp", "sparse_vxm.hpp", "sparse_ewiseadd.hpp", "sparse_ewisemult.hpp", "sparse_apply.hpp", "sparse_assign.hpp", "sparse_transpose.hpp", "sparse_helpers.hpp") + [BOTH[1] + f for f in ("sparse_mxm_AB.hpp", "sparse_mxm_ABT.hpp", "sparse_mxm_ATB.hpp", "sparse_mxm_ATBT.hpp")],
    [("copies made when the output is also an input", "sparse_mxm_*.hpp"), ("results computed aside before the output is written", "sparse_*.hpp")],
    ["output of the operations"], over=("inputs", "programs", "configurations"),
    technique=TECH + "; two parameters bound to one object",
    note="All scalars have one type here. Calls that would make both dimensions of the shared matrix one index space (e.g. C = C' or C = A*C with C also on the left) are not covered, nor are index lists. Trusts clang's AST and the models of std containers.")
# further properties
prop("Z01", "Graph algorithms return the mathematically correct answer",
    "Every algorithm of the library (traversals, shortest paths, centralities, clusterings, triangle counts, page rank, spanning trees, independent sets, flows, metrics) returns the result its definition gives for every graph.",
    "every graph", "The tests run each algorithm on a handful of small graphs.",
    ["src/algorithms/"], [("algorithms", "src/algorithms/*.hpp")],
    na="Correctness of an iterative algorithm quantifies over run-time values and iteration counts; no sound static argument in reach bounds them.")
prop("Z02", "Both platforms give the same numeric results up to rounding",
    "For every program, the two platforms give the same result up to the association of floating-point sums.",
    "every program", "The tests run each platform alone, against fixed expectations.",
    ["src/graphblas/platforms/"], [("platforms", "src/graphblas/platforms/*")], over=("programs",),
    na="Rounding of sums depends on run-time values; that both platforms compute the same terms is what M01-K01 decide on each of them.")

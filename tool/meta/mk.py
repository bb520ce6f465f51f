#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
root = os.path.abspath(os.path.join(os.path.dirname(__file__), "..", ".."))
P = "src/graphblas/platforms/"
BOTH = [P + "sequential/", P + "optimized_sequential/"]
def pf(*names):
    return [b + n for b in BOTH for n in names]

TECH = "abstract interpretation of the instantiated clang AST (one distinguished cell per index space, provenance terms as values)"
LAWNOTE = ("Decides, for all sizes and contents at once, the cell of the output at one arbitrary position; both platforms, all mask kinds, with and without accumulator, "
           "plain and transposed inputs. Assumes pure operators and well-formed inputs; trusts clang's AST and the models of std containers. "
           "Configurations the analysis cannot follow are reported as undecided in the evidence, never as violations. Quick uses a covering subset of the configurations, thorough all.")
MASKED = "every scalar type, operator, semiring or monoid, every size, sparsity pattern and mask, both output controls, both platforms"
TESTS = "The tests compare hand-made matrices of at most 12 rows with fixed arithmetic semirings; they do not vary pattern, mask truth, output contents, accumulation, types and output control independently."

props = []
def prop(id, title, statement, qtext, why, files, mech, observe=None, over=("inputs",), technique=None, level="other", note=None, na=None):
    props.append(dict(id=id, title=title, statement=statement, qtext=qtext, why=why, files=files, mech=mech, observe=observe, over=list(over), technique=technique, level=level, note=note, na=na))

def law(id, title, statement, files, mech, observe, why=TESTS, q=MASKED):
    prop(id, title, statement, q, why, files, mech, observe, over=("inputs", "configurations", "programs"), technique=TECH, note=LAWNOTE)

law("M01", "Matrix product: every cell obeys the masked, accumulated definition",
    "After a matrix product with an optional mask, accumulator, input transposes and output control, every cell of the output holds exactly what the mathematical definition gives: the sum over the inner index of mult(left, right) with the operands in that order, accumulated with the previous value where an accumulator is given, written only where the mask (by value, structure or complement) allows, and kept or deleted elsewhere as the output control says. Cells for which no pair of stored elements meets are not stored. The stored-value count, the order inside rows and the inputs stay consistent.",
    ["src/graphblas/operations.hpp"] + pf("sparse_mxm.hpp", "sparse_helpers.hpp") + [BOTH[1] + f for f in ("sparse_mxm_AB.hpp", "sparse_mxm_ABT.hpp", "sparse_mxm_ATB.hpp", "sparse_mxm_ATBT.hpp")],
    [("axpy/dot kernels", "sparse_helpers.hpp"), ("mask application and output control", "sparse_helpers.hpp write_with_opt_mask, masked_merge"), ("dispatch by transpose, mask and accumulator", "sparse_mxm.hpp")],
    ["output matrix of grb::mxm"])
law("M02", "Matrix-vector and vector-matrix products obey the definition at every index",
    "After a matrix-vector or vector-matrix product, every element of the output vector holds the semiring sum over the inner index of mult(left operand, right operand), in that operand order whether or not the matrix is passed transposed, accumulated, masked and merged or replaced as requested. Indices that no pair of stored elements reaches are not stored, and the stored-value count stays exact.",
    ["src/graphblas/operations.hpp"] + pf("sparse_mxv.hpp", "sparse_vxm.hpp", "sparse_helpers.hpp"),
    [("dot, axpy and axpy_rev", "sparse_helpers.hpp"), ("mask application", "sparse_helpers.hpp write_with_opt_mask_1D")], ["output vector of grb::mxv and grb::vxm"])
law("E01", "Element-wise add is a union and element-wise multiply an intersection",
    "Element-wise addition stores op(a, b) where both inputs store a value and the single stored value elsewhere; element-wise multiplication stores op(a, b) exactly where both do. The result is accumulated, masked and merged or replaced as requested, for vectors and for matrices in every combination of transposed inputs, and the operands reach the operator in their given order.",
    ["src/graphblas/operations.hpp"] + pf("sparse_ewisemult.hpp", "sparse_ewiseadd.hpp", "sparse_helpers.hpp"),
    [("ewise_or, ewise_and merges", "sparse_helpers.hpp")], ["outputs of grb::eWiseAdd and grb::eWiseMult"])
law("X01", "Extract copies exactly the selected elements to the selected positions",
    "Extracting from a vector, a matrix (plain or transposed) or one of its columns puts at each output position the stored value found at the index the index list names for it, and nothing where none is stored; index lists may be unsorted and may repeat. The result is accumulated, masked and merged or replaced as requested.",
    ["src/graphblas/operations.hpp", "src/graphblas/indices.hpp"] + pf("sparse_extract.hpp", "sparse_helpers.hpp"),
    [("vectorExtract, matrixExtract", "sparse_extract.hpp")], ["output of grb::extract"])
law("A01", "Assign changes exactly the selected region",
    "Assigning a vector, matrix or constant to an index region makes each selected position hold the corresponding source value (or be empty where the source is), accumulates with the previous value where an accumulator is given, and leaves every unselected position with its previous value unless the mask under replace deletes it. Index lists may be unsorted; assigning a row or a column touches no other row or column.",
    ["src/graphblas/operations.hpp", "src/graphblas/indices.hpp"] + pf("sparse_assign.hpp", "sparse_helpers.hpp"),
    [("vectorExpand, matrixExpand, assignConstant", "sparse_assign.hpp"), ("ewise_or_stencil", "sparse_helpers.hpp")], ["output of grb::assign"])
law("U01", "Apply maps every stored value and nothing else",
    "Applying a unary operator, or a binary operator with one bound scalar on its left or right, gives each stored input value's image at the same position and nothing elsewhere. The bound scalar stays on its side, and the result is accumulated, masked and merged or replaced as requested, for vectors and for plain and transposed matrices.",
    ["src/graphblas/operations.hpp"] + pf("sparse_apply.hpp", "sparse_helpers.hpp"),
    [("apply variants", "sparse_apply.hpp")], ["output of grb::apply"])
law("R01", "Reduce combines each stored value of its row (or all) exactly once",
    "Reducing a matrix (plain or transposed) to a vector gives each non-empty row the monoid sum of its stored values, each counted once, and gives empty rows nothing; reducing a matrix or vector to a scalar combines all stored values. The result is accumulated, and for vectors masked and merged or replaced, as requested.",
    ["src/graphblas/operations.hpp"] + pf("sparse_reduce.hpp", "sparse_helpers.hpp"),
    [("reduce variants", "sparse_reduce.hpp"), ("reduction of one row", "sparse_helpers.hpp")], ["output of grb::reduce"])
law("T01", "Transpose moves every element to its mirrored position",
    "Transposing stores the value at (i, j) of the input at (j, i) of the output, for every stored element and nothing else, and transposing a transposed view copies it. The result is accumulated, masked and merged or replaced as requested.",
    ["src/graphblas/operations.hpp", "src/graphblas/TransposeView.hpp"] + pf("sparse_transpose.hpp", "TransposeView.hpp", "sparse_helpers.hpp"),
    [("transpose", "sparse_transpose.hpp")], ["output of grb::transpose"])
law("K01", "Kronecker product: every block cell is the product of its two factors",
    "The Kronecker product stores op(a(i,j), b(k,l)) at row i*rows(b)+k and column j*cols(b)+l exactly where both factors are stored, with transposed factors where requested. The result is accumulated, masked and merged or replaced as requested.",
    ["src/graphblas/operations.hpp"] + pf("sparse_kronecker.hpp", "sparse_helpers.hpp"),
    [("kronecker", "sparse_kronecker.hpp")], ["output of grb::kronecker"])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more.py")).read())

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p in props:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")

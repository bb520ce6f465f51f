From 7444b409db8428ffd6bde26d7cb3835145231c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 01/10] fix: mxv with a transposed matrix must call mult(A, u),
 not mult(u, A)

---
 .../optimized_sequential/sparse_helpers.hpp   | 38 +++++++++++++++++++
 .../optimized_sequential/sparse_mxv.hpp       |  2 +-
 .../platforms/sequential/sparse_helpers.hpp   | 38 +++++++++++++++++++
 .../platforms/sequential/sparse_mxv.hpp       |  2 +-
 4 files changed, 78 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
index 831714b..3e1886f 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
@@ -1408,6 +1408,44 @@ namespace grb
             GRB_LOG_FN_END("axpy");
         }
 
+        // *******************************************************************
+        /// Same as axpy() but the scalar is the right-hand operand of mult
+        /// (the order matters when mult is not commutative).
+        ///
+        /// c += b[:]*a_k
+        template<typename CScalarT,
+                 typename SemiringT,
+                 typename AScalarT,
+                 typename BScalarT>
+        void axpy_rev(
+            std::vector<std::tuple<IndexType, CScalarT>>       &c,
+            SemiringT                                           semiring,
+            AScalarT                                            a,
+            std::vector<std::tuple<IndexType, BScalarT>> const &b)
+        {
+            GRB_LOG_FN_BEGIN("axpy_rev");
+            auto c_it = c.begin();
+
+            for (auto&& [j, b_j] : b)
+            {
+                auto t_j(semiring.mult(b_j, a));
+
+                // scan through C_row to find insert/merge point
+                if (advance_and_check_tuple_iterator(c_it, c.end(), j))
+                {
+                    std::get<1>(*c_it) = semiring.add(std::get<1>(*c_it), t_j);
+                    ++c_it;
+                }
+                else
+                {
+                    c_it = c.insert(c_it,
+                                    std::make_tuple(j, static_cast<CScalarT>(t_j)));
+                    ++c_it;
+                }
+            }
+            GRB_LOG_FN_END("axpy_rev");
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
index 9014a7a..7988ec6 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
@@ -142,7 +142,7 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy_rev(t, op, u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
diff --git a/src/graphblas/platforms/sequential/sparse_helpers.hpp b/src/graphblas/platforms/sequential/sparse_helpers.hpp
index 831714b..3e1886f 100644
--- a/src/graphblas/platforms/sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/sequential/sparse_helpers.hpp
@@ -1408,6 +1408,44 @@ namespace grb
             GRB_LOG_FN_END("axpy");
         }
 
+        // *******************************************************************
+        /// Same as axpy() but the scalar is the right-hand operand of mult
+        /// (the order matters when mult is not commutative).
+        ///
+        /// c += b[:]*a_k
+        template<typename CScalarT,
+                 typename SemiringT,
+                 typename AScalarT,
+                 typename BScalarT>
+        void axpy_rev(
+            std::vector<std::tuple<IndexType, CScalarT>>       &c,
+            SemiringT                                           semiring,
+            AScalarT                                            a,
+            std::vector<std::tuple<IndexType, BScalarT>> const &b)
+        {
+            GRB_LOG_FN_BEGIN("axpy_rev");
+            auto c_it = c.begin();
+
+            for (auto&& [j, b_j] : b)
+            {
+                auto t_j(semiring.mult(b_j, a));
+
+                // scan through C_row to find insert/merge point
+                if (advance_and_check_tuple_iterator(c_it, c.end(), j))
+                {
+                    std::get<1>(*c_it) = semiring.add(std::get<1>(*c_it), t_j);
+                    ++c_it;
+                }
+                else
+                {
+                    c_it = c.insert(c_it,
+                                    std::make_tuple(j, static_cast<CScalarT>(t_j)));
+                    ++c_it;
+                }
+            }
+            GRB_LOG_FN_END("axpy_rev");
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/sequential/sparse_mxv.hpp b/src/graphblas/platforms/sequential/sparse_mxv.hpp
index 9014a7a..7988ec6 100644
--- a/src/graphblas/platforms/sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxv.hpp
@@ -142,7 +142,7 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy_rev(t, op, u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
-- 
2.43.0


From 7e93dc6b55f6812d18424a5bca4f940d40e5d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 02/10] fix: mxm with both inputs transposed must call mult(A,
 B), not mult(B, A)

---
 .../optimized_sequential/sparse_mxm_ATBT.hpp  | 20 +++++++++----------
 .../platforms/sequential/sparse_mxm.hpp       |  4 ++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index b212a57..87b5054 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -76,8 +76,8 @@ namespace grb
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -236,8 +236,8 @@ namespace grb
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -335,8 +335,8 @@ namespace grb
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -432,8 +432,8 @@ namespace grb
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -530,8 +530,8 @@ namespace grb
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
diff --git a/src/graphblas/platforms/sequential/sparse_mxm.hpp b/src/graphblas/platforms/sequential/sparse_mxm.hpp
index f34cbdf..9f405f3 100644
--- a/src/graphblas/platforms/sequential/sparse_mxm.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxm.hpp
@@ -281,8 +281,8 @@ namespace grb
                 {
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, op, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, op, b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
-- 
2.43.0


From 7317e572230082b2f1e82d772923500e568cfbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 03/10] fix: optimized mxm A'*B' must not convert elements of B
 to the scalar type of A

---
 .../platforms/optimized_sequential/sparse_mxm_ATBT.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index 87b5054..5d1ffaf 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -72,7 +72,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -232,7 +232,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -331,7 +331,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -428,7 +428,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
@@ -526,7 +526,7 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-- 
2.43.0


From ddccc6e26c065809ed419565fac4a4ff6c1a02af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 04/10] fix: mxm A'*B' must not convert the product to the
 output's scalar type before accumulating

---
 src/graphblas/platforms/sequential/sparse_mxm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphblas/platforms/sequential/sparse_mxm.hpp b/src/graphblas/platforms/sequential/sparse_mxm.hpp
index 9f405f3..a8b6b8e 100644
--- a/src/graphblas/platforms/sequential/sparse_mxm.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxm.hpp
@@ -290,7 +290,7 @@ namespace grb
                 {
                     IndexType j(std::get<0>(t));
 
-                    T[j].emplace_back(i, static_cast<CScalarType>(std::get<1>(t)));
+                    T[j].emplace_back(i, std::get<1>(t));
                 }
             }
 
-- 
2.43.0


From 572122aaae245faec3790038eca73433d960538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 05/10] fix: optimized mxm A*B' must clear the output rows of
 empty rows of A

---
 .../platforms/optimized_sequential/sparse_mxm_ABT.hpp       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 67c86bf..093f04e 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -70,7 +70,11 @@ namespace grb
             for (IndexType i = 0; i < A.nrows(); ++i)
             {
                 C_row.clear();
-                if (A[i].empty()) continue;
+                if (A[i].empty())
+                {
+                    C.setRow(i, C_row);  // nothing contributes to this row.
+                    continue;
+                }
 
                 // fill row i of T
                 for (IndexType j = 0; j < B.nrows(); ++j)
-- 
2.43.0


From 3218dfe2d331c45cb6ba8d9b5cfe7e73c3e28598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 06/10] fix: assign of a constant to unsorted indices must keep
 the output sorted

---
 .../platforms/optimized_sequential/sparse_assign.hpp   | 10 ++++++++++
 src/graphblas/platforms/sequential/sparse_assign.hpp   | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
index 94880b4..307437c 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
@@ -236,6 +236,11 @@ namespace grb
                     out_row.emplace_back(*col_it, value);
                 }
 
+                // columns can be in any order but rows must be sorted
+                std::sort(out_row.begin(), out_row.end(),
+                          [](auto const &t1, auto const &t2)
+                          { return std::get<0>(t1) < std::get<0>(t2); });
+
                 // @todo: add bounds check
                 if (!out_row.empty())
                     T.setRow(*row_it, out_row);
@@ -514,6 +519,11 @@ namespace grb
             for (auto it = seq.begin(); it != seq.end(); ++it)
                 t.emplace_back(*it, val);
 
+            // indices can be in any order but t must be sorted
+            std::sort(t.begin(), t.end(),
+                      [](auto const &t1, auto const &t2)
+                      { return std::get<0>(t1) < std::get<0>(t2); });
+
             GRB_LOG_VERBOSE("t: " << t);
 
             // =================================================================
diff --git a/src/graphblas/platforms/sequential/sparse_assign.hpp b/src/graphblas/platforms/sequential/sparse_assign.hpp
index 94880b4..307437c 100644
--- a/src/graphblas/platforms/sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/sequential/sparse_assign.hpp
@@ -236,6 +236,11 @@ namespace grb
                     out_row.emplace_back(*col_it, value);
                 }
 
+                // columns can be in any order but rows must be sorted
+                std::sort(out_row.begin(), out_row.end(),
+                          [](auto const &t1, auto const &t2)
+                          { return std::get<0>(t1) < std::get<0>(t2); });
+
                 // @todo: add bounds check
                 if (!out_row.empty())
                     T.setRow(*row_it, out_row);
@@ -514,6 +519,11 @@ namespace grb
             for (auto it = seq.begin(); it != seq.end(); ++it)
                 t.emplace_back(*it, val);
 
+            // indices can be in any order but t must be sorted
+            std::sort(t.begin(), t.end(),
+                      [](auto const &t1, auto const &t2)
+                      { return std::get<0>(t1) < std::get<0>(t2); });
+
             GRB_LOG_VERBOSE("t: " << t);
 
             // =================================================================
-- 
2.43.0


From c6618fe62e283c7280caf9a7a235bc3129674c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 07/10] fix: element-wise A op B' must keep the elements of B
 in B's scalar type

---
 .../platforms/optimized_sequential/sparse_ewiseadd.hpp          | 2 +-
 .../platforms/optimized_sequential/sparse_ewisemult.hpp         | 2 +-
 src/graphblas/platforms/sequential/sparse_ewiseadd.hpp          | 2 +-
 src/graphblas/platforms/sequential/sparse_ewisemult.hpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
-- 
2.43.0


From 2db4235c595ed2b51883e9c37434b3d8efc4f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 08/10] fix: Vector(size, value) must count the elements it
 stores

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp       | 2 +-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7b31755..5592eca 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -79,7 +79,7 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7b31755..5592eca 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -79,7 +79,7 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
-- 
2.43.0


From 6bb1450395a89dc0c9d01ae5de034c6d7a94943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 09/10] fix: Vector::build must count a repeated index once

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp     | 4 +++-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 5592eca..ebcb852 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -340,6 +340,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored(0);
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -358,12 +359,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 5592eca..ebcb852 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -340,6 +340,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored(0);
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -358,12 +359,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
-- 
2.43.0


From 5f05c0c9bb448679a1186be164c583f450f341b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 10/10] fix: assign with AllIndices rejects a source larger
 than its destination

The size checks accept AllIndices without comparing anything, so a source
larger than the destination was written past the end of the destination.
---
 src/graphblas/detail/checks.hpp | 16 ++++++++++++++++
 src/graphblas/operations.hpp    | 10 ++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/graphblas/detail/checks.hpp b/src/graphblas/detail/checks.hpp
index 84a920e..0e6872e 100644
--- a/src/graphblas/detail/checks.hpp
+++ b/src/graphblas/detail/checks.hpp
@@ -258,6 +258,22 @@ namespace grb
 
     // ================================================
 
+    /// With AllIndices a source can be no larger than its destination.
+    template <typename S>
+    void check_source_within_all(IndexType src_dim, IndexType dst_dim,
+                                 const S &s, const std::string &msg)
+    {
+    };
+
+    inline void check_source_within_all(IndexType src_dim, IndexType dst_dim,
+                                        const grb::AllIndices &s,
+                                        const std::string &msg)
+    {
+        check_index_val_leq(src_dim, dst_dim, "source dim <= dest dim", msg);
+    };
+
+    // ================================================
+
     template <typename M>
     void check_index_within_ncols(IndexType val, const M &m,
                                   const std::string &msg)
diff --git a/src/graphblas/operations.hpp b/src/graphblas/operations.hpp
index e879fbc..cd517f5 100644
--- a/src/graphblas/operations.hpp
+++ b/src/graphblas/operations.hpp
@@ -502,6 +502,8 @@ namespace grb
         check_size_size(w, mask, "assign(std vec): w.size != mask.size");
         check_size_nindices(u, indices,
                             "assign(std vec): u.size != |indicies|");
+        check_source_within_all(u.size(), w.size(), indices,
+                                "assign(std vec): u.size > w.size");
 
         backend::assign(get_internal_vector(w),
                         get_internal_vector(mask),
@@ -545,6 +547,10 @@ namespace grb
                              "assign(std mat): A.nrows != |row_indices|");
         check_ncols_nindices(A, col_indices,
                              "assign(std mat): A.ncols != |col_indices|");
+        check_source_within_all(A.nrows(), C.nrows(), row_indices,
+                                "assign(std mat): A.nrows > C.nrows");
+        check_source_within_all(A.ncols(), C.ncols(), col_indices,
+                                "assign(std mat): A.ncols > C.ncols");
 
         backend::assign(get_internal_matrix(C),
                         get_internal_matrix(Mask),
@@ -584,6 +590,8 @@ namespace grb
         check_size_nrows(mask, C, "assign(col): C.nrows != mask.size");
         check_size_nindices(u, row_indices,
                             "assign(col): u.size != |row_indices|");
+        check_source_within_all(u.size(), C.nrows(), row_indices,
+                                "assign(col): u.size > C.nrows");
         check_index_within_ncols(col_index, C,
                                  "assign(col): col_index >= C.ncols");
 
@@ -624,6 +632,8 @@ namespace grb
         check_size_ncols(mask, C, "assign(row): C.ncols != Mask.ncols");
         check_size_nindices(u, col_indices,
                             "assign(row): u.size != |col_indices|");
+        check_source_within_all(u.size(), C.ncols(), col_indices,
+                                "assign(row): u.size > C.ncols");
         check_index_within_nrows(row_index, C,
                                  "assign(col): row_index >= C.nrows");
 
-- 
2.43.0


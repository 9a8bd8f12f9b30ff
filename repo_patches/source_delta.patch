From 2b8ace753f30d5baa2fb0347080669778f59668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 01/49] fix: scale the output by beta in products with a rank-0
 low-rank matrix

---
 .../htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp    | 4 ++++
 .../htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp   | 4 ++++
 .../lrmat/linalg/add_lrmat_matrix_product_row_major.hpp       | 4 ++++
 .../htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp   | 4 ++++
 .../htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp   | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
index a9a026d..ace1e58 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
@@ -28,6 +28,8 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             add_lrmat_matrix_product(transa, transb, CoefficientPrecision(1), A, V_B, CoefficientPrecision(0), AVBt);
             add_matrix_matrix_product('N', transb, alpha, AVBt, U_B, beta, C);
         }
+    } else {
+        scale(beta, C);
     }
 }
 
@@ -95,6 +97,8 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             C.get_V() = new_V;
             recompression(C);
         }
+    } else {
+        scale(beta, C.get_V());
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
index d921453..6c44410 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
@@ -29,6 +29,8 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, U, B, 0, UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else {
+        scale(beta, C);
     }
 }
 
@@ -103,6 +105,8 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else {
+        scale(beta, C.get_V());
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
index 434b68e..74690d4 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
@@ -3,6 +3,7 @@
 
 #include "../../../matrix/linalg/add_matrix_matrix_product_row_major.hpp"
 #include "../lrmat.hpp"
+#include <algorithm>
 #include <vector>
 
 namespace htool {
@@ -23,6 +24,9 @@ void add_lrmat_matrix_product_row_major(char transa, char transb, CoefficientPre
             add_matrix_matrix_product_row_major(transa, transb, CoefficientPrecision(1), U, in, CoefficientPrecision(0), a.data(), mu);
             add_matrix_matrix_product_row_major(transa, 'N', alpha, V, a.data(), beta, out, mu);
         }
+    } else {
+        int size = ((transa == 'N') ? A.nb_rows() : A.nb_cols()) * mu;
+        std::transform(out, out + size, out, [&beta](const CoefficientPrecision &c) { return (beta == CoefficientPrecision(0)) ? CoefficientPrecision(0) : beta * c; });
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
index bc34cd7..488a6f8 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
@@ -2,6 +2,7 @@
 #define HTOOL_LRMAT_LINALG_ADD_LRMAT_VECTOR_PRODUCT_HPP
 #include "../../../matrix/linalg/add_matrix_vector_product.hpp" // for add_...
 #include "../lrmat.hpp"                                         // for LowR...
+#include <algorithm>                                            // for transform
 #include <vector>                                               // for vector
 namespace htool {
 
@@ -20,6 +21,9 @@ void add_lrmat_vector_product(char trans, CoefficientPrecision alpha, const LowR
             add_matrix_vector_product<CoefficientPrecision>(trans, CoefficientPrecision(1.), U, in, 0, a.data());
             add_matrix_vector_product<CoefficientPrecision>(trans, alpha, V, a.data(), beta, out);
         }
+    } else {
+        int size = (trans == 'N') ? A.nb_rows() : A.nb_cols();
+        std::transform(out, out + size, out, [&beta](const CoefficientPrecision &c) { return (beta == CoefficientPrecision(0)) ? CoefficientPrecision(0) : beta * c; });
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
index b50a74a..5a2e07e 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
@@ -32,6 +32,8 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else {
+        scale(beta, C);
     }
 }
 
@@ -107,6 +109,8 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else {
+        scale(beta, C.get_V());
     }
 }
 
-- 
2.43.0


From 7cc8e6d351f8cd55e0efa8e339adab53acf31c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 02/49] fix: recompression of a rank-0 low-rank matrix calls
 Lapack with illegal arguments

---
 include/htool/hmatrix/lrmat/utils/recompression.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/htool/hmatrix/lrmat/utils/recompression.hpp b/include/htool/hmatrix/lrmat/utils/recompression.hpp
index 7e64e13..418cbe7 100644
--- a/include/htool/hmatrix/lrmat/utils/recompression.hpp
+++ b/include/htool/hmatrix/lrmat/utils/recompression.hpp
@@ -22,6 +22,10 @@ void recompression(LowRankMatrix<CoefficientPrecision> &lrmat) {
     auto rank                      = lrmat.rank_of();
     auto epsilon                   = lrmat.get_epsilon();
 
+    if (rank == 0) { // nothing to compress, and Lapack rejects empty factors
+        return;
+    }
+
     if (rank > std::min(U.nb_rows(), V.nb_cols())) {
         Matrix<CoefficientPrecision> UV(U.nb_rows(), V.nb_cols());
         add_matrix_matrix_product('N', 'N', CoefficientPrecision(1), U, V, CoefficientPrecision(1), UV);
-- 
2.43.0


From 25aa16416d8b7ab3540f9275559b5c4b18f8987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 03/49] fix: adding a rank-0 low-rank matrix to a hierarchical
 matrix calls Blas with illegal arguments

---
 include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
index 520d7b3..b387973 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
@@ -13,6 +13,9 @@ namespace htool {
 
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void internal_add_lrmat_hmatrix(const LowRankMatrix<CoefficientPrecision, CoordinatePrecision> &lrmat, HMatrix<CoefficientPrecision, CoordinatePrecision> &hmatrix) {
+    if (lrmat.rank_of() == 0) {
+        return;
+    }
     std::vector<HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves;
     preorder_tree_traversal(hmatrix, [&leaves](HMatrix<CoefficientPrecision, CoordinatePrecision> &current_node) {
         if (!current_node.is_hierarchical()) {
-- 
2.43.0


From 59750a0eaa858fba6172dccb840b6ee8a2da0d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 04/49] fix: apply beta in hierarchical products whose operands
 are not both hierarchical

---
 .../linalg/add_hmatrix_hmatrix_product.hpp    | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index 4a23020..2c31af7 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -275,30 +275,33 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
                 }
             }
         } else {
+            if (beta != CoefficientPrecision(1)) {
+                sequential_scale(beta, C);
+            }
             if (A.is_low_rank() || B.is_low_rank()) {
                 LowRankMatrix<CoefficientPrecision, CoordinatePrecision> lrmat(A.is_low_rank() ? A.get_low_rank_data()->get_epsilon() : B.get_low_rank_data()->get_epsilon());
 
                 if (A.is_dense() and B.is_low_rank()) {
-                    add_matrix_lrmat_product(transa, transb, alpha, *A.get_dense_data(), *B.get_low_rank_data(), beta, lrmat);
+                    add_matrix_lrmat_product(transa, transb, alpha, *A.get_dense_data(), *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_hierarchical() and B.is_low_rank()) {
-                    internal_add_hmatrix_lrmat_product(transa, transb, alpha, A, *B.get_low_rank_data(), beta, lrmat);
+                    internal_add_hmatrix_lrmat_product(transa, transb, alpha, A, *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_low_rank()) {
-                    add_lrmat_lrmat_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_low_rank_data(), beta, lrmat);
+                    add_lrmat_lrmat_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_dense()) {
-                    add_lrmat_matrix_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_dense_data(), beta, lrmat);
+                    add_lrmat_matrix_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_hierarchical()) {
-                    internal_add_lrmat_hmatrix_product(transa, transb, alpha, *A.get_low_rank_data(), B, beta, lrmat);
+                    internal_add_lrmat_hmatrix_product(transa, transb, alpha, *A.get_low_rank_data(), B, CoefficientPrecision(1), lrmat);
                 }
 
                 internal_add_lrmat_hmatrix(lrmat, C);
             } else {
                 LowRankMatrix<CoefficientPrecision, CoordinatePrecision> lrmat(C.get_epsilon());
                 if (A.is_dense() and B.is_dense()) {
-                    add_matrix_matrix_product(transa, transb, alpha, *A.get_dense_data(), *B.get_dense_data(), beta, lrmat);
+                    add_matrix_matrix_product(transa, transb, alpha, *A.get_dense_data(), *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_dense() and B.is_hierarchical()) {
-                    internal_add_matrix_hmatrix_product(transa, transb, alpha, *A.get_dense_data(), B, beta, lrmat);
+                    internal_add_matrix_hmatrix_product(transa, transb, alpha, *A.get_dense_data(), B, CoefficientPrecision(1), lrmat);
                 } else if (A.is_hierarchical() and B.is_dense()) {
-                    internal_add_hmatrix_matrix_product(transa, transb, alpha, A, *B.get_dense_data(), beta, lrmat);
+                    internal_add_hmatrix_matrix_product(transa, transb, alpha, A, *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 }
 
                 internal_add_lrmat_hmatrix(lrmat, C);
-- 
2.43.0


From 105fb958db9b96172e6fc75e24cb4ac9b1f83aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 05/49] fix: scale the output by beta in products of a
 hierarchical and a rank-0 low-rank matrix

---
 include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp | 4 ++++
 include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
index 9f64341..b4927c3 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
@@ -34,6 +34,8 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             internal_add_hmatrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else {
+        scale(beta, C);
     }
 }
 
@@ -110,6 +112,8 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else {
+        scale(beta, C.get_V());
     }
 }
 
diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
index eaccdf2..aea964f 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
@@ -29,6 +29,8 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             internal_add_matrix_hmatrix_product<CoefficientPrecision>(transa, transb, CoefficientPrecision(1), U, B, CoefficientPrecision(0), UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else {
+        scale(beta, C);
     }
 }
 
@@ -100,6 +102,8 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else {
+        scale(beta, C.get_V());
     }
 }
 
-- 
2.43.0


From d1eb05c8a6d940a8b5cda0917c16e60cacd36164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 06/49] fix: conjugate in products of a transposed dense matrix
 with a Hermitian hierarchical matrix

---
 .../htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
index b959315..31fbb8b 100644
--- a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
@@ -35,16 +35,17 @@ void internal_add_matrix_hmatrix_product(char transa, char transb, CoefficientPr
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     } else {
+        bool need_conj = transb == 'C' or (B.get_symmetry_for_leaves() == 'H' and transb == 'N');
         Matrix<CoefficientPrecision> transposed_A(A.nb_cols(), A.nb_rows());
         transpose(A, transposed_A);
-        if (transb == 'C') {
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
-        if ((transa == 'T' && transb == 'C') or (transa == 'C' and transb != 'C')) {
+        if ((transa == 'T' && need_conj) or (transa == 'C' and !need_conj)) {
             conj_if_complex(transposed_A.data(), transposed_A.nb_rows() * transposed_A.nb_cols());
         }
-        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', transb == 'C' ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), transb == 'C' ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
-        if (transb == 'C') {
+        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', need_conj ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), need_conj ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     }
-- 
2.43.0


From d0bb9ec7df934873ba80698c27c99a39515b913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 07/49] fix: triangular solve with a rank-0 low-rank right-hand
 side calls Blas with illegal arguments

---
 .../htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp b/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
index afb4ed5..623cb0e 100644
--- a/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
+++ b/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
@@ -9,6 +9,9 @@
 namespace htool {
 template <typename CoefficientPrecision, typename CoordinatePrecision = underlying_type<CoefficientPrecision>>
 void internal_triangular_hmatrix_lrmat_solve(char side, char UPLO, char transa, char diag, CoefficientPrecision alpha, const HMatrix<CoefficientPrecision, CoordinatePrecision> &A, LowRankMatrix<CoefficientPrecision, CoordinatePrecision> &B) {
+    if (B.rank_of() == 0) {
+        return;
+    }
     if (alpha != CoefficientPrecision(1)) {
         scale(alpha, B);
     }
-- 
2.43.0


From 0eea4f515cae248ba694458a9ac7e277fe325d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 08/49] fix: Cholesky factorization updates off-diagonal blocks
 with the wrong factor

---
 include/htool/hmatrix/linalg/factorization.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/linalg/factorization.hpp b/include/htool/hmatrix/linalg/factorization.hpp
index 6124716..6df4e2f 100644
--- a/include/htool/hmatrix/linalg/factorization.hpp
+++ b/include/htool/hmatrix/linalg/factorization.hpp
@@ -132,20 +132,22 @@ void cholesky_factorization(char UPLO, HMatrix<CoefficientPrecision, CoordinateP
                 for (auto &input_cluster_child : clusters) {
                     if (UPLO == 'L' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && output_cluster_child->get_offset() >= input_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
-                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *L = hmatrix.get_sub_hmatrix(*output_cluster_child, *cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *L_output = hmatrix.get_sub_hmatrix(*output_cluster_child, *cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *L_input = hmatrix.get_sub_hmatrix(*input_cluster_child, *cluster_child);
 
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'N', CoefficientPrecision(-1), *L, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L, *L, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L_output, *L_input, CoefficientPrecision(1), *A_child);
                         // }
                     } else if (UPLO == 'U' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() >= output_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
-                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *U = hmatrix.get_sub_hmatrix(*cluster_child, *input_cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *U_output = hmatrix.get_sub_hmatrix(*cluster_child, *output_cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *U_input = hmatrix.get_sub_hmatrix(*cluster_child, *input_cluster_child);
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'C', CoefficientPrecision(-1), *U, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *U, *U, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *U_output, *U_input, CoefficientPrecision(1), *A_child);
                         // }
                     }
                 }
-- 
2.43.0


From a7d8e608d5abd7563f57529f37f98cc330837c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 09/49] fix: triangular solve with a dense leaf and a rank-0
 right-hand side calls Blas with illegal arguments

---
 .../htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp b/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp
index 168a10f..a784c2c 100644
--- a/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp
+++ b/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp
@@ -171,6 +171,9 @@ void internal_triangular_hmatrix_hmatrix_solve(char side, char UPLO, char transa
             if (B.is_dense()) {
                 triangular_matrix_matrix_solve(side, UPLO, transa, diag, CoefficientPrecision(1), *A.get_dense_data(), *B.get_dense_data());
             } else if (B.is_low_rank()) {
+                if (B.get_low_rank_data()->rank_of() == 0) {
+                    return;
+                }
                 if (side == 'L' or side == 'l') {
                     triangular_matrix_matrix_solve('L', UPLO, transa, diag, CoefficientPrecision(1), *A.get_dense_data(), B.get_low_rank_data()->get_U());
                 } else {
-- 
2.43.0


From 218a283a5045f33c8cd298c7892e408c495aeaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 10/49] fix: converting a rank-0 low-rank matrix to dense calls
 Blas with an illegal argument

---
 include/htool/hmatrix/lrmat/lrmat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/lrmat/lrmat.hpp b/include/htool/hmatrix/lrmat/lrmat.hpp
index d4cc908..ab99eaf 100644
--- a/include/htool/hmatrix/lrmat/lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/lrmat.hpp
@@ -127,7 +127,7 @@ class LowRankMatrix {
         int K                      = m_U.nb_cols();
         CoefficientPrecision alpha = 1;
         int lda                    = m_U.nb_rows();
-        int ldb                    = m_V.nb_rows();
+        int ldb                    = std::max(1, m_V.nb_rows()); // Blas rejects zero, even for a rank-0 matrix
         CoefficientPrecision beta  = 0;
         int ldc                    = m_U.nb_rows();
 
-- 
2.43.0


From 6cc781094399d656eced887f21bc58c02c1d8079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 11/49] fix: bounding box of points with negative coordinates
 in ComputeBoundingBox

---
 include/htool/clustering/tree_builder/direction_computation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/clustering/tree_builder/direction_computation.hpp b/include/htool/clustering/tree_builder/direction_computation.hpp
index 9ee1c8c..976439c 100644
--- a/include/htool/clustering/tree_builder/direction_computation.hpp
+++ b/include/htool/clustering/tree_builder/direction_computation.hpp
@@ -63,7 +63,7 @@ class ComputeBoundingBox final : public VirtualDirectionComputationStrategy<T> {
 
         // min max for each axis
         std::vector<T> min_point(spatial_dimension, std::numeric_limits<T>::max());
-        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::min());
+        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::lowest());
         for (int j = 0; j < cluster->get_size(); j++) {
             std::vector<T> u(spatial_dimension, 0);
             for (int p = 0; p < spatial_dimension; p++) {
-- 
2.43.0


From 790da539b953ce7589af7f36a157ef60f5ad0b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 12/49] fix: cluster trees report the minimal cluster size they
 were built with

---
 include/htool/clustering/tree_builder/recursive_build.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/clustering/tree_builder/recursive_build.hpp b/include/htool/clustering/tree_builder/recursive_build.hpp
index 17d3442..ec00f5c 100644
--- a/include/htool/clustering/tree_builder/recursive_build.hpp
+++ b/include/htool/clustering/tree_builder/recursive_build.hpp
@@ -72,6 +72,7 @@ Cluster<T> ClusterTreeBuilder<T>::create_cluster_tree(int number_of_points, int
 
     Cluster<T> root_cluster(radius, center, -1, 0, number_of_points);
     std::vector<int> &permutation = root_cluster.get_permutation();
+    root_cluster.set_minclustersize(m_minclustersize);
 
     // Taking care of partition initialisation
     std::stack<Cluster<T> *> cluster_stack(std::deque<Cluster<T> *>{&root_cluster});
-- 
2.43.0


From 3e15bfbc1a3cde6f30b6478cfcf40435b6082788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 13/49] fix: principal direction of 2D points that are
 isotropic, symmetric or at a small scale

---
 include/htool/misc/evp.hpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/htool/misc/evp.hpp b/include/htool/misc/evp.hpp
index 95eb27b..39ae339 100644
--- a/include/htool/misc/evp.hpp
+++ b/include/htool/misc/evp.hpp
@@ -3,6 +3,8 @@
 
 #include "../basic_types/vector.hpp" // for dprod
 #include "../matrix/matrix.hpp"      // for Matrix
+#include <algorithm>                 // for max
+#include <cmath>                     // for hypot, sqrt, acos
 #include <limits>                    // for numeric_limits
 #include <vector>                    // for vector
 
@@ -16,27 +18,24 @@ std::vector<T> solve_EVP_2(const Matrix<T> &cov) {
     I(0, 0) = 1;
     I(1, 1) = 1;
     Matrix<T> prod(2, 2);
-    T trace = cov(0, 0) + cov(1, 1);
-    T det   = cov(0, 0) * cov(1, 1) - cov(0, 1) * cov(1, 0);
-    eigs[0] = trace / static_cast<T>(2.) + std::sqrt((trace * trace / static_cast<T>(4.) - det));
-    eigs[1] = trace / static_cast<T>(2.) - std::sqrt((trace * trace / static_cast<T>(4.) - det));
-    if (std::abs(eigs[0]) > std::numeric_limits<T>::epsilon()) {
+    T trace      = cov(0, 0) + cov(1, 1);
+    T difference = std::hypot((cov(0, 0) - cov(1, 1)) / static_cast<T>(2.), cov(0, 1));
+    eigs[0]      = trace / static_cast<T>(2.) + difference;
+    eigs[1]      = trace / static_cast<T>(2.) - difference;
+    if (std::abs(eigs[0]) > 0) {
 
+        // columns of prod are collinear to the first eigenvector, the largest one is the most accurate
         prod      = (cov - eigs[1] * I);
-        int ind   = 0;
-        T dirnorm = 0;
-        do {
-            dir[0]  = prod(0, ind);
-            dir[1]  = prod(1, ind);
-            dirnorm = std::sqrt(dir[0] * dir[0] + dir[1] * dir[1]);
-            ind++;
-        } while ((dirnorm < std::numeric_limits<T>::epsilon()) && (ind < 2));
-        if (dirnorm < std::numeric_limits<T>::epsilon()) {
+        T norm0   = std::hypot(prod(0, 0), prod(1, 0));
+        T norm1   = std::hypot(prod(0, 1), prod(1, 1));
+        int ind   = norm0 >= norm1 ? 0 : 1;
+        T dirnorm = std::max(norm0, norm1);
+        if (dirnorm <= std::numeric_limits<T>::epsilon() * std::abs(eigs[0])) {
             dir[0] = 1;
             dir[1] = 0;
         } else {
-            dir[0] /= dirnorm;
-            dir[1] /= dirnorm;
+            dir[0] = prod(0, ind) / dirnorm;
+            dir[1] = prod(1, ind) / dirnorm;
         }
     }
     return dir;
-- 
2.43.0


From b19c617c3385feb9a876158eff743a3076a92a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 14/49] fix: principal direction of 3D points with a multiple
 principal variance or at a small scale

---
 include/htool/misc/evp.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/htool/misc/evp.hpp b/include/htool/misc/evp.hpp
index 39ae339..b905bf2 100644
--- a/include/htool/misc/evp.hpp
+++ b/include/htool/misc/evp.hpp
@@ -42,8 +42,15 @@ std::vector<T> solve_EVP_2(const Matrix<T> &cov) {
 }
 
 template <typename T>
-std::vector<T> solve_EVP_3(const Matrix<T> &cov) {
+std::vector<T> solve_EVP_3(const Matrix<T> &original_cov) {
     std::vector<T> dir(3, 0);
+
+    // thresholds below are for a matrix of unit size
+    Matrix<T> cov = original_cov;
+    T trace       = cov(0, 0) + cov(1, 1) + cov(2, 2);
+    if (trace > 0) {
+        cov = (static_cast<T>(1) / trace) * original_cov;
+    }
     T p1 = std::pow(cov(0, 1), 2) + std::pow(cov(0, 2), 2) + std::pow(cov(1, 2), 2);
     std::vector<T> eigs(3);
     Matrix<T> I(3, 3);
@@ -132,10 +139,24 @@ std::vector<T> solve_EVP_3(const Matrix<T> &cov) {
                 imax = 1;
             }
             if (d2 > dmax) {
+                dmax = d2;
                 imax = 2;
             }
 
-            if (imax == 0) {
+            if (std::sqrt(dmax) <= static_cast<T>(100) * std::numeric_limits<T>::epsilon()) {
+                // multiple eigenvalue: prod has rank one, every vector orthogonal to its columns is an eigenvector
+                T n0         = col0[0] * col0[0] + col0[1] * col0[1] + col0[2] * col0[2];
+                T n1         = col1[0] * col1[0] + col1[1] * col1[1] + col1[2] * col1[2];
+                T n2         = col2[0] * col2[0] + col2[1] * col2[1] + col2[2] * col2[2];
+                const T *col = (n0 >= n1 && n0 >= n2) ? col0 : (n1 >= n2 ? col1 : col2);
+                if (std::abs(col[0]) >= std::abs(col[2])) {
+                    T norm = std::hypot(col[0], col[1]);
+                    dir    = {-col[1] / norm, col[0] / norm, 0};
+                } else {
+                    T norm = std::hypot(col[1], col[2]);
+                    dir    = {0, -col[2] / norm, col[1] / norm};
+                }
+            } else if (imax == 0) {
                 dir = c0xc1 / std::sqrt(d0);
             } else if (imax == 1) {
                 dir = c0xc2 / std::sqrt(d1);
-- 
2.43.0


From aaf5371f1cf83afbfc7409902c9a2a3ace8fa1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 15/49] fix: detect zero pivots of the ACA compressors relative
 to the block

---
 include/htool/hmatrix/lrmat/fullACA.hpp       | 2 +-
 include/htool/hmatrix/lrmat/partialACA.hpp    | 5 ++++-
 include/htool/hmatrix/lrmat/sympartialACA.hpp | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/lrmat/fullACA.hpp b/include/htool/hmatrix/lrmat/fullACA.hpp
index f8de95a..d569807 100644
--- a/include/htool/hmatrix/lrmat/fullACA.hpp
+++ b/include/htool/hmatrix/lrmat/fullACA.hpp
@@ -67,7 +67,7 @@ class fullACA final : public VirtualLowRankGenerator<CoefficientPrecision, Coord
             } else {
                 std::pair<int, int> ind    = argmax(mat);
                 CoefficientPrecision pivot = mat(ind.first, ind.second);
-                if (std::abs(pivot) < 1e-15) {
+                if (std::abs(pivot) <= 1e-15 * Norm) { // relative to the block, whose coefficients may all be small
                     q += -1;
                     break;
                 }
diff --git a/include/htool/hmatrix/lrmat/partialACA.hpp b/include/htool/hmatrix/lrmat/partialACA.hpp
index d8262ee..c73126a 100644
--- a/include/htool/hmatrix/lrmat/partialACA.hpp
+++ b/include/htool/hmatrix/lrmat/partialACA.hpp
@@ -12,6 +12,7 @@
 #include <algorithm>                                            // for min
 #include <cmath>                                                // for sqrt
 #include <complex>                                              // for real
+#include <limits>                                               // for numeric_limits
 #include <string>                                               // for oper...
 #include <vector>                                               // for vector
 
@@ -76,6 +77,7 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
         underlying_type<CoefficientPrecision> frob = 0;
         underlying_type<CoefficientPrecision> aux  = 0;
         underlying_type<CoefficientPrecision> pivot, tmp;
+        underlying_type<CoefficientPrecision> max_pivot = std::numeric_limits<underlying_type<CoefficientPrecision>>::min(); // scale of the block, used to detect zero rows
         CoefficientPrecision coef;
         int incx(1), incy(1);
         std::vector<CoefficientPrecision> r(source_size), c(target_size);
@@ -120,7 +122,8 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
                 CoefficientPrecision gamma = CoefficientPrecision(1.) / r[J];
                 //==================//
                 // Look for a line
-                if (std::abs(r[J]) > 1e-15) {
+                if (q == 1 ? std::abs(r[J]) > max_pivot : std::abs(r[J]) > 1e-15 * max_pivot) {
+                    max_pivot = std::max(max_pivot, std::abs(r[J]));
                     std::fill(c.begin(), c.end(), CoefficientPrecision(0));
                     A.copy_submatrix(target_size, 1, target_offset, J + source_offset, c.data());
                     for (int k = 0; k < uu.size(); k++) {
diff --git a/include/htool/hmatrix/lrmat/sympartialACA.hpp b/include/htool/hmatrix/lrmat/sympartialACA.hpp
index 36e4575..e105c0f 100644
--- a/include/htool/hmatrix/lrmat/sympartialACA.hpp
+++ b/include/htool/hmatrix/lrmat/sympartialACA.hpp
@@ -12,6 +12,7 @@
 #include <algorithm>                                            // for min
 #include <cmath>                                                // for sqrt
 #include <complex>                                              // for real
+#include <limits>                                               // for numeric_limits
 #include <string>                                               // for to_s...
 #include <vector>                                               // for vector
 
@@ -93,6 +94,7 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
         underlying_type<CoefficientPrecision> aux  = 0;
 
         underlying_type<CoefficientPrecision> pivot, tmp;
+        underlying_type<CoefficientPrecision> max_pivot = std::numeric_limits<underlying_type<CoefficientPrecision>>::min(); // scale of the block, used to detect zero rows
         CoefficientPrecision coef;
         int incx(1), incy(1);
         std::vector<CoefficientPrecision> u1(n2), u2(n1);
@@ -137,7 +139,8 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
 
                 //==================//
                 // Look for a line
-                if (std::abs(u1[I2]) > 1e-15) {
+                if (q == 1 ? std::abs(u1[I2]) > max_pivot : std::abs(u1[I2]) > 1e-15 * max_pivot) {
+                    max_pivot = std::max(max_pivot, std::abs(u1[I2]));
                     std::fill(u2.begin(), u2.end(), CoefficientPrecision(0));
                     if (t.get_offset() >= s.get_offset()) {
                         A.copy_submatrix(n1, 1, i1, i2 + I2, u2.data());
-- 
2.43.0


From 9b2cf279369d892bb8af45f1aaef6c77ba19864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 16/49] fix: extract the whole diagonal when a leaf does not
 start on it

---
 include/htool/hmatrix/hmatrix.hpp | 34 ++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 314600e..7309b5b 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -388,15 +388,18 @@ void copy_diagonal(const HMatrix<CoefficientPrecision, CoordinatePrecision> &hma
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset() - target_offset;
         int offset_j = leaf->get_source_cluster().get_offset() - source_offset;
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (*leaf->get_dense_data())(k, k);
+        // part of the diagonal in this leaf, which does not have to start at its first row and column
+        int diagonal_begin = std::max(offset_i, offset_j);
+        int diagonal_end   = std::min(offset_i + local_nr, offset_j + local_nc);
+        if (leaf->is_dense()) {
+            for (int k = diagonal_begin; k < diagonal_end; k++) {
+                ptr[k] = (*leaf->get_dense_data())(k - offset_i, k - offset_j);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        } else if (leaf->is_low_rank() && diagonal_begin < diagonal_end) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (low_rank_to_dense)(k, k);
+            for (int k = diagonal_begin; k < diagonal_end; k++) {
+                ptr[k] = low_rank_to_dense(k - offset_i, k - offset_j);
             }
         }
     }
@@ -428,15 +431,18 @@ void copy_diagonal_in_user_numbering(const HMatrix<CoefficientPrecision, Coordin
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset();
         int offset_j = leaf->get_source_cluster().get_offset();
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (*leaf->get_dense_data())(k, k);
+        // part of the diagonal in this leaf, which does not have to start at its first row and column
+        int diagonal_begin = std::max(offset_i, offset_j);
+        int diagonal_end   = std::min(offset_i + local_nr, offset_j + local_nc);
+        if (leaf->is_dense()) {
+            for (int k = diagonal_begin; k < diagonal_end; k++) {
+                ptr[permutation[k] - target_offset] = (*leaf->get_dense_data())(k - offset_i, k - offset_j);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        } else if (leaf->is_low_rank() && diagonal_begin < diagonal_end) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (low_rank_to_dense)(k, k);
+            for (int k = diagonal_begin; k < diagonal_end; k++) {
+                ptr[permutation[k] - target_offset] = low_rank_to_dense(k - offset_i, k - offset_j);
             }
         }
     }
-- 
2.43.0


From aae2026431ec46793a3ab6f8a0691d3c38f10cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 17/49] fix: report the actual minimal block sizes of a
 hierarchical matrix

---
 include/htool/hmatrix/hmatrix_output.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix_output.hpp b/include/htool/hmatrix/hmatrix_output.hpp
index 0e7891d..f7cd034 100644
--- a/include/htool/hmatrix/hmatrix_output.hpp
+++ b/include/htool/hmatrix/hmatrix_output.hpp
@@ -142,7 +142,8 @@ std::map<std::string, std::string> get_hmatrix_information(const HMatrix<Coeffic
     // 0 : dense mat ; 1 : lr mat ; 2 : rank ; 3 : local_size
     std::array<std::size_t, 3> maxinfos = {0, 0, 0};
     std::array<double, 3> meaninfos     = {0, 0, 0};
-    std::array<std::size_t, 3> mininfos = {std::max(nb_cols, nb_rows), std::max(nb_cols, nb_rows), std::max(nb_cols, nb_rows)};
+    std::size_t total_size              = static_cast<std::size_t>(nb_rows) * nb_cols; // bound on the size and rank of any block
+    std::array<std::size_t, 3> mininfos = {total_size, total_size, total_size};
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> dense_blocks;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> low_rank_blocks;
     get_leaves(hmatrix, dense_blocks, low_rank_blocks);
-- 
2.43.0


From 41a7dfc0d35779e63b2a45402b9ea7f98b09560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 18/49] fix: compression ratio and space saving of matrices
 with more than 2^32 entries

---
 include/htool/hmatrix/hmatrix_distributed_output.hpp | 2 +-
 include/htool/hmatrix/hmatrix_output.hpp             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix_distributed_output.hpp b/include/htool/hmatrix/hmatrix_distributed_output.hpp
index 6f671eb..4fa55c1 100644
--- a/include/htool/hmatrix/hmatrix_distributed_output.hpp
+++ b/include/htool/hmatrix/hmatrix_distributed_output.hpp
@@ -38,7 +38,7 @@ std::map<std::string, std::string> get_distributed_hmatrix_information(const HMa
 
     unsigned int local_nb_rows = hmatrix.get_target_cluster().get_size();
     unsigned int local_nb_cols = hmatrix.get_source_cluster().get_size();
-    std::size_t local_size     = local_nb_cols * local_nb_rows;
+    std::size_t local_size     = static_cast<std::size_t>(local_nb_cols) * local_nb_rows;
 
     // 0 : dense mat size ; 1 : lr mat size ; 2 : rank ; 3 : nb_rows, 4: nb_cols
     std::array<std::size_t, 5> maxinfos = {0, 0, 0, local_nb_rows, local_nb_cols};
diff --git a/include/htool/hmatrix/hmatrix_output.hpp b/include/htool/hmatrix/hmatrix_output.hpp
index f7cd034..6dab5ed 100644
--- a/include/htool/hmatrix/hmatrix_output.hpp
+++ b/include/htool/hmatrix/hmatrix_output.hpp
@@ -206,8 +206,8 @@ std::map<std::string, std::string> get_hmatrix_information(const HMatrix<Coeffic
     hmatrix_information["Rank_min"]                  = std::to_string(mininfos[2]);
     hmatrix_information["Number_of_low_rank_blocks"] = std::to_string(low_rank_blocks.size());
     hmatrix_information["Number_of_dense_blocks"]    = std::to_string(dense_blocks.size());
-    hmatrix_information["Compression_ratio"]         = std::to_string((nb_rows * nb_cols) / number_of_generated_coefficient);
-    hmatrix_information["Space_saving"]              = std::to_string(1 - number_of_generated_coefficient / (nb_rows * nb_cols));
+    hmatrix_information["Compression_ratio"]         = std::to_string(total_size / number_of_generated_coefficient);
+    hmatrix_information["Space_saving"]              = std::to_string(1 - number_of_generated_coefficient / total_size);
 #if defined(_OPENMP)
     hmatrix_information["Number_of_threads"] = std::to_string(omp_get_max_threads());
 #endif
-- 
2.43.0


From 04e77b6d5be33e5265b097f5c889d7935cd6d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 19/49] fix: streaming a vector writes its elements to the
 given stream

---
 include/htool/basic_types/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index e19266d..223ade3 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -27,7 +27,7 @@ std::ostream &operator<<(std::ostream &out, const std::vector<T> &v) {
     if (!v.empty()) {
         out << '[';
         for (typename std::vector<T>::const_iterator i = v.begin(); i != v.end(); ++i)
-            std::cout << *i << ',';
+            out << *i << ',';
         out << "\b]";
     }
     return out;
-- 
2.43.0


From deca45d4dfd034d4cb63b0dcb225c7db6f6d2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 20/49] fix: leak of the empty buffer of a matrix read from a
 file

---
 include/htool/matrix/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 9298e3b..b66f16d 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -663,7 +663,7 @@ class Matrix {
         int rows = 0, cols = 0;
         in.read((char *)(&rows), sizeof(int));
         in.read((char *)(&cols), sizeof(int));
-        if (m_number_of_rows != 0 && m_number_of_cols != 0 && m_is_owning_data)
+        if (m_is_owning_data)
             delete[] m_data;
         m_data           = new T[rows * cols];
         m_number_of_rows = rows;
-- 
2.43.0


From 2f34795ca4298f23b7a66c5245eadee451ea43c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 21/49] fix: reading a matrix or a vector from a truncated file
 reports a failure

---
 include/htool/basic_types/vector.hpp | 8 ++++++++
 include/htool/matrix/matrix.hpp      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index 223ade3..6ec077a 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -152,8 +152,16 @@ int bytes_to_vector(std::vector<T> &vect, const std::string &file) {
 
     int size = 0;
     in.read((char *)(&size), sizeof(int));
+    if (!in) {
+        std::cout << "Cannot read file: " << file << std::endl; // LCOV_EXCL_LINE
+        return 1;                                               // LCOV_EXCL_LINE
+    }
     vect.resize(size);
     in.read((char *)&(vect[0]), size * sizeof(T));
+    if (!in) {
+        std::cout << "Cannot read file: " << file << std::endl; // LCOV_EXCL_LINE
+        return 1;                                               // LCOV_EXCL_LINE
+    }
 
     in.close();
     return 0;
diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index b66f16d..caa40c2 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -663,6 +663,10 @@ class Matrix {
         int rows = 0, cols = 0;
         in.read((char *)(&rows), sizeof(int));
         in.read((char *)(&cols), sizeof(int));
+        if (!in) {
+            std::cout << "Cannot read file." << std::endl; // LCOV_EXCL_LINE
+            return 1;                                      // LCOV_EXCL_LINE
+        }
         if (m_is_owning_data)
             delete[] m_data;
         m_data           = new T[rows * cols];
@@ -670,6 +674,10 @@ class Matrix {
         m_number_of_cols = cols;
         m_is_owning_data = true;
         in.read((char *)&(m_data[0]), rows * cols * sizeof(T));
+        if (!in) {
+            std::cout << "Cannot read file." << std::endl; // LCOV_EXCL_LINE
+            return 1;                                      // LCOV_EXCL_LINE
+        }
 
         in.close();
         return 0;
-- 
2.43.0


From 1fe3680b2115e9753153d100adfdff1a87082f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 22/49] fix: writing a matrix or a vector to a file reports
 write failures

---
 include/htool/basic_types/vector.hpp | 4 ++++
 include/htool/matrix/matrix.hpp      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index 6ec077a..df6140d 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -137,6 +137,10 @@ int vector_to_bytes(const std::vector<T> vect, const std::string &file) {
     out.write((char *)&(vect[0]), size * sizeof(T));
 
     out.close();
+    if (!out) {
+        std::cout << "Cannot write file: " << file << std::endl; // LCOV_EXCL_LINE
+        return 1;                                                // LCOV_EXCL_LINE
+    }
     return 0;
 }
 
diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index caa40c2..3fda847 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -645,6 +645,10 @@ class Matrix {
         out.write((char *)m_data, rows * cols * sizeof(T));
 
         out.close();
+        if (!out) {
+            std::cout << "Cannot write file." << std::endl; // LCOV_EXCL_LINE
+            return 1;                                       // LCOV_EXCL_LINE
+        }
         return 0;
     }
 
-- 
2.43.0


From e09250663f08581c54aec6faeceeb06a61c76e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 23/49] fix: copy assignment of a hierarchical matrix over
 other data or from its own sub-block

---
 include/htool/hmatrix/hmatrix.hpp | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 7309b5b..8fb0d36 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -80,27 +80,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         if (&rhs == this) {
             return *this;
         }
-        this->m_depth     = rhs.m_depth;
-        this->m_is_root   = rhs.m_is_root;
-        this->m_tree_data = std::make_shared<HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(*rhs.m_tree_data);
-        this->m_children.clear();
-        for (auto &child : rhs.m_children) {
-            this->m_children.emplace_back(std::make_unique<HMatrix<CoefficientPrecision, CoordinatePrecision>>(*child));
-        }
-        m_target_cluster           = rhs.m_target_cluster;
-        m_source_cluster           = rhs.m_source_cluster;
-        m_symmetry                 = rhs.m_symmetry;
-        m_UPLO                     = rhs.m_UPLO;
-        m_storage_type             = rhs.m_storage_type;
-        m_symmetry_type_for_leaves = rhs.m_symmetry_type_for_leaves;
-        m_UPLO_for_leaves          = rhs.m_UPLO_for_leaves;
-
-        if (rhs.m_dense_data) {
-            m_dense_data = std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data);
-        }
-        if (rhs.m_low_rank_data) {
-            m_low_rank_data = std::make_unique<LowRankMatrix<CoefficientPrecision, CoordinatePrecision>>(*rhs.m_low_rank_data);
-        }
+        *this = HMatrix(rhs); // also when rhs is a sub-block of this, and without keeping data rhs does not have
         return *this;
     }
 
-- 
2.43.0


From 26deda66181d8020710be5d0cc553cf12738c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 24/49] fix: copies of a hierarchical matrix keep the symmetry
 of its leaves

---
 include/htool/hmatrix/hmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 8fb0d36..781ede1 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -57,7 +57,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
     // Child constructor
     HMatrix(const HMatrix &parent, const Cluster<CoordinatePrecision> *target_cluster, const Cluster<CoordinatePrecision> *source_cluster) : TreeNode<HMatrix, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(parent), m_target_cluster(target_cluster), m_source_cluster(source_cluster) {}
 
-    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(), m_storage_type(rhs.m_storage_type) {
+    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(rhs.m_symmetry_type_for_leaves), m_UPLO_for_leaves(rhs.m_UPLO_for_leaves), m_storage_type(rhs.m_storage_type) {
         if (m_target_cluster->is_root() or is_cluster_on_partition(*m_target_cluster)) {
             Logger::get_instance().log(LogLevel::INFO, "Deep copy of HMatrix");
         }
-- 
2.43.0


From 83675eb9efb86a37d3760d5931188aab313039ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 25/49] fix: resizing a view of the same number of coefficients
 does not take ownership of the viewed data

---
 include/htool/matrix/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 3fda847..27afcf3 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -225,13 +225,13 @@ class Matrix {
             m_data = nullptr;
             m_data = new T[nbr * nbc];
         } else if (m_number_of_rows * m_number_of_cols != nbr * nbc) {
-            m_data = new T[nbr * nbc];
+            m_data           = new T[nbr * nbc];
+            m_is_owning_data = true;
         }
 
         m_number_of_rows = nbr;
         m_number_of_cols = nbc;
         std::fill_n(m_data, nbr * nbc, value);
-        m_is_owning_data = true;
     }
 
     //! ### Matrix-scalar product
-- 
2.43.0


From 3a47fb31810cdf7494cd4feaa3e352fa5993e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 26/49] fix: a matrix can be reused after its data has been
 moved or released

---
 include/htool/matrix/matrix.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 27afcf3..422aefd 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -41,7 +41,7 @@ class Matrix {
         if (&rhs == this) {
             return *this;
         }
-        if (m_number_of_rows * m_number_of_cols == rhs.m_number_of_cols * rhs.m_number_of_rows) {
+        if (m_data != nullptr && m_number_of_rows * m_number_of_cols == rhs.m_number_of_cols * rhs.m_number_of_rows) {
             std::copy_n(rhs.m_data, m_number_of_rows * m_number_of_cols, m_data);
             m_number_of_rows = rhs.m_number_of_rows;
             m_number_of_cols = rhs.m_number_of_cols;
@@ -59,7 +59,10 @@ class Matrix {
         return *this;
     }
     Matrix(Matrix &&rhs) : m_number_of_rows(rhs.m_number_of_rows), m_number_of_cols(rhs.m_number_of_cols), m_data(rhs.m_data), m_is_owning_data(rhs.m_is_owning_data), m_pivots(rhs.m_pivots) {
-        rhs.m_data = nullptr;
+        rhs.m_data           = nullptr;
+        rhs.m_number_of_rows = 0;
+        rhs.m_number_of_cols = 0;
+        rhs.m_is_owning_data = true;
     }
 
     Matrix &operator=(Matrix &&rhs) {
@@ -70,8 +73,12 @@ class Matrix {
             m_number_of_cols = rhs.m_number_of_cols;
             m_data           = rhs.m_data;
             m_is_owning_data = rhs.m_is_owning_data;
-            rhs.m_data       = nullptr;
             m_pivots         = rhs.m_pivots;
+
+            rhs.m_data           = nullptr;
+            rhs.m_number_of_rows = 0;
+            rhs.m_number_of_cols = 0;
+            rhs.m_is_owning_data = true;
         }
         return *this;
     }
@@ -224,7 +231,7 @@ class Matrix {
             delete[] m_data;
             m_data = nullptr;
             m_data = new T[nbr * nbc];
-        } else if (m_number_of_rows * m_number_of_cols != nbr * nbc) {
+        } else if (m_data == nullptr or m_number_of_rows * m_number_of_cols != nbr * nbc) {
             m_data           = new T[nbr * nbc];
             m_is_owning_data = true;
         }
-- 
2.43.0


From ad8870283ac213800a02938739dc93905ff3e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 27/49] fix: leak of the empty buffer of a matrix given other
 data

---
 include/htool/matrix/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 422aefd..7768a7f 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -132,7 +132,7 @@ class Matrix {
     }
 
     void assign(int number_of_rows, int number_of_cols, T *ptr, bool owning_data) {
-        if (m_number_of_rows * m_number_of_cols > 0 && m_is_owning_data)
+        if (m_is_owning_data)
             delete[] m_data;
 
         m_number_of_rows = number_of_rows;
-- 
2.43.0


From faa51bef6f2fc8fc3165451f7d9f355304011dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 28/49] fix: a moved cluster tree knows its root

---
 include/htool/clustering/cluster_node.hpp | 26 +++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/htool/clustering/cluster_node.hpp b/include/htool/clustering/cluster_node.hpp
index ae6adcb..2a7b8e6 100644
--- a/include/htool/clustering/cluster_node.hpp
+++ b/include/htool/clustering/cluster_node.hpp
@@ -9,6 +9,7 @@
 #include <memory>  // for make_shared, operator==
 #include <numeric> // for iota
 #include <string>  // for basic_string
+#include <utility> // for move
 #include <vector>  // for vector
 
 namespace htool {
@@ -23,6 +24,13 @@ class Cluster : public TreeNode<Cluster<CoordinatesPrecision>, ClusterTreeData<C
     int m_size;                                   // number of geometric points
     int m_counter;                                // numbering of the nodes level-wise
 
+    // the root cluster is known by its address
+    void update_root_cluster() {
+        if (this->is_root() && this->m_tree_data) {
+            this->m_tree_data->m_root_cluster = this;
+        }
+    }
+
   public:
     // Root constructor
     Cluster(CoordinatesPrecision radius, std::vector<CoordinatesPrecision> &center, int rank, int offset, int size) : TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>(), m_radius(radius), m_center(center), m_rank(rank), m_offset(offset), m_size(size), m_counter(0) {
@@ -44,8 +52,22 @@ class Cluster : public TreeNode<Cluster<CoordinatesPrecision>, ClusterTreeData<C
     // no copy
     Cluster(const Cluster &)                       = delete;
     Cluster &operator=(const Cluster &)            = delete;
-    Cluster(Cluster &&cluster) noexcept            = default;
-    Cluster &operator=(Cluster &&cluster) noexcept = default;
+    Cluster(Cluster &&cluster) noexcept : TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>(std::move(cluster)), m_radius(cluster.m_radius), m_center(std::move(cluster.m_center)), m_rank(cluster.m_rank), m_offset(cluster.m_offset), m_size(cluster.m_size), m_counter(cluster.m_counter) {
+        update_root_cluster();
+    }
+    Cluster &operator=(Cluster &&cluster) noexcept {
+        if (this != &cluster) {
+            TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>::operator=(std::move(cluster));
+            m_radius  = cluster.m_radius;
+            m_center  = std::move(cluster.m_center);
+            m_rank    = cluster.m_rank;
+            m_offset  = cluster.m_offset;
+            m_size    = cluster.m_size;
+            m_counter = cluster.m_counter;
+            update_root_cluster();
+        }
+        return *this;
+    }
     virtual ~Cluster()                             = default;
 
     // Cluster getters
-- 
2.43.0


From 7511d496e1aa968f927d6ed909cce97a8313afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 29/49] fix: the nodes of a copied hierarchical matrix share
 the data of their tree

---
 include/htool/hmatrix/hmatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 781ede1..8230a0a 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -68,6 +68,8 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         for (auto &child : rhs.m_children) {
             this->m_children.emplace_back(std::make_unique<HMatrix<CoefficientPrecision, CoordinatePrecision>>(*child));
         }
+        // nodes of the same tree share its data
+        preorder_tree_traversal(*this, [this](HMatrix &node) { node.m_tree_data = this->m_tree_data; });
         if (rhs.m_dense_data) {
             m_dense_data = std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data);
         }
-- 
2.43.0


From 18f126ebb288b90560ce3666f3cc16bdda2942d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 30/49] fix: a builder of hierarchical matrices can be used
 several times

---
 include/htool/hmatrix/tree_builder/tree_builder.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/htool/hmatrix/tree_builder/tree_builder.hpp b/include/htool/hmatrix/tree_builder/tree_builder.hpp
index d08a746..4ace25a 100644
--- a/include/htool/hmatrix/tree_builder/tree_builder.hpp
+++ b/include/htool/hmatrix/tree_builder/tree_builder.hpp
@@ -179,6 +179,11 @@ class HMatrixTreeBuilder {
 
 template <typename CoefficientPrecision, typename CoordinatePrecision>
 HMatrix<CoefficientPrecision, CoordinatePrecision> HMatrixTreeBuilder<CoefficientPrecision, CoordinatePrecision>::build(const VirtualInternalGenerator<CoefficientPrecision> &generator) const {
+    // Forget the previous build
+    m_admissible_tasks.clear();
+    m_dense_tasks.clear();
+    m_false_positive = 0;
+
     // Create root hmatrix
     HMatrixType root_hmatrix(m_target_root_cluster, m_source_root_cluster);
     root_hmatrix.set_admissibility_condition(m_admissibility_condition);
-- 
2.43.0


From b7c00f01b1c49b78f149c30d5546b1f6bd8d3814 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 31/49] fix: transposed products of a local operator with
 several right-hand sides add to their output

---
 .../htool/local_operators/local_operator.hpp  | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 93104a3..bd7aa12 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -180,6 +180,24 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         const CoefficientPrecision *input = m_symmetry == 'H' ? input_perm.data() : in;
 
+        // Permutation + transpose of the output to update
+        if (m_source_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nc; j++) {
+                    buffer_out[j] = out[i + (m_source_cluster.get_offset() + j) * mu];
+                }
+                user_to_cluster(m_source_cluster, buffer_out.data(), buffer_out.data() + nc);
+                for (int j = 0; j < nc; j++) {
+                    output_perm[i + j * mu] = buffer_out[nc + j];
+                }
+            }
+        } else {
+            std::copy_n(out + m_source_cluster.get_offset() * mu, output_perm.size(), output_perm.data());
+        }
+        if (m_symmetry == 'H') {
+            conj_if_complex<CoefficientPrecision>(output_perm.data(), output_perm.size());
+        }
+
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_matrix_product_row_major('T', alpha, input, beta, output_perm.data(), mu);
@@ -190,6 +208,10 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
         }
 
+        if (m_symmetry == 'H') {
+            conj_if_complex<CoefficientPrecision>(output_perm.data(), output_perm.size());
+        }
+
         // Permutation + transpose
         if (m_source_use_permutation_to_mvprod) {
             for (int i = 0; i < mu; i++) {
@@ -203,12 +225,9 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
                     out[i + (m_source_cluster.get_offset() + j) * mu] = buffer_out[nc + j + i * nc];
                 }
             }
-        } else { // we have to conjugate to apply in this particular case
+        } else {
             std::copy_n(output_perm.data(), output_perm.size(), out + m_source_cluster.get_offset() * mu);
         }
-        if (m_symmetry == 'H') {
-            conj_if_complex<CoefficientPrecision>(out + m_source_cluster.get_offset() * mu, nc * mu);
-        }
     }
 
     void sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const override {
-- 
2.43.0


From 8520d7a4b46a396207983b9b852493673047589f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 32/49] fix: transposed products of a Hermitian local operator

---
 .../htool/local_operators/local_operator.hpp  | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index bd7aa12..a7e535c 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -151,9 +151,14 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_vector_product('T', alpha, in, beta, output);
-        } else if (m_symmetry == 'S' || m_symmetry == 'H') {
-            // m_data.add_vector_product('T', alpha, in, beta, output);
+        } else if (m_symmetry == 'S') {
             local_add_vector_product_symmetric('T', alpha, in, beta, output, m_UPLO, m_symmetry);
+        } else if (m_symmetry == 'H') { // A^T x = conj(A^H conj(x))
+            std::vector<CoefficientPrecision> in_conj(in, in + m_target_cluster.get_size());
+            conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+            conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
+            local_add_vector_product_symmetric('C', conj_if_complex<CoefficientPrecision>(alpha), in_conj.data(), conj_if_complex<CoefficientPrecision>(beta), output, m_UPLO, m_symmetry);
+            conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
@@ -194,24 +199,21 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         } else {
             std::copy_n(out + m_source_cluster.get_offset() * mu, output_perm.size(), output_perm.data());
         }
-        if (m_symmetry == 'H') {
-            conj_if_complex<CoefficientPrecision>(output_perm.data(), output_perm.size());
-        }
 
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_matrix_product_row_major('T', alpha, input, beta, output_perm.data(), mu);
-        } else if (m_symmetry == 'S' || m_symmetry == 'H') {
+        } else if (m_symmetry == 'S') {
             local_add_matrix_product_symmetric_row_major('T', alpha, input, beta, output_perm.data(), mu, m_UPLO, m_symmetry);
+        } else if (m_symmetry == 'H') { // A^T x = conj(A^H conj(x))
+            conj_if_complex<CoefficientPrecision>(output_perm.data(), output_perm.size());
+            local_add_matrix_product_symmetric_row_major('C', conj_if_complex<CoefficientPrecision>(alpha), input, conj_if_complex<CoefficientPrecision>(beta), output_perm.data(), mu, m_UPLO, m_symmetry);
+            conj_if_complex<CoefficientPrecision>(output_perm.data(), output_perm.size());
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
         }
 
-        if (m_symmetry == 'H') {
-            conj_if_complex<CoefficientPrecision>(output_perm.data(), output_perm.size());
-        }
-
         // Permutation + transpose
         if (m_source_use_permutation_to_mvprod) {
             for (int i = 0; i < mu; i++) {
-- 
2.43.0


From 5c82c344005da09891035a2f9581ed776b148d94 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 33/49] fix: products of a local operator whose target is
 permuted

---
 .../htool/local_operators/local_operator.hpp  | 54 ++++++++++++++-----
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index a7e535c..7ce8c68 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -41,6 +41,24 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         add_matrix_product_global_to_local(1, temp.data(), 0, out, mu);
     }
 
+    void permute_target_row_major(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, bool to_cluster_numbering) const {
+        int nr = m_target_cluster.get_size();
+        std::vector<CoefficientPrecision> column(nr), permuted_column(nr);
+        for (int i = 0; i < mu; i++) {
+            for (int j = 0; j < nr; j++) {
+                column[j] = in[i + j * mu];
+            }
+            if (to_cluster_numbering) {
+                user_to_cluster(m_target_cluster, column.data(), permuted_column.data());
+            } else {
+                cluster_to_user(m_target_cluster, column.data(), permuted_column.data());
+            }
+            for (int j = 0; j < nr; j++) {
+                out[i + j * mu] = permuted_column[j];
+            }
+        }
+    }
+
   public:
     // -- Operations --
     void add_vector_product_global_to_local(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
@@ -94,6 +112,9 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         std::vector<CoefficientPrecision> buffer_out(m_target_use_permutation_to_mvprod ? nr * mu : 0);
 
         CoefficientPrecision *output = m_target_use_permutation_to_mvprod ? buffer_out.data() : out;
+        if (m_target_use_permutation_to_mvprod) {
+            permute_target_row_major(out, output, mu, true);
+        }
         // Permutation + transpose
         if (m_source_use_permutation_to_mvprod) {
             for (int i = 0; i < mu; i++) {
@@ -131,16 +152,15 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         //     conj_if_complex<CoefficientPrecision>(output, nr * mu);
         // }
 
-        // Permutation TODO
-        // if (m_target_use_permutation_to_mvprod) {
-        //     for (int i = 0; i < mu; i++) {
-        //         cluster_to_user(m_cluster_tree_target.get(), output + i * nr, out + i * nr);
-        //     }
-        // }
+        // Permutation
+        if (m_target_use_permutation_to_mvprod) {
+            permute_target_row_major(output, out, mu, false);
+        }
     }
 
     void add_vector_product_transp_local_to_global(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
 
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod ? m_target_cluster.get_size() : 0);
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? m_source_cluster.get_size() : 0);
         CoefficientPrecision *output = m_source_use_permutation_to_mvprod ? buffer_out.data() : out + m_source_cluster.get_offset();
 
@@ -148,13 +168,19 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
             user_to_cluster(m_source_cluster, out + m_source_cluster.get_offset(), buffer_out.data());
         }
 
+        if (m_target_use_permutation_to_mvprod) {
+            user_to_cluster(m_target_cluster, in, buffer_in.data());
+        }
+
+        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod ? buffer_in.data() : in;
+
         // Local to local product
         if (m_symmetry == 'N') {
-            local_add_vector_product('T', alpha, in, beta, output);
+            local_add_vector_product('T', alpha, input, beta, output);
         } else if (m_symmetry == 'S') {
-            local_add_vector_product_symmetric('T', alpha, in, beta, output, m_UPLO, m_symmetry);
+            local_add_vector_product_symmetric('T', alpha, input, beta, output, m_UPLO, m_symmetry);
         } else if (m_symmetry == 'H') { // A^T x = conj(A^H conj(x))
-            std::vector<CoefficientPrecision> in_conj(in, in + m_target_cluster.get_size());
+            std::vector<CoefficientPrecision> in_conj(input, input + m_target_cluster.get_size());
             conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
             conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
             local_add_vector_product_symmetric('C', conj_if_complex<CoefficientPrecision>(alpha), in_conj.data(), conj_if_complex<CoefficientPrecision>(beta), output, m_UPLO, m_symmetry);
@@ -174,16 +200,20 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         int nc = m_source_cluster.get_size();
         int nr = m_target_cluster.get_size();
-        std::vector<CoefficientPrecision> input_perm(m_symmetry == 'H' ? nr * mu : 0);
+        std::vector<CoefficientPrecision> input_perm(m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? nr * mu : 0);
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? nc * mu + nc : 0);
         std::vector<CoefficientPrecision> output_perm(nc * mu);
 
-        if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
+        if (m_target_use_permutation_to_mvprod) {
+            permute_target_row_major(in, input_perm.data(), mu, true);
+        } else {
             std::copy_n(in, input_perm.size(), input_perm.data());
+        }
+        if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
             conj_if_complex<CoefficientPrecision>(input_perm.data(), input_perm.size());
         }
 
-        const CoefficientPrecision *input = m_symmetry == 'H' ? input_perm.data() : in;
+        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? input_perm.data() : in;
 
         // Permutation + transpose of the output to update
         if (m_source_use_permutation_to_mvprod) {
-- 
2.43.0


From 87d19f4686277a01d0bbbaeecc7c80fd64af06a2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 34/49] fix: product of a local operator with a sub-range of
 its columns

---
 .../htool/local_operators/local_operator.hpp  | 29 ++++++-------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 7ce8c68..db0d70e 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -36,7 +36,7 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
     virtual void local_add_matrix_product_symmetric_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu, char UPLO, char symmetry) const = 0;
 
     virtual void local_sub_matrix_vector_product(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
-        std::vector<CoefficientPrecision> temp(m_source_cluster.get_size() * mu, 0);
+        std::vector<CoefficientPrecision> temp((m_source_cluster.get_offset() + m_source_cluster.get_size()) * mu, 0);
         std::copy_n(in, size * mu, temp.data() + offset * mu);
         add_matrix_product_global_to_local(1, temp.data(), 0, out, mu);
     }
@@ -263,27 +263,16 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
     }
 
     void sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const override {
-        int source_offset   = m_source_cluster.get_offset();
-        int source_size     = m_source_cluster.get_size();
-        bool is_output_null = ((offset + size) < source_offset) || (source_offset + m_source_cluster.get_size() < offset);
+        int source_offset = m_source_cluster.get_offset();
+        int source_size   = m_source_cluster.get_size();
+        int sub_begin     = std::max(offset, source_offset);
+        int sub_end       = std::min(offset + size, source_offset + source_size);
 
-        if (!is_output_null) {
-            // Same size as local operator
-            if (source_offset == offset && source_size + source_offset == size + offset)
-                local_add_matrix_product_row_major('N', 1, in, 0, out, mu);
-            else {
-
-                int temp_offset                           = std::max(offset, source_offset);
-                const CoefficientPrecision *const temp_in = (offset < source_offset) ? in + source_offset - offset : in;
-                int temp_size                             = (size + offset <= source_size + source_offset) ? size - std::max(source_offset - offset, 0) : size - std::max(source_offset - offset, 0) - (size + offset - source_offset - source_size);
-
-                local_sub_matrix_vector_product(temp_in, out, mu, temp_offset, temp_size);
-            }
+        if (sub_begin < sub_end) {
+            local_sub_matrix_vector_product(in + (sub_begin - offset) * mu, out, mu, sub_begin, sub_end - sub_begin);
+        } else {
+            std::fill_n(out, m_target_cluster.get_size() * mu, CoefficientPrecision(0));
         }
-        // std::vector<CoefficientPrecision> test(source_size * mu, 0);
-        // std::copy_n(in, size * mu, test.data() + offset * mu);
-        // int rankWorld;
-        // local_add_matrix_product_row_major('N', 1, test.data(), 0, out, mu);
     }
 
     virtual ~LocalOperator() = default;
-- 
2.43.0


From dce8795a99b19b32ce931960dbb0f9c30f8eb1b2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 35/49] fix: product with a sub-range of columns sums the
 contributions of all local operators

---
 .../htool/distributed_operator/distributed_operator.hpp  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index c3705c0..5d9d67e 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -665,8 +665,15 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
+    int rankWorld;
+    MPI_Comm_rank(m_comm, &rankWorld);
+    int local_size = m_target_partition.get_size_of_partition(rankWorld);
+    std::vector<CoefficientPrecision> buffer(local_size * mu);
+    std::fill_n(out, local_size * mu, CoefficientPrecision(0));
     for (auto &local_operator : m_local_operators) {
-        local_operator->sub_matrix_product_to_local(in, out, mu, offset, size);
+        std::fill(buffer.begin(), buffer.end(), CoefficientPrecision(0));
+        local_operator->sub_matrix_product_to_local(in, buffer.data(), mu, offset, size);
+        std::transform(out, out + local_size * mu, buffer.begin(), out, std::plus<CoefficientPrecision>());
     }
 }
 
-- 
2.43.0


From f5ffd7679d28092f2df7dbefbf8e1118b89b81c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 36/49] fix: transposed local product with several right-hand
 sides initialises its output

---
 include/htool/distributed_operator/distributed_operator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index 5d9d67e..1aab390 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -635,6 +635,7 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
     std::vector<CoefficientPrecision> buffer((work == nullptr) ? (nc + local_size_source * sizeWorld) * mu : 0);
     CoefficientPrecision *buffer_ptr = (work == nullptr) ? buffer.data() : work;
 
+    std::fill(out, out + local_size_source * mu, 0);
     std::fill(buffer_ptr, buffer_ptr + nc * mu, 0);
     CoefficientPrecision *rbuf = buffer_ptr + nc * mu;
 
-- 
2.43.0


From 167d77eaa8394f1b461e6e4dd31f67dc1972c902 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 37/49] fix: transposed local product of a Hermitian
 distributed operator

---
 .../distributed_operator.hpp                  | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index 1aab390..539e2ad 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -575,15 +575,21 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_local_to
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
-        this->internal_vector_product_local_to_local(in, out, work);
-        return;
-    }
-
     int sizeWorld, rankWorld;
     MPI_Comm_rank(m_comm, &rankWorld);
     MPI_Comm_size(m_comm, &sizeWorld);
 
+    if (m_symmetry == 'S') {
+        this->internal_vector_product_local_to_local(in, out, work);
+        return;
+    } else if (m_symmetry == 'H') {
+        std::vector<CoefficientPrecision> in_conj(in, in + m_target_partition.get_size_of_partition(rankWorld));
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+        this->internal_vector_product_local_to_local(in_conj.data(), out, work);
+        conj_if_complex<CoefficientPrecision>(out, m_source_partition.get_size_of_partition(rankWorld));
+        return;
+    }
+
     int local_size_source = m_source_partition.get_size_of_partition(rankWorld);
     int nc                = m_source_partition.get_global_size();
 
@@ -621,14 +627,20 @@ void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
-        this->internal_matrix_product_local_to_local(in, out, mu, work);
-        return;
-    }
-
     int sizeWorld, rankWorld;
     MPI_Comm_rank(m_comm, &rankWorld);
     MPI_Comm_size(m_comm, &sizeWorld);
+
+    if (m_symmetry == 'S') {
+        this->internal_matrix_product_local_to_local(in, out, mu, work);
+        return;
+    } else if (m_symmetry == 'H') {
+        std::vector<CoefficientPrecision> in_conj(in, in + m_target_partition.get_size_of_partition(rankWorld) * mu);
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+        this->internal_matrix_product_local_to_local(in_conj.data(), out, mu, work);
+        conj_if_complex<CoefficientPrecision>(out, m_source_partition.get_size_of_partition(rankWorld) * mu);
+        return;
+    }
     int local_size_source = m_source_partition.get_size_of_partition(rankWorld);
     int nc                = m_source_partition.get_global_size();
 
-- 
2.43.0


From 813176adf16a92e0dd75381b5cfb274111678a81 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 38/49] fix: smallest block sizes and ranks gathered from
 processes without such blocks

---
 include/htool/hmatrix/hmatrix_distributed_output.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix_distributed_output.hpp b/include/htool/hmatrix/hmatrix_distributed_output.hpp
index 4fa55c1..07efc77 100644
--- a/include/htool/hmatrix/hmatrix_distributed_output.hpp
+++ b/include/htool/hmatrix/hmatrix_distributed_output.hpp
@@ -12,6 +12,7 @@
 #include <cstddef>                             // for size_t
 #include <iomanip>                             // for operator<<, setfill, setw
 #include <iostream>                            // for basic_ostream, basic_ios, bas...
+#include <limits>                              // for numeric_limits
 #include <map>                                 // for map
 #include <mpi.h>                               // for MPI_Reduce, MPI_DOUBLE, MPI_I...
 #include <string>                              // for basic_string, to_string, oper...
@@ -43,7 +44,7 @@ std::map<std::string, std::string> get_distributed_hmatrix_information(const HMa
     // 0 : dense mat size ; 1 : lr mat size ; 2 : rank ; 3 : nb_rows, 4: nb_cols
     std::array<std::size_t, 5> maxinfos = {0, 0, 0, local_nb_rows, local_nb_cols};
     std::array<double, 5> meaninfos     = {0, 0, 0, double(local_nb_rows), double(local_nb_cols)};
-    std::array<std::size_t, 5> mininfos = {local_size, local_size, local_size, local_nb_rows, local_nb_cols};
+    std::array<std::size_t, 5> mininfos = {std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max(), local_nb_rows, local_nb_cols};
 
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> local_dense_blocks;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> local_low_rank_blocks;
-- 
2.43.0


From 4bda3b21cc2ee8fafe88e5d23ca5612f68ca43df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 39/49] fix: coarse operator of a Hermitian distributed
 operator

---
 .../htool/solvers/geneo/coarse_operator_builder.hpp   | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_operator_builder.hpp b/include/htool/solvers/geneo/coarse_operator_builder.hpp
index 8877df2..b7b67c8 100644
--- a/include/htool/solvers/geneo/coarse_operator_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_operator_builder.hpp
@@ -95,9 +95,6 @@ void build_geneo_coarse_operator(const DistributedOperator<CoefficientPrecision>
         //     std::cout << buffer << "\n";
         // }
         MPI_Bcast(buffer.data() + margin * recvcounts[i], HA.get_target_partition().get_size_of_partition(i) * recvcounts[i], wrapper_mpi<CoefficientPrecision>::mpi_type(), i, HA.get_comm());
-        if (HA.get_symmetry_type() == 'H') {
-            conj_if_complex(buffer.data(), buffer.size());
-        }
         HA.internal_sub_matrix_product_to_local(buffer.data(), AZ.data(), recvcounts[i], HA.get_target_partition().get_offset_of_partition(i), HA.get_target_partition().get_size_of_partition(i));
 
         // if (rankWorld == 0) {
@@ -105,10 +102,10 @@ void build_geneo_coarse_operator(const DistributedOperator<CoefficientPrecision>
         //     std::cout << AZ << "\n";
         // }
 
-        // Removed because complex scalar product afterward
-        // if (HA.get_symmetry_type() == 'H') {
-        //     conj_if_complex(AZ.data(), AZ.size());
-        // }
+        // E = Z^H A Z, the scalar product afterward being bilinear
+        if (HA.get_symmetry_type() == 'H') {
+            conj_if_complex(AZ.data(), AZ.size());
+        }
 
         for (int j = 0; j < recvcounts[i]; j++) {
             for (int k = 0; k < n_inside; k++) {
-- 
2.43.0


From 657ac7cd4c453ae13b250f020331cdaf31c9776d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 40/49] fix: product of a Hermitian operator with several
 right-hand sides in the HPDDM wrapper

---
 include/htool/wrappers/wrapper_hpddm.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/htool/wrappers/wrapper_hpddm.hpp b/include/htool/wrappers/wrapper_hpddm.hpp
index 6655b0b..68c6afb 100644
--- a/include/htool/wrappers/wrapper_hpddm.hpp
+++ b/include/htool/wrappers/wrapper_hpddm.hpp
@@ -103,9 +103,6 @@ class HPDDMOperator final : public HPDDM::Dense<LocalSolver, HPDDM::LapackTR, 'G
                     (*buffer)[i + j * mu] = in[i * this->getDof() + j];
                 }
             }
-            if (HA->get_symmetry_type() == 'H') {
-                conj_if_complex(buffer->data(), local_size * mu);
-            }
         }
 
         // All gather
@@ -117,9 +114,6 @@ class HPDDMOperator final : public HPDDM::Dense<LocalSolver, HPDDM::LapackTR, 'G
 
         // Tranpose
         if (mu != 1) {
-            if (HA->get_symmetry_type() == 'H') {
-                conj_if_complex(buffer->data() + local_size * mu, local_size * mu);
-            }
             for (int i = 0; i < mu; i++) {
                 for (int j = 0; j < local_size; j++) {
                     out[i * this->getDof() + j] = (*buffer)[i + j * mu + local_size * mu];
-- 
2.43.0


From 52d9786cbadb19c5e1f0e5cf7bb25608ae69ecbb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:51 +0000
Subject: [PATCH 41/49] fix: solves of the hierarchical local solver with
 overlap use both Cholesky factors of the overlap

---
 .../local_solvers/local_hmatrix_plus_overlap_solvers.hpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp b/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
index e552d56..28c6379 100644
--- a/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
+++ b/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
@@ -99,7 +99,7 @@ class LocalHMatrixPlusOverlapSolver : public VirtualLocalSolver<CoefficientPreci
 
             if (m_C.nb_rows() > 0) {
                 add_matrix_matrix_product('N', 'N', CoefficientPrecision(-1), m_C, b1, CoefficientPrecision(1), b2);
-                triangular_matrix_matrix_solve('L', 'L', 'N', 'U', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'L', 'N', 'N', CoefficientPrecision(1), m_D, b2);
                 triangular_matrix_matrix_solve('L', 'L', is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(1), m_D, b2);
                 add_matrix_matrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), m_C, b2, CoefficientPrecision(1), b1);
             }
@@ -109,7 +109,8 @@ class LocalHMatrixPlusOverlapSolver : public VirtualLocalSolver<CoefficientPreci
 
             if (m_B.nb_cols() > 0) {
                 add_matrix_matrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), m_B, b1, CoefficientPrecision(1), b2);
-                triangular_matrix_matrix_solve('L', 'U', 'N', 'U', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'U', is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'U', 'N', 'N', CoefficientPrecision(1), m_D, b2);
                 add_matrix_matrix_product('N', 'N', CoefficientPrecision(-1), m_B, b2, CoefficientPrecision(1), b1);
             }
 
-- 
2.43.0


From 910750a97b7a23277c5eb7485cb3345c02d7b2d9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:12 +0000
Subject: [PATCH 42/49] fix: selection of all the eigenvectors by the threshold
 of the GenEO coarse space stays within the spectrum

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index 125d9b7..f656f6b 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -97,7 +97,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
             });
             if (m_geneo_threshold > 0.0) {
                 nevi = 0;
-                while (std::abs(w[index[nevi]]) > m_geneo_threshold && nevi < index.size()) {
+                while (nevi < n && std::abs(w[index[nevi]]) > m_geneo_threshold) {
                     nevi++;
                 }
             }
@@ -145,7 +145,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (std::abs(beta[index[nevi]]) < 1e-15 || (std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold && nevi < index.size())) {
+            while (nevi < n && (std::abs(beta[index[nevi]]) < 1e-15 || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
                 nevi++;
             }
         }
-- 
2.43.0


From bfe055c1146d93a5c17eb2a2ac129fe516a1070f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:17 +0000
Subject: [PATCH 43/49] fix: GenEO orders complex conjugate eigenvalues of real
 pencils by their modulus

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index f656f6b..a1a1ca5 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -140,12 +140,18 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         work.resize(lwork);
         Lapack<CoefficientPrecision>::ggev("N", "V", &n, m_DAiD.data(), &lda, m_Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
 
+        // modulus of the numerators, complex conjugate eigenvalues of real pencils have their imaginary part in alphai
+        std::vector<underlying_type<CoefficientPrecision>> alpha(n);
+        for (int i = 0; i < n; i++) {
+            alpha[i] = alphai.empty() ? std::abs(alphar[i]) : std::hypot(std::abs(alphar[i]), std::abs(alphai[i]));
+        }
+
         std::sort(index.begin(), index.end(), [&](const int &a, const int &b) {
-            return ((std::abs(beta[a]) < 1e-15 || (std::abs(alphar[a] / beta[a]) > std::abs(alphar[b] / beta[b]))) && !(std::abs(beta[b]) < 1e-15));
+            return ((std::abs(beta[a]) < 1e-15 || (alpha[a] / std::abs(beta[a]) > alpha[b] / std::abs(beta[b]))) && !(std::abs(beta[b]) < 1e-15));
         });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (nevi < n && (std::abs(beta[index[nevi]]) < 1e-15 || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
+            while (nevi < n && (std::abs(beta[index[nevi]]) < 1e-15 || alpha[index[nevi]] / std::abs(beta[index[nevi]]) > m_geneo_threshold)) {
                 nevi++;
             }
         }
-- 
2.43.0


From ffdd0ad6552c08db44c0743be9825247c442a075 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 44/49] fix: local hierarchical matrices with overlap of
 subdomains too small to be split

---
 include/htool/solvers/utility.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/utility.hpp b/include/htool/solvers/utility.hpp
index 78de9b1..7fd920c 100644
--- a/include/htool/solvers/utility.hpp
+++ b/include/htool/solvers/utility.hpp
@@ -146,7 +146,8 @@ class DDMSolverWithDenseLocalSolver {
 
         // Local cluster
         ClusterTreeBuilder<double> recursive_build_strategy;
-        return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, 2, nullptr);
+        const int partition[2] = {0, local_size}; // one part, subdomains can be too small to be split
+        return recursive_build_strategy.create_cluster_tree(local_size, spatial_dimension0, local_geometry.data(), 2, 1, partition);
     };
 
     std::unique_ptr<Cluster<CoordinatePrecision>> local_cluster;
@@ -247,7 +248,8 @@ class DDMSolverBuilder {
 
         // Local cluster
         ClusterTreeBuilder<double> recursive_build_strategy;
-        return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, 2);
+        const int partition[2] = {0, local_size}; // one part, subdomains can be too small to be split
+        return recursive_build_strategy.create_cluster_tree(local_size, spatial_dimension0, local_geometry.data(), 2, 1, partition);
     };
 
     std::unique_ptr<Cluster<CoordinatePrecision>> local_cluster;
-- 
2.43.0


From 743afb76139136178727a3f3745fd8a39f61be43 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 45/49] fix: hierarchical local solver adding overlap to a
 nonsymmetric matrix assembles both off-diagonal blocks

---
 include/htool/solvers/utility.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/solvers/utility.hpp b/include/htool/solvers/utility.hpp
index 7fd920c..9b0932c 100644
--- a/include/htool/solvers/utility.hpp
+++ b/include/htool/solvers/utility.hpp
@@ -228,7 +228,8 @@ class DDMSolverBuilder {
         if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'U') {
             B.resize(local_size_without_overlap, local_size_with_overlap - local_size_without_overlap);
             generator0.copy_submatrix(local_size_without_overlap, local_size_with_overlap - local_size_without_overlap, inside_num.data(), overlap_num.data(), B.data());
-        } else if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'L') {
+        }
+        if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'L') {
             C.resize(local_size_with_overlap - local_size_without_overlap, local_size_without_overlap);
 
             generator0.copy_submatrix(local_size_with_overlap - local_size_without_overlap, local_size_without_overlap, overlap_num.data(), inside_num.data(), C.data());
-- 
2.43.0


From 302aba27b1635a9c1b73c86f0187d5fa0c42ee37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:38 +0000
Subject: [PATCH 46/49] fix: compression ratio of low-rank matrices with more
 entries than an int can count

---
 include/htool/hmatrix/lrmat/lrmat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/lrmat/lrmat.hpp b/include/htool/hmatrix/lrmat/lrmat.hpp
index ab99eaf..27cf2ff 100644
--- a/include/htool/hmatrix/lrmat/lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/lrmat.hpp
@@ -135,7 +135,7 @@ class LowRankMatrix {
     }
 
     double compression_ratio() const {
-        return (m_U.nb_rows() * m_V.nb_cols()) / (double)(m_U.nb_cols() * (m_U.nb_rows() + m_V.nb_cols()));
+        return (double(m_U.nb_rows()) * m_V.nb_cols()) / (m_U.nb_cols() * (double(m_U.nb_rows()) + m_V.nb_cols())); // in double, the number of entries can exceed an int
     }
 
     double space_saving() const {
-- 
2.43.0


From 682eadf8327d33578620f4224b29065354ca4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 47/49] fix: depth of the partition when its size is a power of
 the number of children (e.g. 3^5, 10^3)

floor(log(243) / log(3)) is 4: the last cluster of that level then had to be split in 165.
---
 include/htool/clustering/tree_builder/recursive_build.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/htool/clustering/tree_builder/recursive_build.hpp b/include/htool/clustering/tree_builder/recursive_build.hpp
index ec00f5c..81d08e5 100644
--- a/include/htool/clustering/tree_builder/recursive_build.hpp
+++ b/include/htool/clustering/tree_builder/recursive_build.hpp
@@ -94,7 +94,10 @@ Cluster<T> ClusterTreeBuilder<T>::create_cluster_tree(int number_of_points, int
     } else {
         m_partition_type = Simple;
         if (size_partition >= number_of_children) {
-            depth_of_partition                    = static_cast<int>(floor(log(size_partition) / log(number_of_children)));
+            depth_of_partition                    = 0; // largest power of number_of_children not exceeding size_partition
+            for (int remaining_size = size_partition; number_of_children > 1 && remaining_size >= number_of_children; remaining_size /= number_of_children) {
+                depth_of_partition++;
+            }
             number_of_children_on_partition_level = number_of_children;
             if (size_partition != std::pow(number_of_children, depth_of_partition)) {
                 Logger::get_instance().log(LogLevel::WARNING, "The given size for the partition is not a power of the number of children in the cluster tree.");
-- 
2.43.0


From 5a3d00d7168c924633fdf3a38af2e5644e6d0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 48/49] fix: read the counter of a saved cluster as an integer

Counters above 2^24 were rounded when reading single precision cluster trees.
---
 include/htool/clustering/cluster_output.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/clustering/cluster_output.hpp b/include/htool/clustering/cluster_output.hpp
index d1af4b4..945af75 100644
--- a/include/htool/clustering/cluster_output.hpp
+++ b/include/htool/clustering/cluster_output.hpp
@@ -169,7 +169,7 @@ Cluster<CoordinatesPrecision> read_cluster_tree(std::string file_cluster_tree_pr
             rank                       = std::stoi(local_info_str[1]);
             offset                     = std::stoi(local_info_str[2]);
             size                       = std::stoi(local_info_str[3]);
-            counter                    = StrToNbr<CoordinatesPrecision>(local_info_str[5]);
+            counter                    = std::stoi(local_info_str[5]);
             bool is_child_on_partition = StrToNbr<bool>(local_info_str[6]);
             children.emplace_back(curr->add_child(radius, center, rank, offset, size, counter, is_child_on_partition));
         }
-- 
2.43.0


From e7feef78794ca2c0ea688a856936aad1ff75c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:05 +0000
Subject: [PATCH 49/49] fix: GenEO took all eigenvalues for infinite when the
 local matrix is small (absolute threshold)

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index a1a1ca5..b483a85 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -146,12 +146,19 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
             alpha[i] = alphai.empty() ? std::abs(alphar[i]) : std::hypot(std::abs(alphar[i]), std::abs(alphai[i]));
         }
 
+        // denominators of infinite eigenvalues, relative to the largest one
+        underlying_type<CoefficientPrecision> max_beta = 0;
+        for (int i = 0; i < n; i++) {
+            max_beta = std::max(max_beta, std::abs(beta[i]));
+        }
+        auto is_infinite = [&](int i) { return std::abs(beta[i]) <= 1e-15 * max_beta; };
+
         std::sort(index.begin(), index.end(), [&](const int &a, const int &b) {
-            return ((std::abs(beta[a]) < 1e-15 || (alpha[a] / std::abs(beta[a]) > alpha[b] / std::abs(beta[b]))) && !(std::abs(beta[b]) < 1e-15));
+            return ((is_infinite(a) || (alpha[a] / std::abs(beta[a]) > alpha[b] / std::abs(beta[b]))) && !is_infinite(b));
         });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (nevi < n && (std::abs(beta[index[nevi]]) < 1e-15 || alpha[index[nevi]] / std::abs(beta[index[nevi]]) > m_geneo_threshold)) {
+            while (nevi < n && (is_infinite(index[nevi]) || alpha[index[nevi]] / std::abs(beta[index[nevi]]) > m_geneo_threshold)) {
                 nevi++;
             }
         }
-- 
2.43.0


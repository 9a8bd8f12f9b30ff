#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as code so the text stays readable)."""
import json, os
I = "include/htool/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I+f for f in files],
            state=[dict(name=a, meaning=b, where=I+c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=I+b) for a,b in mech],
            observe_at=observe or [], hook_needed=None)))

p("C01","Cluster trees partition the points and carry a valid permutation",
"For every point set and every clustering option (number of children, minimal cluster size, imposed or automatic partition, splitting and direction strategy) the built tree is well formed: the root covers all points, the children of a node tile its index range exactly and in order without empty children, depths, minimal/maximal depths and leaf sizes are consistent with the options, and the permutation is a bijection of the points. The minimal size in force is the one reported. When there are enough points for it, the requested number of partition clusters exists, each tiles the root range in rank order with matching rank, an imposed partition is respected exactly (points of a part stay in that part, permutation local), and nodes inside a part keep its rank.",
["inputs","configurations"],"all point layouts, dimensions, sizes, option combinations, imposed partitions",
"Tests build a handful of random disks and spheres with a few options; degenerate layouts (collinear, duplicate, negative, tied) and option corners are never enumerated.",
["clustering/tree_builder/recursive_build.hpp","clustering/tree_builder/splitting.hpp","clustering/tree_builder/direction_computation.hpp","clustering/cluster_node.hpp"],
[("recursive split with permutation sort","clustering/tree_builder/recursive_build.hpp"),("RegularSplitting/GeometricSplitting","clustering/tree_builder/splitting.hpp")],
["Cluster getters","get_permutation","get_clusters_on_partition"],
[("m_permutation","cluster numbering to user numbering","clustering/cluster_tree_data.hpp"),("m_clusters_on_partition","clusters of each rank","clustering/cluster_tree_data.hpp")])

p("C02","Cluster balls enclose their points and splits follow the geometry",
"Every cluster's centre is the weighted barycentre of its own points and its radius is the smallest radius around that centre enclosing every point with its own radius. Siblings are ordered along the direction chosen for their parent: the principal axis of the points or the axis of largest bounding-box extent, wherever the points lie in space; regular splitting gives balanced sizes, and geometric splitting gives every child but the last exactly the points within one width (the parent's extent over the number of children) of the child's first point, unless a slab would be too small, in which case regular splitting applies.",
["inputs","configurations"],"all point layouts (any sign, translation, degeneracy), weights, radii, strategies",
"The admissibility test and hence the accuracy of the whole compression relies on these balls; tests only check that a tree was built, never the ball or the direction, and only for positive random coordinates.",
["clustering/tree_builder/recursive_build.hpp","clustering/tree_builder/direction_computation.hpp","clustering/tree_builder/splitting.hpp","misc/evp.hpp"],
[("compute_center/compute_radius","clustering/tree_builder/recursive_build.hpp"),("ComputeLargestExtent, ComputeBoundingBox","clustering/tree_builder/direction_computation.hpp"),("solve_EVP_2/3","misc/evp.hpp")],
["Cluster::get_center","Cluster::get_radius","compute_direction"])

p("C03","Block trees cover each matrix entry exactly once",
"For every pair of cluster trees and every option (eta, admissibility condition, symmetry and triangle, target partition, minimal depths, consistent or non-consistent block tree) the leaves of the built hierarchical matrix tile the represented index set exactly once, a symmetric one storing exactly the chosen triangle of blocks. Compressed leaves are always admissible and at least as deep as the requested minimal depths, inadmissible pairs are only ever stored dense at leaf clusters, an admissible pair is not split further, and each node's children tile that node.",
["configurations","inputs"],"all cluster tree pairs, options, partitions",
"Tests compare one norm for a few configurations, which neither distinguishes a doubly covered tiny block nor covers combinations of partitions, depths and triangles.",
["hmatrix/tree_builder/tree_builder.hpp","hmatrix/hmatrix.hpp","hmatrix/interfaces/virtual_admissibility_condition.hpp"],
[("build_block_tree, reset_root_of_block_tree, is_removed_by_symmetry","hmatrix/tree_builder/tree_builder.hpp"),("get_leaves_from","hmatrix/hmatrix.hpp")],
["HMatrix children, clusters, symmetry flags","get_leaves_from"])

p("C04","Assembled hierarchical matrices approximate the generator's matrix",
"For every generator, cluster trees, compressor and options, dense leaves hold the generator's coefficients exactly in user numbering, compressed leaves hold exactly the factors their compressor returned and so approximate them within the requested precision (or have the requested rank), and a leaf whose compression fails is stored dense. Exporting to a dense matrix, in cluster or user numbering, whole or per partition, and extracting the diagonal give the coefficients of the represented matrix (user numbering and diagonal include the mirrored half of symmetric and Hermitian matrices; cluster numbering gives the stored blocks); a user-supplied dense-block generator is called for exactly the dense leaves and its values are used.",
["inputs","configurations"],"all generators, numberings, symmetries, partitions, compressors",
"Tests check a global Frobenius error with loose thresholds on one kernel, so an error confined to a few entries, one symmetry or numbering goes unseen.",
["hmatrix/tree_builder/tree_builder.hpp","hmatrix/hmatrix.hpp","hmatrix/interfaces/virtual_generator.hpp","hmatrix/interfaces/virtual_dense_blocks_generator.hpp"],
[("compute_blocks","hmatrix/tree_builder/tree_builder.hpp"),("copy_to_dense*, copy_diagonal*","hmatrix/hmatrix.hpp")],
["copy_to_dense","copy_to_dense_in_user_numbering","copy_diagonal","copy_diagonal_in_user_numbering"])

p("C05","Low-rank compressors meet tolerance, rank and shape",
"For every block, SVD, full ACA, partial ACA and symmetric partial ACA either return factors of the block's shape with an error within the requested relative tolerance (for partial ACA: as far as its own estimate or zero rows of the residual can tell), or of exactly the requested rank when one is given, or report failure when compression does not pay or the requested rank cannot be reached; they never return non-finite values, touch coefficients outside the block or produce more than the block's full rank. A block of exact rank r is reproduced exactly once rank r is reached, including zero, constant and one-row or one-column blocks.",
["inputs","configurations"],"all blocks (sizes, ranks, zero patterns, types), tolerances, requested ranks",
"Tests compress two point clouds with one kernel; rank-deficient, zero-row, tiny and non-square blocks are not enumerated.",
["hmatrix/lrmat/SVD.hpp","hmatrix/lrmat/fullACA.hpp","hmatrix/lrmat/partialACA.hpp","hmatrix/lrmat/sympartialACA.hpp","matrix/utils/SVD_truncation.hpp","hmatrix/lrmat/lrmat.hpp"],
[("pivoted cross approximation loops and stopping tests","hmatrix/lrmat/partialACA.hpp"),("SVD_truncation","matrix/utils/SVD_truncation.hpp")],
["LowRankMatrix::get_U/get_V/rank_of"])

p("C06","Hierarchical matrix-vector and multi-vector products are exact",
"For every hierarchical matrix, transposition, scalars alpha and beta, number of right-hand sides and layout, the sequential and threaded products equal alpha*op(A)*x + beta*y computed from the matrix's own dense representation, up to rounding. This holds for symmetric and Hermitian storage in either triangle (for the transpositions that storage supports), and for zero-rank blocks, and the input and the matrix are left unchanged.",
["inputs","configurations"],"all matrices, trans, alpha, beta, numbers of columns, symmetry, numbering",
"Tests sample one alpha/beta pair and one geometry per type and compare with a compression-sized tolerance, which hides small errors.",
["hmatrix/linalg/add_hmatrix_vector_product.hpp","hmatrix/linalg/add_hmatrix_matrix_product_row_major.hpp","hmatrix/linalg/add_hmatrix_matrix_product.hpp","hmatrix/linalg/scale.hpp"],
[("leaf loops with symmetric counterpart","hmatrix/linalg/add_hmatrix_vector_product.hpp")],
["add_hmatrix_vector_product","add_hmatrix_matrix_product","internal_* products"])

p("C07","Hierarchical arithmetic equals the dense arithmetic it represents",
"Sums and products whose operands or result are hierarchical, low-rank or dense matrices, in every combination the library offers, equal the dense computation on the operands' own entries up to rounding and the truncation tolerance, for every offered transposition, scalars alpha and beta, and symmetric or Hermitian operand (offered with dense and low-rank partners). Operands that are not the output are left unchanged, and scaling multiplies every represented entry.",
["inputs","configurations"],"all operand kinds, block structures, trans flags, scalars",
"Tests use one structure per kind with compression-level tolerance, so branches for mixed leaf kinds, zero ranks and special scalars are not all reached or not discriminated.",
["hmatrix/linalg/add_hmatrix_hmatrix_product.hpp","hmatrix/linalg/add_hmatrix_lrmat_product.hpp","hmatrix/linalg/add_lrmat_hmatrix_product.hpp","hmatrix/linalg/add_matrix_hmatrix_product.hpp","hmatrix/linalg/add_lrmat_hmatrix.hpp","hmatrix/linalg/scale.hpp"],
[("recursive block products","hmatrix/linalg/add_hmatrix_hmatrix_product.hpp")],
["internal_add_*_product","internal_add_lrmat_hmatrix","scale"])

p("C08","Hierarchical factorizations and triangular solves solve the system",
"For every nonsingular (resp. real symmetric or Hermitian positive definite) hierarchical matrix with a consistent block tree, LU (resp. Cholesky, in the stored triangle) followed by the solve returns the solution of op(A)x = b for every transposition and number of right-hand sides, within the truncation tolerance, in user numbering. Triangular solves with hierarchical, low-rank and dense right-hand sides on either side, either triangle, any transposition, unit or non-unit diagonal satisfy the triangular equation they name.",
["inputs","configurations"],"all matrices, block structures, sides, triangles, transpositions, diag flags, right-hand sides",
"Tests factorize one geometry per type; combinations of side, triangle, transposition, pivoting and structure are sampled.",
["hmatrix/linalg/factorization.hpp","hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp","hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp","hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp"],
[("recursive block LU/Cholesky","hmatrix/linalg/factorization.hpp")],
["lu_factorization, lu_solve, cholesky_factorization, cholesky_solve","internal_triangular_hmatrix_*_solve"])

p("C09","Dense kernels implement the algebra they name",
"Dense matrix-vector and matrix-matrix products (column and row major, general and symmetric/Hermitian), sums, scaling, transposition, LU/Cholesky factorization and solves, triangular solves and truncated SVD give the mathematically defined result for every shape, scalar type, transposition, triangle, side and alpha/beta. They read and write exactly the entries of their operands.",
["inputs","configurations"],"all shapes up to a bound including empty and 1x1, flags, scalars, types",
"Tests use single large shapes; flag combinations and degenerate shapes are sampled.",
["matrix/matrix.hpp","matrix/linalg/add_matrix_matrix_product.hpp","matrix/linalg/add_matrix_matrix_product_row_major.hpp","matrix/linalg/add_matrix_vector_product.hpp","matrix/linalg/factorization.hpp","matrix/linalg/scale.hpp","matrix/linalg/transpose.hpp","matrix/utils/SVD_truncation.hpp"],
[("BLAS/LAPACK argument mapping","matrix/linalg/add_matrix_matrix_product.hpp")],
["add_*_product","triangular_matrix_matrix_solve","lu_*","cholesky_*"])

p("C10","Low-rank algebra and recompression preserve the represented matrix",
"Products and sums of low-rank matrices with vectors, dense matrices and low-rank matrices give the dense result for every transposition, scalars and ranks including zero, up to rounding and the truncation tolerance. Recompression never increases the rank and changes the represented matrix by at most the tolerance.",
["inputs","configurations"],"all ranks including zero and full, shapes, flags, scalars, types",
"Tests run generic ranks with a compression-level tolerance; zero-rank and special scalar branches are not reached.",
["hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp","hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp","hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp","hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp","hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp","hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp","hmatrix/lrmat/linalg/add_matrix_matrix_product.hpp","hmatrix/lrmat/utils/recompression.hpp"],
[("concatenation and QR/SVD recompression","hmatrix/lrmat/utils/recompression.hpp")],
["add_lrmat_*","recompression","LowRankMatrix::copy_to_dense"])

p("C11","Distributed products equal the global product",
"For every number of processes, partition, local operator kind (dense, hierarchical, several per process) and symmetry, the distributed operator's global-to-global and local-to-local products, single and multiple right-hand sides, plain and transposed, in user and cluster numbering, return on every process the same result as the global matrix applied to the global vector, for every order in which processes arrive. Symmetric and Hermitian operators give the same results as their full counterparts.",
["configurations","schedules","inputs"],"process counts, partitions, layouts, numbers of right-hand sides, arrival orders",
"Tests run a few process counts on random geometries with compression-level tolerance; process arrival order, uneven partitions and combinations of local operators are not enumerated.",
["distributed_operator/distributed_operator.hpp","distributed_operator/utility.hpp","distributed_operator/implementations/partition_from_cluster.hpp","local_operators/local_operator.hpp","local_operators/local_hmatrix.hpp","local_operators/local_dense_matrix.hpp"],
[("Allgatherv/Allreduce/Alltoallv exchanges with partition offsets","distributed_operator/distributed_operator.hpp")],
["DistributedOperator::*_product_*"])

p("C12","Threaded results do not depend on the schedule and have no data race",
"For every number of threads, every assignment of loop iterations to threads and every interleaving, threaded assembly, products and scaling give the result of the sequential computation (products and scaling up to rounding order), and report the same information. Several threads may use the same operator at once with operations that only read it. No two threads ever access the same memory without synchronization when one of them writes.",
["schedules"],"team sizes, chunk assignments, interleavings",
"Tests run with two OS threads and whatever schedule occurs; a race or an assignment-dependent result shows only on a rare schedule.",
["hmatrix/tree_builder/tree_builder.hpp","hmatrix/linalg/add_hmatrix_vector_product.hpp","hmatrix/linalg/add_hmatrix_matrix_product_row_major.hpp","hmatrix/linalg/scale.hpp"],
[("per-thread buffers and a critical section","hmatrix/linalg/add_hmatrix_vector_product.hpp"),("guided loops with nowait","hmatrix/tree_builder/tree_builder.hpp")],
["openmp_internal_add_hmatrix_vector_product","openmp_internal_add_hmatrix_matrix_product_row_major","HMatrixTreeBuilder::build","openmp_scale"])

p("C13","Processes always agree on collective communications",
"In every collective operation of the library (distributed builders, products, gathered information, coarse operator), and in every sequence of them without barriers in between, whatever the partition, symmetry and number of right-hand sides and in whatever order processes arrive, all processes take part in the same sequence of collectives with compatible sizes, types and roots, so that none blocks forever, reads an unreceived part or writes outside its buffers, and each operation gives what it gives alone (the coarse operator being the projection of the operator on the coarse vectors of all processes).",
["schedules","configurations"],"process counts, arrival orders, partitions (including uneven), operations",
"A mismatch that happens to work with one MPI implementation, size or timing is invisible to tests.",
["distributed_operator/distributed_operator.hpp","hmatrix/hmatrix_distributed_output.hpp","distributed_operator/utility.hpp","solvers/geneo/coarse_operator_builder.hpp"],
[("MPI collectives","distributed_operator/distributed_operator.hpp")],
["MPI calls"])

p("C14","Copies, moves and assignments keep values independent and intact",
"After any history of construction, copy, move, assignment, resize, view assignment, element and scale operations on vectors of matrices, low-rank matrices and hierarchical matrices, each object holds exactly the value the history defines, copies are deep and independent (including symmetry and behaviour under products), moved-from objects can be reassigned, and no memory is leaked, used after free or freed twice. Moving a cluster tree keeps the whole tree usable.",
["histories"],"all operation sequences up to a depth over a small set of objects",
"Tests copy once; sequences such as copy of a symmetric matrix then product, assign over an object with other storage, or reuse after move are not explored.",
["matrix/matrix.hpp","hmatrix/lrmat/lrmat.hpp","hmatrix/hmatrix.hpp","basic_types/tree.hpp","clustering/cluster_node.hpp"],
[("owning flag and special members","matrix/matrix.hpp"),("deep copy","hmatrix/hmatrix.hpp")],
["special members"],
[("m_is_owning_data","who frees the buffer","matrix/matrix.hpp")])

p("C15","Builders are reusable and leave what they built alone",
"Building several cluster trees or hierarchical matrices with the same builder, with any sequence of option changes and generators in between, gives each time the same result as a fresh builder with those options, and never alters, or depends on the lifetime of, anything built before. Building does not modify the inputs, and repeated builds are identical.",
["histories"],"all sequences of builds and setter calls up to a depth, with or without destroying earlier results",
"Tests use each builder once.",
["hmatrix/tree_builder/tree_builder.hpp","clustering/tree_builder/recursive_build.hpp"],
[("task lists kept by the builder","hmatrix/tree_builder/tree_builder.hpp"),("partition list kept by the builder","clustering/tree_builder/recursive_build.hpp")],
["HMatrixTreeBuilder::build","ClusterTreeBuilder::create_cluster_tree"])

p("C16","Saved data reads back as it was written",
"Writing then reading a dense matrix or a vector in binary form gives back the same shape and bits, whatever the object read into held before, and the returned status tells when a file is missing, truncated or could not be written completely; writing then reading a cluster tree gives back the same structure, permutation, ranks, partition, depths and parameters, with centres and radii to the printed precision, and saving it again produces the same files. Text exports (matrix, vector, geometry, block structure) contain each value exactly once at its place.",
["inputs","histories"],"all shapes, types, trees, histories of saves and loads over the same files and objects",
"Tests round-trip one object of each kind.",
["matrix/matrix.hpp","basic_types/vector.hpp","clustering/cluster_output.hpp","hmatrix/hmatrix_output.hpp","misc/user.hpp"],
[("matrix_to_bytes/bytes_to_matrix","matrix/matrix.hpp"),("save_cluster_tree/read_cluster_tree","clustering/cluster_output.hpp")],
["files"])

p("C17","Numberings are inverse of each other and consistent across the API",
"For every cluster tree, converting data from user to cluster numbering and back is the identity, for the root, for each local partition and for multi-column data, and every interface offering both numberings gives results related by exactly that permutation. Partition objects report offsets and sizes that tile the global numbering and convert consistently with the cluster tree.",
["inputs","configurations"],"all permutations reachable by clustering, partitions, layouts",
"Tests mostly use results where an inverse or transposed permutation error cancels or only one layout.",
["clustering/cluster_node.hpp","distributed_operator/implementations/partition_from_cluster.hpp","hmatrix/interfaces/virtual_generator.hpp"],
[("root_cluster_to_global, local_cluster_to_local, cluster_to_user and inverses","clustering/cluster_node.hpp")],
["permutation helpers","PartitionFromCluster","InternalGeneratorWithPermutation"])

p("C18","Reported structure and information match the matrix",
"The reported information about a hierarchical matrix (numbers and sizes of dense and compressed blocks, ranks, compression and space saving, false positives, tree parameters), local or gathered over processes, equals what is computed from its actual leaves; the stored size and the error reported for a compressed block are those of its factors; saved leaf and level files list exactly the blocks with their offsets, sizes and ranks; and looking up a sub-block by clusters finds that block and only that block.",
["inputs","configurations"],"all matrices, partitions, process counts",
"Tests print this information without checking it.",
["hmatrix/hmatrix_output.hpp","hmatrix/hmatrix_distributed_output.hpp","hmatrix/hmatrix.hpp","basic_types/tree.hpp"],
[("get_hmatrix_information","hmatrix/hmatrix_output.hpp"),("get_sub_hmatrix, get_child_or_this","hmatrix/hmatrix.hpp")],
["get_hmatrix_information","get_distributed_hmatrix_information","save_leaves_with_rank","save_levels","get_sub_hmatrix"])

p("C19","Domain-decomposition solvers precondition and solve the distributed system",
"For every number of processes, partition, symmetry, overlap, numbering of the subdomains and way of building the solver (block Jacobi, overlap added to the diagonal block, local matrix built with its overlap; dense or hierarchical local solvers), DDM::solve applied to one or several right-hand sides in user numbering realises, on every process, the Schwarz method selected by the options: without preconditioner the operator is the distributed matrix, RAS and ASM use the inverse of each subdomain's matrix with the interior as partition of unity, coarse corrections use the given coarse space and its projected operator; Krylov solves reach their tolerance for the represented system; right-hand sides are left unchanged, the solver can be reused with other options and numbers of right-hand sides, local_to_global_numbering lists the interior in cluster order and then the overlap, and the reported information describes the solve.",
["configurations","inputs","schedules"],"process counts 1..4, all partitions and symmetries, overlap shapes and numberings, histories of solves, arrival orders of the processes",
"The solver tests need HPDDM and are not even built here; upstream they run a few fixed data sets with one order of operations.",
["solvers/ddm.hpp","solvers/utility.hpp","wrappers/wrapper_hpddm.hpp","solvers/geneo"],
[("DDM::solve, facto_one_level, build_coarse_space","solvers/ddm.hpp"),("DDMSolverWithDenseLocalSolver, DDMSolverBuilder, LocalNumberingBuilder","solvers/utility.hpp"),("HPDDMOperator::GMV, HPDDMCustomLocalSolver","wrappers/wrapper_hpddm.hpp")],["DDM::solve","DDMSolverBuilder","DDMSolverWithDenseLocalSolver"])

p("C20","Local solvers solve with the matrix they were given",
"The local solvers used inside the domain-decomposition methods - dense, hierarchical (in cluster or user numbering), and hierarchical extended by the dense blocks B, C, D of an overlap - solve exactly (up to rounding and the compression tolerance) with the matrix they were constructed from, for general, symmetric and Hermitian storage in either triangle, in place and out of place, for any number of right-hand sides, and again after any sequence of earlier solves; out-of-place solves do not modify the right-hand side.",
["inputs","histories"],"block structures, symmetries, numberings, overlap sizes, sequences of solves",
"No test builds these classes here; their upstream tests go through complete solver runs with Krylov iterations that hide errors in a preconditioner.",
["solvers/local_solvers"],
[("LocalDenseSolver","solvers/local_solvers/local_dense_solvers.hpp"),("LocalHMatrixSolver","solvers/local_solvers/local_hmatrix_solvers.hpp"),("LocalHMatrixPlusOverlapSolver","solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp")],["LocalHMatrixSolver::solve","LocalHMatrixPlusOverlapSolver::solve"])

p("C21","GenEO coarse spaces contain the dominant eigenvectors",
"The GenEO coarse space of a subdomain, built from its matrix (dense or hierarchical, with or without overlap) and its Neumann matrix, consists of linearly independent eigenvectors of the pencil (D A D, B), restricted by the partition of unity to the interior, associated with the eigenvalues of largest modulus: exactly the requested number of them, or exactly those above the threshold (possibly none, possibly all), for real and complex, general, symmetric and Hermitian pencils stored in either triangle, including pencils with infinite eigenvalues.",
["inputs"],"sizes, symmetries, spectra, every number of vectors, thresholds in every gap of the spectrum",
"No test builds this class here, and upstream only uses the vectors inside Krylov solves that converge with any of them.",
["solvers/geneo/coarse_space_builder.hpp"],
[("GeneoCoarseSpaceDenseBuilder::build_coarse_space","solvers/geneo/coarse_space_builder.hpp")],["GeneoWithNu","GeneoWithThreshold"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80, (q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(P))

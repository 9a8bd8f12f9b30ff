TYPES = ["float", "double", "std::complex<float>", "std::complex<double>"]
def typed(src, types=TYPES, *defs):
    return [(src, "-DTS=" + t) + defs for t in types]
ENGINE = [("eng:mc_main.cpp",), ("eng:omp_shim.cpp",)]
CHECKS = {}
# BLAS and LAPACK calls go through engine/lapack_guard.cpp (all checks under AddressSanitizer, i.e. all but C12)
GUARDED = [c + f for c in "sdcz" for f in ("axpy_", "scal_", "gemv_", "gemm_", "syrk_", "trsm_", "laswp_", "getrf_", "getrs_", "potrf_", "potrs_", "geqrf_", "gelqf_", "symm_", "symv_", "gesvd_", "ggev_")]
GUARDED += [c + f for c in "cz" for f in ("hemm_", "hemv_", "herk_", "hegv_", "unmlq_", "unmqr_")] + [c + f for c in "sd" for f in ("sygv_", "ormlq_", "ormqr_")]
CHECKS["C09"] = dict(tus=ENGINE + typed("c09_dense.cpp"),
    bounds="all shapes with dimensions in {0,1,2,3,5,9} (thorough: 0..5,9,17,33), symmetric and triangular ones up to 17, all transposition/side/triangle/diag flags, alpha,beta in {1,0,generic,-1}, operands owning their entries or views on a larger buffer, 4 scalar types, every pivot order for n<=5 (6), truncated SVD over six kinds of spectra around five tolerances, vector algebra; also shapes with dimensions 33, 35 and 40")
CHECKS["C06"] = dict(tus=ENGINE + typed("c06_products.cpp"), bounds='2D/3D geometric block trees up to 19 (26) points and every table of block decisions on two-level trees; all symmetries and triangles, every supported transposition, alpha,beta in {1,0,generic}, 1..3 columns, sequential and threaded entry points, 4 scalar types; also block trees over 100 points with 1 and 10 columns (section large)')
CHECKS["C10"] = dict(tus=ENGINE + typed("c10_lowrank.cpp"), bounds='all shapes with dimensions 1..5 and ranks 0..min+1 (thorough larger), all transpositions, alpha/beta sets, 4 scalar types; also blocks up to 40x33 with ranks up to 14, generic combinations of flags only')
CHECKS["C07"] = dict(tus=ENGINE + typed("c07_arith.cpp"), bounds='every table of block decisions on two-level trees with 2..3 children, all operand kinds (hierarchical, low-rank, dense), transpositions, scalars, symmetries, 4 scalar types; also block trees over 70 points (section large)')
CHECKS["C08"] = dict(tus=ENGINE + typed("c08_solve.cpp"), bounds='every table of off-diagonal block decisions on two-level trees, all sides, triangles, transpositions, diagonal flags, 1..3 right-hand sides, LU/Cholesky, 4 scalar types; also geometric block trees over 80 points')
REAL = ["float", "double"]
CHECKS["C01"] = dict(tus=ENGINE + typed("c01_tree.cpp", REAL), bounds='every arrangement of 2..5 (1..6) points on a 3..5 point lattice in 2D and 3D, and 11 named geometries up to 49 (129) points, times children, minimal size, parts, imposed partitions, strategies, radii/weights; also larger trees of 200 and 600 points with up to 16 and 243 parts and 10 children, and refined point sets that give trees of dozens of levels (section big)')
CHECKS["C02"] = dict(tus=ENGINE + typed("c02_geometry.cpp", REAL), bounds='the point sets and options of C01 plus direct enumeration of directions and splittings; also larger trees of 200 and 600 points with up to 16 and 243 parts and 10 children, and refined point sets that give trees of dozens of levels (section big)')
CHECKS["C03"] = dict(tus=ENGINE + typed("c03_blocks.cpp", ["double", "std::complex<float>"]), bounds='geometric block trees over cluster pairs with 1..4 parts each, eta, symmetry/triangle, target partition, minimal depths, consistency, and every table of admissibility decisions on two-level trees; also block trees over 90 points (section large)')
CHECKS["C05"] = dict(tus=ENGINE + typed("c05_compress.cpp"), bounds='all blocks up to 4x4 over small coefficient alphabets, all exact-rank products up to 6x6, zero patterns; tolerances, requested ranks, 4 compressors, 4 scalar types; also smooth 40x45 blocks needing ranks up to 12')
CHECKS["C04"] = dict(tus=ENGINE + typed("c04_assembly.cpp"), bounds='geometric configurations up to 22 (37) points, compressors, tolerances, requested ranks, symmetries, partitions, scripted compressor outcomes (all success/failure tables), dense-block generators, 4 scalar types; also block trees over 80 and 130 points (section large)')
CHECKS["C17"] = dict(tus=ENGINE + typed("c17_numbering.cpp", REAL), bounds='all point arrangements of C01 (every permutation they reach), partitions, views, real and complex data; local dense and hierarchical operators, square and rectangular, on whole clusters and on parts, every combination of numberings, plain and transposed, 0, 1 and 3 columns; also the trees of section big (200 and 600 points) and interfaces over 80 points with 4 and 5 parts, and row blocks of symmetric matrices in both numberings')
CHECKS["C16"] = dict(ram_scratch=True, tus=ENGINE + [("eng:alloc_count.cpp",)] + typed("c16_files.cpp") + typed("c16_trees.cpp", REAL), bounds="all shapes up to 4x4 (5x5) with ordinary and special values read into objects in 7 states; every truncation of every binary file and every point at which writing it can fail; every history of 4 (5) saves and loads over two files and two objects; every cluster tree of the C01 spaces saved, read, saved again; all text exports of these; also the trees of section big (200 and 600 points)")
CHECKS["C14"] = dict(tus=ENGINE + [("eng:alloc_count.cpp",)] + typed("c14_values.cpp") + typed("c14_clusters.cpp", REAL), bounds="every history of 4 (5) operations over two and 3 (4) over three dense matrices with 13 kinds of operation and two external buffers, of 3..4 (5) over two low-rank matrices, of 3 (4) over two hierarchical matrices of five kinds with 15 kinds of operation, of 5 (6) on containers, of 4 (5) moves of cluster trees; every intermediate state compared, leaks counted")
CHECKS["C15"] = dict(tus=ENGINE + [("eng:alloc_count.cpp",)] + typed("c15_builders.cpp", ["double", "std::complex<float>"]) + typed("c15_clusters.cpp", REAL), bounds="every history of 4 (5) operations (option changes, builds with three generators, destruction of earlier results, moves of the builder) of a builder of hierarchical matrices in four configurations, and of a cluster tree builder over six inputs; each build compared with a fresh builder's, every live result compared after every operation")
import os as _os
_ENG = _os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "engine")
MPI = dict(inc_first=["-I" + _ENG + "/mpi"], omp=[])
CHECKS["C18"] = dict(tus=ENGINE + [("eng:mpi_shim.cpp",)] + typed("c18_info.cpp", ["double", "std::complex<float>"]) + typed("c18_dist.cpp", ["double", "std::complex<float>"]), bounds="geometric block trees up to 19 (26) points and every table of two-level block decisions, scripted ranks and compression failures, minimal depths, target partitions; every pair of clusters looked up; every level and leaf file; information gathered from 1..3 (4) processes with every table of three kinds of matrices; matrices up to 100000 x 100000 for the global figures; also block trees over 60 points (section bigger)", **MPI)
CHECKS["C11"] = dict(tus=ENGINE + [("eng:mpi_shim.cpp",)] + typed("c11_products.cpp"), bounds="1..3 (4) processes, five geometries, balanced and two kinds of uneven imposed partitions, the three builders, rectangular and every symmetric layout, every table of local operators (dense, hierarchical, two per block, renumbered, symmetric, Hermitian) per process, 19 operations, both numberings, 1..3 right-hand sides, with and without work buffers, renumbered and partial communicators; every order of arrival at every communication, 4 scalar types; also 4 and 6 processes over 90 points with 9 columns (section large, few orders of arrival)", **MPI)

_WRAP = ["malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release", "pthread_mutex_lock", "pthread_mutex_unlock"]
for _c in "sdcz":
    _WRAP += [_c + f + "_" for f in ("axpy", "scal", "gemv", "gemm", "symm", "symv")] + ([_c + "hemm_", _c + "hemv_"] if _c in "cz" else [])
CHECKS["C12"] = dict(tus=ENGINE + [("eng:race.cpp",)] + typed("c12_threads.cpp"), san="", tuflags=["-fsanitize=thread", "-Wno-tsan"], ldflags=["-Wl,--wrap=" + f for f in _WRAP], bounds="teams of 2 and 3 threads; every order of loop grabs and lock acquisitions for loops of up to 7 (10) iterations, otherwise at most 4 departures from two base orders; block trees from tables of decisions on two levels over 8 and 17 points, 5 (8) compressors or tables of compression failures, dense-block generators, all symmetries, vector and row-major products, scaling; two concurrent readers, every pair of 20 reading operations (products in every form, exports, solves with a shared factorization, products of matrices, assembly, information); happens-before race detection on every access of every execution")
CHECKS["C13"] = dict(tus=ENGINE + [("eng:mpi_shim.cpp",)] + typed("c13_agree.cpp"), bounds="every sequence of two (and of three, thorough) collective operations among 19 kinds of products, gathered and printed information and the coarse operator, without barrier in between, on 2 and 3 (1..4) processes, balanced and uneven partitions, three layouts, all symmetries; at most 2 departures (2 processes; all orders in thorough) or 1 (3; thorough 3) from the order in which processes are numbered; rooted collectives both with and without waiting; coarse operators with every table of 0..2 vectors per process; also coarse operators on 5 processes with up to 9 vectors each", **MPI)

HPDDM = dict(inc_first=["-I" + _ENG + "/hpddm", "-I" + _ENG + "/mpi"], omp=[])
CHECKS["C19"] = dict(tus=ENGINE + [("eng:mpi_shim.cpp",)] + typed("c19_ddm.cpp", ["double", "std::complex<double>"]), bounds="1..3 (4) processes, clusters of the library or imposed partitions (balanced, unbalanced), nonsymmetric / symmetric / Hermitian operators in either triangle, dense or hierarchical local solvers, 3 ways of building them, 5 overlaps x 4 numberings of the subdomains, 0..2 vectors per process given or from GenEO; one tour of all the kinds of solve (no preconditioner / RAS / ASM x no / additive / deflated / balanced correction x one application / GMRES x 1, 2 (3) right-hand sides) per configuration in 3 (all) strides; every order of arrival with at most 1 (2) deviations for one (two) solves of 2 and 3 processes; also 4 and 5 (8) processes over 45 (100) points with up to 7 vectors each and 8 right-hand sides (section large)", note="HPDDM is not installed here: the code runs on a stand-in (engine/hpddm) that implements the documented part of HPDDM's interface it uses (Schwarz preconditioners, exchanges, coarse corrections, GMRES, options) on the controlled MPI runtime. Every case within the stated bounds is executed on the code built from /repo under AddressSanitizer and compared with dense formulas; nothing is sampled. What depends on HPDDM itself, or lies outside the bounds, is not claimed.", **HPDDM)
CHECKS["C20"] = dict(tus=ENGINE + [("eng:mpi_shim.cpp",)] + typed("c20_local.cpp"), bounds="every history of 2 (3) solves, in place or not, with 1..3 right-hand sides, after the factorization of dense matrices up to 5 (7) unknowns with rotated pivots, of hierarchical matrices from tables of block decisions, and of these with 0..3 (5) unknowns of dense overlap; all supported symmetries and triangles, both numberings, 4 scalar types; also hierarchical systems of 70 unknowns, overlaps of 9 and 24, 12 right-hand sides (section large) and dense ones of 30", note="HPDDM is not installed here: the code runs on a stand-in (engine/hpddm) that implements the documented part of HPDDM's interface it uses (Schwarz preconditioners, exchanges, coarse corrections, GMRES, options) on the controlled MPI runtime. Every case within the stated bounds is executed on the code built from /repo under AddressSanitizer and compared with dense formulas; nothing is sampled. What depends on HPDDM itself, or lies outside the bounds, is not claimed.", **HPDDM)
CHECKS["C21"] = dict(tus=ENGINE + [("eng:mpi_shim.cpp",)] + typed("c21_geneo.cpp", ["double", "std::complex<double>"]), bounds="interiors of 1..8 (12) and overlaps of 0..3 (5) unknowns, nonsymmetric (with and without kernel), symmetric and Hermitian pencils in either triangle, 6 (24) sets of coefficients, matrices given dense or hierarchical with or without overlap, every number of vectors and a threshold in every gap of the spectrum; also interiors of 30 and overlaps of 11", note="HPDDM is not installed here: the code runs on a stand-in (engine/hpddm) that implements the documented part of HPDDM's interface it uses (Schwarz preconditioners, exchanges, coarse corrections, GMRES, options) on the controlled MPI runtime. Every case within the stated bounds is executed on the code built from /repo under AddressSanitizer and compared with dense formulas; nothing is sampled. What depends on HPDDM itself, or lies outside the bounds, is not claimed.", **HPDDM)
for _k in CHECKS.values():
    if _k.get("san", "address") == "address":
        _k["tus"] = _k["tus"] + [("eng:lapack_guard.cpp",)]
        _k["ldflags"] = _k.get("ldflags", []) + ["-Wl,--wrap=" + f for f in GUARDED]

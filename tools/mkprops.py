#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, obs, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                   mechanism=[dict(name=a, where=b) for a,b in mech],
                   observe_at=obs, hook_needed=(hook or None))))

prop("C01", "Sparse matrix-vector products are exact for every layout and thread count",
 "For every sparse matrix, the products y = Ax and z = aAx + by equal the mathematical result computed from exactly the stored entries, for point, row-major-block and column-major-block storage, for owning matrices and wrapped views and for column-oriented storage, also when y and z are the same vector and when rows are empty. "
 "The result does not depend on the number of threads or on how they interleave, and neither the matrix nor the input vectors are changed.",
 ["inputs","schedules"], "all matrices (any dimension, pattern, block size and layout), vectors and scalars; all thread interleavings",
 "The tests multiply two fixed matrices, at 1 or 4 threads under whatever schedule the machine happened to choose; the column-oriented product accumulates concurrently and is never run under adversarial interleavings.",
 ["src/blas/matvecs.cpp","src/blockmatrices.ipp","include/blockmatrices.hpp"],
 [("vals/bcolind/browptr","the stored non-zero blocks of each row","include/srmatrixdefs.hpp SRMatrixStorage")],
 [("row-parallel products","src/blas/matvecs.cpp BLAS_BSR/BLAS_CSR"),("atomic accumulation over columns","src/blas/matvecs.cpp bcsc_gemv3")],
 ["BSRMatrix::apply/gemv3","BSRMatrixView::apply/gemv3","CSRMatrixView::apply/gemv3","bcsc_gemv3"])

prop("C02", "Coordinate input becomes exactly the same matrix in sparse-row form",
 "Reading a coordinate (Matrix Market) file whose rows all hold an entry and converting it to point or block sparse-row form preserves every entry of the matrix (blocks are padded with zeros, in the requested layout inside blocks), whatever the order of the lines in the file. "
 "Column indices within each (block-)row come out strictly increasing, row pointers are consistent, and the recorded diagonal position of each row that has a diagonal entry points at it. "
 "Files whose header announces anything but a real or integer general coordinate matrix (other storage, pattern or complex values, any symmetry), or is no Matrix Market header, are refused with the library's own exception rather than accepted or crashing.",
 ["inputs"], "all coordinate files: any entry order, sparsity, block size, comment lines and header",
 "The tests convert two small fixed files; unsorted block columns, rows lacking low columns, missing diagonals and unusual headers are not sampled.",
 ["src/coomatrix.cpp","include/coomatrix.hpp"],
 [("entries","the list of (row, column, value) triples read","include/coomatrix.hpp COOMatrix")],
 [("parsing and sorting","src/coomatrix.cpp COOMatrix::readMatrixMarket"),("conversion","src/coomatrix.cpp convertToCSR/convertToBSR")],
 ["getSRMatrixFromCOO","COOMatrix::convertToCSR","COOMatrix::convertToBSR"])

prop("C03", "Row-to-column conversion and column adjacency are exact transposed views",
 "Converting a square sparse-row matrix to compressed-column form (0-based or 1-based, any supported block size) yields the same set of (row, column, block) entries with rows increasing in each column, column pointers counting each column, and diagonal positions that point at the diagonal or carry the documented absent marker. "
 "Column adjacency lists contain, for each column, exactly the rows with an entry there and the location of that entry in the row storage.",
 ["inputs"], "all sparse patterns and values, including empty rows/columns and rows with unsorted columns",
 "Tests compare one fixed matrix against a stored answer.",
 ["src/scmatrix.cpp","include/scmatrixdefs.hpp","src/adjacency.cpp","src/adjacency.hpp"],
 [("bcolptr/browind/vals/diagind","column-oriented copy","include/scmatrixdefs.hpp")],
 [("conversion","src/scmatrix.cpp convert_BSR_to_BSC"),("adjacency","src/adjacency.cpp ColumnAdjacency::compute")],
 ["convert_BSR_to_BSC","convert_BSR_to_BSC_1based","ColumnAdjacency accessors"])

prop("C04", "Reordering and scaling permute and scale exactly, and invert exactly",
 "Applying a row and/or column ordering to a matrix produces the matrix whose (i,j) entry is the old entry at the ordered positions, applying a scaling multiplies each entry by its row and column factors, and applying an ordering or scaling to a vector is consistent with what was done to the matrix, so that the reordered/scaled system has the correspondingly transformed solution. "
 "Applying the inverse after the forward operation restores the original matrix (up to the order of columns stored in a row) and vector, for every block size; ordered columns end up sorted within each row; the recorded diagonal positions follow the re-ordered matrix; and the diagonal-based symmetric scaling yields unit diagonals.",
 ["inputs","histories"], "all permutations, scalings, sparse matrices and vectors, and all sequences of forward/inverse applications",
 "Tests use two fixed permutations on a small matrix and never compose the operations with scaling or vectors of all block sizes.",
 ["src/reorderingscaling.cpp","include/reorderingscaling.hpp","src/rawsrmatrixutils.cpp"],
 [("rowordering/colordering","the permutations held","include/reorderingscaling.hpp"),("rowscale/colscale","scaling factors","include/reorderingscaling.hpp")],
 [("orderings","src/reorderingscaling.cpp Reordering::applyOrdering"),("scalings","src/reorderingscaling.cpp ReorderingScaling::applyScaling")],
 ["Reordering::applyOrdering","ReorderingScaling::applyScaling","BSRMatrix::reorderScale","getScalingVector"])

prop("C05", "Matrix assembly histories leave exactly the accumulated matrix",
 "After any sequence of structure setting, block insertion, block update, diagonal update, zeroing (all or diagonal), scaling and copying, every stored entry of a point or block matrix equals the value obtained by applying those operations in order to the addressed positions only, and queries about the diagonal and equality report that matrix. "
 "Updates issued by several threads at once are never lost: any interleaving yields the sum of all updates.",
 ["histories","schedules","inputs"], "all operation sequences on all patterns, all interleavings of concurrent updates, rectangular update blocks for point storage",
 "Tests assemble once, sequentially, from one file; lost updates only appear under particular interleavings.",
 ["src/blockmatrices.ipp","include/blockmatrices.hpp"],
 [("mat","the stored matrix","include/blockmatrices.hpp BSRMatrix::mat")],
 [("assembly operations","src/blockmatrices.ipp submitBlock/updateBlock/updateDiagBlock"),("atomic update","src/blockmatrices.ipp omp atomic")],
 ["BSRMatrix member functions","AbstractMatrix interface"])

prop("C06", "Array and matrix storage is owned by exactly one holder and freed once",
 "Through any sequence of allocation, wrapping, taking control, resizing, moving, converting to read-only and sharing, each block of storage has at most one owner, is released exactly once when its owner is destroyed or re-targeted and never by a non-owner, and a moved-from holder is empty and harmless. "
 "Views and moved holders always see the contents and size that the sequence implies, and triangular views of a matrix share its values without copying.",
 ["histories"], "all finite sequences of storage operations over several holders",
 "Double frees and leaks depend on multi-step sequences of moves, wraps and destruction which unit tests do not enumerate.",
 ["include/arrayview.hpp","include/srmatrixdefs.hpp","src/rawsrmatrixutils.cpp"],
 [("data/len/owner","pointer, length and ownership flag of a holder","include/arrayview.hpp ArrayView")],
 [("move/wrap/take_control/resize","include/arrayview.hpp"),("move_to_const/share_with_const","src/rawsrmatrixutils.cpp")],
 ["ArrayView public operations","SRMatrixStorage constructors","move_to_const","share_with_const"])

prop("C07", "Sequential incomplete factorization is exact on the sparsity pattern",
 "When run sequentially, the zero-fill factorization of a matrix (point or block, with or without symmetric diagonal scaling, any number of sweeps of at least one, any initial guess) yields factors L, U on the matrix's own pattern whose product equals the (scaled) matrix at every stored position. "
 "The precomputed position lists used for it name, for every stored position (i,j), exactly the pairs of stored positions (i,k),(k,j) with k smaller than both i and j.",
 ["inputs","configurations"], "all matrices with stored diagonal, sorted columns and non-singular pivots; all option combinations",
 "Tests only check that an iterative solver converges, which a wrong entry in a factor usually does not prevent.",
 ["src/async_ilu_factor.cpp","src/async_blockilu_factor.cpp","src/kernels/kernels_ilu0_factorize.hpp","src/ilu_pattern.cpp","src/solverops_ilu0.cpp"],
 [("iluvals","the factor values on the matrix pattern","include/solverops_ilu0.hpp"),("plist","position lists","include/ilu_pattern.hpp")],
 [("factorization sweep","src/kernels/kernels_ilu0_factorize.hpp"),("position lists","src/ilu_pattern.cpp")],
 ["scalar_ilu0_factorize","block_ilu0_factorize","compute_ILU_positions_CSR_CSR","AsyncILU0_SRPreconditioner::compute/apply"])

prop("C08", "Asynchronous factorization is a consistent iteration in every schedule",
 "However threads interleave, a multi-threaded factorization updates every stored position exactly once per sweep, every value it makes visible equals the defining equation of that position evaluated on values that were visible while the update ran (never a partial sum or a value from another array), and it terminates after the requested sweeps. "
 "Consequently the exact factorization is left unchanged by any number of sweeps under every schedule, and the iteration started from the documented initial guess.",
 ["schedules","inputs","configurations"], "all interleavings at the granularity of single memory accesses, all matrices, thread counts, chunk sizes, sweep counts and initial guesses",
 "The guarantee is about all interleavings of racing sweeps; tests see the few schedules the host happens to produce and check only final convergence.",
 ["src/async_ilu_factor.cpp","src/async_blockilu_factor.cpp","src/kernels/kernels_ilu0_factorize.hpp"],
 [("iluvals","shared factor array updated concurrently","src/async_ilu_factor.cpp")],
 [("dynamic nowait sweeps","src/async_ilu_factor.cpp executeILU0Factorization"),("single publication per update","src/kernels/kernels_ilu0_factorize.hpp")],
 ["reads and writes of the factor array during a build"])

prop("C09", "Triangular application solves with the factors; async sweeps are consistent",
 "Applied sequentially, the incomplete-LU preconditioner returns exactly z with (L U) z = r, including the symmetric scaling when it is on, for point and block storage. "
 "Applied by several threads it performs exactly the requested sweeps over the lower and then the upper factor, each update evaluating the row's equation on values visible at that time starting from the documented initial guess (zero, or the lower solve's result for the Jacobi choice), and with one thread or once every dependency has been updated in order the result is exact.",
 ["inputs","schedules","configurations"], "all factors, right-hand sides, initial-guess choices, sweep counts, chunk sizes, thread counts and interleavings",
 "Which sweeps and which values a racing triangular solve used is invisible to tests that look at convergence only.",
 ["src/solverops_ilu0.cpp","src/kernels/kernels_ilu_apply.hpp"],
 [("ytemp","result of the lower solve","include/solverops_ilu0.hpp"),("z","solution vector","apply argument")],
 [("lower/upper sweeps","src/solverops_ilu0.cpp scalar_ilu0_apply/block_ilu0_apply")],
 ["AsyncILU0_SRPreconditioner::apply","AsyncBlockILU0_SRPreconditioner::apply"])

prop("C10", "Level scheduling is a valid order and yields sequential results always",
 "For every structurally symmetric pattern the computed levels partition the rows into consecutive non-empty groups such that no row depends on another row of its own group. "
 "Level-scheduled symmetric Gauss-Seidel and incomplete-LU application and relaxation therefore return exactly what sequential forward and backward substitution returns, for any thread count and any interleaving.",
 ["inputs","schedules"], "all structurally symmetric patterns with sorted columns; all interleavings within levels",
 "Only one fixed matrix's level count is tested; the level-scheduled solvers are not run at all by the test suite.",
 ["src/levelschedule.cpp","src/solverops_levels_sgs.cpp","src/solverops_levels_ilu0.cpp"],
 [("levels","first row of each level","include/solverops_levels_sgs.hpp")],
 [("level construction","src/levelschedule.cpp computeLevels"),("level-ordered sweeps","src/solverops_levels_sgs.cpp, src/solverops_levels_ilu0.cpp")],
 ["computeLevels","Level_SGS/Level_BSGS apply and apply_relax","Async_Level_ILU0/Async_Level_BlockILU0 apply"])

prop("C11", "Jacobi and Gauss-Seidel preconditioners apply their defining operators",
 "Applied with one thread, each preconditioner returns exactly its defining operator on the right-hand side: Jacobi the inverse (block) diagonal, symmetric Gauss-Seidel the forward then backward substitution, Gauss-Seidel the requested number of forward sweeps on the given vector, column-oriented Gauss-Seidel the backward substitution, and 'none' the identity. "
 "With several threads every row is updated exactly the requested number of times, each update evaluating that row's equation on values visible at that time, from the documented initial guess.",
 ["inputs","schedules","configurations"], "all matrices with invertible diagonal blocks, sweep counts, initial guesses, chunk sizes, thread counts and interleavings",
 "Tests exercise one of these through the convergence of an outer solver only.",
 ["src/solverops_jacobi.cpp","src/solverops_sgs.cpp","src/kernels/kernels_sgs.hpp","src/relaxation_chaotic.cpp","src/solverops_base.cpp"],
 [("dblocks","inverted diagonal (blocks)","include/solverops_jacobi.hpp"),("ytemp","forward sweep result","include/solverops_sgs.hpp")],
 [("kernels","src/kernels/kernels_sgs.hpp, src/kernels/kernels_relaxation.hpp")],
 ["apply of JacobiSRPreconditioner, AsyncSGS_SRPreconditioner, ChaoticRelaxation, CSC_BGS_Preconditioner, NoPreconditioner and block versions"])

prop("C12", "Relaxations iterate from the given vector for exactly the prescribed steps",
 "Relaxation starts from the vector supplied, applies exactly the method's step (Jacobi from the previous iterate only; Gauss-Seidel and symmetric Gauss-Seidel using the newest values) and stops exactly at the maximum number of iterations or, for Jacobi with tolerance checking on, right after the first step whose change falls below the absolute tolerance, below the relative tolerance, or above the divergence tolerance relative to the first change. "
 "An exact solution is a fixed point under every thread schedule.",
 ["inputs","schedules","configurations"], "all matrices, start vectors, tolerances and iteration limits; all interleavings",
 "No test runs relaxation at all except through PETSc, which is not available.",
 ["src/solverops_jacobi.cpp","src/solverops_sgs.cpp","src/relaxation_chaotic.cpp","src/solverops_levels_sgs.cpp"],
 [("x","iterate","apply_relax argument"),("solveparams","tolerances and maximum iterations","include/solverops_base.hpp")],
 [("stopping rule","src/solverops_jacobi.cpp apply_relax")],
 ["apply_relax of every solver that offers relaxation","setApplyParams"])

prop("C13", "A preconditioner depends only on its latest compute, not on its history",
 "After any history of value changes, computes and applications, a sequentially run preconditioner's application equals that of a freshly created one computed from the values at the latest compute call (or, for methods that read the matrix directly, from those and the current values), repeating an application repeats its result, and different preconditioner objects never influence each other. "
 "Computing and applying never modify the system matrix or the right-hand side, and destroying a preconditioner never releases a matrix it merely views.",
 ["histories","configurations"], "all interleaved histories of change/compute/apply/relax/destroy over several preconditioners of every kind",
 "Stale state after a second compute needs a multi-step history which the tests, computing once, never form.",
 ["src/solverops_ilu0.cpp","src/solverops_jacobi.cpp","src/solverops_sgs.cpp","src/solverops_levels_ilu0.cpp","src/solverops_levels_sgs.cpp","src/solverops_base.cpp"],
 [("computed data","factors, inverted diagonals, levels, column copies","include/solverops_*.hpp")],
 [("first-time set-up and refresh","compute() of each solver")],
 ["Preconditioner::compute/apply/apply_relax on objects made by SRFactory"])

prop("C14", "Requested solver names and settings select exactly the advertised method",
 "Each documented solver name and initialisation name maps to its own method and any other string is refused with an invalid-argument error; creating a solver from settings yields the method, block size, layout and options (sweeps, scaling, threading, diagnostics) requested, or an invalid-argument error for unsupported combinations. "
 "A created object reports the right dimension, and says that relaxation is available exactly when relaxing with it works instead of raising an error or doing nothing.",
 ["configurations"], "all solver names, block sizes, layouts and option combinations",
 "Tests pass a handful of names; a swapped option (e.g. which half is threaded) converges just as well.",
 ["src/solverfactory.cpp","include/solverfactory.hpp","include/async_initialization_decl.hpp","src/solverops_levels_ilu0.cpp"],
 [("settings","requested configuration","include/solverfactory.hpp AsyncSolverSettings")],
 [("selection","src/solverfactory.cpp create_preconditioner"),("names","include/async_initialization_decl.hpp, src/solverfactory.cpp solverTypeFromString")],
 ["SRFactory::create_preconditioner","SRFactory::solverTypeFromString","getFactInitFromString","getApplyInitFromString"])

prop("C15", "Scans and sorting helpers are correct for every length and thread count",
 "The parallel prefix sum replaces an array of counts by its exclusive running sum, touching nothing outside the array, for every length and every number of threads and interleaving; inclusive scans add up all previous entries. "
 "Sorting column indices together with their value blocks yields the indices in increasing order with each block still attached to its own index.",
 ["inputs","schedules","configurations"], "all arrays, lengths (including 0, 1 and fewer entries than threads), block sizes, thread counts and interleavings",
 "Tests use one array and one thread count; the errors appear at particular length/thread combinations.",
 ["src/utils/prefix_sum.cpp","src/helper_algorithms.cpp","src/helper_algorithms.hpp"],
 [("counts","array scanned in place","src/utils/prefix_sum.cpp")],
 [("two-phase parallel scan","src/utils/prefix_sum.cpp"),("selection sort","src/helper_algorithms.cpp sortBlockInnerDimension")],
 ["prefix_sum","internal::inclusive_scan","internal::sortBlockInnerDimension","internal::inner_search"])

prop("C16", "Approximate-inverse patterns and triangular views select the right entries",
 "The lower and upper triangular views of a matrix contain exactly its entries at or below, respectively at or above, the diagonal, aliasing its values. "
 "For every row the sparse-approximate-inverse pattern names exactly the rows and stored positions that its local system needs, the incomplete approximate inverse satisfies its defining local equations on the pattern, and the full one the least-squares normal equations, for full and for triangular matrices; a raw copy of a matrix equals it and shares nothing with it.",
 ["inputs"], "all sparse patterns with stored diagonal and sorted columns",
 "One test compares the patterns of one fixed matrix; the approximate inverse itself and the triangular views are never checked.",
 ["src/sai.cpp","src/sai.hpp","src/rawsrmatrixutils.cpp"],
 [("tapattern/leftsaipattern","local-system index lists","src/sai.hpp")],
 [("pattern construction","src/sai.cpp"),("views","src/rawsrmatrixutils.cpp")],
 ["left_SAI_pattern/left_incomplete_SAI_pattern","compute_SAI","getLowerTriangularView/getUpperTriangularView"])

prop("C17", "Reported factorization diagnostics measure the actual factors",
 "When diagnostics are requested, the reported initial and final remainder norms equal the sum of absolute values of (scaled) A minus LU over the stored positions for the initial guess and for the computed factors, and the reported minimum and average diagonal dominance equal those of the computed factors. "
 "Requesting diagnostics never changes the factors or the result of applying them, and the reported vector maximum norm is the largest absolute entry.",
 ["inputs","configurations"], "all matrices, options, block sizes and thread counts",
 "No test reads the diagnostics.",
 ["src/async_ilu_factor.cpp","src/async_blockilu_factor.cpp","src/matrix_properties.cpp","src/blas/blas1.cpp","include/preconditioner_diagnostics.hpp"],
 [("PrecInfo","six reported numbers","include/preconditioner_diagnostics.hpp")],
 [("remainder norms","src/async_ilu_factor.cpp scalar_ilu0_nonlinear_res, src/async_blockilu_factor.cpp block_ilu0_nonlinear_res"),("diagonal dominance","src/matrix_properties.cpp")],
 ["PrecInfo returned by compute","diagonal_dominance","maxnorm"])

prop("C18", "The PETSc interface manages exactly one solver per BLASTed node",
 "For every solver tree and option set, set-up attaches one preconditioner to each local shell node meant for the library and to no other, configured from that node's own options and the run-time options (documented defaults and sequential-symbol included); the matrix is re-read at each set-up, application uses that node's preconditioner, and clean-up releases each exactly once. "
 "Missing mandatory options, unknown names and wrong tree shapes are reported as errors, and accumulated timings and counters cover all nodes.",
 ["configurations","histories"], "all nested solver trees, option databases and set-up/solve/clean-up histories",
 "The PETSc front end is not compiled here at all, so no test covers it.",
 ["src/blasted_petsc.cpp","include/blasted_petsc.h","include/blasted_petsc_ext.hpp"],
 [("Blasted_data_list","linked list of per-node data","include/blasted_petsc.h")],
 [("set-up and options","src/blasted_petsc.cpp setup_blasted_stack, setup_localpreconditioner_blasted"),("cleanup","src/blasted_petsc.cpp cleanup_blasted")],
 ["the PETSc shell callbacks registered by the library"])

prop("C19", "Asynchronous iterations converge at a useful rate in floating point",
 "For matrices of practical interest, asynchronous factorization and triangular sweeps approach the exact incomplete factorization and solution within a modest number of sweeps. "
 "Floating-point rounding does not spoil the accuracy of the resulting preconditioners.",
 ["inputs","schedules"], "matrices of practical interest",
 "It is a quantitative statement about rounding and convergence rates on open-ended inputs.",
 ["src/async_ilu_factor.cpp","src/solverops_ilu0.cpp"],
 [("iluvals","factor values","include/solverops_ilu0.hpp")],
 [("sweeps","src/async_ilu_factor.cpp")],
 ["solver iteration counts"])

prop("C20", "Re-ordered incomplete factorization preconditions the original system",
 "A solver object given an ordering method factorizes the matrix with that ordering applied (symmetrically scaled), as found at its latest compute and with the matrix values of that time, and applying it takes and returns vectors in the numbering of the original matrix: it equals re-ordering the right-hand side, applying the incomplete factorization of the re-ordered matrix, and mapping the unknowns back, so that where no fill is dropped it solves the original system. "
 "This holds for row orderings, column orderings and both, for repeated computes and applications, and its threading flags select threaded factorization and application separately; the matrix and the right-hand side are left alone.",
 ["inputs","histories","schedules"], "all matrices, orderings, sweep counts, thread flags and histories of computes and applications",
 "The only test of re-ordered solving is disabled.",
 ["src/solverops_ilu0.cpp","src/reorderingscaling.cpp","include/solverops_ilu0.hpp"],
 [("rsmat","the re-ordered copy of the matrix","include/solverops_ilu0.hpp"),("iluvals/scale","factors and scaling of the re-ordered matrix","include/solverops_ilu0.hpp")],
 [("compute/apply","src/solverops_ilu0.cpp ReorderedAsyncILU0_SRPreconditioner")],
 ["compute and apply of ReorderedAsyncILU0_SRPreconditioner"])

prop("C21", "PETSc programs get the options and the files they were given",
 "Each typed getter of run-time options returns the value that the options hold at that moment for exactly that name, up to the stated number of characters or entries; an option that is not given is reported as such, or replaced by the default or by an empty list where that is documented; a value that is not of the type is an error; asking changes nothing and loses no storage. "
 "A matrix or vector read from a file into PETSc, in either way and for every block size and matrix type, and one converted to PETSc's own format by the conversion program, has the file's dimensions, places and values, stored in full blocks where blocks are asked for, and the process is left holding that object only; unsupported headers are refused.",
 ["inputs","configurations","histories"], "all option data bases and sequences of settings and questions, all files, matrix types and block sizes",
 "The PETSc parts are not compiled here at all, so no test covers them.",
 ["src/utils/cmdoptions.cpp","include/utils/cmdoptions.hpp","src/utils/blasted_petsc_io.cpp","src/utils/util_petsc_io.c"],
 [("option data base","names and values","src/utils/cmdoptions.cpp"),("matrix being read","a PETSc matrix under insertion","src/utils/blasted_petsc_io.cpp")],
 [("getters","src/utils/cmdoptions.cpp"),("readers","src/utils/blasted_petsc_io.cpp")],
 ["parsePetscCmd_* and parseOptionalPetscCmd_*","readVecFromFile, readMatFromCOOFile, readMatFromCOOFile_viaSR","the program util_petsc_io"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

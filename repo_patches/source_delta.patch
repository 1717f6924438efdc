From 111df29d98f296b648ebfd5e79da842a9619d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 01/34] fix: index the scaling vector by row in the scaled SGS
 initial guess of scalar ILU0

---
 src/async_ilu_factor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index e7b218f..7a18982 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -118,8 +118,8 @@ static void fact_init_sgs(const CRawBSRMatrix<scalar,index> *const mat, const sc
 				iluvals[j] = scale[i]*mat->vals[j]*scale[mat->bcolind[j]];
 			for(index j = mat->browptr[i]; j < mat->diagind[i]; j++)
 				iluvals[j] *= 1.0/(mat->vals[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]);
+				                   * scale[mat->bcolind[j]]
+				                   * scale[mat->bcolind[j]]);
 		}
 	else
 #pragma omp parallel for default (shared)
-- 
2.43.0


From 2cbb68b73529b3cccb357682cb97a12425865959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 02/34] fix: zero initial guess of scalar ILU0 no longer falls
 through to the original matrix

---
 src/async_ilu_factor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index 7a18982..d9f94ed 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -49,6 +49,7 @@ PrecInfo scalar_ilu0_factorize(const CRawBSRMatrix<scalar,index> *const mat,
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
 			iluvals[i] = 0;
+		break;
 	case INIT_F_ORIGINAL:
 		fact_init_original(mat, scale, iluvals);
 		break;
@@ -250,6 +251,7 @@ void scalar_ilu0_factorize_noscale(const CRawBSRMatrix<scalar,index> *const mat,
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
 			iluvals[i] = 0;
+		break;
 	case INIT_F_ORIGINAL:
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
-- 
2.43.0


From 30888eb9f33b1b7b0db7267479d77f250d848b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 03/34] fix: pass the diagnostics and threading flags of
 Async_Level_ILU0 in the right order

---
 src/solverops_levels_ilu0.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solverops_levels_ilu0.cpp b/src/solverops_levels_ilu0.cpp
index 1d43d6a..b4e5e3e 100644
--- a/src/solverops_levels_ilu0.cpp
+++ b/src/solverops_levels_ilu0.cpp
@@ -127,7 +127,8 @@ Async_Level_ILU0<scalar,index>
                    const FactInit fact_inittype, const bool threadedfactor,
                    const bool compute_remainder)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix), nbuildsweeps,1,use_scaling,thread_chunk_size,
-	                                           fact_inittype, INIT_A_NONE, threadedfactor, true)
+	                                           fact_inittype, INIT_A_NONE, compute_remainder,
+	                                           threadedfactor, true)
 { }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 308c29e07a9717aba70ffb915eccf617e52fb3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 04/34] fix: BSRMatrix structure constructor sets the matrix
 dimensions

---
 src/blockmatrices.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 61ae16e..958d2dc 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -175,6 +175,10 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
                                       const index *const bcinds, const index *const brptrs)
 	: AbstractMatrix<scalar,index>(BSR)
 {
+	mat.nbrows = n_brows;
+	mat.nbstored = brptrs[n_brows];
+	mat.nnzb = mat.nbstored;
+
 	constexpr int bs2 = bs*bs;
 	mat.browptr.resize(mat.nbrows+1);
 	mat.bcolind.resize(brptrs[mat.nbrows]);
-- 
2.43.0


From cb5fcdb380a19c6fe9f2b6a3ccc97b3856d9a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 05/34] fix: wrapping BSRMatrix<1> constructor reads the number
 of non-zeros from the last row pointer

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 958d2dc..b18a2be 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -498,7 +498,7 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 	: AbstractMatrix<scalar,index>(CSR)
 {
 	mat.nbrows = nrows;
-	mat.nnzb = brptrs[nrows+1];
+	mat.nnzb = brptrs[nrows];
 	mat.nbstored = mat.nnzb;
 	mat.browptr.wrap(brptrs, nrows+1);
 	mat.bcolind.wrap(bcinds, mat.nnzb);
-- 
2.43.0


From bbf7bc6b557b6eea9fcab8722153d94634343d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 06/34] fix: BSRMatrix taking over a raw matrix records the
 full length of the row pointers

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index b18a2be..69d1012 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -217,7 +217,7 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	// Make sure to pass aligned memory!
-	mat.browptr.take_control(rmat.browptr, rmat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
 	mat.bcolind.take_control(rmat.bcolind, rmat.nbstored);
 	mat.vals.take_control(rmat.vals, rmat.nbstored*bs*bs);
 	mat.nbrows = rmat.nbrows;
-- 
2.43.0


From 19d577d5334517d3eab5272c43769f63d4ee0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 07/34] fix: BSRMatrix<1>::updateBlock strides the buffer by
 its number of columns

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 69d1012..8f809aa 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -682,7 +682,7 @@ void BSRMatrix<scalar,index,1>::updateBlock(const index starti, const index star
 				std::cout << "!  BSRMatrix<1>: updateBlock: Invalid block!!\n";
 #endif
 #pragma omp atomic update
-			mat.vals[jj] += buffer[locrow*bsi+k];
+			mat.vals[jj] += buffer[locrow*bsj+k];
 			k++;
 		}
 	}
-- 
2.43.0


From 11785916e94d067140a483ef8339828a56cb65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 08/34] fix: maxnorm of a zero vector is zero

---
 src/blas/blas1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/blas1.cpp b/src/blas/blas1.cpp
index 2b283fa..3807d78 100644
--- a/src/blas/blas1.cpp
+++ b/src/blas/blas1.cpp
@@ -12,7 +12,7 @@ namespace blasted {
 template <typename scalar>
 scalar maxnorm(const device_vector<scalar>& vec)
 {
-	scalar smax = std::numeric_limits<scalar>::min();
+	scalar smax = 0;
 	const int N = static_cast<int>(vec.size());
 
 #pragma omp parallel for default(shared) reduction(max:smax)
-- 
2.43.0


From 6ede0e131ab9bc22615f24b6745f3bb28678fbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 09/34] fix: prefix_sum stays inside the array when some
 threads have no entries

---
 src/utils/prefix_sum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index e94dbc9..d19e492 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -35,7 +35,7 @@ void prefix_sum(IndexType *const counts, const int num_entries)
         const IndexType startidx = thread_id * def_num_witems;
         const IndexType endidx =
             std::min(num_entries, (thread_id + 1) * def_num_witems);
-        const IndexType startval = counts[startidx];
+        const IndexType startval = startidx < num_entries ? counts[startidx] : 0;
 
 #pragma omp barrier
 
@@ -45,7 +45,7 @@ void prefix_sum(IndexType *const counts, const int num_entries)
             counts[i] = partial_sum;
             partial_sum += nnz;
         }
-        if (thread_id != nthreads - 1) {
+        if (endidx < num_entries) {
             counts[endidx] = partial_sum;
         }
     }
-- 
2.43.0


From c098636d2c786447924d182d0bbf488e28bbb740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 10/34] fix: prefix_sum runs enough combination levels for
 every thread count

---
 src/utils/prefix_sum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index d19e492..d7f39fe 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -52,7 +52,7 @@ void prefix_sum(IndexType *const counts, const int num_entries)
 
     counts[0] = 0;
 
-    const auto levels = static_cast<int>(std::ceil(std::log(nthreads)));
+    const auto levels = static_cast<int>(std::ceil(std::log2(nthreads)));
     for (int ilvl = 0; ilvl < levels; ilvl++) {
         const IndexType factor = power(2, (ilvl + 1));
         const IndexType lvl_num_witems = factor * def_num_witems;
-- 
2.43.0


From 0075cadacd235f6ab76eba87cfea9024be05569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 11/34] fix: BSRMatrix<1> takes ownership of the raw matrix it
 is constructed from, as documented

---
 src/blockmatrices.ipp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 8f809aa..a631fe4 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -509,19 +509,18 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 
 template <typename scalar, typename index>
 BSRMatrix<scalar,index,1>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
-	: AbstractMatrix<scalar,index>(CSR),
-	  mat(rmat.browptr, rmat.bcolind, rmat.vals, rmat.diagind,
-	      rmat.nbrows>0 ? &rmat.browptr[1]:nullptr, rmat.nbrows, rmat.nnzb, rmat.nbstored, 1)
+	: AbstractMatrix<scalar,index>(CSR)
 {
 	assert(rmat.nnzb == rmat.nbstored);
 	mat.nbrows = rmat.nbrows;
 	mat.nnzb = rmat.nnzb;
 	mat.nbstored = rmat.nbstored;
-	mat.browptr.wrap(rmat.browptr, rmat.nbrows+1);
-	mat.bcolind.wrap(rmat.bcolind, mat.nbstored);
-	mat.vals.wrap(rmat.vals, mat.nbstored);
-	mat.diagind.wrap(rmat.diagind, mat.nbrows);
-	mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
+	mat.bcolind.take_control(rmat.bcolind, mat.nbstored);
+	mat.vals.take_control(rmat.vals, mat.nbstored);
+	mat.diagind.take_control(rmat.diagind, mat.nbrows);
+	if(rmat.nbrows > 0)
+		mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
 
 	rmat.nbrows=0;
 	rmat.browptr = rmat.bcolind = rmat.diagind = rmat.browendptr = nullptr; rmat.vals = nullptr;
-- 
2.43.0


From e7b972813719eac8cfbd0b592a5a891443b3864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 12/34] fix: BSRMatrix::getRawSRMatrix returns the storage
 instead of reinterpreting it as raw pointers

---
 include/blockmatrices.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blockmatrices.hpp b/include/blockmatrices.hpp
index a201c5a..7b33116 100644
--- a/include/blockmatrices.hpp
+++ b/include/blockmatrices.hpp
@@ -208,8 +208,8 @@ public:
 	virtual ~BSRMatrix();
 
 	/// Allows immutable access to the underlying matrix storage
-	const CRawBSRMatrix<scalar,index> *getRawSRMatrix() const {
-		return reinterpret_cast<const CRawBSRMatrix<scalar,index>*>(&mat);
+	const SRMatrixStorage<scalar,index>& getRawSRMatrix() const {
+		return mat;
 	}
 
 	/// Set the storage structure of the matrix
-- 
2.43.0


From db1ecbaa130644b50ea4dffebd6e408f18391249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 13/34] fix: a moved-from SRMatrixStorage is empty

---
 src/rawsrmatrixutils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rawsrmatrixutils.cpp b/src/rawsrmatrixutils.cpp
index 51e738a..f65618f 100644
--- a/src/rawsrmatrixutils.cpp
+++ b/src/rawsrmatrixutils.cpp
@@ -59,6 +59,7 @@ SRMatrixStorage<mscalar,mindex>::SRMatrixStorage(SRMatrixStorage<mscalar,mindex>
 	  diagind(std::move(other.diagind)), browendptr(std::move(other.browendptr)),
 	  nbrows{other.nbrows}, nnzb{other.nnzb}, nbstored{other.nbstored}
 {
+	other.nbrows = other.nnzb = other.nbstored = 0;
 }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 076bd7be9f5bdb1c3f9fa12311546e94f874628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 14/34] fix: SAI local systems may have columns with fewer
 entries than equations

---
 src/sai.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sai.cpp b/src/sai.cpp
index e427b7e..d48ffef 100644
--- a/src/sai.cpp
+++ b/src/sai.cpp
@@ -349,7 +349,7 @@ LMatrix<scalar> gather_lhs_matrix(const SRMatrixStorage<const scalar,const index
 		const index start = sp.bcolptr[sp.sairowptr[row]+jcol],
 			end = sp.bcolptr[sp.sairowptr[row]+jcol+1];
 
-		assert(end-start == sp.nEqns[row]);
+		assert(end-start <= sp.nEqns[row]);
 
 #pragma omp simd
 		for(index ii = start; ii < end; ii++)
-- 
2.43.0


From 91a8182fbea780d3eb65c70347a40ddf2085b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 15/34] fix: compute_SAI is declared with the argument types it
 is defined with

---
 src/sai.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sai.hpp b/src/sai.hpp
index 372bcd0..20467a3 100644
--- a/src/sai.hpp
+++ b/src/sai.hpp
@@ -61,8 +61,9 @@ LeftSAIPattern<index> left_incomplete_SAI_pattern(const SRMatrixStorage<const sc
  * \param[out] sai The approximate inverse matrix preallocated to the same size as the original matrix
  */
 template <typename scalar, typename index, int bs, StorageOptions stor>
-void compute_SAI(const CRawBSRMatrix<scalar,index>& mat, const LeftSAIPattern<index>& sp,
-                 const int thread_chunk_size, const bool fullsai, RawBSRMatrix<scalar,index>& sai);
+void compute_SAI(const SRMatrixStorage<const scalar,const index>& mat, const LeftSAIPattern<index>& sp,
+                 const int thread_chunk_size, const bool fullsai,
+                 SRMatrixStorage<scalar,index>& sai);
 
 }
 
-- 
2.43.0


From 7a16d60ef282feea70b884273ac69285a08e6f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 16/34] fix: refuse pattern, complex and skew-symmetric Matrix
 Market files with an exception

---
 src/coomatrix.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 4f6916b..e5251ca 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -61,7 +61,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.scalartype = COMPLEX;
 	else if(typeofmatrix[3] == "integer")
 		descr.scalartype = INTEGER;
-	else if(typeofmatrix[3] == "patter")
+	else if(typeofmatrix[3] == "pattern")
 		descr.scalartype = PATTERN;
 	else {
 		std::cout << "! Invalid scalar type!\n";
@@ -72,7 +72,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.matrixtype = GENERAL;
 	else if(typeofmatrix[4] == "symmetric")
 		descr.matrixtype = SYMMETRIC;
-	else if(typeofmatrix[4] == "skewsymmetric")
+	else if(typeofmatrix[4] == "skew-symmetric" || typeofmatrix[4] == "skewsymmetric")
 		descr.matrixtype = SKEWSYMMETRIC;
 	else if(typeofmatrix[4] == "hermitian")
 		descr.matrixtype = HERMITIAN;
@@ -202,6 +202,9 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	if(descr.scalartype == PATTERN) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read pattern matrices.");
 	}
+	if(descr.scalartype == COMPLEX) {
+		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read complex matrices.");
+	}
 	if(descr.matrixtype != GENERAL) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Can only read general matrices.");
 	}
-- 
2.43.0


From 085561f2f094bc4f847d0a4314c21568bed51e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 17/34] fix: convertToBSR sorts the block-columns of each
 block-row

---
 src/coomatrix.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index e5251ca..618eaa6 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -325,10 +325,6 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 	bcolidxs.reserve(nnz/bs);
 	std::vector<bool> tallybrows(bmat.nbrows, false);
 
-	/** If nonzeros in each row were sorted by column initially, 
-	 * blocks in each block-row would end up sorted by block-column.
-	 */
-
 	for(index irow = 0; irow < nrows; irow++)
 	{
 		const index curbrow = irow/bs;
@@ -348,8 +344,6 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 			// if it does not exist, add the current block col index
 			if(it == bcolidxs.end()) {
 				bcolidxs.push_back(curbcol);
-				if(curbcol == curbrow)
-					bmat.diagind[curbrow] = bnnz;
 				bnnz++;
 			}
 		}
@@ -363,6 +357,15 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 		if(bmat.browptr[i] == 0)
 			bmat.browptr[i] = bmat.browptr[i+1];
 
+	// sort each block-row by block-column and locate the diagonal blocks
+	for(index i = 0; i < bmat.nbrows; i++)
+	{
+		std::sort(bcolidxs.begin()+bmat.browptr[i], bcolidxs.begin()+bmat.browptr[i+1]);
+		for(index j = bmat.browptr[i]; j < bmat.browptr[i+1]; j++)
+			if(bcolidxs[j] == i)
+				bmat.diagind[i] = j;
+	}
+
 	bmat.bcolind.resize(bnnz);
 	bmat.vals.resize(bnnz*bs*bs);
 
-- 
2.43.0


From 24f87c3e0aa1f3c5988144f021fb39c2870450f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 18/34] fix: refuse Matrix Market headers with unknown words
 with an exception

---
 src/coomatrix.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 618eaa6..5cfd109 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -43,6 +43,8 @@ MMDescription getMMDescription(std::ifstream& fin)
 		throw MatrixReadException("! Not enough terms in the header!");
 	if(typeofmatrix[0] != "%%MatrixMarket")
 		throw MatrixReadException("! Not a matrix market file!");
+	if(typeofmatrix[1] != "matrix")
+		throw MatrixReadException("! Not a matrix!");
 
 	if(typeofmatrix[2] == "coordinate") {
 		descr.storagetype = COORDINATE;
@@ -50,10 +52,8 @@ MMDescription getMMDescription(std::ifstream& fin)
 	else if(typeofmatrix[2] == "array") {
 		descr.storagetype = ARRAY;
 	}
-	else {
-		std::cout << "! Invalid storage type!\n";
-		std::abort();
-	}
+	else
+		throw MatrixReadException("! Invalid storage type!");
 
 	if(typeofmatrix[3] == "real")
 		descr.scalartype = REAL;
@@ -63,10 +63,8 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.scalartype = INTEGER;
 	else if(typeofmatrix[3] == "pattern")
 		descr.scalartype = PATTERN;
-	else {
-		std::cout << "! Invalid scalar type!\n";
-		std::abort();
-	}
+	else
+		throw MatrixReadException("! Invalid scalar type!");
 
 	if(typeofmatrix[4] == "general")
 		descr.matrixtype = GENERAL;
@@ -76,10 +74,8 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.matrixtype = SKEWSYMMETRIC;
 	else if(typeofmatrix[4] == "hermitian")
 		descr.matrixtype = HERMITIAN;
-	else {
-		std::cout << "! Invalid matrix type!\n";
-		std::abort();
-	}
+	else
+		throw MatrixReadException("! Invalid matrix type!");
 
 	return descr;
 }
-- 
2.43.0


From d333b8567a6690940dd24815357767b7ce404106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 19/34] fix: re-ordering a matrix updates the positions of its
 diagonal entries

---
 src/reorderingscaling.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/reorderingscaling.cpp b/src/reorderingscaling.cpp
index 6bd8d90..662da6d 100644
--- a/src/reorderingscaling.cpp
+++ b/src/reorderingscaling.cpp
@@ -195,6 +195,16 @@ void Reordering<scalar,index,bs>::applyOrdering(RawBSRMatrix<scalar,index>& mat,
 			}
 		}
 	}
+
+	// locate the diagonal entries of the re-ordered matrix
+	if(mat.diagind && (rp.size() > 0 || cp.size() > 0))
+		for(index i = 0; i < mat.nbrows; i++)
+		{
+			mat.diagind[i] = -1;
+			for(index jj = mat.browptr[i]; jj < mat.browptr[i+1]; jj++)
+				if(mat.bcolind[jj] == i)
+					mat.diagind[i] = jj;
+		}
 }
 
 /** This is most likely not the best way to do it. The vector is first copied into a local
-- 
2.43.0


From 371dc5f4c5938931c8bcab6e2d4a6bd032201330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 20/34] fix: ReorderedAsyncILU0 passes the threading flags in
 the right order

---
 src/solverops_ilu0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 432de49..bcf6f55 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -403,7 +403,7 @@ ReorderedAsyncILU0_SRPreconditioner<scalar,index>
                                       const FactInit finit, const ApplyInit ainit,
                                       const bool threadedfactor, const bool threadedapply)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix),nbuildsweeps,napplysweeps,true, tcs,
-	                                           finit, ainit, threadedfactor,threadedapply),
+	                                           finit, ainit, false, threadedfactor,threadedapply),
 	  reord{reorderscale}
 { }
 
-- 
2.43.0


From f14bfd2403a6000e587aeb0b0d7e8dd1e14bdc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 21/34] fix: ReorderedAsyncILU0 maps the solution back with the
 inverse column ordering

---
 src/solverops_ilu0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index bcf6f55..5429f89 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -463,7 +463,7 @@ void ReorderedAsyncILU0_SRPreconditioner<scalar,index>::apply(const scalar *cons
 	}
 
 	// reorder solution
-	reord->applyOrdering(za, FORWARD, COLUMN);
+	reord->applyOrdering(za, INVERSE, COLUMN);
 }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 242ff350940517b5033fc008aa4a56c3e6c9ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 22/34] fix: setup_blasted_stack_ext is defined as declared and
 uses the given factory for the whole tree

---
 src/blasted_petsc.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index bf7df99..3376e7c 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -575,8 +575,10 @@ PetscErrorCode relax_local_blasted(PC pc, Vec rhs, Vec x, Vec w,
 	return ierr;
 }
 
-int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
-                            Blasted_data_list *const bctv)
+}
+
+int blasted::setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int>& factory,
+                                     Blasted_data_list *const bctv)
 {
 	PetscErrorCode ierr = 0;
 	PC pc;
@@ -605,7 +607,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 			SETERRQ(PETSC_COMM_SELF, PETSC_ERR_ARG_WRONGSTATE,
 					"Only one subdomain per rank is supported.");
 
-		ierr = setup_blasted_stack(subksp[0], bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(subksp[0], factory, bctv); CHKERRQ(ierr);
 	}
 	else if(ismg || isgamg) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
@@ -616,7 +618,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		for(int ilvl = 1; ilvl < nlevels; ilvl++) {
 			KSP smootherctx;
 			ierr = PCMGGetSmoother(pc, ilvl , &smootherctx); CHKERRQ(ierr);
-			ierr = setup_blasted_stack(smootherctx, bctv); CHKERRQ(ierr);
+			ierr = setup_blasted_stack_ext(smootherctx, factory, bctv); CHKERRQ(ierr);
 			/*
 			KSP smootherup, smootherdown;
 			ierr = PCMGGetSmootherDown(pc, ilvl , &smootherdown); CHKERRQ(ierr);
@@ -626,14 +628,14 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		}
 		KSP coarsesolver;
 		ierr = PCMGGetCoarseSolve(pc, &coarsesolver); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(coarsesolver, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(coarsesolver, factory, bctv); CHKERRQ(ierr);
 	}
 	else if(isksp) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
 		ierr = PCSetUp(pc); CHKERRQ(ierr);
 		KSP subksp;
 		ierr = PCKSPGetKSP(pc, &subksp); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(subksp, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(subksp, factory, bctv); CHKERRQ(ierr);
 	}
 	else if(isshell) {
 		// if the PC is shell, this is the relevant KSP to pass to BLASTed for setup
@@ -644,7 +646,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		// so we setup the BLASTed preconditioner using the context at the head of the list
 
 		// set the factory to use - same for each solver context in the tree
-		bctv->ctxlist->bfactory = bctv->bfactory;
+		bctv->ctxlist->bfactory = (void*)&factory;
 
 		ierr = setup_localpreconditioner_blasted(ksp, bctv->ctxlist); CHKERRQ(ierr);
 	}
@@ -652,12 +654,15 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 	return ierr;
 }
 
+extern "C" {
+
 PetscErrorCode setup_blasted_stack(KSP ksp, Blasted_data_list *const bctx)
 {
-	FactoryBase<double,int> *factory = new SRFactory<double,int>();
-	bctx->bfactory = (void*)factory;
-	bctx->_defaultfactory = 1;
-	return setup_blasted_stack_ext(ksp, factory, bctx);
+	if(bctx->_defaultfactory != 1) {
+		bctx->bfactory = (void*)static_cast<FactoryBase<double,int>*>(new SRFactory<double,int>());
+		bctx->_defaultfactory = 1;
+	}
+	return setup_blasted_stack_ext(ksp, *(const FactoryBase<double,int>*)bctx->bfactory, bctx);
 }
 
 PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bctx)
-- 
2.43.0


From 28a3e7b9490f884347d891f7258226f99af508c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 23/34] fix: the PETSc shell offers a relaxation exactly when
 the created preconditioner has one

---
 src/blasted_petsc.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 3376e7c..05f4333 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -300,6 +300,10 @@ PetscErrorCode createNewPreconditioner(PC pc)
 
 	ctx->bprec = reinterpret_cast<void*>(precop);
 
+	// set a relaxation application only for supported preconditioners
+	ierr = PCShellSetApplyRichardson(pc, precop->relaxationAvailable() ? &relax_local_blasted : NULL);
+	CHKERRQ(ierr);
+
 	ctx->infolist = NULL;
 	if(ctx->compute_precinfo) {
 		PrecInfoList *bpinfo = new PrecInfoList;
@@ -713,15 +717,6 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 	ierr = PCShellSetApply(subpc, &apply_local_blasted);            CHKERRQ(ierr);
 	ierr = PCShellSetDestroy(subpc, &cleanup_blasted);              CHKERRQ(ierr);
 
-	// set a relaxation application only for supported preconditioners
-	if(bctx->prectype != BLASTED_ILU0 &&
-	   bctx->prectype != BLASTED_CSC_BGS &&
-	   bctx->prectype != BLASTED_NO_PREC)
-	{
-		ierr = PCShellSetApplyRichardson(subpc, &relax_local_blasted);
-		CHKERRQ(ierr);
-	}
-
 	return ierr;
 }
 
-- 
2.43.0


From 542c0e0bdaeed9d9cfec4622c809a2b0b6bdefac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 24/34] fix: Blasted_data contexts are fully initialized and
 never refer to a deleted or missing preconditioner

---
 src/blasted_petsc.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 05f4333..d2078f6 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -192,11 +192,9 @@ static PetscErrorCode setupDataFromOptions(PC pc)
 	printf(" ptype = %d and sweeps = %d,%d.\n", ptype, sweeps[0], sweeps[1]);
 #endif
 
-	ctx->bprec = nullptr;
 	ctx->prectype = ptype;
 	ctx->nbuildsweeps = sweeps[0];
 	ctx->napplysweeps = sweeps[1];
-	ctx->first_setup_done = true;
 	ctx->cputime = ctx->walltime = ctx->factorcputime = ctx->factorwalltime =
 		ctx->applycputime = ctx->applywalltime = 0;
 
@@ -225,6 +223,7 @@ PetscErrorCode createNewPreconditioner(PC pc)
 	// delete old matrix
 	BlastedPreconditioner* precop = reinterpret_cast<BlastedPreconditioner*>(ctx->bprec);
 	delete precop;
+	ctx->bprec = NULL;
 
 	/* get the local preconditioning matrix
 	 * we operate on the diagonal matrix block corresponding to this process
@@ -304,8 +303,7 @@ PetscErrorCode createNewPreconditioner(PC pc)
 	ierr = PCShellSetApplyRichardson(pc, precop->relaxationAvailable() ? &relax_local_blasted : NULL);
 	CHKERRQ(ierr);
 
-	ctx->infolist = NULL;
-	if(ctx->compute_precinfo) {
+	if(ctx->compute_precinfo && !ctx->infolist) {
 		PrecInfoList *bpinfo = new PrecInfoList;
 		bpinfo->infolist.reserve(250);  // some reasonable number of linear solves expected
 		ctx->infolist = static_cast<void*>(bpinfo);
@@ -371,7 +369,7 @@ void destroyBlastedDataList(Blasted_data_list *const b)
 
 Blasted_data newBlastedDataContext()
 {
-	Blasted_data ctx;
+	Blasted_data ctx = Blasted_data();
 	ctx.bprec = NULL;
 	ctx.infolist = NULL;
 	ctx.first_setup_done = false;
@@ -400,6 +398,7 @@ PetscErrorCode cleanup_blasted(PC pc)
 	ierr = PCShellGetContext(pc, (void**)&ctx); CHKERRQ(ierr);
 	BlastedPreconditioner* prec = reinterpret_cast<BlastedPreconditioner*>(ctx->bprec);
 	delete prec;
+	ctx->bprec = NULL;
 
 	return ierr;
 }
@@ -415,6 +414,7 @@ PetscErrorCode compute_preconditioner_blasted(PC pc)
 	if(!ctx->first_setup_done) {
 		ierr = setupDataFromOptions(pc); CHKERRQ(ierr);
 		ierr = createNewPreconditioner(pc); CHKERRQ(ierr);
+		ctx->first_setup_done = true;
 	}
 
 	struct timeval time1, time2;
-- 
2.43.0


From 898cdd75781e5ebec1d2f7b9b21945559a7cc1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 25/34] fix: malformed numbers in BLASTed's PETSc options are
 reported as errors

---
 src/blasted_petsc.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index d2078f6..3ae4423 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -32,7 +32,10 @@ static int get_int_petscoptions(const char *const option_tag)
 {
 	PetscBool set = PETSC_FALSE;
 	int val = 0;
-	PetscOptionsGetInt(NULL, NULL, option_tag, &val, &set);
+	int ierr = PetscOptionsGetInt(NULL, NULL, option_tag, &val, &set);
+	if(ierr) {
+		throw std::runtime_error("Petsc could not get int option!");
+	}
 	if(!set) {
 		printf("BLASTed: %s not set!\n", option_tag);
 		abort();
@@ -155,7 +158,8 @@ static PetscErrorCode setupDataFromOptions(PC pc)
 		// sweeps
 		PetscBool flag = PETSC_FALSE;
 		PetscInt nmax = 2;
-		PetscOptionsGetIntArray(NULL, NULL, "-blasted_async_sweeps", sweeps, &nmax, &flag);
+		ierr = PetscOptionsGetIntArray(NULL, NULL, "-blasted_async_sweeps", sweeps, &nmax, &flag);
+		CHKERRQ(ierr);
 
 		if(flag == PETSC_FALSE || nmax < 2) {
 			printf("BLASTed: Number of async sweeps not set properly!\n"); fflush(stdout);
-- 
2.43.0


From 0e96b028a16158ab6d842bd936294e8deb75f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 26/34] fix: -blasted_async_sweeps defaults to one sweep as
 documented

---
 src/blasted_petsc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 3ae4423..fd8a2b5 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -161,7 +161,12 @@ static PetscErrorCode setupDataFromOptions(PC pc)
 		ierr = PetscOptionsGetIntArray(NULL, NULL, "-blasted_async_sweeps", sweeps, &nmax, &flag);
 		CHKERRQ(ierr);
 
-		if(flag == PETSC_FALSE || nmax < 2) {
+		if(flag == PETSC_FALSE) {
+			// default
+			sweeps[0] = 1;
+			sweeps[1] = 1;
+		}
+		else if(nmax < 2) {
 			printf("BLASTed: Number of async sweeps not set properly!\n"); fflush(stdout);
 			abort();
 		}
-- 
2.43.0


From 6a4f527eea080ce0d0f6ff17134b75d334f457af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 27/34] fix: the sequential symbol is only accepted for ILU0
 methods in PETSc options, and means one sweep for seqilu0

---
 src/blasted_petsc.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index fd8a2b5..a426e16 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -95,8 +95,18 @@ static void setSweeps_checkSeq(const Blasted_data *const ctx, AsyncSolverSetting
 	settings.nbuildsweeps = ctx->nbuildsweeps;
 	settings.napplysweeps = ctx->napplysweeps;
 
-	if(settings.prectype == BLASTED_SEQILU0)
+	if(settings.prectype == BLASTED_SEQILU0) {
+		if(ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL)
+			settings.nbuildsweeps = 1;
+		if(ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL)
+			settings.napplysweeps = 1;
 		return;
+	}
+
+	if((ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL || ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL)
+	   && settings.prectype != BLASTED_ILU0 && settings.prectype != BLASTED_SFILU0
+	   && settings.prectype != BLASTED_SAPILU0 && settings.prectype != BLASTED_ASYNC_LEVEL_ILU0)
+		throw std::runtime_error(" Sequential operation can only be requested for async. ILU preconditioners!");
 
 	// Cases where both build and apply are sequential
 	if((ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL && ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL)
-- 
2.43.0


From 03ba9042cff5b8a41db4b837ae5d0592441c242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 28/34] fix: the PETSc preconditioner is created anew when the
 matrix or its sparsity pattern is replaced

---
 include/blasted_petsc.h |  3 +++
 src/blasted_petsc.cpp   | 56 +++++++++++++++++++++++++++++++----------
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/include/blasted_petsc.h b/include/blasted_petsc.h
index b40e39c..9f04e32 100644
--- a/include/blasted_petsc.h
+++ b/include/blasted_petsc.h
@@ -53,6 +53,9 @@ struct Blasted_node
 	 */
 	bool first_setup_done;
 
+	PetscObjectId matid;               ///< The matrix that the preconditioner was created for
+	PetscObjectState matnonzerostate;  ///< State of the sparsity pattern it was created for
+
 	double cputime;           ///< Total CPU time taken by this preconditioner/relaxation instance
 	double walltime;          ///< Total wall-clock time taken by the preconditioner/relaxation
 	double factorcputime;     ///< CPU time taken for factorization
diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index a426e16..e7451ff 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -145,6 +145,28 @@ static void setSweeps_checkSeq(const Blasted_data *const ctx, AsyncSolverSetting
 	}
 }
 
+/// Gets the size of the dense blocks a matrix is stored in, and whether it is a single-process matrix
+static PetscErrorCode getLocalBlockSize(Mat A, int *const bs, bool *const islocalmat)
+{
+	PetscErrorCode ierr = 0;
+	PetscInt matbs; MatType mtype;
+	ierr = MatGetBlockSize(A, &matbs); CHKERRQ(ierr);
+	ierr = MatGetType(A, &mtype); CHKERRQ(ierr);
+	bool isBlockMat = false, islocal = false;
+	if(!strcmp(mtype, MATBAIJ) || !strcmp(mtype,MATMPIBAIJ) || !strcmp(mtype,MATSEQBAIJ) ||
+		!strcmp(mtype, MATBAIJMKL) || !strcmp(mtype,MATMPIBAIJMKL) || !strcmp(mtype,MATSEQBAIJMKL) )
+	{
+		isBlockMat = true;
+	}
+	if(!strcmp(mtype, MATSEQAIJ) || !strcmp(mtype, MATSEQBAIJ) || !strcmp(mtype, MATSEQAIJMKL)
+			|| !strcmp(mtype, MATSEQBAIJMKL))
+		islocal = true;
+
+	*bs = isBlockMat ? matbs : 1;
+	*islocalmat = islocal;
+	return ierr;
+}
+
 /// Sets options from PETSc options
 static PetscErrorCode setupDataFromOptions(PC pc)
 {
@@ -430,11 +452,29 @@ PetscErrorCode compute_preconditioner_blasted(PC pc)
 	Blasted_data* ctx;
 	ierr = PCShellGetContext(pc, (void**)&ctx); CHKERRQ(ierr);
 
+	// the preconditioner only has a view of the matrix, so it's tied to the matrix and its pattern
+	Mat A;
+	PetscObjectId matid;
+	PetscObjectState matnonzerostate;
+	ierr = PCGetOperators(pc, NULL, &A); CHKERRQ(ierr);
+	ierr = PetscObjectGetId((PetscObject)A, &matid); CHKERRQ(ierr);
+	ierr = MatGetNonzeroState(A, &matnonzerostate); CHKERRQ(ierr);
+
 	if(!ctx->first_setup_done) {
 		ierr = setupDataFromOptions(pc); CHKERRQ(ierr);
 		ierr = createNewPreconditioner(pc); CHKERRQ(ierr);
 		ctx->first_setup_done = true;
 	}
+	else if(!ctx->bprec || matid != ctx->matid || matnonzerostate != ctx->matnonzerostate) {
+		bool islocal;
+		ierr = getLocalBlockSize(A, &ctx->bs, &islocal); CHKERRQ(ierr);
+		if(!islocal)
+			SETERRQ(PETSC_COMM_SELF, PETSC_ERR_SUP, "Only local matrices are supported.");
+		ierr = createNewPreconditioner(pc); CHKERRQ(ierr);
+	}
+
+	ctx->matid = matid;
+	ctx->matnonzerostate = matnonzerostate;
 
 	struct timeval time1, time2;
 	gettimeofday(&time1, NULL);
@@ -698,18 +738,8 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 
 	Mat A;
 	ierr = KSPGetOperators(ksp, NULL, &A); CHKERRQ(ierr);
-	PetscInt matbs; MatType mtype;
-	ierr = MatGetBlockSize(A, &matbs); CHKERRQ(ierr);
-	ierr = MatGetType(A, &mtype); CHKERRQ(ierr);
-	bool isBlockMat = false, islocal = false;
-	if(!strcmp(mtype, MATBAIJ) || !strcmp(mtype,MATMPIBAIJ) || !strcmp(mtype,MATSEQBAIJ) ||
-		!strcmp(mtype, MATBAIJMKL) || !strcmp(mtype,MATMPIBAIJMKL) || !strcmp(mtype,MATSEQBAIJMKL) )
-	{
-		isBlockMat = true;
-	}
-	if(!strcmp(mtype, MATSEQAIJ) || !strcmp(mtype, MATSEQBAIJ) || !strcmp(mtype, MATSEQAIJMKL)
-			|| !strcmp(mtype, MATSEQBAIJMKL))
-		islocal = true;
+	int bs; bool islocal;
+	ierr = getLocalBlockSize(A, &bs, &islocal); CHKERRQ(ierr);
 
 	PC pc, subpc;
 
@@ -729,7 +759,7 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 	}
 
 	// setup the PC
-	bctx->bs = isBlockMat ? matbs : 1;
+	bctx->bs = bs;
 	bctx->first_setup_done = false;
 	ierr = PCShellSetContext(subpc, (void*)bctx);                   CHKERRQ(ierr);
 	ierr = PCShellSetSetUp(subpc, &compute_preconditioner_blasted); CHKERRQ(ierr);
-- 
2.43.0


From 2dc2ce27682f490a23c6af44fd83934d1f9d45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 29/34] fix: PETSc preconditioners attached to a PC that is
 already set up are set up before use

---
 src/blasted_petsc.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index e7451ff..e0eb0b3 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -766,6 +766,17 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 	ierr = PCShellSetApply(subpc, &apply_local_blasted);            CHKERRQ(ierr);
 	ierr = PCShellSetDestroy(subpc, &cleanup_blasted);              CHKERRQ(ierr);
 
+	// Attach the operators anew, so that PETSc calls the set-up function set here even if the PC has
+	//  already been set up, as is the case for multigrid smoothers.
+	Mat Amat;
+	ierr = KSPGetOperators(ksp, &Amat, &A);               CHKERRQ(ierr);
+	ierr = PetscObjectReference((PetscObject)Amat);       CHKERRQ(ierr);
+	ierr = PetscObjectReference((PetscObject)A);          CHKERRQ(ierr);
+	ierr = KSPSetOperators(ksp, NULL, NULL);              CHKERRQ(ierr);
+	ierr = KSPSetOperators(ksp, Amat, A);                 CHKERRQ(ierr);
+	ierr = MatDestroy(&Amat);                             CHKERRQ(ierr);
+	ierr = MatDestroy(&A);                                CHKERRQ(ierr);
+
 	return ierr;
 }
 
-- 
2.43.0


From 00b3deccabb158a3fcf8bb4b2ae3082f2783653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 30/34] fix: re-read the block size of the matrix at every
 set-up of the PETSc shell

---
 src/blasted_petsc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index e0eb0b3..2e3e51d 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -459,6 +459,10 @@ PetscErrorCode compute_preconditioner_blasted(PC pc)
 	ierr = PCGetOperators(pc, NULL, &A); CHKERRQ(ierr);
 	ierr = PetscObjectGetId((PetscObject)A, &matid); CHKERRQ(ierr);
 	ierr = MatGetNonzeroState(A, &matnonzerostate); CHKERRQ(ierr);
+	bool islocal;
+	ierr = getLocalBlockSize(A, &ctx->bs, &islocal); CHKERRQ(ierr);
+	if(!islocal)
+		SETERRQ(PETSC_COMM_SELF, PETSC_ERR_SUP, "Only local matrices are supported.");
 
 	if(!ctx->first_setup_done) {
 		ierr = setupDataFromOptions(pc); CHKERRQ(ierr);
@@ -466,10 +470,6 @@ PetscErrorCode compute_preconditioner_blasted(PC pc)
 		ctx->first_setup_done = true;
 	}
 	else if(!ctx->bprec || matid != ctx->matid || matnonzerostate != ctx->matnonzerostate) {
-		bool islocal;
-		ierr = getLocalBlockSize(A, &ctx->bs, &islocal); CHKERRQ(ierr);
-		if(!islocal)
-			SETERRQ(PETSC_COMM_SELF, PETSC_ERR_SUP, "Only local matrices are supported.");
 		ierr = createNewPreconditioner(pc); CHKERRQ(ierr);
 	}
 
-- 
2.43.0


From 3f0545b28e7b0468cc6f3d2500b8aa8e0658f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 31/34] fix: report an error when a PETSc shell without a
 preconditioner is applied

---
 src/blasted_petsc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 2e3e51d..a4f77d8 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -539,6 +539,8 @@ PetscErrorCode apply_local_blasted(PC pc, Vec r, Vec z)
 	PetscErrorCode ierr = 0;
 	Blasted_data* ctx;
 	ierr = PCShellGetContext(pc, (void**)&ctx); CHKERRQ(ierr);
+	if(!ctx->bprec)
+		SETERRQ(PETSC_COMM_SELF, PETSC_ERR_ARG_WRONGSTATE, "BLASTed: Preconditioner is not set up!");
 	const BlastedPreconditioner *const prec =
 		reinterpret_cast<const BlastedPreconditioner*>(ctx->bprec);
 
@@ -587,6 +589,8 @@ PetscErrorCode relax_local_blasted(PC pc, Vec rhs, Vec x, Vec w,
 	PetscErrorCode ierr = 0;
 	Blasted_data* ctx;
 	ierr = PCShellGetContext(pc, (void**)&ctx); CHKERRQ(ierr);
+	if(!ctx->bprec)
+		SETERRQ(PETSC_COMM_SELF, PETSC_ERR_ARG_WRONGSTATE, "BLASTed: Preconditioner is not set up!");
 
 	BlastedPreconditioner *const relaxation =
 		reinterpret_cast<BlastedPreconditioner*>(ctx->bprec);
-- 
2.43.0


From 0db08cc344026078ed8042b6888fb2986852642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:51 +0000
Subject: [PATCH 32/34] fix: string options are read at their full length and
 leave nothing behind when not given

---
 src/utils/cmdoptions.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index f03d193..ab974a6 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -106,14 +106,14 @@ std::string parsePetscCmd_string(const std::string optionname, const size_t p_st
 {
 	StatusCode ierr = 0;
 	PetscBool set = PETSC_FALSE;
-	char* tt = new char[p_strlen+1];
-	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt, p_strlen, &set); petsc_throw(ierr);
+	// one more for the terminating null character, which PETSc includes in the length
+	std::vector<char> tt(p_strlen+1);
+	ierr = PetscOptionsGetString(NULL, NULL, optionname.c_str(), tt.data(), tt.size(), &set);
+	petsc_throw(ierr);
 	if(!set) {
 		throw InputNotGivenError(std::string("String ") + optionname + std::string(" not set"));
 	}
-	const std::string stropt = tt;
-	delete [] tt;
-	return stropt;
+	return std::string(tt.data());
 }
 
 /** Ideally, we would have single function template for int and real, but for that we need
-- 
2.43.0


From 2669b6ba7bca14418f26fdbdd1b1144e74a708f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:51 +0000
Subject: [PATCH 33/34] fix: an optional integer-array option that is not given
 yields an empty array

---
 src/utils/cmdoptions.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index ab974a6..3680df1 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -145,11 +145,10 @@ std::vector<int> parseOptionalPetscCmd_intArray(const std::string optionname, co
 
 	ierr = PetscOptionsGetIntArray(NULL, NULL, optionname.c_str(), &arr[0], &len, &set);
 	petsc_throw(ierr);
+	if(!set)
+		len = 0;
 	arr.resize(len);
 
-	if(!set) {
-		throw InputNotGivenError(std::string("Array ") + optionname + std::string(" not set"));
-	}
 	return arr;
 }
 
-- 
2.43.0


From 1a1cd1e7e2ee07e9ea35193212bc588ad2bfe8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:51 +0000
Subject: [PATCH 34/34] fix: reading a point matrix through the sparse-row form
 does not lose the matrix created first

---
 src/utils/blasted_petsc_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index 8c46996..55b3da3 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -159,6 +159,8 @@ PetscErrorCode readMatFromCOOFile_viaSR(const char *const file, MPI_Comm comm, M
 	std::cout << "  Converted matrix to (B)CSR." << std::endl;
 
 	if(bs == 1) {
+		// the following creates a new matrix
+		ierr = MatDestroy(A); CHKERRQ(ierr);
 		ierr = MatCreateMPIAIJWithArrays(PETSC_COMM_SELF, rmat->nbrows, rmat->nbrows,rmat->nbrows,
 		                                 rmat->nbrows, &rmat->browptr[0], &rmat->bcolind[0], &rmat->vals[0], A);
 		CHKERRQ(ierr);
-- 
2.43.0


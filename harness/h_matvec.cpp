// Matrix-vector products of every matrix class.
#include "vthreads.hpp"
#include "blockmatrices.hpp"
#include "scmatrixdefs.hpp"
#include "blas/matvecs.hpp"
using namespace blasted; using namespace vh;

namespace blasted {
template <typename scalar, typename index, int bs, StorageOptions stor>
void bcsc_gemv3(const CRawBSCMatrix<scalar,index> *const mat, const scalar a, const scalar *const __restrict xx,
                const scalar b, const scalar *const yy, scalar *const zz);
}

struct Job { Sched sc; std::string cls, op; bool rm; Mat m; double alpha, beta; std::vector<double> x, y; bool alias; };

template<class Op> void doops(const Op& A, Job& j, Out& o) {
	AVec<double> x(j.x), y(j.y), z((int)j.y.size());
	for(int i = 0; i < z.n; i++) z[i] = 777.25;
	double *zp = j.alias ? y.p : z.p;
	j.sc.set();
	if(j.op == "apply") { A.apply(x.p, z.p); zp = z.p; }
	else A.gemv3(j.alpha, x.p, j.beta, y.p, zp);
	std::vector<double> res(zp, zp + j.y.size());
	o.dv("z", res);
	bool intact = x.vec() == j.x && (j.alias || y.vec() == j.y) && j.m.intact();
	o.i("intact", intact); o.i("dim", A.dim());
}

struct ColOp {   // column-oriented storage
	Mat *m; int bs, n; bool rm; AVec<int> cp, ri; AVec<double> v;
	int dim() const { return n*bs; }
	void apply(const double*, double*) const {}
	void gemv3(double a, const double *x, double b, const double *y, double *z) const {
		CRawBSCMatrix<double,int> c; c.bcolptr = cp.p; c.browind = ri.p; c.vals = v.p; c.diagind = nullptr; c.nbcols = n;
		if(bs == 3) bcsc_gemv3<double,int,3,ColMajor>(&c, a, x, b, y, z);
		else if(bs == 4) bcsc_gemv3<double,int,4,ColMajor>(&c, a, x, b, y, z);
		else bcsc_gemv3<double,int,7,RowMajor>(&c, a, x, b, y, z);
	}
};

static void one(In& in, Out& o) {
	Job j; j.sc.read(in); j.cls = in.s(); j.op = in.s(); j.rm = in.i(); j.alias = in.i(); j.m.read(in); j.alpha = in.d(); j.beta = in.d(); j.x = in.dv(); j.y = in.dv();
	Mat& m = j.m; m.build(j.rm);
	int nnz = m.rp[m.n];
	if(j.cls == "csrview") {
		CSRMatrixView<double,int> A(m.n, m.brp.p, m.bci.p, m.val.p, m.bdi.p); doops(A, j, o);
	} else if(j.cls == "csrviewst") {
		CSRMatrixView<double,int> A(SRMatrixStorage<const double,const int>(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nnz, nnz, 1)); doops(A, j, o);
	} else if(j.cls == "bsrview") {
#define V(B, L) { BSRMatrixView<double,int,B,L> A(m.n, m.brp.p, m.bci.p, m.val.p, m.bdi.p); doops(A, j, o); }
		if(m.bs == 3 && j.rm) V(3, RowMajor) else if(m.bs == 3) V(3, ColMajor)
		else if(m.bs == 4 && j.rm) V(4, RowMajor) else if(m.bs == 4) V(4, ColMajor)
		else if(m.bs == 5) V(5, ColMajor)
		else if(m.bs == 7 && j.rm) V(7, RowMajor) else if(m.bs == 7) V(7, ColMajor)
	} else if(j.cls == "bsrviewst") {
#define VS(B, L) { BSRMatrixView<double,int,B,L> A(SRMatrixStorage<const double,const int>(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nnz, nnz, B)); doops(A, j, o); }
		if(m.bs == 3 && j.rm) VS(3, RowMajor) else if(m.bs == 3) VS(3, ColMajor)
		else if(m.bs == 4 && j.rm) VS(4, RowMajor) else if(m.bs == 4) VS(4, ColMajor)
		else if(m.bs == 5) VS(5, ColMajor)
		else if(m.bs == 7 && j.rm) VS(7, RowMajor) else if(m.bs == 7) VS(7, ColMajor)
	} else if(j.cls == "own") {      // owning matrix filled through the assembly interface
#define O(B) { BSRMatrix<double,int,B> A(m.n, m.bci.p, m.brp.p); \
		for(int i = 0; i < m.n; i++) for(int p = m.rp[i]; p < m.rp[i+1]; p++) A.submitBlock(i*B, m.ci[p]*B, &m.lv[p*B*B], B, B); \
		doops(A, j, o); }
		if(m.bs == 1) O(1) else if(m.bs == 3) O(3) else if(m.bs == 7) O(7)
	} else if(j.cls == "wrap") {     // owning class wrapping arrays
#define W(B) { BSRMatrix<double,int,B> A(m.n, m.brp.p, m.bci.p, m.val.p, m.bdi.p); doops(A, j, o); }
		if(m.bs == 1) W(1) else if(m.bs == 3) W(3) else if(m.bs == 7) W(7)
	} else if(j.cls == "col") {
		ColOp c; c.m = &m; c.bs = m.bs; c.n = m.n; c.rm = j.rm; c.cp = AVec<int>(m.n+1); c.ri = AVec<int>(nnz); c.v = AVec<double>(nnz*m.bs*m.bs);
		int k = 0;
		for(int jc = 0; jc < m.n; jc++) { c.cp[jc] = k; for(int i = 0; i < m.n; i++) for(int p = m.rp[i]; p < m.rp[i+1]; p++) if(m.ci[p] == jc) {
			c.ri[k] = i; for(int q = 0; q < m.bs*m.bs; q++) c.v[k*m.bs*m.bs+q] = m.val[p*m.bs*m.bs+q]; k++; } }
		c.cp[m.n] = k;
		doops(c, j, o);
	}
}
int main(int argc, char **argv) { return run(argc, argv, one); }

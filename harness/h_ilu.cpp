// Incomplete factorization: position lists, factors, diagnostics; in the shim flavor every update of the factors.
#include "vthreads.hpp"
#include "vevents.hpp"
#include "async_ilu_factor.hpp"
#include "blas/blas1.hpp"
#include "async_blockilu_factor.hpp"
using namespace blasted; using namespace vh;

static PrecInfo factorize(const CRawBSRMatrix<double,int>& mat, int bs, bool rm, const ILUPositions<int>& pl, int nsweeps, int chunk, bool usethreads, FactInit fi, bool info, double *f, double *s) {
	if(bs == 1 && rm && !s && !info) {     // there is a function of its own for this
		scalar_ilu0_factorize_noscale<double,int>(&mat, pl, nsweeps, chunk, usethreads, fi, f); PrecInfo none; for(auto& x : none.f_info) x = 0; return none; }
	if(bs == 1) return scalar_ilu0_factorize<double,int>(&mat, pl, nsweeps, chunk, usethreads, fi, info, f, s);
	if(bs == 4 && rm) return block_ilu0_factorize<double,int,4,RowMajor>(&mat, pl, nsweeps, chunk, usethreads, fi, info, f, s);
	if(bs == 4) return block_ilu0_factorize<double,int,4,ColMajor>(&mat, pl, nsweeps, chunk, usethreads, fi, info, f, s);
	return block_ilu0_factorize<double,int,5,ColMajor>(&mat, pl, nsweeps, chunk, usethreads, fi, info, f, s);
}
// lists: only the position lists;  norm: maximum norm;  factor, info: a factorization
static void one(In& in, Out& o) {
	std::string op = in.s();
	Sched sc; sc.read(in);
	if(op == "norm") {
		std::vector<double> x = in.dv(); device_vector<double> v(x.size()); for(size_t k = 0; k < x.size(); k++) v[k] = x[k];
		sc.set(); o.d("norm", maxnorm<double>(v)); return;
	}
	if(op == "lists") {
		Mat m; m.read(in); m.build(true); int nnz = m.rp[m.n];
		CRawBSRMatrix<double,int> mat(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nnz, nnz);
		sc.set();
		ILUPositions<int> pl = compute_ILU_positions_CSR_CSR(&mat);
		o.iv("posptr", pl.posptr); o.iv("lowerp", pl.lowerp); o.iv("upperp", pl.upperp);
		return;
	}
	bool rm = in.i(), scaling = in.i(); int init = in.i(), nsweeps = in.i(), chunk = in.i(); bool usethreads = in.i(), info = in.i();
	Mat m; m.read(in); m.build(rm);
	std::vector<double> f0 = in.dv();
	int nnz = m.rp[m.n], bb = m.bs*m.bs;
	CRawBSRMatrix<double,int> mat(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nnz, nnz);
	ILUPositions<int> pl = compute_ILU_positions_CSR_CSR(&mat);
	o.iv("posptr", pl.posptr); o.iv("lowerp", pl.lowerp); o.iv("upperp", pl.upperp);
	double *f; if(posix_memalign((void**)&f, 4096, nnz*bb*sizeof(double))) _exit(97);
	AVec<double> scale(m.n*m.bs);
	for(int k = 0; k < nnz; k++) for(int r = 0; r < m.bs; r++) for(int c = 0; c < m.bs; c++)
		f[k*bb + Mat::off(m.bs, rm, r, c)] = f0[k*bb + r*m.bs + c];
	FactInit fi = init == 0 ? INIT_F_ZERO : init == 1 ? INIT_F_ORIGINAL : init == 2 ? INIT_F_SGS : INIT_F_NONE;
	sc.set();
#ifdef VSHIM
	CellArray ca(0, f, nnz, bb, !rm && m.bs > 1, m.bs);
	Updates up; up.add(ca); up.start();
#endif
	PrecInfo pi; for(auto& x : pi.f_info) x = 0;
	double *s = scaling ? scale.p : nullptr;
	pi = factorize(mat, m.bs, rm, pl, nsweeps, chunk, usethreads, fi, info, f, s);
#ifdef VSHIM
	shim::stop();
	up.report(o);
#endif
	o.dv("f", m.logical(f)); o.dv("scale", scale.p, scale.n); o.i("intact", m.intact());
	if(info) o.dv("info", pi.f_info.data(), 6);
	if(op == "info") {                   // once more without diagnostics
		AVec<double> f2(nnz*bb), s2(m.n*m.bs); 
		for(int k = 0; k < nnz; k++) for(int r = 0; r < m.bs; r++) for(int c = 0; c < m.bs; c++)
			f2[k*bb + Mat::off(m.bs, rm, r, c)] = f0[k*bb + r*m.bs + c];
		factorize(mat, m.bs, rm, pl, nsweeps, chunk, usethreads, fi, false, f2.p, scaling ? s2.p : nullptr);
		o.i("fsame", memcmp(f, f2.p, sizeof(double)*nnz*bb) == 0);
	}
	free(f);
}
int main(int argc, char **argv) { return run(argc, argv, one); }

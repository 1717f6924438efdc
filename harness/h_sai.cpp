/* Triangular views, raw copies, and sparse approximate inverses.
 * input: sched mat rowmajor op ...
 *   view which(1 lower, 2 upper) form(0 raw, 1 storage) | copy | raw
 *   sai which(0 whole, 1, 2) incomplete chunk   (pattern, and the inverse where it is available: bs 1 and 4 by columns) */
#include "vthreads.hpp"
#include "srmatrixdefs.hpp"
#include "sai.hpp"
using namespace blasted; using namespace vh;
typedef SRMatrixStorage<const double,const int> St;
static St whole(Mat& m) { int nz = m.rp[m.n]; return St(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nz, nz, m.bs); }
template<class V> static void showview(Out& o, const V& v, const Mat& m) {
	o.i("nb", v.nbrows); o.i("nnz", v.nnzb); o.i("nst", v.nbstored);
	o.iv("rb", &v.browptr[0], m.n); o.iv("re", &v.browendptr[0], m.n);
	o.i("shared", &v.vals[0] == m.val.p && &v.bcolind[0] == m.bci.p && &v.diagind[0] == m.bdi.p);
	o.i("own", &v.browptr[0] != m.brp.p && &v.browendptr[0] != m.bre.p && (const int*)&v.browptr[0] != (const int*)&v.browendptr[0]);
}
static CRawBSRMatrix<double,int> raw(Mat& m) { int nz = m.rp[m.n]; return CRawBSRMatrix<double,int>(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nz, nz); }
template<int bs> static void copy(Out& o, Mat& m) {
	auto r = raw(m);
	RawBSRMatrix<double,int> c = copyRawBSRMatrix<double,int,bs>(r);
	int nz = m.rp[m.n];
	o.i("nb", c.nbrows); o.i("nnz", c.nnzb); o.i("nst", c.nbstored);
	o.iv("rp", c.browptr, m.n+1); o.iv("re", c.browendptr, m.n); o.iv("ci", c.bcolind, nz); o.iv("di", c.diagind, m.n); o.dv("v", m.logical(c.vals));
	// writing into the copy leaves the original alone
	for(int k = 0; k < nz; k++) { c.bcolind[k] = -7; for(int j = 0; j < bs*bs; j++) c.vals[k*bs*bs+j] = -1234.5; }
	for(int i = 0; i < m.n; i++) { c.diagind[i] = -7; c.browptr[i] = -7; }
	o.i("intact", m.intact());
	c.browptr[m.n] = nz;
	alignedDestroyRawBSRMatrix(c);
}
template<int bs> static void inverse(Out& o, const Sched& sc, Mat& m, const St& v, const LeftSAIPattern<int>& p, int inc, int chunk) {
	AVec<double> out((int)m.lv.size());
	for(int k = 0; k < out.n; k++) out[k] = 77.0;
	// the inverse is stored where the matrix (or the view of it) is, in its own values
	AVec<int> rb(m.n), re(m.n);
	int nst = m.rp[m.n];
	AVec<int> rb1(m.n + 1);
	for(int i = 0; i < m.n; i++) { rb1[i] = v.browptr[i]; re[i] = v.browendptr[i]; }
	rb1[m.n] = nst;
	SRMatrixStorage<double,int> s(rb1.p, m.bci.p, out.p, m.bdi.p, re.p, m.n, v.nnzb, nst, bs);
	sc.set();
	compute_SAI<double,int,bs,ColMajor>(v, p, chunk, !inc, s);
	o.dv("s", m.logical(out.p));
}
static void one(In& in, Out& o) {
	Sched sc; sc.read(in); Mat m; m.read(in); m.build(in.i());
	std::string op = in.s();
	sc.set();
	if(op == "view") {
		int w = in.i(), form = in.i();
		if(form == 0) {
			auto r = raw(m);
			CRawBSRMatrix<double,int> v = w == 1 ? getLowerTriangularView(r) : getUpperTriangularView(r);
			showview(o, v, m);
			alignedDestroyRawBSRMatrixTriangularView(reinterpret_cast<RawBSRMatrix<double,int>&>(v));
		} else {
			St s(whole(m));
			{ St v(w == 1 ? getLowerTriangularView(std::move(s)) : getUpperTriangularView(std::move(s))); showview(o, v, m);
			  auto r = createRawView(std::move(v)); if(&r.vals[0] != m.val.p || r.nbrows != v.nbrows || r.nnzb != v.nnzb || r.browptr != &v.browptr[0] || r.browendptr != &v.browendptr[0]) o.i("rawbad", 1); }
		}
		o.i("intact", m.intact());
	}
	else if(op == "copy") { if(m.bs == 1) copy<1>(o, m); else if(m.bs == 4) copy<4>(o, m); else if(m.bs == 5) copy<5>(o, m); else _exit(99); }
	else if(op == "sai") {
		int w = in.i(), inc = in.i(), chunk = in.i();
		St s(whole(m));
		St v(w == 0 ? whole(m) : w == 1 ? getLowerTriangularView(std::move(s)) : getUpperTriangularView(std::move(s)));
		LeftSAIPattern<int> p = inc ? left_incomplete_SAI_pattern(std::move(v)) : left_SAI_pattern(std::move(v));
		o.iv("bpos", p.bpos.data(), (int)p.bpos.size()); o.iv("browind", p.browind.data(), (int)p.browind.size());
		o.iv("bcolptr", p.bcolptr.data(), (int)p.bcolptr.size()); o.iv("sairowptr", p.sairowptr.data(), (int)p.sairowptr.size());
		o.iv("nvars", p.nVars.data(), (int)p.nVars.size()); o.iv("neqns", p.nEqns.data(), (int)p.nEqns.size()); o.iv("central", p.localCentralRow.data(), (int)p.localCentralRow.size());
		if(m.bs == 1) inverse<1>(o, sc, m, v, p, inc, chunk); else if(m.bs == 4 && !m.rowmajor) inverse<4>(o, sc, m, v, p, inc, chunk);
		o.i("intact", m.intact());
	}
	else _exit(99);
	o.i("end", 1);
}
int main(int argc, char **argv) { return run(argc, argv, one); }

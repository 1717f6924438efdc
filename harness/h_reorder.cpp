/* Sessions of orderings and scalings of one matrix and one vector of one block size.
 * input: sched mat rowmajor vec, then operations:
 *   comp (orders rows and columns by the number of entries of their row, scales rows by it) |
 *   setord hasrow r hascol c | setscale r c | mord fwd | mscl fwd | mrs fwd | vord fwd row | vscl fwd row | load (the original again) | unit
 */
#include "vthreads.hpp"
#include "blockmatrices.hpp"
#include "reorderingscaling.hpp"
#include <memory>
#include <algorithm>
using namespace blasted; using namespace vh;
namespace blasted { template <typename scalar, typename index, int bs> void getScalingVector(const CRawBSRMatrix<scalar,index> *const mat, scalar *const __restrict scale); }
template<int bs> struct RS : public ReorderingScaling<double,int,bs> {
	std::vector<int> srp, sre, sci, sdi, cnt; std::vector<double> sv; int calls = 0;
	void compute(const CRawBSRMatrix<double,int>& a) override {
		calls++;
		const int n = a.nbrows, nz = a.browptr[n];
		cnt = {a.nbrows, a.nnzb, a.nbstored};
		srp.assign(&a.browptr[0], &a.browptr[0] + n + 1); sre.assign(&a.browendptr[0], &a.browendptr[0] + n); sdi.assign(&a.diagind[0], &a.diagind[0] + n);
		sci.assign(&a.bcolind[0], &a.bcolind[0] + nz); sv.assign(&a.vals[0], &a.vals[0] + nz*bs*bs);
		std::vector<int> o(n); for(int i = 0; i < n; i++) o[i] = i;
		std::stable_sort(o.begin(), o.end(), [&](int i, int j) { return sre[i] - srp[i] < sre[j] - srp[j]; });
		this->setOrdering(o.data(), o.data(), n);
		std::vector<double> f(n); for(int i = 0; i < n; i++) f[i] = 0.5 + sre[i] - srp[i];
		setScaling(f, std::vector<double>());
	}
	void setScaling(const std::vector<double>& r, const std::vector<double>& c) { this->rowscale = r; this->colscale = c; }
};
template<int bs> struct Whole { static bool apply(Mat&, const RS<bs>&, RSApplyMode) { return false; }  static bool compute(Mat&, RS<bs>&) { return false; } };
template<int bs> static bool computed(Mat& m, RS<bs>& rs) {
	BSRMatrix<double,int,bs> b(m.n, m.brp.p, m.bci.p, m.val.p, m.bdi.p); b.computeOrderingScaling(rs);
	const SRMatrixStorage<double,int>& r = b.getRawSRMatrix();
	if(&r.browptr[0] != m.brp.p || &r.bcolind[0] != m.bci.p || &r.vals[0] != m.val.p || &r.diagind[0] != m.bdi.p || r.nbrows != m.n) rs.calls += 100;
	return true;
}
template<int bs> static bool whole(Mat& m, const RS<bs>& rs, RSApplyMode mode) {
	BSRMatrix<double,int,bs> b(m.n, m.brp.p, m.bci.p, m.val.p, m.bdi.p); b.reorderScale(rs, mode); return true;
}
template<> struct Whole<1> { static bool apply(Mat& m, const RS<1>& rs, RSApplyMode mode) { return whole<1>(m, rs, mode); }  static bool compute(Mat& m, RS<1>& rs) { return computed<1>(m, rs); } };
template<> struct Whole<7> { static bool apply(Mat& m, const RS<7>& rs, RSApplyMode mode) { return whole<7>(m, rs, mode); }  static bool compute(Mat& m, RS<7>& rs) { return computed<7>(m, rs); } };
template<int bs> static void unit(const CRawBSRMatrix<double,int> *r, double *s) { getScalingVector<double,int,bs>(r, s); }
template<> void unit<7>(const CRawBSRMatrix<double,int> *, double *) { _exit(99); }
template<int bs> static void session(In& in, Out& o, const Sched& sc, Mat& m) {
	AVec<double> x(in.dv()); RS<bs> rs; int step = 0; std::string key;
	auto K = [&](const char *k) { key = std::string(k) + std::to_string(step); return key.c_str(); };
	int nz = m.rp[m.n];
	RawBSRMatrix<double,int> raw(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.brp.p + 1, m.n, nz, nz);
	while(in.more()) {
		std::string op = in.s(); step++;
		sc.set();
		auto mode = [&]() { return in.i() ? FORWARD : INVERSE; };
		auto dir = [&]() { return in.i() ? ROW : COLUMN; };
		if(op == "setord") {
			int hr = in.i(); AVec<int> r(in.iv()); int hc = in.i(); AVec<int> c(in.iv());
			rs.setOrdering(hr ? r.p : nullptr, hc ? c.p : nullptr, m.n);
		}
		else if(op == "setscale") { auto r = in.dv(); auto c = in.dv(); rs.setScaling(r, c); }
		else if(op == "mord") { auto w = mode(); rs.applyOrdering(raw, w); }
		else if(op == "mscl") { auto w = mode(); rs.applyScaling(raw, w); }
		else if(op == "mrs") { auto w = mode(); if(!Whole<bs>::apply(m, rs, w)) _exit(99); }
		else if(op == "vord") { auto w = mode(); auto d = dir(); rs.applyOrdering(x.p, w, d); }
		else if(op == "vscl") { auto w = mode(); auto d = dir(); rs.applyScaling(x.p, w, d); }
		else if(op == "comp") {
			rs.calls = 0; if(!Whole<bs>::compute(m, rs)) _exit(99);
			o.i(K("calls"), rs.calls); o.iv(K("srp"), rs.srp); o.iv(K("sre"), rs.sre); o.iv(K("sci"), rs.sci); o.iv(K("sdi"), rs.sdi); o.iv(K("cnt"), rs.cnt);
			if((int)rs.sv.size() == nz*bs*bs) o.dv(K("sv"), m.logical(rs.sv.data()));
		}
		else if(op == "unit") {
			CRawBSRMatrix<double,int> r(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nz, nz);
			AVec<double> s(m.n*bs); unit<bs>(&r, s.p); o.dv(K("s"), s.p, s.n);
		}
		else _exit(99);
		o.iv(K("rp"), m.brp.p, m.n + 1); o.iv(K("ci"), m.bci.p, nz); o.iv(K("di"), m.bdi.p, m.n);
		o.dv(K("v"), m.logical(m.val.p)); o.dv(K("x"), x.p, x.n); o.i(K("isr"), rs.isRowReordering());
	}
	o.i("end", 1);
}
static void one(In& in, Out& o) {
	Sched sc; sc.read(in); Mat m; m.read(in); m.build(in.i());
	if(m.bs == 1) session<1>(in, o, sc, m); else if(m.bs == 4) session<4>(in, o, sc, m); else if(m.bs == 7) session<7>(in, o, sc, m);
	else if(m.bs == 5) {      // only the scaling vector
		in.dv(); in.s(); sc.set(); CRawBSRMatrix<double,int> r(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, m.rp[m.n], m.rp[m.n]);
		AVec<double> s(m.n*5); getScalingVector<double,int,5>(&r, s.p);
		o.dv("s1", s.p, s.n); o.iv("rp1", m.brp.p, m.n + 1); o.iv("ci1", m.bci.p, m.rp[m.n]); o.iv("di1", m.bdi.p, m.n); o.dv("v1", m.logical(m.val.p)); std::vector<double> x; o.dv("x1", x); o.i("isr1", 0);
	}
	else _exit(99);
}
int main(int argc, char **argv) { return run(argc, argv, one); }

/* Sessions of assembly calls on a few matrices of one block size.
 * input: sched bs, then operations:
 *   new k pat | struct k pat | wrap k mat | raw k mat | sr k mat | copy k j | zero k | dzero k | sub k i j h w buf | upd k i j h w buf
 *   | udg k i h buf | scale k f | par k T (per thread: count, each  0 i j h w buf | 1 i 0 h h buf) | equal k j tol | query k | del k
 * i, j are block (row, column) numbers for block matrices.  After each the arrays of every live matrix are written out. */
#include "vthreads.hpp"
#include "blockmatrices.hpp"
#include <functional>
#include <memory>
#include <boost/align/aligned_alloc.hpp>
extern "C" void GOMP_parallel(void (*)(void*), void*, unsigned, unsigned);
extern "C" int omp_get_thread_num();
static void team_body(void *p) { (*(std::function<void(int)>*)p)(omp_get_thread_num()); }
using namespace blasted; using namespace vh;

template<class T> static T *fresh(const AVec<T>& v) {
	T *p = (T*)boost::alignment::aligned_alloc(64, (v.n > 0 ? v.n : 1)*sizeof(T));
	for(int i = 0; i < v.n; i++) p[i] = v[i];
	return p;
}
struct Pat { int n; std::vector<int> rp, ci; AVec<int> arp, aci; void read(In& in) { n = in.i(); rp = in.iv(); ci = in.iv(); arp = AVec<int>(rp); aci = AVec<int>(ci); } };
struct Up { int kind, i, j, h, w; AVec<double> b; void read(In& in) { kind = in.i(); i = in.i(); j = in.i(); h = in.i(); w = in.i(); b = AVec<double>(in.dv()); } };

template<int bs> static void query(const BSRMatrix<double,int,bs>&, Out&, std::function<const char*(const char*)>) {}
template<> void query<1>(const BSRMatrix<double,int,1>& A, Out& o, std::function<const char*(const char*)> K) {
	o.i(K("zrow"), A.zeroDiagonalRow()); o.i(K("nzero"), (long)A.getNumZeroDiagonals());
	double v[4] = { A.getDiagonalProduct(), A.getDiagonalAbsSum(), A.getAbsMinDiagonalEntry(), A.getAbsMaxDiagonalEntry() };
	o.dv(K("dq"), v, 4);
}

template<int bs> static void session(const Sched& sc, In& in, Out& o) {
	typedef BSRMatrix<double,int,bs> BM;
	std::unique_ptr<BM> obj[4]; std::unique_ptr<Mat> mats[4];
	int step = 0; std::string key;
	std::function<const char*(const char*)> K = [&](const char *k) { key = std::string(k) + std::to_string(step); return key.c_str(); };
	while(in.more()) {
		std::string op = in.s(); int k = in.i(); step++;
		sc.set();
		auto doup = [&](const Up& u) {
			if(u.kind == 0) obj[k]->updateBlock(u.i*bs, u.j*bs, u.b.p, bs == 1 ? u.h : bs, bs == 1 ? u.w : bs);
			else obj[k]->updateDiagBlock(u.i*bs, u.b.p, bs == 1 ? u.h : bs);
		};
		if(op == "new" || op == "struct") {
			Pat p; p.read(in);
			if(op == "new") { obj[k].reset(new BM(p.n, p.aci.p, p.arp.p)); mats[k].reset(); }
			else obj[k]->setStructure(p.n, p.aci.p, p.arp.p);
		}
		else if(op == "null") { Pat p; p.read(in); obj[k].reset(new BM()); obj[k]->setStructure(p.n, p.aci.p, p.arp.p); }
		else if(op == "wrap" || op == "raw" || op == "sr") {
			std::unique_ptr<Mat> m(new Mat); m->read(in); m->build(true); int nnz = m->rp[m->n];
			if(op == "wrap") { obj[k].reset(new BM(m->n, m->brp.p, m->bci.p, m->val.p, m->bdi.p)); mats[k] = std::move(m); }
			else if(op == "raw") {
				RawBSRMatrix<double,int> r; r.nbrows = m->n; r.nnzb = r.nbstored = nnz;
				r.browptr = fresh(m->brp); r.bcolind = fresh(m->bci); r.vals = fresh(m->val); r.diagind = fresh(m->bdi); r.browendptr = r.browptr + 1;
				obj[k].reset(new BM(r));
				o.i(K("nulled"), !r.browptr && !r.bcolind && !r.vals && !r.diagind && r.nbrows == 0);
			}
			else {
				SRMatrixStorage<double,int> s(ArrayView<int>(fresh(m->brp), m->n+1, true), ArrayView<int>(fresh(m->bci), nnz, true),
					ArrayView<double>(fresh(m->val), nnz*bs*bs, true), ArrayView<int>(fresh(m->bdi), m->n, true), ArrayView<int>(nullptr, 0), m->n, nnz, nnz);
				s.browendptr.wrap(&s.browptr[1], m->n);
				obj[k].reset(new BM(std::move(s)));
			}
		}
		else if(op == "copy") { int j = in.i(); obj[k].reset(new BM(*obj[j])); }
		else if(op == "zero") obj[k]->setAllZero();
		else if(op == "dzero") obj[k]->setDiagZero();
		else if(op == "sub") { Up u; u.read(in); obj[k]->submitBlock(u.i*bs, u.j*bs, u.b.p, bs == 1 ? u.h : bs, bs == 1 ? u.w : bs); }
		else if(op == "upd" || op == "udg") { Up u; u.read(in); doup(u); }
		else if(op == "scale") obj[k]->scaleAll(in.d());
		else if(op == "par") {
			int T = in.i(); std::vector<std::vector<Up>> us(T);
			for(auto& v : us) { v.resize(in.i()); for(auto& u : v) u.read(in); }
			Sched s = sc; s.nthreads = T; s.set();
#ifdef VSHIM
			const auto& r = obj[k]->getRawSRMatrix();
			if(r.vals.size() > 0) { shim::watch(&r.vals[0], r.vals.size()*sizeof(double)); shim::start(false); }
#endif
			std::function<void(int)> f = [&](int t) { for(auto& u : us[t]) doup(u); };
			GOMP_parallel(team_body, &f, T, 0);
#ifdef VSHIM
			shim::stop(); shim::unwatch_all();
#endif
		}
		else if(op == "equal") { int j = in.i(); double tol = in.d(); auto a = obj[k]->isEqual(*obj[j], tol); int v[5]; for(int q = 0; q < 5; q++) v[q] = a[q]; o.iv(K("eq"), v, 5); }
		else if(op == "query") query<bs>(*obj[k], o, K);
		else if(op == "del") { obj[k].reset(); mats[k].reset(); }
		else _exit(99);
		for(int q = 0; q < 4; q++) if(obj[q]) {
			const auto& r = obj[q]->getRawSRMatrix();
			std::string suf = std::to_string(q) + "_";
			auto L = [&](const char *a) { key = a + suf + std::to_string(step); return key.c_str(); };
			int head[4] = { r.nbrows, r.nnzb, r.nbstored, obj[q]->dim() }; o.iv(L("h"), head, 4);
			auto arr = [&](const char *a, const ArrayView<int>& v) { o.iv(L(a), v.size() ? &v[0] : (const int*)nullptr, v.size()); };
			arr("rp", r.browptr); arr("ci", r.bcolind); arr("di", r.diagind); arr("re", r.browendptr);
			o.dv(L("v"), r.vals.size() ? &r.vals[0] : (const double*)nullptr, r.vals.size());
		}
	}
	for(auto& x : obj) x.reset();
	o.i("end", 1);
}
static void one(In& in, Out& o) {
	Sched sc; sc.read(in); int bs = in.i();
	if(bs == 1) session<1>(sc, in, o); else if(bs == 3) session<3>(sc, in, o); else if(bs == 7) session<7>(sc, in, o); else _exit(99);
}
int main(int argc, char **argv) { return run(argc, argv, one); }

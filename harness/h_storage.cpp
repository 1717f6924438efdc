/* Sessions of storage operations. Every block allocated or released while an operation runs is recorded through the
 * allocator's hooks; blocks get numbers in the order of their appearance.
 * input: bs npat (n rp ci v di)... operations; see MC_Storage.tla for their names and arguments */
#include "vthreads.hpp"
#include "blockmatrices.hpp"
#include "solverfactory.hpp"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#include <boost/align/aligned_alloc.hpp>
#include <map>
#include <memory>
#include <new>
using namespace blasted; using namespace vh;
typedef SRMatrixStorage<double,int> SM; typedef SRMatrixStorage<const double,const int> CSM;
struct Blk { uint64_t a; size_t n; bool live; };
static std::vector<Blk> blk; static std::map<uint64_t, std::vector<int>> bynum;
static volatile bool tracking = false;      // volatile: the compiler takes malloc and free for functions that read no globals
static volatile uint64_t na[512]; static volatile size_t nn[512]; static volatile int nnew = 0; static volatile uint64_t fr[512]; static volatile int nfr = 0;
static void mhook(const volatile void *p, size_t n) { if(tracking && p && nnew < 512) { na[nnew] = (uint64_t)p; nn[nnew] = n; nnew = nnew + 1; } }
static void fhook(const volatile void *p) {
	if(!tracking || !p) return;
	for(int i = nnew-1; i >= 0; i--) if(na[i] == (uint64_t)p) { na[i] = na[nnew-1]; nn[i] = nn[nnew-1]; nnew = nnew - 1; return; }
	if(nfr < 512) { fr[nfr] = (uint64_t)p; nfr = nfr + 1; }
}
struct On { On() { nnew = nfr = 0; tracking = true; } ~On() { tracking = false; } };
static int find(uint64_t a, bool start = false) {     // the newest block containing a
	for(int i = (int)blk.size()-1; i >= 0; i--) if(start ? blk[i].a == a : (a >= blk[i].a && a < blk[i].a + blk[i].n)) return i;
	return -1;
}
struct Obj { std::string kind; std::unique_ptr<SRPreconditioner<double,int>> sol; alignas(64) char mem[1024]; };
static Obj ob[6];
template<class T> T& as(int k) { return *(T*)ob[k].mem; }
static_assert(sizeof(BSRMatrix<double,int,1>) < 1000, "");

template<int bs> struct VT { typedef BSRMatrixView<double,int,bs,RowMajor> V; };
template<> struct VT<1> { typedef CSRMatrixView<double,int> V; };

template<class A> static void showarr(Out& o, const std::string& suf, int q, const A& v, bool vals) {
	int n = v.size(); std::string t = suf + "_" + std::to_string(q);
	o.i(("n" + t).c_str(), n);
	if(n <= 0) return;
	uint64_t a = (uint64_t)&v[0]; int b = find(a);
	o.i(("b" + t).c_str(), b + 1); o.i(("o" + t).c_str(), b < 0 ? 0 : (long)(a - blk[b].a)/(long)sizeof(v[0]));
	if(vals && b >= 0 && blk[b].live && a + n*sizeof(v[0]) <= blk[b].a + blk[b].n) {
		std::vector<int> w; for(int i = 0; i < n; i++) { double x = (double)v[i]; w.push_back(x == x && std::abs(x) < 1e6 && x == std::floor(x) ? (int)x : -999); }
		o.iv(("v" + t).c_str(), w);
	}
}
template<class S> static void showmat(Out& o, const std::string& suf, const S& m) {
	showarr(o, suf, 1, m.browptr, true); showarr(o, suf, 2, m.bcolind, true); showarr(o, suf, 3, m.vals, true);
	showarr(o, suf, 4, m.diagind, true); showarr(o, suf, 5, m.browendptr, true);
	int c[3] = { m.nbrows, m.nnzb, m.nbstored }; o.iv(("c" + suf).c_str(), c, 3);
}
struct Pt { int n; std::vector<int> rp, ci, di; std::vector<double> v; AVec<int> arp, aci; };
struct Data { int *rp, *ci, *di; double *v; Pt *p; };

template<int bs> static void session(In& in, Out& o) {
	typedef BSRMatrix<double,int,bs> BM; typedef typename VT<bs>::V V;
	std::vector<Pt> pts(in.i());
	for(auto& p : pts) { p.n = in.i(); p.rp = in.iv(); p.ci = in.iv(); p.v = in.dv(); p.di = in.iv(); p.arp = AVec<int>(p.rp); p.aci = AVec<int>(p.ci); }
	std::vector<Data> data(1);
	int step = 0; SRFactory<double,int> fac;
	auto destroy = [&](int k) {
		std::string t = ob[k].kind; ob[k].kind.clear();
		On on;
		if(t == "arr") as<ArrayView<int>>(k).~ArrayView<int>(); else if(t == "carr") as<ArrayView<const int>>(k).~ArrayView<const int>();
		else if(t == "sm") as<SM>(k).~SM(); else if(t == "csm") as<CSM>(k).~CSM(); else if(t == "bm") as<BM>(k).~BM();
		else if(t == "view") as<V>(k).~V(); else if(t == "solver") ob[k].sol.reset();
	};
	auto mk = [](const void *src, size_t bytes) { void *p = boost::alignment::aligned_alloc(64, bytes ? bytes : 1); memcpy(p, src, bytes); return p; };
	while(in.more()) {
		std::string op = in.s(); std::vector<int> a = in.iv(); step++;
		int k = a[0], j = a.size() > 1 ? a[1] : 0; void *at = ob[k < 6 ? k : 0].mem;
		auto kind = [&](const char *t) { ob[k].kind = t; };
		auto B = [&](int b) { return (int*)blk[b-1].a; };
		uint64_t order[5] = {0,0,0,0,0};
		if(op == "ualloc") { On on; int *p = (int*)boost::alignment::aligned_alloc(64, k*sizeof(int)); for(int i = 0; i < k; i++) p[i] = 11 + i; }
		else if(op == "ufree") { On on; boost::alignment::aligned_free(B(k)); }
		else if(op == "null") { kind("arr"); On on; new(at) ArrayView<int>(); }
		else if(op == "alloc") { kind("arr"); On on; new(at) ArrayView<int>(a[1]); }
		else if(op == "wrap") { kind("arr"); On on; new(at) ArrayView<int>(B(a[1]) + a[2], a[3]); }
		else if(op == "own") { kind("arr"); On on; new(at) ArrayView<int>(B(a[1]), (int)(blk[a[1]-1].n/sizeof(int)), true); }
		else if(op == "share") { kind("arr"); auto& s = as<ArrayView<int>>(j); On on; new(at) ArrayView<int>(&s[a[2]], s.size() - a[2]); }
		else if(op == "move") { std::string t = ob[j].kind; kind(t.c_str()); On on; if(t == "arr") new(at) ArrayView<int>(std::move(as<ArrayView<int>>(j))); else new(at) ArrayView<const int>(std::move(as<ArrayView<const int>>(j))); }
		else if(op == "const") { kind("carr"); On on; new(at) ArrayView<const int>(move_to_const(std::move(as<ArrayView<int>>(j)))); }
		else if(op == "resize") { bool c = ob[k].kind == "carr"; On on; if(c) as<ArrayView<const int>>(k).resize(a[1]); else as<ArrayView<int>>(k).resize(a[1]); }
		else if(op == "rewrap") { bool c = ob[k].kind == "carr"; On on; if(c) as<ArrayView<const int>>(k).wrap(B(a[1]) + a[2], a[3]); else as<ArrayView<int>>(k).wrap(B(a[1]) + a[2], a[3]); }
		else if(op == "take") { On on; as<ArrayView<int>>(k).take_control(B(a[1]), (int)(blk[a[1]-1].n/sizeof(int))); }
		else if(op == "write") { as<ArrayView<int>>(k)[a[2]] = a[3]; nnew = nfr = 0; }
		else if(op == "del") destroy(k);
		else if(op == "data") {
			Pt& p = pts[k-1]; Data d; d.p = &p; On on;
			d.rp = (int*)mk(p.rp.data(), p.rp.size()*sizeof(int)); order[0] = (uint64_t)d.rp; d.ci = (int*)mk(p.ci.data(), p.ci.size()*sizeof(int)); order[1] = (uint64_t)d.ci;
			d.v = (double*)mk(p.v.data(), p.v.size()*sizeof(double)); order[2] = (uint64_t)d.v; d.di = (int*)mk(p.di.data(), p.di.size()*sizeof(int)); order[3] = (uint64_t)d.di;
			tracking = false; data.push_back(d);
		}
		else if(op == "dfree") { Data& d = data[k]; On on; boost::alignment::aligned_free(d.rp); boost::alignment::aligned_free(d.ci); boost::alignment::aligned_free(d.v); boost::alignment::aligned_free(d.di); }
		else if(op == "mnull") { kind("sm"); On on; new(at) SM(); }
		else if(op == "bnull") { kind("bm"); On on; new(at) BM(); }
		else if(op == "bstruct") { Pt& p = pts[j-1]; kind("bm"); On on; new(at) BM(p.n, p.aci.p, p.arp.p); }
		else if(op == "bset") { Pt& p = pts[j-1]; On on; as<BM>(k).setStructure(p.n, p.aci.p, p.arp.p); }
		else if(op == "mwrap" || op == "cwrap" || op == "mtake" || op == "bwrap" || op == "braw" || op == "vwrap") {
			Data& d = data[j]; int n = d.p->n, nz = d.p->rp[n];
			kind(op == "cwrap" ? "csm" : op == "vwrap" ? "view" : op[0] == 'm' ? "sm" : "bm");
			RawBSRMatrix<double,int> r(d.rp, d.ci, d.v, d.di, d.rp + 1, n, nz, nz);
			On on;
			if(op == "mwrap") new(at) SM(d.rp, d.ci, d.v, d.di, d.rp + 1, n, nz, nz, bs);
			else if(op == "cwrap") new(at) CSM(d.rp, d.ci, d.v, d.di, d.rp + 1, n, nz, nz, bs);
			else if(op == "mtake") new(at) SM(ArrayView<int>(d.rp, n+1, true), ArrayView<int>(d.ci, nz, true), ArrayView<double>(d.v, nz*bs*bs, true),
			                                  ArrayView<int>(d.di, n, true), ArrayView<int>(d.rp + 1, n, false), n, nz, nz);
			else if(op == "bwrap") new(at) BM(n, d.rp, d.ci, d.v, d.di);
			else if(op == "vwrap") new(at) V(n, d.rp, d.ci, d.v, d.di);
			else new(at) BM(r);
		}
		else if(op == "mmove") { std::string t = ob[j].kind; kind(t.c_str()); On on; if(t == "sm") new(at) SM(std::move(as<SM>(j))); else new(at) CSM(std::move(as<CSM>(j))); }
		else if(op == "mconst") { kind("csm"); On on; new(at) CSM(move_to_const(std::move(as<SM>(j)))); }
		else if(op == "mshare") { kind("csm"); On on; new(at) CSM(share_with_const(as<SM>(j), bs)); }
		else if(op == "bshare") { kind("csm"); On on; new(at) CSM(share_with_const(as<BM>(j).getRawSRMatrix(), bs)); }
		else if(op == "bsr") { kind("bm"); On on; new(at) BM(std::move(as<SM>(j))); }
		else if(op == "bcopy") { kind("bm"); On on; new(at) BM(as<BM>(j)); }
		else if(op == "view") { kind("view"); On on; new(at) V(std::move(as<CSM>(j))); }
		else if(op == "low") { kind("csm"); On on; new(at) CSM(getLowerTriangularView<double,int>(std::move(as<CSM>(j)))); }
		else if(op == "upp") { kind("csm"); On on; new(at) CSM(getUpperTriangularView<double,int>(std::move(as<CSM>(j)))); }
		else if(op == "zero") {
			if(ob[k].kind == "sm") { nnew = nfr = 0; SM& m = as<SM>(k); for(int i = 0; i < m.vals.size(); i++) m.vals[i] = 0; }
			else { On on; as<BM>(k).setAllZero(); }
		}
		else if(op == "solver") {
			kind("solver"); const char *nm[] = { "", "jacobi", "sgs", "ilu0", "none", "gs", "cscbgs", "level_sgs", "async_level_ilu0", "sapilu0" };
			AsyncSolverSettings st; st.bs = 1; st.relax = false; st.thread_chunk_size = 4; st.scale = a[2] % 2; st.nbuildsweeps = 1; st.napplysweeps = 1;
			st.compute_precinfo = false; st.fact_inittype = INIT_F_ORIGINAL; st.apply_inittype = INIT_A_ZERO; st.blockstorage = RowMajor;
			st.prectype = fac.solverTypeFromString(nm[a[2]]);
			omp_set_num_threads(1);
			On on; ob[k].sol.reset(fac.create_preconditioner(std::move(as<CSM>(j)), st)); ob[k].sol->compute();
		}
		else if(op == "recompute") {
			AVec<double> r(8), z(8); for(int i = 0; i < 8; i++) r[i] = i;
			On on; ob[k].sol->compute(); ob[k].sol->apply(r.p, z.p);
		}
		else _exit(99);
		// number the new blocks: those the object refers to first, in order
		std::string S = std::to_string(step);
		auto addr = [&](const CSM& m) { order[0] = m.browptr.size() ? (uint64_t)&m.browptr[0] : 0; order[1] = m.bcolind.size() ? (uint64_t)&m.bcolind[0] : 0; order[2] = m.vals.size() ? (uint64_t)&m.vals[0] : 0;
			order[3] = m.diagind.size() ? (uint64_t)&m.diagind[0] : 0; order[4] = m.browendptr.size() ? (uint64_t)&m.browendptr[0] : 0; };
		std::string kd = op == "data" || op == "ualloc" || op == "ufree" || op == "dfree" ? "" : ob[k].kind;
		if(kd == "sm" || kd == "csm" || kd == "bm" || kd == "view")
			addr(*(const CSM*)(kd == "sm" ? (const void*)&as<SM>(k) : kd == "csm" ? (const void*)&as<CSM>(k) : kd == "bm" ? (const void*)&as<BM>(k).getRawSRMatrix() : (const void*)&as<V>(k).getSRStorage()));
		std::vector<int> freed;
		for(int i = 0; i < nfr; i++) { int b = find(fr[i], true); freed.push_back(b + 1); if(b >= 0) blk[b].live = false; }
		for(int q = 0; q < 5; q++) for(int i = 0; i < nnew; i++) if(na[i] && na[i] == order[q]) { blk.push_back(Blk{na[i], nn[i], true}); na[i] = 0; }
		for(int i = 0; i < nnew; i++) if(na[i]) blk.push_back(Blk{na[i], nn[i], true});
		o.i(("new" + S).c_str(), nnew); o.iv(("free" + S).c_str(), freed);
		for(int q = 1; q < 6; q++) if(!ob[q].kind.empty()) {
			std::string suf = std::to_string(q) + "_" + S; const std::string& t = ob[q].kind;
			o.s(("k" + suf).c_str(), t);
			if(t == "arr") showarr(o, suf, 1, as<ArrayView<int>>(q), true); else if(t == "carr") showarr(o, suf, 1, as<ArrayView<const int>>(q), true);
			else if(t == "sm") showmat(o, suf, as<SM>(q)); else if(t == "csm") showmat(o, suf, as<CSM>(q));
			else if(t == "bm") showmat(o, suf, as<BM>(q).getRawSRMatrix()); else if(t == "view") showmat(o, suf, as<V>(q).getSRStorage());
		}
	}
}
static void one(In& in, Out& o) {
	// whatever standard output and the OpenMP runtime allocate on their first use
	std::cout << "warm up" << std::endl; printf("warm up\n"); fflush(stdout); omp_set_num_threads(1);
	{ double w[8]; 
#pragma omp parallel for
	for(int i = 0; i < 8; i++) w[i] = i;
	if(w[1] > 2) std::cout << w[0]; }
	blk.clear(); for(auto& x : ob) x.kind.clear();
	int bs = in.i();
	if(bs == 1) session<1>(in, o); else if(bs == 3) session<3>(in, o); else if(bs == 7) session<7>(in, o); else _exit(99);
}
int main(int argc, char **argv) { __sanitizer_install_malloc_and_free_hooks(mhook, fhook); return run(argc, argv, one); }

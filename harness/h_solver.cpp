/* Sessions with solver objects: creation through the factory (or the class), value changes, computes, applications,
 * relaxations, destruction. In the shim flavor one operation of a session may be logged: the updates of its result and
 * of the object's internal vectors.
 * input: sched multithreaded(all ops run under the schedule) rowmajor own matrix ops...
 * both x y: two operations (cmp or app) on different objects, issued at once by two threads of the caller.
 *   new k name bs relax chunk scale nbuild napply finit ainit info   val values   cmp k   app k r z0   rel k b x0 rtol atol dtol ctol maxits   del k   log   logf (log the factors) */
#include "vthreads.hpp"
#include "vevents.hpp"
#include "solverfactory.hpp"
#include <memory>
#include <functional>
extern "C" void GOMP_parallel(void (*)(void*), void*, unsigned, unsigned);
extern "C" int omp_get_thread_num();
struct TeamBody { std::function<void(int)> *f; int q; };
static void team_one(void *p) { TeamBody *t = (TeamBody*)p; (*t->f)(t->q); }
static void team_body(void *p) { TeamBody t{(std::function<void(int)>*)p, omp_get_thread_num()}; GOMP_parallel(team_one, &t, 1, 0); }
/* independent threads of the caller of the library: each is the master of a team of its own */
static void team(int n, std::function<void(int)>& f) { GOMP_parallel(team_body, &f, n, 0); }
using namespace blasted; using namespace vh;

static const int MAXOBJ = 4;
static int code_of(std::exception_ptr p) {
	try { std::rethrow_exception(p); }
	catch(const std::invalid_argument&) { return 2; }
	catch(const std::runtime_error&) { return 1; }
	catch(const std::bad_cast&) { return 4; }
	catch(...) { return 3; }
}
struct Guard {     // a vector between guard zones
	std::vector<double> v0; AVec<double> a; int n;
	Guard(const std::vector<double>& v) : v0(v), a((int)v.size()), n((int)v.size()) { for(int i = 0; i < n; i++) a[i] = v[i]; }
	bool same() const { return memcmp(a.p, v0.data(), n*sizeof(double)) == 0; }
};
static double dummy[8];

static void one(In& in, Out& o) {
	Sched sc; sc.read(in); bool mt = in.i(); bool rm = in.i(); bool own = in.i();
	Sched s1 = sc; s1.nthreads = 1; s1.policy = 0; s1.script.clear();
	Mat m; m.read(in); m.build(rm);
	int nnz = m.rp[m.n], N = m.n*m.bs;
	std::unique_ptr<SRPreconditioner<double,int>> obj[MAXOBJ];
	SRFactory<double,int> fac;
	bool logn = false, logf = false; int step = 0; bool winfo[MAXOBJ] = {0};
	std::vector<double> curvals = m.lv;
	std::string key;
	auto K = [&](const char *k) { key = std::string(k) + std::to_string(step); return key.c_str(); };
	auto S = [&](bool l) { (mt || l ? sc : s1).set(); };
	while(in.more()) {
		std::string op = in.s();
		if(op == "both") {
			struct Part { bool app; int k; std::unique_ptr<Guard> r, z; int e; } pt[2];
			for(auto& p : pt) { p.e = 0; p.app = in.s() == "app"; p.k = in.i(); if(p.app) { p.r.reset(new Guard(in.dv())); p.z.reset(new Guard(in.dv())); } }
			Sched s2 = sc; s2.nthreads = 2; s2.set();
			std::function<void(int)> part = [&](int q) {
				Part& p = pt[q];
				try { if(p.app) obj[p.k]->apply(p.r->a.p, p.z->a.p); else obj[p.k]->compute(); } catch(...) { p.e = code_of(std::current_exception()); }
			};
			team(2, part);
			for(auto& p : pt) {
				step++;
				if(p.app) { o.dv(K("z"), p.z->a.p, N); o.i(K("rsame"), p.r->same()); }
				o.i(K("exc"), p.e); o.i(K("intact"), m.intact());
			}
			continue;
		}
		if(op == "log") { logn = true; continue; }
		if(op == "logf") { logf = true; continue; }
		step++;
		bool lg = logn, lf = logf; logn = logf = false;
		int e = 0;
		if(op == "new") {
			int k = in.i(); std::string name = in.s();
			AsyncSolverSettings st; st.bs = in.i(); st.relax = in.i(); st.thread_chunk_size = in.i(); st.scale = in.i(); st.nbuildsweeps = in.i(); st.napplysweeps = in.i();
			int fi = in.i(), ai = in.i(); st.compute_precinfo = winfo[k] = in.i();
			st.fact_inittype = fi == 0 ? INIT_F_ZERO : fi == 1 ? INIT_F_ORIGINAL : fi == 2 ? INIT_F_SGS : INIT_F_NONE;
			st.apply_inittype = ai == 0 ? INIT_A_ZERO : ai == 1 ? INIT_A_JACOBI : INIT_A_NONE;
			st.blockstorage = rm ? RowMajor : ColMajor;
			S(false);
#ifdef VSHIM
			shim::watch(dummy, 8); shim::start(true);
#endif
			try {
				st.prectype = name == "external" ? BLASTED_EXTERNAL : fac.solverTypeFromString(name);
				SRMatrixStorage<const double,const int> view(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nnz, nnz, m.bs);
				obj[k].reset(fac.create_preconditioner(std::move(view), st));
				// relaxations need their parameters set before the first use
				SolveParams<double> sp; sp.rtol = 0; sp.atol = 0; sp.dtol = 1e300; sp.ctol = false; sp.maxits = 1;
				obj[k]->setApplyParams(sp);
			} catch(...) { e = code_of(std::current_exception()); }
#ifdef VSHIM
			shim::stop();
#endif
			if(!e) { o.i(K("dim"), obj[k]->dim()); o.i(K("ra"), obj[k]->relaxationAvailable()); }
		}
		else if(op == "val") { curvals = in.dv(); m.setvals(curvals); }
		else if(op == "del") { obj[in.i()].reset(); }
		else if(op == "cmp") {
			int k = in.i();
			S(lg || lf);
			PrecInfo pi;
#ifdef VSHIM
			std::vector<std::unique_ptr<CellArray>> ca; Updates up; int bb = m.bs*m.bs;
			if(lf) {          // the arrays of the object that can hold factors
				int id = 0;
				for(auto& b : shim::blocks) if(!b.freed && b.size == sizeof(double)*nnz*bb && id < 12 && b.addr != (uint64_t)m.val.p) {
					bool dup = false; for(auto& c : ca) if((uint64_t)c->base == b.addr) dup = true;
					if(dup) continue;
					ca.emplace_back(new CellArray(id, (const double*)b.addr, nnz, bb, !rm && m.bs > 1, m.bs)); up.add(*ca.back());
					o.dv((std::string(K("f")) + "_" + std::to_string(id)).c_str(), m.logical((const double*)b.addr)); id++;
				}
				if(ca.empty()) { shim::watch(dummy, 8); shim::start(true); } else up.start();
			}
			else if(!mt) { shim::watch(dummy, 8); shim::start(true); }
#endif
			try { pi = obj[k]->compute(); } catch(...) { e = code_of(std::current_exception()); }
#ifdef VSHIM
			if(lf || !mt) shim::stop();
			if(lf) {
				up.report(o);
				for(auto& c : ca) o.dv((std::string(K("g")) + "_" + std::to_string(c->id)).c_str(), m.logical(c->base));
			}
#endif
			if(winfo[k] && !e) o.dv(K("info"), pi.f_info.data(), 6);
		}
		else if(op == "app" || op == "rel") {
			int k = in.i(); Guard r(in.dv()), z(in.dv());
			if(op == "rel") {
				SolveParams<double> sp; sp.rtol = in.d(); sp.atol = in.d(); sp.dtol = in.d(); sp.ctol = in.i(); sp.maxits = in.i();
				obj[k]->setApplyParams(sp);
			}
			S(lg);
#ifdef VSHIM
			std::vector<std::unique_ptr<CellArray>> ca; Updates up;
			if(lg) {
				ca.emplace_back(new CellArray(0, z.a.p, m.n, m.bs)); up.add(*ca[0]);
				int id = 1;
				for(auto& b : shim::blocks) if(!b.freed && b.size == sizeof(double)*N && id < 12) {
					bool dup = false; for(auto& c : ca) if((uint64_t)c->base == b.addr) dup = true;
					if(dup || b.addr == (uint64_t)r.a.p) continue;
					ca.emplace_back(new CellArray(id++, (const double*)b.addr, m.n, m.bs)); up.add(*ca.back());
				}
				up.start();
			}
#endif
			try { if(op == "app") obj[k]->apply(r.a.p, z.a.p); else obj[k]->apply_relax(r.a.p, z.a.p); }
			catch(...) { e = code_of(std::current_exception()); }
#ifdef VSHIM
			if(lg) {
				shim::stop(); up.report(o);
			}
#endif
			o.dv(K("z"), z.a.p, N);
			o.i(K("rsame"), r.same());
		}
		o.i(K("exc"), e);
		o.i(K("intact"), m.intact());
	}
	for(auto& x : obj) x.reset();
	// the viewed matrix is still there
	o.i("intact", m.intact());
}
int main(int argc, char **argv) { return run(argc, argv, one); }

/* Histories of a solver object that re-orders its matrix before factorizing it.
 * input: sched(computing) policy(applying) mat buildsweeps applysweeps chunk finit ainit threadedfactor threadedapply, then
 *   vals v | compute hasrow r hascol c (the ordering object finds this ordering) | apply b z0 | relax */
#include "vthreads.hpp"
#include "srmatrixdefs.hpp"
#include "reorderingscaling.hpp"
#include "solverops_ilu0.hpp"
#include <memory>
using namespace blasted; using namespace vh;
struct RS : public ReorderingScaling<double,int,1> {
	int hr = 0, hc = 0, calls = 0; AVec<int> r, c; const double *seen = nullptr;
	void compute(const CRawBSRMatrix<double,int>& m) override { calls++; seen = m.vals; setOrdering(hr ? r.p : nullptr, hc ? c.p : nullptr, m.nbrows); }
};
static void one(In& in, Out& o) {
	Sched sc, sa; sc.read(in); sa = sc; sa.policy = in.i(); Mat m; m.read(in); m.build(true);
	int nb = in.i(), na = in.i(), chunk = in.i(), fi = in.i(), ai = in.i(), tf = in.i(), ta = in.i();
	static const FactInit F[] = {INIT_F_ZERO, INIT_F_ORIGINAL, INIT_F_SGS};
	static const ApplyInit A[] = {INIT_A_ZERO, INIT_A_JACOBI};
	RS rs; int nz = m.rp[m.n], step = 0;
	SRMatrixStorage<const double,const int> s(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nz, nz, 1);
	std::unique_ptr<ReorderedAsyncILU0_SRPreconditioner<double,int>> p(new ReorderedAsyncILU0_SRPreconditioner<double,int>(std::move(s), &rs, nb, na, chunk, F[fi], A[ai], tf, ta));
	std::string key; auto K = [&](const char *k) { key = std::string(k) + std::to_string(step); return key.c_str(); };
	while(in.more()) {
		std::string op = in.s(); step++;
		(op == "apply" ? sa : sc).set();
		if(op == "vals") m.setvals(in.dv());
		else if(op == "compute") { rs.hr = in.i(); rs.r = AVec<int>(in.iv()); rs.hc = in.i(); rs.c = AVec<int>(in.iv()); int k = rs.calls; p->compute(); o.i(K("calls"), rs.calls - k); }
		else if(op == "apply") { AVec<double> b(in.dv()), z(in.dv()); auto was = b.vec(); p->apply(b.p, z.p); o.dv(K("z"), z.p, z.n); o.i(K("same"), was == b.vec()); }
		else if(op == "relax") { AVec<double> b(m.n), z(m.n); int t = 0; try { p->apply_relax(b.p, z.p); } catch(const std::exception&) { t = 1; } o.i(K("threw"), t); }
		else _exit(99);
		o.i(K("intact"), m.intact());
	}
	p.reset();
	o.i("end", 1);
}
int main(int argc, char **argv) { return run(argc, argv, one); }

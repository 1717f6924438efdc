/* Sessions with the PETSc front end, on PETSc itself: solver trees, options, and histories of set-ups, value and pattern
 * changes, applications, relaxations, whole solves and clean-up.
 * input: factory(default|user) ntrees (mtype bs? matrix tree)* ops...
 *   tree: shell | other | bjacobi nblocks tree | asm nblocks tree | ksp tree | mg L (matrix tree){L-1, coarsest first} tree | gamg tree(levels) tree(coarse)
 *   ops: opt key value | clr key | stack t | setup k | val k v | mat k matrix | app k r z0 | rel k b x0 its guesszero | solve t b | times v.. | kspdel t | listdel */
#include <petscksp.h>
#include <../src/mat/impls/aij/mpi/mpiaij.h>
#include <../src/mat/impls/baij/mpi/mpibaij.h>
#include "vh.hpp"
#include "solverfactory.hpp"
#include "blasted_petsc.h"
#include "blasted_petsc_ext.hpp"
#include "preconditioner_diagnostics.hpp"
#include <sys/time.h>
#include <ctime>
#include <map>
#include <memory>
using namespace blasted; using vh::In; using vh::Out; using vh::run;
typedef SRPreconditioner<double,int> Prec;

// ---- the user's factory: makes observed objects
struct Event { int what, id; };                       // 1 make 2 compute 3 apply 4 relax 5 delete 6 factory deleted
static std::vector<Event> events;
static int nobj, serial;
static std::map<const void*,int> live;
static void pause_a_little() {
	timeval a, b; gettimeofday(&a, nullptr); clock_t c = clock();
	do gettimeofday(&b, nullptr); while(clock() < c + 3 || (b.tv_sec - a.tv_sec)*1000000 + (b.tv_usec - a.tv_usec) < 3);
}
struct Observed : public Prec {
	std::unique_ptr<Prec> p; int id;
	static SRMatrixStorage<const double,const int> nothing() {
		static const int z[2] = {0, 1}; static const double a[1] = {1.0};
		return SRMatrixStorage<const double,const int>(z, z, a, z, z + 1, 1, 1, 1, 1);
	}
	Observed(Prec *q) : Prec(nothing()), p(q), id(++nobj) { live[static_cast<Prec*>(this)] = id; events.push_back({1, id}); }
	~Observed() { live.erase(static_cast<Prec*>(this)); events.push_back({5, id}); }
	int dim() const override { return p->dim(); }
	bool relaxationAvailable() const override { return p->relaxationAvailable(); }
	PrecInfo compute() override { events.push_back({2, id}); pause_a_little(); PrecInfo r = p->compute(); r.f_info[0] = ++serial; return r; }
	void apply(const double *x, double *__restrict y) const override { events.push_back({3, id}); pause_a_little(); p->apply(x, y); }
	void apply_relax(const double *x, double *__restrict y) const override {
		events.push_back({4, id}); pause_a_little(); p->setApplyParams(solveparams); p->apply_relax(x, y);
	}
};
struct Leaf { KSP ksp; PC pc; int tree; bool alive; };
static std::vector<Leaf> leaves;
static Out *outp;
static void view_of(Mat A, const int *&i, const int *&j, const int *&d, const double *&a) {
	PetscBool blocked; PetscObjectTypeCompare((PetscObject)A, MATSEQBAIJ, &blocked);
	if(blocked) { Mat_SeqBAIJ *m = (Mat_SeqBAIJ*)A->data; i = m->i; j = m->j; d = m->diag; a = m->a; }
	else { Mat_SeqAIJ *m = (Mat_SeqAIJ*)A->data; i = m->i; j = m->j; d = m->diag; a = m->a; }
}
struct UserFactory : public FactoryBase<double,int> {
	SRFactory<double,int> f;
	~UserFactory() { events.push_back({6, 0}); }
	Prec *create_preconditioner(SRMatrixStorage<const double,const int>&& mat, const SolverSettings& st) const override {
		const AsyncSolverSettings& s = dynamic_cast<const AsyncSolverSettings&>(st);
		int of = 0;            // whose matrix is it?
		for(size_t k = 0; k < leaves.size(); k++) if(leaves[k].alive) {
			Mat A; PCGetOperators(leaves[k].pc, nullptr, &A); const int *i, *j, *d; const double *a; view_of(A, i, j, d, a);
			PetscInt n, m; MatGetLocalSize(A, &n, &m);
			int nb = s.bs > 0 ? n/s.bs : -1;
			if(&mat.browptr[0] == i && &mat.bcolind[0] == j && &mat.vals[0] == a && &mat.diagind[0] == d && &mat.browendptr[0] == i + 1
			   && mat.nbrows == nb && mat.nnzb == i[nb] && mat.nbstored == i[nb]) of = (int)k + 1;
		}
		Prec *q;
		if(s.prectype == BLASTED_EXTERNAL) q = new NoPreconditioner<double,int>(std::move(mat), s.bs);
		else q = f.create_preconditioner(std::move(mat), s);
		Observed *p = new Observed(q);
		static const std::map<int,int> pt = {{BLASTED_JACOBI,1},{BLASTED_GS,2},{BLASTED_SGS,3},{BLASTED_ILU0,4},{BLASTED_SEQILU0,5},{BLASTED_SFILU0,6},{BLASTED_SAPILU0,7},{BLASTED_CSC_BGS,8},
			{BLASTED_LEVEL_SGS,9},{BLASTED_ASYNC_LEVEL_ILU0,10},{BLASTED_NO_PREC,11},{BLASTED_EXTERNAL,12}};
		static const std::map<int,int> fi = {{INIT_F_ZERO,1},{INIT_F_ORIGINAL,2},{INIT_F_SGS,3},{INIT_F_NONE,4}}, ai = {{INIT_A_ZERO,1},{INIT_A_JACOBI,2},{INIT_A_NONE,3}};
		auto look = [](const std::map<int,int>& m, int x) { auto it = m.find(x); return it == m.end() ? 0 : it->second; };
		int v[] = {look(pt, s.prectype), s.bs, s.blockstorage == ColMajor ? 1 : 0, s.relax ? 1 : 0, s.thread_chunk_size, *(const unsigned char*)&s.scale, s.nbuildsweeps, s.napplysweeps,
		           look(fi, s.fact_inittype), look(ai, s.apply_inittype), *(const unsigned char*)&s.compute_precinfo, of};
		outp->iv(("made" + std::to_string(p->id)).c_str(), v, 12);
		return p;
	}
	BlastedSolverType solverTypeFromString(const std::string s) const override { return s == "of_the_user" ? BLASTED_EXTERNAL : f.solverTypeFromString(s); }
};

// ---- matrices and trees
static Mat make(const std::string& type, const vh::Mat& m) {
	Mat A; int N = m.n*m.bs;
	MatCreate(PETSC_COMM_SELF, &A); MatSetSizes(A, N, N, N, N);
	if(type == "baij") {
		MatSetType(A, MATSEQBAIJ); MatSeqBAIJSetPreallocationCSR(A, m.bs, m.rp.data(), m.ci.data(), m.lv.data());
	} else {            // scalar storage; "aij4" has a block size set all the same
		MatSetType(A, type == "mpiaij" ? MATMPIAIJ : MATSEQAIJ);
		if(type == "aij4") MatSetBlockSize(A, 4);
		if(type == "mpiaij") MatMPIAIJSetPreallocationCSR(A, m.rp.data(), m.ci.data(), m.lv.data());
		else MatSeqAIJSetPreallocationCSR(A, m.rp.data(), m.ci.data(), m.lv.data());
	}
	return A;
}
static std::vector<Mat> mats;         // released at the end of the case
static std::string readmat(In& in, vh::Mat& m) { std::string t = in.s(); m.read(in); return t; }
static void configure(KSP ksp, In& in, int tree, Mat A);
static std::string skip(In& in) {     // the text of one tree
	std::string k = in.s(), s = k;
	auto matrix = [&]() { vh::Mat m; size_t p = in.p; readmat(in, m); for(; p < in.p; p++) s += " " + in.tok[p]; };
	if(k == "bjacobi" || k == "asm") { s += " " + in.s(); s += " " + skip(in); }
	else if(k == "ksp") s += " " + skip(in);
	else if(k == "gamg") { s += " " + skip(in); s += " " + skip(in); }
	else if(k == "mg") { std::string L = in.s(); s += " " + L; for(int l = 0; l < atoi(L.c_str()); l++) { if(l + 1 < atoi(L.c_str())) matrix(); s += " " + skip(in); } }
	return s;
}
static void configure(KSP ksp, In& in, int tree, Mat A) {
	std::string k = in.s(); PC pc;
	KSPGetPC(ksp, &pc);
	if(k == "shell") { PCSetType(pc, PCSHELL); leaves.push_back({ksp, pc, tree, true}); PetscObjectReference((PetscObject)pc); }
	else if(k == "other") PCSetType(pc, PCJACOBI);
	else if(k == "bjacobi" || k == "asm") {
		int nb = in.i(); KSP *sub; PetscInt n, f;
		PCSetType(pc, k == "asm" ? PCASM : PCBJACOBI);
		if(nb > 1) { if(k == "asm") PCASMSetTotalSubdomains(pc, nb, nullptr, nullptr); else PCBJacobiSetTotalBlocks(pc, nb, nullptr); }
		KSPSetUp(ksp); PCSetUp(pc);
		if(k == "asm") PCASMGetSubKSP(pc, &n, &f, &sub); else PCBJacobiGetSubKSP(pc, &n, &f, &sub);
		std::string t = skip(in);
		for(int q = 0; q < n; q++) { In one(t); configure(sub[q], one, tree, nullptr); }
	}
	else if(k == "ksp") { PCSetType(pc, PCKSP); KSP sub; KSPSetUp(ksp); PCSetUp(pc); PCKSPGetKSP(pc, &sub); configure(sub, in, tree, nullptr); }
	else if(k == "mg") {
		int L = in.i(); if(!A) KSPGetOperators(ksp, nullptr, &A);
		PCSetType(pc, PCMG); PCMGSetLevels(pc, L, nullptr); PCMGSetGalerkin(pc, PC_MG_GALERKIN_NONE);
		Mat prev = nullptr;
		for(int l = 0; l < L; l++) {
			Mat B = A;
			if(l + 1 < L) { vh::Mat m; std::string t = readmat(in, m); B = make(t, m); mats.push_back(B); }
			KSP s; if(l == 0) PCMGGetCoarseSolve(pc, &s); else PCMGGetSmoother(pc, l, &s);
			KSPSetType(s, l == 0 ? KSPPREONLY : KSPRICHARDSON); KSPSetOperators(s, B, B);
			configure(s, in, tree, B);
			if(l > 0) {
				PetscInt n, c, x; MatGetSize(B, &n, &x); MatGetSize(prev, &c, &x);
				Mat P; MatCreateSeqAIJ(PETSC_COMM_SELF, n, c, 1, nullptr, &P);
				for(int q = 0; q < n; q++) MatSetValue(P, q, q*c/n, 1.0, INSERT_VALUES);
				MatAssemblyBegin(P, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(P, MAT_FINAL_ASSEMBLY);
				PCMGSetInterpolation(pc, l, P); mats.push_back(P);
			}
			prev = B;
		}
	}
	else if(k == "gamg") {
		PCSetType(pc, PCGAMG); PCGAMGSetCoarseEqLim(pc, 2); KSPSetUp(ksp); PCSetUp(pc); PCSetUp(pc);
		std::string tl = skip(in), tc = skip(in);
		PetscInt L; PCMGGetLevels(pc, &L);
		for(int l = 0; l < L; l++) { KSP s; In one(l ? tl : tc); if(l == 0) PCMGGetCoarseSolve(pc, &s); else { PCMGGetSmoother(pc, l, &s); KSPSetType(s, KSPRICHARDSON); } configure(s, one, tree, nullptr); }
	}
	else _exit(99);
}
static bool ready = false;
static void init() {
	if(ready) return;
	ready = true;
	static char a0[] = "h_petsc", a1[] = "-no_signal_handler"; static char *av[] = {a0, a1, nullptr}; char **v = av; int c = 2;
	vh::progress()->starting = 1;
	if(PetscInitialize(&c, &v, nullptr, nullptr)) _exit(97);
	vh::progress()->starting = 0;
	PetscPushErrorHandler(PetscReturnErrorHandler, nullptr);
	// the assumed layout
	int i[] = {0, 1, 3}, j[] = {0, 0, 1}; double a[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
	for(int b = 0; b < 2; b++) {
		Mat A; MatCreate(PETSC_COMM_SELF, &A); int N = b ? 4 : 2; MatSetSizes(A, N, N, N, N);
		if(b) { MatSetType(A, MATSEQBAIJ); MatSeqBAIJSetPreallocationCSR(A, 2, i, j, a); } else { MatSetType(A, MATSEQAIJ); MatSeqAIJSetPreallocationCSR(A, i, j, a); }
		PetscBool miss, done; PetscInt r, n; MatMissingDiagonal(A, &miss, &r);
		const PetscInt *ia, *ja; MatGetRowIJ(A, 0, PETSC_FALSE, PETSC_TRUE, &n, &ia, &ja, &done);
		PetscScalar *v; if(b) MatSeqBAIJGetArray(A, &v); else MatSeqAIJGetArray(A, &v);
		const int *vi, *vj, *vd; const double *va; view_of(A, vi, vj, vd, va);
		if(!done || vi != ia || vj != ja || va != v || !vd || vd[0] != 0 || vd[1] != 2 || (b && (va[1] != 3 || va[2] != 2))) _exit(99);
		MatDestroy(&A);
	}
}
template<class F> static int attempt(F f) {
	try { return f() ? 1 : 0; }
	catch(const std::exception&) { return 2; }
	catch(...) { return 3; }
}
/* Refusals may end the process: the call is tried in a process of its own first. 0: worked, 1 error code, 2, 3 exception, 6 the process was ended, else: crash */
template<class F> static int guarded(F f, bool always = false) {     // always: errors are let happen
	pid_t p = fork();
	if(p == 0) { alarm(15); int r = attempt(f); _exit(r); }
	int st; while(waitpid(p, &st, 0) < 0) {}
	int r = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st) == SIGABRT ? 6 : 100 + WTERMSIG(st);
	if(r != 0 && !(always && r <= 2)) return r;
	return attempt(f);
}
static void one(In& in, Out& o) {
	init();
	outp = &o;
	events.clear(); live.clear(); leaves.clear(); mats.clear(); nobj = serial = 0;
	PetscOptionsClear(nullptr);
	bool user = in.s() == "user";
	UserFactory *uf = user ? new UserFactory : nullptr;
	int nt = in.i();
	std::vector<KSP> ksp(nt);
	for(int t = 0; t < nt; t++) {
		vh::Mat m; std::string ty = readmat(in, m); Mat A = make(ty, m); mats.push_back(A);
		KSPCreate(PETSC_COMM_SELF, &ksp[t]); KSPSetOperators(ksp[t], A, A); KSPSetType(ksp[t], KSPRICHARDSON);
		configure(ksp[t], in, t, A);
	}
	// the leaves' matrices, as they are
	for(size_t k = 0; k < leaves.size(); k++) {
		Mat A; PCGetOperators(leaves[k].pc, nullptr, &A);
		if(!A) { KSPGetOperators(leaves[k].ksp, nullptr, &A); }
		PetscInt bs, n, x; PetscBool bl; PetscObjectTypeCompare((PetscObject)A, MATSEQBAIJ, &bl); MatGetBlockSize(A, &bs); if(!bl) bs = 1;
		MatGetLocalSize(A, &n, &x); MatType ty; MatGetType(A, &ty);
		std::string K = std::to_string(k + 1);
		o.s(("type" + K).c_str(), ty);
		PetscBool sa; PetscObjectTypeCompare((PetscObject)A, MATSEQAIJ, &sa);
		if(!bl && !sa) continue;
		PetscBool miss; PetscInt r; MatMissingDiagonal(A, &miss, &r);
		const int *i, *j, *d; const double *a; view_of(A, i, j, d, a); int nb = n/bs;
		o.i(("bs" + K).c_str(), bs); o.iv(("rp" + K).c_str(), i, nb + 1); o.iv(("ci" + K).c_str(), j, i[nb]);
		std::vector<double> v; for(int p = 0; p < i[nb]; p++) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) v.push_back(a[p*bs*bs + c*bs + r]);
		o.dv(("v" + K).c_str(), v);
	}
	o.i("leaves", leaves.size());
	Blasted_data_list list = newBlastedDataList(); bool listed = true;
	if(user) list.bfactory = uf;
	int step = 0; std::string key; auto K = [&](const char *k) { key = std::string(k) + std::to_string(step); return key.c_str(); };
	std::vector<std::vector<double>> timers(leaves.size(), std::vector<double>(4, 0.0));
	auto node = [&](int k) { void *c = nullptr; if(leaves[k].alive) PCShellGetContext(leaves[k].pc, &c); return (Blasted_data*)c; };
	while(in.more()) {
		std::string op = in.s(); step++; int code = 0;
		if(op == "opt") { std::string k = in.s(), v = in.s(); PetscOptionsSetValue(nullptr, k.c_str(), v == "=" ? nullptr : v.c_str() + 1); }
		else if(op == "clr") PetscOptionsClearValue(nullptr, in.s().c_str());
		else if(op == "stack") {
			int t = in.i() - 1;
			auto f = [&]() { return user ? blasted::setup_blasted_stack_ext(ksp[t], *uf, &list) : setup_blasted_stack(ksp[t], &list); };
			code = guarded(f);
		}
		else if(op == "setup") { int k = in.i() - 1; code = guarded([&]() { return (int)PCSetUp(leaves[k].pc); }, true); }
		else if(op == "val") {
			int k = in.i() - 1; std::vector<double> v = in.dv(); Mat A; KSPGetOperators(leaves[k].ksp, nullptr, &A);
			const int *i, *j, *d; const double *a; view_of(A, i, j, d, a);
			PetscInt bs; PetscBool bl; PetscObjectTypeCompare((PetscObject)A, MATSEQBAIJ, &bl); MatGetBlockSize(A, &bs); if(!bl) bs = 1;
			for(size_t p = 0; p < v.size()/(bs*bs); p++) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) ((double*)a)[p*bs*bs + c*bs + r] = v[p*bs*bs + r*bs + c];
			PetscObjectStateIncrease((PetscObject)A);
		}
		else if(op == "grow") {            // new entries in the same matrix object
			int k = in.i() - 1; vh::Mat m; readmat(in, m); Mat A; KSPGetOperators(leaves[k].ksp, nullptr, &A);
			MatSetOption(A, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); MatSetOption(A, MAT_NEW_NONZERO_LOCATION_ERR, PETSC_FALSE); MatSetOption(A, MAT_NEW_NONZERO_LOCATIONS, PETSC_TRUE);
			for(int r = 0; r < m.n; r++) for(int p = m.rp[r]; p < m.rp[r+1]; p++) {
				const double *v = m.lv.data() + p*m.bs*m.bs;
				for(int a = 0; a < m.bs; a++) for(int b = 0; b < m.bs; b++) if(MatSetValue(A, r*m.bs + a, m.ci[p]*m.bs + b, v[a*m.bs + b], INSERT_VALUES)) _exit(99);
			}
			MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
			PetscBool miss; PetscInt r; MatMissingDiagonal(A, &miss, &r);
		}
		else if(op == "mat") {
			int k = in.i() - 1; vh::Mat m; std::string ty = readmat(in, m); Mat A = make(ty, m);
			KSPSetOperators(leaves[k].ksp, A, A); MatDestroy(&A);          // the solver holds the only reference, and has released that to the matrix before
		}
		else if(op == "app" || op == "rel") {
			int k = in.i() - 1; if(k >= (int)leaves.size()) _exit(99); std::vector<double> r = in.dv(), z = in.dv(); int its = 0, gz = 0; if(op == "rel") { its = in.i(); gz = in.i(); }
			int N = (int)r.size(); Vec R, Z, W; VecCreateSeq(PETSC_COMM_SELF, N, &R); VecDuplicate(R, &Z); VecDuplicate(R, &W);
			auto fill = [&](Vec V, const std::vector<double>& v) { PetscScalar *a; VecGetArray(V, &a); for(int q = 0; q < N; q++) a[q] = v[q]; VecRestoreArray(V, &a); };
			fill(R, r); fill(Z, z);
			PetscInt outits = -1; PCRichardsonConvergedReason why = (PCRichardsonConvergedReason)-100;
			PetscObjectState before, after; PetscObjectStateGet((PetscObject)R, &before);
			if(op == "app") code = guarded([&]() { return (int)PCApply(leaves[k].pc, R, Z); });
			else code = guarded([&]() { return (int)PCApplyRichardson(leaves[k].pc, R, Z, W, 0.9, 1e10, 1e-3, its, gz ? PETSC_TRUE : PETSC_FALSE, &outits, &why); });
			PetscObjectStateGet((PetscObject)R, &after);
			const PetscScalar *a; VecGetArrayRead(Z, &a); o.dv(K("z"), a, N); VecRestoreArrayRead(Z, &a);
			VecGetArrayRead(R, &a); o.i(K("rsame"), memcmp(a, r.data(), N*sizeof(double)) == 0 && before == after); VecRestoreArrayRead(R, &a);
			o.i(K("outits"), outits); o.i(K("why"), why == PCRICHARDSON_CONVERGED_ITS);
			VecDestroy(&R); VecDestroy(&Z); VecDestroy(&W);
		}
		else if(op == "solve") {
			int t = in.i() - 1; std::vector<double> b = in.dv(); Vec B, X; VecCreateSeq(PETSC_COMM_SELF, b.size(), &B); VecDuplicate(B, &X);
			PetscScalar *a; VecGetArray(B, &a); for(size_t q = 0; q < b.size(); q++) a[q] = b[q]; VecRestoreArray(B, &a);
			KSPSetTolerances(ksp[t], 1e-30, 1e-300, 1e300, 2);
			code = guarded([&]() { return (int)KSPSolve(ksp[t], B, X); });
			const PetscScalar *xa; VecGetArrayRead(X, &xa); o.dv(K("z"), xa, (int)b.size()); VecRestoreArrayRead(X, &xa);
			VecDestroy(&B); VecDestroy(&X);
		}
		else if(op == "times") {
			std::vector<double> v = in.dv(); std::vector<std::vector<double>> was; size_t q = 0;
			for(Blasted_data *p = list.ctxlist; p; p = p->next) {
				was.push_back({p->factorwalltime, p->applywalltime, p->factorcputime, p->applycputime});
				p->factorwalltime = v[q++ % v.size()]; p->applywalltime = v[q++ % v.size()]; p->factorcputime = v[q++ % v.size()]; p->applycputime = v[q++ % v.size()];
			}
			computeTotalTimes(&list);
			double s[] = {list.factorwalltime, list.applywalltime, list.factorcputime, list.applycputime}; o.iv(K("total"), s, 4);
			q = 0;
			for(Blasted_data *p = list.ctxlist; p; p = p->next, q++) { p->factorwalltime = was[q][0]; p->applywalltime = was[q][1]; p->factorcputime = was[q][2]; p->applycputime = was[q][3]; }
		}
		else if(op == "kspdel") {
			int t = in.i() - 1;
			for(auto& l : leaves) if(l.tree == t && l.alive) { l.alive = false; PC p = l.pc; PCDestroy(&p); }      // our own reference
			code = attempt([&]() { return (int)KSPDestroy(&ksp[t]); });
		}
		else if(op == "listdel") { code = attempt([&]() { destroyBlastedDataList(&list); return 0; }); listed = false; }
		else _exit(99);
		// what is there now
		o.i(K("code"), code);
		std::vector<int> ev; for(auto& e : events) { ev.push_back(e.what); ev.push_back(e.id); } o.iv(K("ev"), ev); events.clear();
		int len = 0; if(listed) for(Blasted_data *p = list.ctxlist; p && len < 1000; p = p->next) len++;
		o.i(K("size"), listed ? list.size : -1); o.i(K("chain"), len);
		std::vector<int> pos, obj, rich, inf, tm, bs; std::string names;
		for(size_t k = 0; k < leaves.size(); k++) {
			if(!leaves[k].alive) { pos.push_back(-1); obj.push_back(-1); rich.push_back(-1); inf.push_back(-1); tm.push_back(0); bs.push_back(-1); names += " -"; continue; }
			Blasted_data *d = node(k); int at = 0, q = 0;
			if(listed) for(Blasted_data *p = list.ctxlist; p && q < 1000; p = p->next) { q++; if(p == d) at = q; }
			pos.push_back(at);
			obj.push_back(!d || !d->bprec ? 0 : !user ? 1 : live.count(d->bprec) ? live[d->bprec] : -1);
			bs.push_back(d ? d->bs : 0);
			PetscBool ex; PCApplyRichardsonExists(leaves[k].pc, &ex); rich.push_back(ex ? 1 : 0);
			const char *nm = nullptr; PCShellGetName(leaves[k].pc, &nm); names += std::string(" ") + (nm ? nm : "-");
			int ni = -1;
			if(d && d->infolist) {
				auto& L = static_cast<PrecInfoList*>(d->infolist)->infolist; ni = (int)L.size(); std::vector<int> s; for(auto& x : L) s.push_back(user ? (int)x.f_info[0] : 0);
				o.iv((std::string(K("inf")) + "_" + std::to_string(k + 1)).c_str(), s);
			}
			inf.push_back(ni);
			int f = 0;
			if(d) {
				double v[] = {d->factorwalltime, d->factorcputime, d->applywalltime, d->applycputime};
				for(int q = 0; q < 4; q++) { f = f*3 + (v[q] > timers[k][q] ? 1 : v[q] < timers[k][q] ? 2 : 0); timers[k][q] = v[q]; }
			}
			tm.push_back(f);
		}
		o.iv(K("pos"), pos); o.iv(K("obj"), obj); o.iv(K("rich"), rich); o.iv(K("ninf"), inf); o.iv(K("tm"), tm); o.iv(K("nbs"), bs); o.s(K("names"), names);
	}
	for(auto& l : leaves) if(l.alive) PCDestroy(&l.pc);
	for(auto& k : ksp) if(k) KSPDestroy(&k);
	for(auto& m : mats) MatDestroy(&m);
	if(listed) destroyBlastedDataList(&list);
	delete uf;
	o.i("left", live.size());
}
int main(int argc, char **argv) { return run(argc, argv, one, 60); }

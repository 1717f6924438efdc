/* Sessions of a PETSc program: options of the data base asked for, and vectors and matrices read from files.
 * input: ops...
 *   set name hexvalue|- | clr name | has name | int name | real name default | bool name | str name len | ints name maxlen | oints name maxlen | err code
 *   vec hexfile withmatrix nrows ncols | mat hexfile viasr */
#include "vh.hpp"
#include "utils/cmdoptions.hpp"
#include "utils/blasted_petsc_io.h"
#include <petscmat.h>
using namespace blasted; using vh::In; using vh::Out; using vh::run; using vh::writeall;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static std::string unhex(const std::string& hex) {
	std::string s; for(size_t i = 0; i + 1 < hex.size(); i += 2) s += (char)strtol(hex.substr(i, 2).c_str(), nullptr, 16);
	return s;
}
struct File {
	std::string name;
	explicit File(const std::string& hex) {
		const char *d = getenv("TMPDIR"); std::string p = std::string(d ? d : "/tmp") + "/vpetscXXXXXX"; std::vector<char> t(p.c_str(), p.c_str() + p.size() + 1);
		int fd = mkstemp(t.data()); if(fd < 0) _exit(97);
		writeall(fd, unhex(hex)); close(fd); name = t.data();
	}
	~File() { unlink(name.c_str()); }
};
static bool ready = false;
static void readvec(const char *f, int withm, int n, int nc, std::vector<double>& a, int& rc) {
	Mat A = nullptr; Vec v = nullptr;
	if(withm) { MatCreateSeqAIJ(PETSC_COMM_SELF, n, nc, 1, nullptr, &A); MatSetUp(A); MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY); MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY); }
	rc = readVecFromFile(f, PETSC_COMM_SELF, A, &v);
	if(!rc) { PetscInt k; VecGetSize(v, &k); const PetscScalar *p; VecGetArrayRead(v, &p); a.assign(p, p + k); VecRestoreArrayRead(v, &p); }
	VecDestroy(&v); MatDestroy(&A);
}
struct Got { int rc = 0, size[2] = {0, 0}, bs = 0, blocked = 0; std::vector<int> r, c; std::vector<double> v; };
static void readmat(const char *f, int viasr, Got& g) {
	Mat A = nullptr;
	g.rc = viasr ? readMatFromCOOFile_viaSR(f, PETSC_COMM_SELF, &A) : readMatFromCOOFile(f, PETSC_COMM_SELF, &A);
	if(!g.rc) {
		MatGetSize(A, &g.size[0], &g.size[1]); MatGetBlockSize(A, &g.bs);
		PetscBool b; PetscObjectTypeCompareAny((PetscObject)A, &b, MATSEQBAIJ, MATMPIBAIJ, ""); g.blocked = b;
		for(int i = 0; i < g.size[0]; i++) {
			PetscInt n; const PetscInt *c; const PetscScalar *v; MatGetRow(A, i, &n, &c, &v);
			for(int k = 0; k < n; k++) { g.r.push_back(i); g.c.push_back(c[k]); g.v.push_back(v[k]); }
			MatRestoreRow(A, i, &n, &c, &v);
		}
	}
	MatDestroy(&A);
}
static std::string hexof(const std::string& s) { std::string r; char t[3]; for(unsigned char ch : s) { snprintf(t, 3, "%02x", ch); r += t; } return r.empty() ? "-" : r; }
static void init() {
	if(ready) return;
	ready = true;
	static char a0[] = "h_petscio", a1[] = "-no_signal_handler"; static char *av[] = {a0, a1, nullptr}; char **v = av; int c = 2;
	vh::progress()->starting = 1;
	if(PetscInitialize(&c, &v, nullptr, nullptr)) _exit(97);
	vh::progress()->starting = 0;
	PetscPushErrorHandler(PetscReturnErrorHandler, nullptr);
	// what is allocated at a first use does not count: one of each
	static Vec keep; VecCreateSeq(PETSC_COMM_SELF, 1, &keep);
	File d(hexof("%%MatrixMarket matrix array real general\n2 1\n1\n2\n")), m(hexof("%%MatrixMarket matrix coordinate real general\n4 4 4\n1 1 1.0\n2 2 1.0\n3 3 1.0\n4 4 1.0\n"));
	std::vector<double> x; int rc; for(int k = 0; k < 2; k++) readvec(d.name.c_str(), k, 2, 2, x, rc);
	for(int q = 0; q < 2; q++) for(const char *t : {"aij", "baij"}) for(const char *b : {"1", "4"}) {
		PetscOptionsSetValue(nullptr, "-mat_type", t); PetscOptionsSetValue(nullptr, "-mat_block_size", b); Got g; readmat(m.name.c_str(), q, g);
	}
	PetscOptionsClear(nullptr);
}
template<class F> static void ask(Out& o, const char *k, const char *b, F f) {
	int r = 0;
	auto call = [&]() {
		try { f(); r = 0; }
		catch(const InputNotGivenError&) { r = 1; }
		catch(const Petsc_exception&) { r = 2; }
		catch(const std::exception&) { r = 3; }
	};
	long lost = 1000000;  // several times: what a first call keeps for good is not lost
	for(int q = 0; q < 4; q++) {
		size_t was = __sanitizer_get_current_allocated_bytes();
		call();
		lost = std::min(lost, (long)__sanitizer_get_current_allocated_bytes() - (long)was);
	}
	o.i(k, r); o.i(b, lost);
}
static void one(In& in, Out& o) {
	init(); PetscOptionsClear(nullptr);
	int step = 0; std::string kk[8]; auto K = [&](int q, const char *k) { kk[q] = std::string(k) + std::to_string(step); return kk[q].c_str(); };
	while(in.more()) {
		std::string op = in.s(); step++;
		const char *kr = K(0, "r"), *kb = K(1, "leak"), *kv = K(2, "v");
		if(op == "set") { std::string n = in.s(), v = in.s(), u = unhex(v); if(PetscOptionsSetValue(nullptr, n.c_str(), v == "-" ? nullptr : u.c_str())) _exit(99); }
		else if(op == "clr") { if(PetscOptionsClearValue(nullptr, in.s().c_str())) _exit(99); }
		else if(op == "has") { std::string n = in.s(); int v = 0; ask(o, kr, kb, [&]() { v = parsePetscCmd_isDefined(n); }); o.i(kv, v); }
		else if(op == "int") { std::string n = in.s(); int v = 0; ask(o, kr, kb, [&]() { v = parsePetscCmd_int(n); }); o.i(kv, v); }
		else if(op == "bool") { std::string n = in.s(); int v = 0; ask(o, kr, kb, [&]() { v = parsePetscCmd_bool(n); }); o.i(kv, v); }
		else if(op == "real") { std::string n = in.s(); double d = in.d(), v = 0; ask(o, kr, kb, [&]() { v = parseOptionalPetscCmd_real(n, d); }); o.d(kv, v); }
		else if(op == "str") { std::string n = in.s(); int l = in.i(); std::string v; ask(o, kr, kb, [&]() { std::string t = parsePetscCmd_string(n, l); v.reserve(200); v = t; }); o.s(kv, hexof(v)); }
		else if(op == "ints" || op == "oints") {
			std::string n = in.s(); int l = in.i(); std::vector<int> v; v.reserve(200);
			ask(o, kr, kb, [&]() { std::vector<int> t = op == "ints" ? parsePetscCmd_intArray(n, l) : parseOptionalPetscCmd_intArray(n, l); v.assign(t.begin(), t.end()); });
			o.iv(kv, v);
		}
		else if(op == "err") {
			int c = in.i(); std::string t; int r = 0;
			try { petsc_throw(c); } catch(const Petsc_exception& e) { r = 2; t = e.what(); } catch(const std::exception& e) { r = 3; t = e.what(); }
			o.i(kr, r); o.i(kv, (int)t.size());
		}
		else if(op == "vec") {
			File f(in.s()); int w = in.i(), n = in.i(), nc = in.i(); std::vector<double> a; int rc = 0, thrown = 0;
			a.reserve(200); long lost = 1000000;
			for(int q = 0; q < 2; q++) {
				size_t was = __sanitizer_get_current_allocated_bytes();
				try { readvec(f.name.c_str(), w, n, nc, a, rc); } catch(const std::exception&) { thrown = 1; }
				lost = std::min(lost, (long)__sanitizer_get_current_allocated_bytes() - (long)was);
			}
			o.i(kb, lost);
			o.i(kr, thrown ? 3 : rc ? 2 : 0); o.dv(kv, a);
		}
		else if(op == "mat") {
			File f(in.s()); int w = in.i(), thrown = 0; Got g; long lost = 1000000;
			for(int q = 0; q < 2; q++) {
				size_t was = __sanitizer_get_current_allocated_bytes();
				long mine = 0;
				{ Got t; try { readmat(f.name.c_str(), w, t); } catch(const std::exception&) { thrown = 1; } g = t;
				  mine = (long)(g.r.capacity()*sizeof(int) + g.c.capacity()*sizeof(int) + g.v.capacity()*sizeof(double)); }
				long d = (long)__sanitizer_get_current_allocated_bytes() - (long)was;
				lost = std::min(lost, q ? d : d - mine);      // the copy kept is there already the second time
			}
			o.i(kb, lost); o.i(kr, thrown ? 3 : g.rc ? 2 : 0);
			int h[] = {g.size[0], g.size[1], g.bs, g.blocked}; o.iv(K(3, "h"), h, 4); o.iv(K(4, "i"), g.r); o.iv(K(5, "j"), g.c); o.dv(kv, g.v);
		}
		else _exit(99);
		o.i(K(6, "done"), 1);
	}
	o.i("end", 1);
}
int main(int argc, char **argv) { return run(argc, argv, one, 60); }

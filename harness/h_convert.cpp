/* Conversions between storage forms.
 * input: read hexfile bs order direct | dense hexfile | csc base rowmajor mat | adj mat */
#include "vh.hpp"
#include "coomatrix.hpp"
#include "scmatrixdefs.hpp"
#include "adjacency.hpp"
using namespace blasted; using namespace vh;
static std::string writefile(const std::string& hex) {
	const char *d = getenv("TMPDIR"); std::string p = std::string(d ? d : "/tmp") + "/vconvXXXXXX"; std::vector<char> t(p.c_str(), p.c_str() + p.size() + 1);
	int fd = mkstemp(t.data()); if(fd < 0) _exit(97);
	std::string s; for(size_t i = 0; i + 1 < hex.size(); i += 2) s += (char)strtol(hex.substr(i, 2).c_str(), nullptr, 16);
	writeall(fd, s); close(fd);
	return t.data();
}
struct File { std::string name; explicit File(const std::string& h) : name(writefile(h)) {} ~File() { unlink(name.c_str()); } };
template<class S> static void show(Out& o, const S& r) {
	int h[3] = { r.nbrows, r.nnzb, r.nbstored }; o.iv("h", h, 3);
	auto arr = [&](const char *a, const auto& v) { o.iv(a, v.size() ? &v[0] : nullptr, v.size()); };
	arr("rp", r.browptr); arr("ci", r.bcolind); arr("di", r.diagind); arr("re", r.browendptr);
	o.dv("v", r.vals.size() ? &r.vals[0] : nullptr, r.vals.size());
}
static void one(In& in, Out& o) {
	std::string op = in.s();
	if(op == "read") {
		File f(in.s()); int bs = in.i(); std::string order = in.s(); int direct = in.i();
		try {
			if(direct) {
				if(bs == 1) { auto m = constructBSRMatrixFromMatrixMarketFile<double,int,1>(f.name); show(o, m.getRawSRMatrix()); o.i("dim", m.dim()); }
				else if(bs == 7) { auto m = constructBSRMatrixFromMatrixMarketFile<double,int,7>(f.name); show(o, m.getRawSRMatrix()); o.i("dim", m.dim()); }
				else _exit(99);
				o.i("accepted", 1);
				return;
			}
			COOMatrix<double,int> c; c.readMatrixMarket(f.name);
			o.i("accepted", 1);
			int s[3] = { c.numrows(), c.numcols(), c.numnonzeros() }; o.iv("size", s, 3);
			std::vector<int> er, ec; std::vector<double> ev;
			for(auto& e : c.getEntries()) { er.push_back(e.rowind); ec.push_back(e.colind); ev.push_back(e.value); }
			o.iv("er", er); o.iv("ec", ec); o.dv("ev", ev); o.iv("erp", c.getRowPtrs());
			if(bs == 1) { auto m = getSRMatrixFromCOO<double,int,1>(c, order); show(o, m); }
			else if(bs == 3) { auto m = getSRMatrixFromCOO<double,int,3>(c, order); show(o, m); }
			else if(bs == 4) { auto m = getSRMatrixFromCOO<double,int,4>(c, order); show(o, m); }
			else if(bs == 7) { auto m = getSRMatrixFromCOO<double,int,7>(c, order); show(o, m); }
		}
		catch(const MatrixReadException&) { o.i("refused", 1); }
	}
	else if(op == "dense") {
		File f(in.s());
		auto v = readDenseMatrixMarket<double>(f.name);
		o.dv("v", v.data(), (int)v.size());
	}
	else if(op == "csc") {
		int base = in.i(); bool rm = in.i(); Mat m; m.read(in); m.build(rm); int nz = m.rp[m.n];
		CRawBSRMatrix<double,int> r(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nz, nz);
		CRawBSCMatrix<double,int> c;
		if(base == 1) c = convert_BSR_to_BSC_1based<double,int,1>(&r);
		else switch(m.bs) {
			case 1: convert_BSR_to_BSC<double,int,1>(&r, &c); break;
			case 3: convert_BSR_to_BSC<double,int,3>(&r, &c); break;
			case 4: convert_BSR_to_BSC<double,int,4>(&r, &c); break;
			case 5: convert_BSR_to_BSC<double,int,5>(&r, &c); break;
			case 7: convert_BSR_to_BSC<double,int,7>(&r, &c); break;
			default: _exit(99);
		}
		o.i("n", c.nbcols); o.iv("cp", c.bcolptr, m.n + 1); o.iv("ri", c.browind, nz); o.iv("di", c.diagind, m.n);
		std::vector<double> v(c.vals, c.vals + (size_t)nz*m.bs*m.bs); o.dv("v", m.logical(v.data()));
		alignedDestroyCRawBSCMatrix(c);
		o.i("intact", m.intact());
	}
	else if(op == "adj") {
		Mat m; m.read(in); m.build(true); int nz = m.rp[m.n];
		SRMatrixStorage<double,int> s(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nz, nz, m.bs);
		ColumnAdjacency<double,int> a(s);
		o.iv("cp", a.col_pointers()); o.iv("ri", a.col_nonzero_rows()); o.iv("loc", a.col_nonzero_locations());
		o.i("intact", m.intact());
	}
	else _exit(99);
}
int main(int argc, char **argv) { return run(argc, argv, one); }

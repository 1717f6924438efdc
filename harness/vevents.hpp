/* Turns the log of memory accesses into the updates that the specification speaks of: a thread reads cells of the
 * watched arrays, then publishes a new value of one cell. A cell is a value or a dense block or segment. */
#ifndef VEVENTS_HPP
#define VEVENTS_HPP
#include "vthreads.hpp"
#ifdef VSHIM
#include <map>
#include <set>
struct CellArray {
	int id; const double *base; int ncell, len;      // len doubles in a cell
	std::vector<int> perm;                            // logical offset -> storage offset within the cell
	std::vector<double> shadow;                       // contents as the log is replayed, storage order
	CellArray(int i, const double *b, int n, int l, bool colmajor_bs = false, int bs = 0) : id(i), base(b), ncell(n), len(l), perm(l), shadow(b, b + n*l) {
		for(int k = 0; k < l; k++) perm[k] = k;
		if(colmajor_bs) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) perm[r*bs+c] = c*bs+r;
	}
	void watch() const { shim::watch(base, sizeof(double)*ncell*len, len > 1 ? sizeof(double)*len : 0); }
};

/* Output, one line per publish:  u d N  thread array cell region  prev[len] new[len]  nreads { array cell ncand value[len]* }
 * ncand = 0: the cell was read while it changed. */
struct Updates {
	std::vector<CellArray*> arrs;
	void add(CellArray& a) { arrs.push_back(&a); }
	void start() { for(auto a : arrs) a->watch(); shim::start(); }
	CellArray *find(uint64_t p, int& cell, int& off) {
		for(auto a : arrs) { uint64_t b = (uint64_t)a->base; if(p >= b && p < b + sizeof(double)*a->ncell*a->len) {
			long k = (long)((p-b)/8); cell = (int)(k / a->len); off = (int)(k % a->len); return a; } }
		return nullptr;
	}
	typedef std::map<std::pair<int,int>, std::vector<std::vector<double>>> Reads;     // (array, cell) -> per offset the distinct values
	struct Th { Reads rd; CellArray *wa = nullptr; int wc = -1; std::set<int> woff; std::vector<double> prev; int region = 0; };
	std::map<int,Th> th;
	vh::Out *o; long npub = 0;
	static bool same(double a, double b) { return a == b || (a != a && b != b); }
	void flush(int t) {
		Th& h = th[t]; if(!h.wa) return;
		CellArray *a = h.wa; std::vector<double> r;
		r.push_back(t); r.push_back(a->id); r.push_back(h.wc); r.push_back(h.region);
		for(int k = 0; k < a->len; k++) r.push_back(h.prev[a->perm[k]]);
		for(int k = 0; k < a->len; k++) r.push_back(a->shadow[h.wc*a->len + a->perm[k]]);
		r.push_back((double)h.rd.size());
		for(auto& e : h.rd) {
			CellArray *b = nullptr; for(auto x : arrs) if(x->id == e.first.first) b = x;
			r.push_back(b->id); r.push_back(e.first.second);
			if(b->len == 1) { r.push_back((double)e.second[0].size()); for(double v : e.second[0]) r.push_back(v); }
			else {
				bool mixed = false; for(auto& v : e.second) if(v.size() > 1) mixed = true;
				if(mixed) r.push_back(0);
				else { r.push_back(1); for(int k = 0; k < b->len; k++) { auto& v = e.second[b->perm[k]]; r.push_back(v.empty() ? b->shadow[e.first.second*b->len + b->perm[k]] : v[0]); } }
			}
		}
		o->dv("u", r); npub++;
		h.rd.clear(); h.wa = nullptr; h.wc = -1; h.woff.clear();
	}
	void report(vh::Out& out) {
		o = &out;
		for(auto& e : shim::events) {
			if(e.kind == 'S' || e.kind == 'E') { for(auto& x : th) flush(x.first); continue; }
			int cell, off; CellArray *a = find(e.addr, cell, off);
			if(!a) continue;
			double v; memcpy(&v, &e.val, 8);
			Th& h = th[e.tid];
			if(e.kind == 'R') {
				auto& slot = h.rd[std::make_pair(a->id, cell)];
				if(slot.empty()) slot.resize(a->len);
				bool seen = false; for(double x : slot[off]) if(same(x, v)) seen = true;
				if(!seen) slot[off].push_back(v);
			} else {
				if(h.wa && (h.wa != a || h.wc != cell || h.woff.count(off))) flush(e.tid);
				if(!h.wa) { h.wa = a; h.wc = cell; h.region = (int)e.region; h.prev.assign(a->shadow.begin() + cell*a->len, a->shadow.begin() + (cell+1)*a->len); }
				h.woff.insert(off);
				a->shadow[cell*a->len + off] = v;
				if((int)h.woff.size() == a->len) flush(e.tid);
			}
		}
		for(auto& x : th) flush(x.first);
		out.i("threads", shim::threads_started()); out.i("npub", npub); out.i("yields", shim::yields()); out.i("regions", shim::regions());
	}
};
#endif
#endif

/* Scans, sorting of indices with their blocks, searching.
 * input: sched op ...
 *   psum c | incl variant c | sort bs ix v | find a start end x before
 * arrays are tried both with exact-size storage (for the address sanitizer) and between guard zones */
#include "vthreads.hpp"
#include "utils/prefix_sum.hpp"
#include "helper_algorithms.hpp"
using namespace blasted; using namespace vh;
template<class T> struct Guarded {
	enum { G = 16 };
	AVec<T> a; int n;
	explicit Guarded(const std::vector<T>& v) : a((int)v.size() + 2*G), n((int)v.size()) {
		for(int i = 0; i < G; i++) { a[i] = T(7001 + i); a[G + n + i] = T(8001 + i); }
		for(int i = 0; i < n; i++) a[G+i] = v[i];
	}
	T *data() { return a.p + G; }
	bool intact() const { for(int i = 0; i < G; i++) if(a[i] != T(7001 + i) || a[G + n + i] != T(8001 + i)) return false; return true; }
};
template<int bs> static void sort(const std::vector<int>& ix, const std::vector<double>& v, Out& o) {
	Guarded<int> gi(ix); Guarded<double> gv(v);
	internal::sortBlockInnerDimension<double,int,bs>((int)ix.size(), gi.data(), gv.data());
	AVec<int> xi(ix); AVec<double> xv(v);
	internal::sortBlockInnerDimension<double,int,bs>((int)ix.size(), xi.p, xv.p);
	o.iv("ix", gi.data(), (int)ix.size()); o.iv("v", gv.data(), (int)v.size());
	o.i("guard", gi.intact() && gv.intact());
	o.i("again", std::vector<int>(gi.data(), gi.data() + gi.n) == xi.vec() && std::vector<double>(gv.data(), gv.data() + gv.n) == xv.vec());
}
int main(int argc, char **argv) {
	return run(argc, argv, [](In& in, Out& o) {
		Sched sc; sc.read(in);
		std::string op = in.s();
		if(op == "psum") {
			std::vector<int> c = in.iv(); int n = (int)c.size();
			sc.set();
			Guarded<int> g(c);
			prefix_sum(g.data(), n);
			o.iv("out", g.data(), n); o.i("guard", g.intact());
			AVec<int> x(c);
			if(n > 0) prefix_sum(x.p, n);
			o.i("again", n == 0 || std::vector<int>(g.data(), g.data() + n) == x.vec());
#ifdef VSHIM
			o.i("yields", shim::yields()); o.i("dead", shim::deadlocked());
#endif
		}
		else if(op == "incl") {
			int k = in.i(); std::vector<int> c = in.iv();
			o.i("guard", 1); o.i("again", 1);
			if(k == 0) { internal::inclusive_scan(c); o.iv("out", c); }
			else if(k == 1) { device_vector<int> d(c.begin(), c.end()); internal::inclusive_scan(d); o.iv("out", d.data(), (int)d.size()); }
			else { const std::vector<int> orig = c; std::vector<int> r = internal::inclusive_scan(const_cast<const std::vector<int>&>(c)); o.iv("out", r); if(c != orig) o.i("changed", 1); }
		}
		else if(op == "sort") {
			int bs = in.i(); std::vector<int> ix = in.iv(); std::vector<double> v = in.dv();
			switch(bs) {
			case 1: sort<1>(ix, v, o); break;
			case 2: sort<2>(ix, v, o); break;
			case 4: sort<4>(ix, v, o); break;
			case 5: sort<5>(ix, v, o); break;
			case 7: sort<7>(ix, v, o); break;
			}
		}
		else if(op == "find") {
			std::vector<int> a = in.iv(); int s = in.i(), e = in.i(), x = in.i(), pos = in.i();
			AVec<int> b(a);
			internal::inner_search<int>(b.p, s, e, x, &pos);
			o.i("pos", pos); o.i("guard", b.vec() == a); o.i("again", 1);
		}
	});
}

// Common parts of the verification harnesses: case input, result output, crash isolation.
#ifndef VH_HPP
#define VH_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>

namespace vh {

// ---- input: one case per line, whitespace separated tokens ----
struct In {
	std::vector<std::string> tok; size_t p = 0;
	explicit In(const std::string& line) { std::istringstream s(line); std::string t; while(s >> t) tok.push_back(t); }
	bool more() const { return p < tok.size(); }
	std::string s() { if(p >= tok.size()) { fprintf(stderr, "vh: input exhausted\n"); _exit(99);} return tok[p++]; }
	int i() { return (int)strtol(s().c_str(), nullptr, 10); }
	long l() { return strtol(s().c_str(), nullptr, 10); }
	double d() { return strtod(s().c_str(), nullptr); }
	std::vector<int> iv() { int n = i(); std::vector<int> v(n); for(auto& x : v) x = i(); return v; }
	std::vector<double> dv() { int n = i(); std::vector<double> v(n); for(auto& x : v) x = d(); return v; }
};

// ---- output: lines "key n v1 .. vn", a case ends with "."  ----
struct Out {
	std::string b;
	void begin(long id) { b += "# " + std::to_string(id) + "\n"; }
	void i(const char *k, long v) { b += std::string(k) + " i 1 " + std::to_string(v) + "\n"; }
	template<class It> void iv(const char *k, It a, int n) {
		b += std::string(k) + " i " + std::to_string(n);
		for(int j = 0; j < n; j++) { b += ' '; b += std::to_string((long)a[j]); }
		b += "\n";
	}
	void iv(const char *k, const std::vector<int>& v) { iv(k, v.data(), (int)v.size()); }
	template<class It> void dv(const char *k, It a, int n) {
		char t[40];
		b += std::string(k) + " d " + std::to_string(n);
		for(int j = 0; j < n; j++) { snprintf(t, sizeof t, " %.17g", (double)a[j]); b += t; }
		b += "\n";
	}
	void d(const char *k, double v) { dv(k, &v, 1); }
	void dv(const char *k, const std::vector<double>& v) { dv(k, v.data(), (int)v.size()); }
	void s(const char *k, const std::string& v) { b += std::string(k) + " s 1 " + v + "\n"; }
	void end() { b += ".\n"; }
};

inline void writeall(int fd, const std::string& s) {
	size_t o = 0;
	while(o < s.size()) { ssize_t w = write(fd, s.data()+o, s.size()-o); if(w <= 0) _exit(98); o += w; }
}

struct Progress { volatile long cur; volatile int starting; };
/* set while the environment (MPI) is starting up; when that ends the process it is tried again */
inline Progress *&progress() { static Progress *p = nullptr; return p; }

/* Runs fn on every case line of argv[1], writing to argv[2]. Cases run in a forked child; a case in which
 * the child dies is recorded as "crash <signal>" and the remaining ones run in a new child.
 * After 200 crashes or 4 cases over the time limit the rest is marked "crash 999": not run.
 * The library's own output on stdout is discarded. */
inline int run(int argc, char **argv, std::function<void(In&, Out&)> fn, int limit = 20)
{
	if(argc < 3) { fprintf(stderr, "usage: %s cases out\n", argv[0]); return 2; }
	std::vector<std::string> lines;
	{ std::ifstream f(argv[1]); std::string l; while(std::getline(f, l)) if(!l.empty()) lines.push_back(l); }
	int fd = open(argv[2], O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0644);
	if(fd < 0) { perror(argv[2]); return 2; }
	struct rlimit nocore = {0, 0}; setrlimit(RLIMIT_CORE, &nocore);
	Progress *pr = (Progress*)mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	progress() = pr;
	size_t start = 0;
	int crashes = 0, hangs = 0, restarts = 0;
	while(start < lines.size()) {
		pr->cur = (long)start;
		fflush(nullptr);
		pid_t pid = fork();
		if(pid < 0) { perror("fork"); return 2; }
		if(pid == 0) {
			int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if(!getenv("VH_STDERR")) dup2(nul, 2);
			for(size_t k = start; k < lines.size(); k++) {
				pr->cur = (long)k;
				alarm(limit);
				In in(lines[k]); Out out;
				long id = in.l();
				out.begin(id);
				try { fn(in, out); }
				catch(const std::exception& e) { out.s("exception", std::string("std")); }
				catch(...) { out.s("exception", "other"); }
				out.end();
				writeall(fd, out.b);
			}
			_exit(0);
		}
		int st = 0;
		while(waitpid(pid, &st, 0) < 0) {}
		if(WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
		// the page may have been overwritten by what ended the child
		if(pr->cur < (long)start || pr->cur >= (long)lines.size()) { pr->cur = (long)start; pr->starting = 0; }
		if(pr->starting == 1) {
			pr->starting = 0; start = (size_t)pr->cur;
			if(++restarts > 10) { fprintf(stderr, "the environment does not start\n"); return 2; }
			usleep(200000*restarts); continue;
		}
		if(WIFEXITED(st) && (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 98)) { fprintf(stderr, "harness error at case line %ld\n", pr->cur); return 2; }
		size_t k = (size_t)pr->cur;
		In in(lines[k]); Out out; long id = in.l();
		out.begin(id);
		out.i("crash", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
		out.end();
		writeall(fd, out.b);
		start = k+1;
		if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hangs++;
		if(++crashes > 200 || hangs >= 4) {
			// enough seen: the remaining cases are marked as not run
			for(; start < lines.size(); start++) {
				In rest(lines[start]); Out o; long rid = rest.l();
				o.begin(rid); o.i("crash", 999); o.end();
				writeall(fd, o.b);
			}
			break;
		}
	}
	close(fd);
	return 0;
}

// ---- aligned exact-size arrays (so that overruns are visible to the sanitizer) ----
template<class T> struct AVec {
	T *p = nullptr; int n = 0;
	AVec() {}
	explicit AVec(int len) { alloc(len); }
	AVec(const std::vector<T>& v) { alloc((int)v.size()); for(int i = 0; i < n; i++) p[i] = v[i]; }
	AVec(const AVec& o) { alloc(o.n); for(int i = 0; i < n; i++) p[i] = o.p[i]; }
	AVec& operator=(const AVec& o) { if(this != &o) { free(p); alloc(o.n); for(int i = 0; i < n; i++) p[i] = o.p[i]; } return *this; }
	void alloc(int len) { n = len; if(posix_memalign((void**)&p, 64, (len > 0 ? len : 1)*sizeof(T))) _exit(97); for(int i = 0; i < len; i++) p[i] = T(); }
	~AVec() { free(p); }
	T& operator[](int i) { return p[i]; }
	const T& operator[](int i) const { return p[i]; }
	T *data() { return p; }
	std::vector<T> vec() const { return std::vector<T>(p, p+n); }
};

/* A logical block matrix as generated: n block rows, block size bs, 0-based row pointers and column indices,
 * values with entries of a block in row-major order. build() lays the values out in the requested layout. */
struct Mat {
	int n = 0, bs = 1; bool rowmajor = true;
	std::vector<int> rp, ci; std::vector<double> lv;
	AVec<int> brp, bci, bdi, bre; AVec<double> val;
	void read(In& in) { n = in.i(); bs = in.i(); rp = in.iv(); ci = in.iv(); lv = in.dv(); }
	static int off(int bs, bool rm, int r, int c) { return rm ? r*bs+c : c*bs+r; }
	void build(bool rm) {
		rowmajor = rm;
		brp = AVec<int>(rp); bci = AVec<int>(ci); bdi = AVec<int>(n); bre = AVec<int>(n);
		val = AVec<double>((int)lv.size());
		for(int i = 0; i < n; i++) {
			bre[i] = rp[i+1]; bdi[i] = -1;
			for(int j = rp[i]; j < rp[i+1]; j++) if(ci[j] == i) bdi[i] = j;
		}
		setvals(lv);
	}
	void setvals(const std::vector<double>& v) {
		lv = v;
		for(size_t k = 0; k < ci.size(); k++)
			for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++)
				val[k*bs*bs + off(bs, rowmajor, r, c)] = v[k*bs*bs + r*bs + c];
	}
	// storage order -> logical order
	std::vector<double> logical(const double *s) const {
		std::vector<double> o(lv.size());
		for(size_t k = 0; k < ci.size(); k++)
			for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++)
				o[k*bs*bs + r*bs + c] = s[k*bs*bs + off(bs, rowmajor, r, c)];
		return o;
	}
	// unchanged since build/setvals?
	bool intact() const {
		for(int i = 0; i <= n; i++) if(brp[i] != rp[i]) return false;
		for(size_t k = 0; k < ci.size(); k++) if(bci[k] != ci[k]) return false;
		for(int i = 0; i < n; i++) {
			if(bre[i] != rp[i+1]) return false;
			int d = -1; for(int j = rp[i]; j < rp[i+1]; j++) if(ci[j] == i) d = j;
			if(bdi[i] != d) return false;
		}
		std::vector<double> cur = logical(val.p);
		for(size_t k = 0; k < cur.size(); k++) if(!(cur[k] == lv[k])) return false;
		return true;
	}
};

}
#endif

// Thread configuration of a case: number of threads, and in the shim flavor the schedule.
#ifndef VTHREADS_HPP
#define VTHREADS_HPP
#include "vh.hpp"
#ifdef VSHIM
#include "shim.hpp"
#endif
#include <omp.h>
struct Sched {
	int nthreads = 1, policy = 0, param = 0; long seed = 1; std::vector<int> script;
	void read(vh::In& in) { nthreads = in.i(); policy = in.i(); param = in.i(); seed = in.l(); script = in.iv(); }
	void set() const {
#ifdef VSHIM
		shim::unwatch_all();
		shim::configure(nthreads, policy, param, (uint64_t)seed, script);
#else
		omp_set_num_threads(nthreads);
#endif
	}
};
#endif

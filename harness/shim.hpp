// Deterministic OpenMP runtime + memory-access observer, interface for harnesses.
#ifndef VSHIM_HPP
#define VSHIM_HPP
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
namespace shim {
struct Ev { uint64_t addr; uint64_t val; uint32_t region; int16_t tid; uint8_t size; char kind; }; // R W A(tomic) S(region start) E(region end) B(arrier) ...
struct Blk { uint64_t addr; size_t size; bool freed; };
/// Policy: 0 tid order to completion, 1 random preemption with probability p/1000 per access, 2 PCT with d change points,
/// 3 round robin at every access, 4 reverse tid order to completion, 5 script of (tid, number of work chunks)
void configure(int nthreads, int policy, int param, uint64_t seed, const std::vector<int>& script = {});
/// start/stop logging
void start(bool keepblocks = false);
void stop();
extern std::vector<Ev> events;
extern std::vector<Blk> blocks;      ///< heap blocks allocated while logging
int threads_started();               ///< the most threads any parallel region used since configure()
int regions();                       ///< number of parallel regions since configure()
bool deadlocked();
/// Watch only accesses inside these ranges (empty: all non-stack accesses)
/// With a group size, the range is an array of dense blocks of that many bytes, and switches happen only before the first access to each
void watch(const void *p, size_t bytes, size_t group = 0);
void unwatch_all();
long yields();
}
#endif

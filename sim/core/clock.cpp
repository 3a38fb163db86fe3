// Clock seam: the clocks of the C++ and C libraries read simulated time in the code under test.
#include "sim.h"
#include <chrono>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim { namespace clk {
namespace {
uint64_t mono_ns; int64_t wall_off = 1700000000000000000ll; uint64_t cost, nreads;
uint64_t read() { ++nreads; if (hook && alloc::in_target()) hook(); mono_ns += cost; simtime(cost); return mono_ns; }
}
Hook hook;
uint64_t mono() { return mono_ns; }
int64_t wall() { return int64_t(mono_ns) + wall_off; }
void advance(uint64_t ns) { mono_ns += ns; simtime(ns); }
void step_wall(int64_t ns) { wall_off += ns; count(ns < 0 ? "fault:wall_clock_step_back" : "fault:wall_clock_step_forward"); }
void read_cost(uint64_t ns) { cost = ns; }
uint64_t reads() { return nreads; }
}} // namespace sim::clk

namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sim::clk::read())); }
system_clock::time_point system_clock::now() noexcept { sim::clk::read(); return time_point(chrono::duration_cast<duration>(chrono::nanoseconds(sim::clk::wall()))); }
}}}

extern "C" {
time_t __wrap_time(time_t* t) { sim::clk::read(); time_t v = sim::clk::wall() / 1000000000; if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t id, timespec* t)
{
    uint64_t v = sim::clk::read(); if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) v = uint64_t(sim::clk::wall());
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
int __wrap_gettimeofday(timeval* t, void*) { sim::clk::read(); int64_t v = sim::clk::wall(); t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; return 0; }
clock_t __wrap_clock() { return clock_t(sim::clk::read() / 1000); }
}

// Deterministic simulation core: choice tape, event log, counters, run control.
// One run = one seed = one tape of choices. Every nondeterministic decision (generated
// operation, fault, schedule step, content of fresh memory) is drawn from the tape.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>

namespace sim {

enum Stream { OPS = 0, FAULTS = 1, SCHED = 2, NSTREAMS = 3 };

/// Next choice in [0,n). 0 is always the simplest choice (no fault, no switch, smallest).
uint32_t draw(Stream s, uint32_t n);
/// Execute the same choices again: draws of the stream from now on repeat those made since mark().
uint32_t mark(Stream s);
void rewind(Stream s, uint32_t to);
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(OPS, hi - lo + 1); }
/// true with probability num/den (0 on the tape means false)
inline bool chance(Stream s, uint32_t num, uint32_t den) { return draw(s, den) >= den - num; }

/// A span groups the choices of one operation, so that minimisation can drop it as a whole.
struct Span { Span(); ~Span(); size_t id; };

/// Event log (hashed always, kept as text up to a limit). Never draws, never reads a clock.
void ev(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
void evhash(uint64_t v);

/// Named counters: operations, faults that fired ("fault:..."), probes ("probe:...").
void count(char const* name, uint64_t n = 1);
/// Distinct-state measure: the caller hashes whatever abstract state it wants counted.
void state(uint64_t h);
void simtime(uint64_t ns);
void steps(uint64_t n);

struct Violation {};
/// Report a violation of the property under test and end the run.
[[noreturn]] void fail(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
/// as fail, callable where throwing is impossible: ends the process of this run
[[noreturn]] void fail_now(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));

extern bool in_thread;   // simulated threads run: a violation ends the process of the run

bool replaying();   // true when a replay file is executed (verbose)
char const* config_name();

inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hash_bytes(void const* p, size_t n, uint64_t h = 1469598103934665603ull) {
    unsigned char const* c = static_cast<unsigned char const*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

// ---- worlds ---------------------------------------------------------------------------
/// A configuration of a property's check: runs one simulated execution.
struct World {
    World(char const* name, void (*fn)());
    char const* name; void (*fn)(); World* next;
};
/// Called once per process before the first run, to warm up lazily initialised library state.
struct Warmup { Warmup(void (*fn)()); void (*fn)(); Warmup* next; };

#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SIM_WORLD(id, nm) static void id(); static sim::World SIM_CAT(id, _reg)(nm, &id); static void id()
#define SIM_WARMUP(id) static void id(); static sim::Warmup SIM_CAT(id, _reg)(&id); static void id()

// ---- allocator seam -------------------------------------------------------------------
namespace alloc {
/// Allocations made while a Target scope is open belong to the code under test: they are
/// filled with seeded junk, accounted for, and may be made to fail.
struct Target { Target(); ~Target(); };
struct Host { Host(); ~Host(); int saved; };   // suspend the target scope (harness code inside)
void arm(uint32_t nth);      // the nth target allocation from now on throws (0 = none)
bool disarm();               // true if the armed failure fired
uint32_t failures();         // allocations that failed in this run
uint32_t seen();             // target allocations since the last arm()
void junk(uint32_t mode, uint64_t seed);
size_t live();               // live target blocks
size_t live_bytes();
bool is_live(void const* p); // address of a live target block
void reset_live();           // forget (used between worlds)
char const* describe_live(); // sizes of live blocks, for messages
typedef void (*Hook)(void* p, size_t n, bool alloc);
extern Hook hook;            // race detector: told about every block
bool in_target();            // the calling thread executes code under test
}

// ---- clock seam -----------------------------------------------------------------------
/// std::chrono clocks, time(), clock_gettime() and gettimeofday() of the code under test read
/// simulated time. It passes only when advance() is called (and by read_cost per read).
namespace clk {
uint64_t mono();               // ns since the start of the run
int64_t wall();                // ns since 1970, includes the steps
void advance(uint64_t ns);
void step_wall(int64_t ns);    // the wall clock jumps, monotonic time does not
void read_cost(uint64_t ns);   // time that passes with each read by the code under test
uint64_t reads();
typedef void (*Hook)();
extern Hook hook;              // scheduling point at each read
}

// ---- I/O seam (binaries with io.cpp) --------------------------------------------------
/// File operations of the code under test (inside a Target scope) on files that are no devices.
namespace io {
enum Kind { OPEN, READ, WRITE, SEEK, CLOSE, KINDS };
void reset();                              // no faults, no counts; handles stay known
void shorten(bool on);                     // transfers may be short or interrupted: no error
void fail_nth(Kind k, uint32_t n);         // the nth such operation fails (0: none)
void disk_space(uint64_t bytes);           // writes beyond that fail
void crash(uint32_t n);                    // the process ends in the nth operation that changes the disk:
bool crashed();                            // a part of a write may reach it, later operations do not
void foreign(uint32_t n, void (*fn)(void*), void* arg);   // another process acts before the nth operation
bool fired();
uint64_t ops();
size_t handles();                          // files open
}

// ---- thread seam (binaries of kind "thr") ---------------------------------------------
/// Runs the bodies as simulated threads: one runs at a time, the seeded scheduler decides after
/// which memory access, atomic, lock or clock read of the code under test another one goes on.
/// Data races, deadlocks and lack of progress end the run as violations.
namespace thr {
typedef void (*Body)(void* arg, int id);
void run(int n, Body body, void* arg);
int self();                    // 1..n inside a body, 0 outside
void label(char const* what);  // what the calling thread does, for reports
void point();                  // a scheduling point of the harness
void access(void const* p, size_t n, bool write); // stands for an uninstrumented routine
uint64_t switches();
}

} // namespace sim

// Thread seam. Code under test is compiled with -fsanitize=thread, but linked with this file in
// place of the sanitizer's runtime: every memory access, atomic operation, lock and static guard
// calls in here. Simulated threads are OS threads of which exactly one runs at any time; a seeded
// countdown of scheduling points decides when the next one is chosen. On top of it:
//  - a vector-clock race detector over the accesses of the code under test,
//  - stale values for relaxed and acquire loads, as the C++ memory model permits,
//  - deadlock detection and a bound on the number of scheduling points.
#include "sim.h"
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>
#include <vector>

namespace sim { namespace thr { namespace {

const int MAXT = 8;
struct VC {
    uint32_t c[MAXT] = {};
    void join(VC const& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Thread {
    sem_t sem; pthread_t os; VC vc; bool done = false; void const* wait = nullptr;
    char* lo = nullptr; char* hi = nullptr; char const* what = ""; bool fenced = false;
    Body body; void* arg; int id; std::vector<std::pair<void (*)(void*), void*>> exits;   // destructors of thread_local objects
};
struct Access { uint8_t tid, mask; bool write, atomic; uint32_t clk; void* pc; char const* what; };
struct Cell { std::vector<Access> a; };
struct Store { uint8_t tid; uint32_t clk; bool sc; uint64_t lo, hi; VC rel; };
struct Atom { std::vector<Store> s; uint64_t base = 0; std::vector<std::pair<uint32_t, uint64_t>> seen[MAXT]; int size; };
struct Mutex { int owner = -1, count = 0; VC vc; };
struct RW { int writer = -1; std::vector<int> readers; VC w, r; };

Thread T[MAXT]; int nthreads; bool active;
thread_local int self_id; thread_local int busy;
uint64_t until, points, nswitch, burst, schedule_hash;
std::unordered_map<uintptr_t, Cell>* cells; std::map<uintptr_t, Atom>* atoms;
std::map<void const*, Mutex>* mutexes; std::map<void const*, RW>* rws; std::map<void const*, VC>* syncs; std::map<void const*, int>* onces;
VC fence_vc;

struct Quiet { alloc::Host h; Quiet() { ++busy; } ~Quiet() { --busy; } };
inline bool tracked() { return active && self_id && !busy && alloc::in_target(); }

void hand_over(int to)
{
    int me = self_id; if (to == me) return;
    ++nswitch; schedule_hash = mix(schedule_hash, uint64_t(to) << 32 | (points & 0xffffffff)); evhash(schedule_hash);
    sem_post(&T[to].sem);
    if (!T[me].done) while (sem_wait(&T[me].sem)) {}
}
/// choose the next thread; the current one is candidate 0 if it can go on
void reschedule(bool can_stay)
{
    int cand[MAXT], n = 0;
    if (can_stay) cand[n++] = self_id;
    for (int k = 1; k <= nthreads; ++k) { int i = (self_id + k - 1) % nthreads + 1; if (i != self_id && !T[i].done && !T[i].wait) cand[n++] = i; }
    if (n == 0) {
        char b[400]; int o = 0;
        for (int i = 1; i <= nthreads; ++i) if (!T[i].done) o += snprintf(b + o, sizeof b - o, " thread %d in %s;", i, T[i].what);
        fail_now("deadlock", "no simulated thread can go on:%s", b);
    }
    int to = cand[n > 1 ? draw(SCHED, n) : 0];
    uint32_t e = draw(SCHED, 14); burst = 0;
    until = e == 0 ? ~0ull : 1 + draw(SCHED, 1u << (e > 9 ? e - 9 : e));
    hand_over(to);
}
void point_()
{
    if (++points > 20000000) fail_now("no-progress", "threads still run after %llu scheduling points; last in %s", (unsigned long long)points, T[self_id].what);
    if (--until == 0 || ++burst > 400000) { Quiet q; reschedule(true); }
}
void block(void const* on) { T[self_id].wait = on; reschedule(false); }
void wake(void const* on) { for (int i = 1; i <= nthreads; ++i) if (T[i].wait == on) T[i].wait = nullptr; }

std::string where(void* pc)
{
    Dl_info i; if (!dladdr(pc, &i)) return "?";
    char b[64]; snprintf(b, sizeof b, "+0x%zx", size_t((char*)pc - (char*)i.dli_fbase));
    if (!i.dli_sname) return b;
    int st = 0; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string r = d ? d : i.dli_sname; free(d); if (r.size() > 220) r = r.substr(0, 220) + "..."; return r;
}
[[noreturn]] void race(Access const& a, Access const& b, uintptr_t)
{
    fail_now("data-race", "%s%s of thread %d in %s (%s) is not ordered against the %s%s of thread %d in %s (%s)",
        b.atomic ? "atomic " : "", b.write ? "write" : "read", b.tid, b.what, where(b.pc).c_str(),
        a.atomic ? "atomic " : "", a.write ? "write" : "read", a.tid, a.what, where(a.pc).c_str());
}
void touch_cell(uintptr_t cell, uint8_t mask, bool write, bool atomic, void* pc)
{
    Thread& t = T[self_id]; Cell& c = (*cells)[cell];
    Access n{uint8_t(self_id), mask, write, atomic, t.vc.c[self_id], pc, t.what};
    size_t k = 0;
    for (size_t i = 0; i < c.a.size(); ++i) {
        Access const& o = c.a[i];
        bool before = o.tid == self_id || t.vc.c[o.tid] >= o.clk;
        if (!before && (o.mask & mask) && (o.write || write) && !(o.atomic && atomic)) race(o, n, cell);
        // superseded: earlier in order, no stronger than the new one
        if (before && (o.mask & ~mask) == 0 && (write || !o.write) && (!atomic || o.atomic)) continue;
        if (o.tid == self_id && o.mask == mask && o.write == write && o.atomic == atomic) continue;
        c.a[k++] = o;
    }
    c.a.resize(k); c.a.push_back(n);
}
void touch(uintptr_t a, size_t n, bool write, bool atomic, void* pc)
{
    while (n) { uintptr_t cell = a >> 3; unsigned off = a & 7; size_t m = 8 - off < n ? 8 - off : n; touch_cell(cell, uint8_t(((1u << m) - 1) << off), write, atomic, pc); a += m; n -= m; }
}
void erase_range(uintptr_t a, size_t n)
{
    for (uintptr_t c = a >> 3; c <= (a + n - 1) >> 3; ++c) cells->erase(c);
    atoms->erase(atoms->lower_bound(a), atoms->lower_bound(a + n));
}
inline bool own_stack(uintptr_t a) { Thread& t = T[self_id]; return a >= uintptr_t(t.lo) && a < uintptr_t(t.hi); }
void plain(void const* p, size_t n, bool write, void* pc)
{
    if (!tracked()) return;
    uintptr_t a = uintptr_t(p); if (own_stack(a) || !n) return;
    point_();
    Quiet q; touch(a, n, write, false, pc);
    if (write && !atoms->empty()) { auto b = atoms->lower_bound(a); while (b != atoms->end() && b->first < a + n) b = atoms->erase(b); }
}
void block_hook(void* p, size_t n, bool get)
{
    if (!active || busy || !n) return;
    Quiet q;
    if (!get && self_id) touch(uintptr_t(p), n, true, false, __builtin_return_address(0)); // release is a write
    erase_range(uintptr_t(p), n);
}
void clock_hook() { if (tracked()) point_(); }

// ---- atomics ----
enum { RLX = 0, CONSUME, ACQ, REL, ACQ_REL, SEQ };
template <class V> V raw(void const* p) { V v; memcpy(&v, p, sizeof v); return v; }
template <class V> Atom& atom(void const* p)
{
    auto r = atoms->emplace(uintptr_t(p), Atom());
    Atom& a = r.first->second;
    if (r.second) { a.size = sizeof(V); Store s{0, 0, false, 0, 0, VC()}; memcpy(&s.lo, p, sizeof(V) < 8 ? sizeof(V) : 8); a.s.push_back(s); }
    return a;
}
bool acquires(int mo) { return mo == ACQ || mo == ACQ_REL || mo == SEQ || mo == CONSUME; }
bool releases(int mo) { return mo == REL || mo == ACQ_REL || mo == SEQ; }
void saw(Atom& a, uint64_t idx) { auto& l = a.seen[self_id]; uint32_t k = T[self_id].vc.c[self_id]; if (l.empty() || l.back().second < idx) l.push_back({k, idx}); }
void record(Atom& a, uint64_t bits, int mo, bool rmw)
{
    Thread& t = T[self_id]; Store s{uint8_t(self_id), t.vc.c[self_id], mo == SEQ, bits, 0, VC()};
    if (releases(mo)) s.rel = t.vc;
    if (t.fenced) s.rel.join(t.vc);
    if (rmw && !a.s.empty()) s.rel.join(a.s.back().rel);
    a.s.push_back(s);
    if (a.s.size() > 8) { a.s.erase(a.s.begin()); ++a.base; }
    saw(a, a.base + a.s.size() - 1);
    if (releases(mo)) ++t.vc.c[self_id];
}
template <class V> uint64_t bits_of(V v) { uint64_t u = 0; memcpy(&u, &v, sizeof v < 8 ? sizeof v : 8); return u; }
template <class V> V load(void const volatile* vp, int mo, void* pc)
{
    void const* p = const_cast<void const*>(vp);
    if (!tracked() || own_stack(uintptr_t(p))) { V v = __atomic_load_n(static_cast<V const*>(p), __ATOMIC_SEQ_CST); return v; }
    point_();
    Quiet q; touch(uintptr_t(p), sizeof(V), false, true, pc);
    Atom& a = atom<V>(p); Thread& t = T[self_id]; uint64_t last = a.base + a.s.size() - 1, lb = a.base;
    for (uint64_t i = 0; i < a.s.size(); ++i) { Store& s = a.s[i]; if (t.vc.c[s.tid] >= s.clk || s.tid == self_id || (mo == SEQ && s.sc)) lb = a.base + i; }
    for (int u = 1; u <= nthreads; ++u) for (auto& e : a.seen[u]) if (u == self_id || t.vc.c[u] >= e.first) { if (e.second > lb) lb = e.second; }
    if (t.fenced) lb = last;
    uint64_t idx = last;
    if (lb < last && draw(SCHED, 3) == 2) { idx = last - draw(SCHED, uint32_t(last - lb + 1)); if (idx != last) count("fault:stale_atomic_load"); }
    Store& s = a.s[idx - a.base]; saw(a, idx);
    if (acquires(mo)) t.vc.join(s.rel);
    if (idx == last) return raw<V>(p);
    V v; memcpy(&v, &s.lo, sizeof(V) < 8 ? sizeof(V) : 8); return v;
}
template <class V> void store(void volatile* vp, V v, int mo, void* pc)
{
    void* p = const_cast<void*>(vp);
    if (!tracked() || own_stack(uintptr_t(p))) { __atomic_store_n(static_cast<V*>(p), v, __ATOMIC_SEQ_CST); return; }
    point_();
    Quiet q; touch(uintptr_t(p), sizeof(V), true, true, pc);
    Atom& a = atom<V>(p); memcpy(p, &v, sizeof v); record(a, bits_of(v), mo, false);
}
template <class V, class F> V rmw(void volatile* vp, int mo, void* pc, F f)
{
    V* p = static_cast<V*>(const_cast<void*>(vp));
    if (!tracked() || own_stack(uintptr_t(p))) {
        V o = __atomic_load_n(p, __ATOMIC_SEQ_CST); V n; do n = f(o); while (!__atomic_compare_exchange_n(p, &o, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)); return o;
    }
    point_();
    Quiet q; touch(uintptr_t(p), sizeof(V), true, true, pc);
    Atom& a = atom<V>(p); V o = raw<V>(p); V n = f(o); memcpy(p, &n, sizeof n);
    if (acquires(mo)) T[self_id].vc.join(a.s.back().rel);
    record(a, bits_of(n), mo, true); return o;
}
template <class V> int cas(void volatile* vp, void* expected, V desired, int mo, int fmo, void* pc)
{
    V* p = static_cast<V*>(const_cast<void*>(vp)); V* e = static_cast<V*>(expected);
    if (!tracked() || own_stack(uintptr_t(p))) return __atomic_compare_exchange_n(p, e, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    point_();
    Quiet q; Atom& a = atom<V>(p); V o = raw<V>(p);
    if (!memcmp(&o, e, sizeof o)) {
        touch(uintptr_t(p), sizeof(V), true, true, pc); memcpy(p, &desired, sizeof desired);
        if (acquires(mo)) T[self_id].vc.join(a.s.back().rel);
        record(a, bits_of(desired), mo, true); return 1;
    }
    touch(uintptr_t(p), sizeof(V), false, true, pc); saw(a, a.base + a.s.size() - 1);
    if (acquires(fmo)) T[self_id].vc.join(a.s.back().rel);
    memcpy(e, &o, sizeof o); return 0;
}
void fence() { if (!tracked()) return; point_(); Quiet q; Thread& t = T[self_id]; t.fenced = true; t.vc.join(fence_vc); fence_vc.join(t.vc); ++t.vc.c[self_id]; }

void* entry(void* v)
{
    Thread& t = *static_cast<Thread*>(v); self_id = t.id;
    while (sem_wait(&t.sem)) {}
    t.body(t.arg, t.id);
    while (!t.exits.empty()) { // the thread's own objects go before its end, as simulated code
        std::pair<void (*)(void*), void*> e; { Quiet q; e = t.exits.back(); t.exits.pop_back(); }
        t.what = "thread exit"; alloc::Target g; e.first(e.second);
    }
    Quiet q; t.done = true;
    T[0].vc.join(t.vc);
    for (int i = 1; i <= nthreads; ++i) if (!T[i].done) { reschedule(false); return nullptr; }
    sem_post(&T[0].sem);
    return nullptr;
}
void acquire_sync(void const* k) { auto i = syncs->find(k); if (i != syncs->end()) T[self_id].vc.join(i->second); }
void release_sync(void const* k) { (*syncs)[k].join(T[self_id].vc); ++T[self_id].vc.c[self_id]; }
} // namespace

int self() { return self_id; }
void label(char const* what) { T[self_id].what = what; }
void point() { if (active && self_id && !busy) point_(); }
uint64_t switches() { return nswitch; }
void access(void const* p, size_t n, bool write) { plain(p, n, write, __builtin_return_address(0)); }

void run(int n, Body body, void* arg)
{
    if (n > MAXT - 1) fail("harness", "too many threads");
    cells = new std::unordered_map<uintptr_t, Cell>; atoms = new std::map<uintptr_t, Atom>; mutexes = new std::map<void const*, Mutex>;
    rws = new std::map<void const*, RW>; syncs = new std::map<void const*, VC>; onces = new std::map<void const*, int>;
    nthreads = n; points = nswitch = burst = 0; until = ~0ull;
    for (int i = 0; i <= n; ++i) { T[i].id = i; T[i].body = body; T[i].arg = arg; T[i].done = false; T[i].wait = nullptr; T[i].fenced = false; T[i].what = "";
        sem_init(&T[i].sem, 0, 0); T[i].vc = VC(); T[i].vc.c[i] = 1; }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    for (int i = 1; i <= n; ++i) {
        if (pthread_create(&T[i].os, &at, entry, &T[i])) fail("harness", "cannot create a thread");
        pthread_attr_t a; pthread_getattr_np(T[i].os, &a); void* lo; size_t sz; pthread_attr_getstack(&a, &lo, &sz); pthread_attr_destroy(&a);
        T[i].lo = static_cast<char*>(lo); T[i].hi = T[i].lo + sz;
    }
    pthread_attr_destroy(&at);
    alloc::hook = block_hook; clk::hook = clock_hook; active = in_thread = true;
    int first = 1 + draw(SCHED, n); uint32_t e = draw(SCHED, 14);
    until = e == 0 ? ~0ull : 1 + draw(SCHED, 1u << (e > 9 ? e - 9 : e));
    sem_post(&T[first].sem);
    while (sem_wait(&T[0].sem)) {}
    active = in_thread = false; alloc::hook = nullptr; clk::hook = nullptr;
    for (int i = 1; i <= n; ++i) pthread_join(T[i].os, nullptr);
    delete cells; delete atoms; delete mutexes; delete rws; delete syncs; delete onces;
    count("context_switch", nswitch); steps(points); state(schedule_hash); evhash(schedule_hash);
}
}} // namespace sim::thr

using namespace sim::thr;
#define PC __builtin_return_address(0)

extern "C" {
extern char __libc_single_threaded;
void __tsan_init() { __libc_single_threaded = 0; }
int __real___cxa_thread_atexit(void (*)(void*), void*, void*);
int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void* d)
{
    if (!active || !self_id) return __real___cxa_thread_atexit(f, o, d);
    Quiet q; T[self_id].exits.emplace_back(f, o); return 0;
}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW_(n) void __tsan_read##n(void* p) { plain(p, n, false, PC); } void __tsan_write##n(void* p) { plain(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { plain(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { plain(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { plain(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { plain(p, n, true, PC); } \
    void __tsan_read_write##n(void* p) { plain(p, n, true, PC); }
RW_(1) RW_(2) RW_(4) RW_(8) RW_(16)
void __tsan_read_range(void* p, size_t n) { plain(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { plain(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { plain(p, 8, false, PC); }

typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
#define ATOMIC(N, V) \
    V __tsan_atomic##N##_load(V const volatile* p, int mo) { return load<V>(p, mo, PC); } \
    void __tsan_atomic##N##_store(V volatile* p, V v, int mo) { store<V>(p, v, mo, PC); } \
    V __tsan_atomic##N##_exchange(V volatile* p, V v, int mo) { return rmw<V>(p, mo, PC, [v](V) { return v; }); } \
    V __tsan_atomic##N##_fetch_add(V volatile* p, V v, int mo) { return rmw<V>(p, mo, PC, [v](V o) { return V(o + v); }); } \
    V __tsan_atomic##N##_fetch_sub(V volatile* p, V v, int mo) { return rmw<V>(p, mo, PC, [v](V o) { return V(o - v); }); } \
    V __tsan_atomic##N##_fetch_and(V volatile* p, V v, int mo) { return rmw<V>(p, mo, PC, [v](V o) { return V(o & v); }); } \
    V __tsan_atomic##N##_fetch_or(V volatile* p, V v, int mo) { return rmw<V>(p, mo, PC, [v](V o) { return V(o | v); }); } \
    V __tsan_atomic##N##_fetch_xor(V volatile* p, V v, int mo) { return rmw<V>(p, mo, PC, [v](V o) { return V(o ^ v); }); } \
    V __tsan_atomic##N##_fetch_nand(V volatile* p, V v, int mo) { return rmw<V>(p, mo, PC, [v](V o) { return V(~(o & v)); }); } \
    int __tsan_atomic##N##_compare_exchange_strong(V volatile* p, V* e, V d, int mo, int f) { return cas<V>(p, e, d, mo, f, PC); } \
    int __tsan_atomic##N##_compare_exchange_weak(V volatile* p, V* e, V d, int mo, int f) { return cas<V>(p, e, d, mo, f, PC); } \
    V __tsan_atomic##N##_compare_exchange_val(V volatile* p, V c, V d, int mo, int f) { V e = c; cas<V>(p, &e, d, mo, f, PC); return e; }
ATOMIC(8, a8) ATOMIC(16, a16) ATOMIC(32, a32) ATOMIC(64, a64)
void __tsan_atomic_thread_fence(int) { fence(); }
void __tsan_atomic_signal_fence(int) {}

// ---- C library routines called by the code under test ----
void* __real_memcpy(void*, void const*, size_t); void* __real_memmove(void*, void const*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(void const*, void const*, size_t);
void* __wrap_memcpy(void* d, void const* s, size_t n) { plain(s, n, false, PC); plain(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, void const* s, size_t n) { plain(s, n, false, PC); plain(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { plain(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(void const* a, void const* b, size_t n) { plain(a, n, false, PC); plain(b, n, false, PC); return __real_memcmp(a, b, n); }

// memory that does not pass through operator new: exception objects, malloc
static void* fresh(void* p, size_t n) { if (p && n && active && !busy) { Quiet q; erase_range(uintptr_t(p), n); } return p; }
void* __real___cxa_allocate_exception(size_t) noexcept;
void* __wrap___cxa_allocate_exception(size_t n) noexcept { return fresh(__real___cxa_allocate_exception(n), n); }
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { return fresh(__real_malloc(n), n); }
void* __wrap_calloc(size_t a, size_t b) { return fresh(__real_calloc(a, b), a * b); }
void* __wrap_realloc(void* p, size_t n) { return fresh(__real_realloc(p, n), n); }

// ---- locks ----
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
static int lock_mutex(pthread_mutex_t* m, bool wait)
{
    point_();
    Quiet q;
    for (;;) {
        Mutex& x = (*mutexes)[m];
        if (x.owner < 0) { x.owner = self_id; x.count = 1; T[self_id].vc.join(x.vc); return 0; }
        if (x.owner == self_id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++x.count; return 0; }
        if (!wait) return 16;
        if (x.owner == self_id) sim::fail_now("deadlock", "thread %d locks a mutex it holds in %s", self_id, T[self_id].what);
        sim::count("blocked_on_mutex");
        block(m);
    }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return tracked() ? lock_mutex(m, true) : __real_pthread_mutex_lock(m); }
int __real_pthread_mutex_timedlock(pthread_mutex_t*, timespec const*); int __real_pthread_mutex_clocklock(pthread_mutex_t*, clockid_t, timespec const*);
// no simulated lock is held forever, so that a timed wait ends by getting it
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* t) { return tracked() ? lock_mutex(m, true) : __real_pthread_mutex_timedlock(m, t); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, timespec const* t) { return tracked() ? lock_mutex(m, true) : __real_pthread_mutex_clocklock(m, c, t); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return tracked() ? lock_mutex(m, false) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!tracked()) return __real_pthread_mutex_unlock(m);
    { Quiet q; Mutex& x = (*mutexes)[m];
      if (x.owner != self_id) sim::fail_now("lock-misuse", "thread %d releases a mutex it does not hold in %s", self_id, T[self_id].what);
      if (--x.count) return 0;
      x.owner = -1; x.vc = T[self_id].vc; ++T[self_id].vc.c[self_id]; wake(m); }
    point_();
    return 0;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!tracked()) return __real_pthread_rwlock_rdlock(m);
    point_(); Quiet q; for (;;) { RW& x = (*rws)[m]; if (x.writer < 0) { x.readers.push_back(self_id); T[self_id].vc.join(x.w); return 0; } block(m); }
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!tracked()) return __real_pthread_rwlock_wrlock(m);
    point_(); Quiet q; for (;;) { RW& x = (*rws)[m]; if (x.writer < 0 && x.readers.empty()) { x.writer = self_id; T[self_id].vc.join(x.w); T[self_id].vc.join(x.r); return 0; } block(m); }
}
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (!tracked()) return __real_pthread_rwlock_tryrdlock(m);
    point_(); Quiet q; RW& x = (*rws)[m]; if (x.writer >= 0) return 16; x.readers.push_back(self_id); T[self_id].vc.join(x.w); return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (!tracked()) return __real_pthread_rwlock_trywrlock(m);
    point_(); Quiet q; RW& x = (*rws)[m]; if (x.writer >= 0 || !x.readers.empty()) return 16; x.writer = self_id; T[self_id].vc.join(x.w); T[self_id].vc.join(x.r); return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!tracked()) return __real_pthread_rwlock_unlock(m);
    { Quiet q; RW& x = (*rws)[m]; if (x.writer == self_id) { x.writer = -1; x.w = T[self_id].vc; }
      else for (size_t i = 0; i < x.readers.size(); ++i) if (x.readers[i] == self_id) { x.readers.erase(x.readers.begin() + i); x.r.join(T[self_id].vc); break; }
      ++T[self_id].vc.c[self_id]; wake(m); }
    point_(); return 0;
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
    if (!tracked()) return __real_pthread_once(o, f);
    point_();
    for (;;) {
        { Quiet q; if (*o & 2) { acquire_sync(o); return 0; } int& st = (*onces)[o]; if (st == 0) { st = 1; acquire_sync(o); break; } block(o); }
    }
    try { f(); } catch (...) { Quiet q; (*onces)[o] = 0; release_sync(o); wake(o); throw; }
    Quiet q; *o |= 2; (*onces)[o] = 2; release_sync(o); wake(o); return 0;
}
int __real___cxa_guard_acquire(long*); void __real___cxa_guard_release(long*); void __real___cxa_guard_abort(long*);
int sim_guard_acquire(long* g)
{
    if (!active || !self_id || busy) return __real___cxa_guard_acquire(g);
    if (tracked()) point_();
    Quiet q;
    for (;;) {
        if (*reinterpret_cast<char*>(g)) { acquire_sync(g); return 0; }
        int& st = (*onces)[g]; if (st == 0) { st = 1; acquire_sync(g); return 1; } // after the attempts that failed
        block(g);
    }
}
void sim_guard_release(long* g)
{
    if (!active || !self_id || busy) return __real___cxa_guard_release(g);
    Quiet q; (*onces)[g] = 0; release_sync(g); 
    // the byte read by the inline check is an atomic: readers of it are ordered after this
    Atom& a = atom<a8>(g); *reinterpret_cast<char*>(g) = 1; touch(uintptr_t(g), 1, true, true, PC); record(a, 1, SEQ, false); wake(g);
}
void sim_guard_abort(long* g)
{
    if (!active || !self_id || busy) return __real___cxa_guard_abort(g);
    Quiet q; (*onces)[g] = 0; release_sync(g); wake(g);
}
int __wrap_sched_yield() { if (tracked()) point_(); return 0; }
int __wrap_nanosleep(timespec const* t, timespec*) { sim::clk::advance(uint64_t(t->tv_sec) * 1000000000ull + t->tv_nsec); if (tracked()) { Quiet q; reschedule(true); } return 0; }

// ---- numerical library: runs uninstrumented, its accesses are declared here ----
#define GEMM(name, T) \
void __real_##name(char const*, char const*, int const*, int const*, int const*, T const*, T const*, int const*, T const*, int const*, T const*, T*, int const*); \
void __wrap_##name(char const* ta, char const* tb, int const* m, int const* n, int const* k, T const* al, T const* a, int const* lda, T const* b, int const* ldb, T const* be, T* c, int const* ldc) \
{ \
    if (tracked()) { \
        auto mat = [](T const* p, int r, int q, int ld, bool w) { for (int j = 0; j < q; ++j) access(p + size_t(j) * ld, size_t(r) * sizeof(T), w); }; \
        bool na = *ta == 'N' || *ta == 'n', nb = *tb == 'N' || *tb == 'n'; \
        mat(a, na ? *m : *k, na ? *k : *m, *lda, false); mat(b, nb ? *k : *n, nb ? *n : *k, *ldb, false); mat(c, *m, *n, *ldc, true); \
    } \
    __real_##name(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); \
}
GEMM(dgemm_, double) GEMM(sgemm_, float)
}

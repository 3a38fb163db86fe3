// Allocator seam: every allocation of the code under test (global operator new/delete and the
// aligned allocator of the stubbed blaze/util/Memory.h) passes here. Blocks still come from the
// process allocator, so that AddressSanitizer keeps its red zones.
#include "sim.h"
#include <cstdlib>
#include <new>

namespace sim { namespace alloc {

namespace {
enum Kind : uint8_t { EMPTY = 0, TOMB = 1, NEW = 2, ARRAY = 3, ALIGNED = 4 };
struct Entry { void* p; size_t n; Kind k; bool lasting; };
const size_t CAP = 1 << 17;
Entry table[CAP];
size_t nlive, nbytes, nlasting;
thread_local int depth, statics;
uint32_t countdown, counter, nfailed;
bool fired;
uint32_t jmode; uint64_t jseed = 1;

size_t slot(void const* p) { return mix(reinterpret_cast<uintptr_t>(p), 77) & (CAP - 1); }

Entry* find(void const* p)
{
    for (size_t i = slot(p), n = 0; n < CAP; i = (i + 1) & (CAP - 1), ++n) {
        if (table[i].k == EMPTY) return nullptr;
        if (table[i].k != TOMB && table[i].p == p) return &table[i];
    }
    return nullptr;
}
void insert(void* p, size_t n, Kind k)
{
    if ((nlive + nlasting) * 2 > CAP) { fail_now("harness", "allocation table full"); }
    size_t i = slot(p);
    while (table[i].k != EMPTY && table[i].k != TOMB) i = (i + 1) & (CAP - 1);
    // what a static variable obtains while it is initialised stays for the life of the program
    if (statics) { table[i] = Entry{p, n, k, true}; ++nlasting; return; }
    table[i] = Entry{p, n, k, false}; ++nlive; nbytes += n;
}
void fill(void* p, size_t n)
{
    unsigned char* c = static_cast<unsigned char*>(p);
    switch (jmode) {
    case 0: memset(c, 0, n); return;
    case 1: memset(c, 0xFF, n); return;               // NaN for floats, huge for sizes
    case 2: memset(c, 0x41, n); return;               // large finite doubles
    default:
        for (size_t i = 0; i < n; ++i) {
            jseed = jseed * 6364136223846793005ull + 1442695040888963407ull;
            c[i] = static_cast<unsigned char>(jseed >> 56);
        }
    }
}

void* get(size_t n, Kind k, size_t align)
{
    if (depth > 0) {
        ++counter;
        if (countdown && --countdown == 0) {
            fired = true; ++nfailed; count("fault:allocation_failure");
            return nullptr;
        }
    }
    if (n > (size_t(1) << 28)) { if (depth > 0) count("fault:memory_exhausted"); return nullptr; } // the simulated machine's memory
    void* p = nullptr;
    if (align > alignof(std::max_align_t)) { if (posix_memalign(&p, align, n ? n : 1)) p = nullptr; }
    else p = malloc(n ? n : 1);
    if (!p) return nullptr;
    if (depth > 0) { insert(p, n, k); Host h; fill(p, n); }
    if (hook) hook(p, n ? n : 1, true);
    return p;
}

void put(void* p, Kind k, const char* what)
{
    if (!p) return;
    Entry* e = find(p);
    if (e) {
        if (e->k != k) fail_now("mismatched-free", "%s releases a block of %zu bytes obtained by another allocator (kind %d)", what, e->n, e->k);
        if (hook) hook(p, e->n ? e->n : 1, false);
        { Host h; memset(p, 0xDD, e->n); }
        if (e->lasting) --nlasting; else { nbytes -= e->n; --nlive; }
        e->k = TOMB;
    } else if (k == ALIGNED) {
        fail_now("invalid-free", "%s releases an address that is not a live block", what);
    } else if (hook) hook(p, 0, false);
    free(p);
}
} // namespace

Hook hook;

Target::Target() { ++depth; }
Target::~Target() { --depth; }
Host::Host() : saved(depth) { depth = 0; }
Host::~Host() { depth = saved; }
void arm(uint32_t nth) { countdown = nth; counter = 0; fired = false; }
bool disarm() { countdown = 0; bool f = fired; fired = false; return f; }
uint32_t failures() { return nfailed; }
uint32_t seen() { return counter; }
void junk(uint32_t mode, uint64_t seed) { jmode = mode; jseed = seed * 2 + 1; }
size_t live() { return nlive; }
size_t live_bytes() { return nbytes; }
bool is_live(void const* p) { return find(p) != nullptr; }
void reset_live() { memset(table, 0, sizeof table); nlive = nbytes = nlasting = 0; }
bool in_target() { return depth > 0; }
char const* describe_live()
{
    static char buf[200]; size_t o = 0; int n = 0; buf[0] = 0;
    // sizes only, smallest first: addresses are not part of a run's identity
    size_t sizes[16]; int ns = 0;
    for (size_t i = 0; i < CAP; ++i) if (table[i].k > TOMB && !table[i].lasting) { if (ns < 16) sizes[ns++] = table[i].n; ++n; }
    for (int i = 0; i < ns; ++i) for (int j = i + 1; j < ns; ++j) if (sizes[j] < sizes[i]) { size_t t = sizes[i]; sizes[i] = sizes[j]; sizes[j] = t; }
    for (int i = 0; i < ns && o < 150; ++i) o += snprintf(buf + o, sizeof buf - o, "%zu ", sizes[i]);
    return buf;
}

}} // namespace sim::alloc

using namespace sim::alloc;

extern "C" { // initialisation of function-local static variables
int __real___cxa_guard_acquire(long*); void __real___cxa_guard_release(long*); void __real___cxa_guard_abort(long*);
__attribute__((weak)) int sim_guard_acquire(long*); __attribute__((weak)) void sim_guard_release(long*); __attribute__((weak)) void sim_guard_abort(long*);
int __wrap___cxa_guard_acquire(long* g) { int r = sim_guard_acquire ? sim_guard_acquire(g) : __real___cxa_guard_acquire(g); if (r) ++statics; return r; }
void __wrap___cxa_guard_release(long* g) { --statics; sim_guard_release ? sim_guard_release(g) : __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(long* g) { --statics; sim_guard_abort ? sim_guard_abort(g) : __real___cxa_guard_abort(g); }
}

void* operator new(size_t n) { void* p = get(n, NEW, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n, ARRAY, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return get(n, NEW, 0); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return get(n, ARRAY, 0); }
void* operator new(size_t n, std::align_val_t a) { void* p = get(n, NEW, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = get(n, ARRAY, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { put(p, NEW, "operator delete"); }
void operator delete[](void* p) noexcept { put(p, ARRAY, "operator delete[]"); }
void operator delete(void* p, size_t) noexcept { put(p, NEW, "operator delete"); }
void operator delete[](void* p, size_t) noexcept { put(p, ARRAY, "operator delete[]"); }
void operator delete(void* p, std::align_val_t) noexcept { put(p, NEW, "operator delete"); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p, ARRAY, "operator delete[]"); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p, NEW, "operator delete"); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p, ARRAY, "operator delete[]"); }

extern "C" void* sim_aligned_alloc(size_t n) { void* p = get(n, ALIGNED, 32); if (!p) throw std::bad_alloc(); return p; }
extern "C" void sim_aligned_free(void* p) { put(p, ALIGNED, "deallocate"); }

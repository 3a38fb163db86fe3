// World "track" (property C07): simulated threads enter, nest, leave and throw out of tracked
// scopes, run tracked operations of the library and print the totals, while the scheduler
// interleaves them and time passes.
#include "model.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#include "BlasBooster/Utilities/Tracker.h"
using namespace mdl;
using sim::draw; using sim::OPS; using sim::FAULTS;

namespace {
struct Leave {};
const int NID = int(bb::TrackerID::size);
const char* const names[] = {"OpenBLAS_dgemm", "OpenBLAS_sgemm", "IntelMKL_dgemm", "IntelMKL_sgemm", "IntelMKL_dcsrmm", "IntelMKL_scsrmm", "IntelMKL_dcsrmultcsr", "IntelMKL_scsrmultcsr",
    "Eigen_dgemm", "Eigen_sgemm", "Eigen_sdgemm", "Eigen_dsgemm", "Blaze_dgemm", "Blaze_sgemm", "Blaze_sdgemm", "Blaze_dsgemm", "Native_GeneralDense", "Native_sparse",
    "Native_sparse_dense", "Native_dense_sparse", "Native_matrix_zero", "Native_zero_matrix", "Native_zero_zero", "get_detection_arrays", "get_block_size"};
static_assert(sizeof names / sizeof *names == size_t(bb::TrackerID::size), "tracker names");

struct Tally { uint64_t started[NID] = {}, ended[NID] = {}, maybe[NID] = {}, lo[NID] = {}, hi[NID] = {}, shown[NID] = {}; };
template <class F> struct OnExit { F f; ~OnExit() { f(); } };
struct Plan { int kind, id, way, nest; uint32_t wait, nth, times; Plan* inner; };

struct TrackWorld {
    bool faults; int nthr; std::vector<Plan> plan[8]; Tally total, own[8]; std::vector<std::unique_ptr<Plan>> pool;
    // operands of the tracked operations, shared and unmodified
    std::shared_ptr<DD> d; std::shared_ptr<DF> f; std::shared_ptr<SD> s; std::shared_ptr<ZZ> z;
    struct Print { uint64_t lo[NID], hi[NID]; };

    Plan draw_plan(int depth) {
        Plan p; p.kind = int(draw(OPS, 10)); p.id = int(draw(OPS, 4)) ? int(draw(OPS, 3)) * 8 : int(draw(OPS, NID)); p.way = int(draw(OPS, 4)); p.wait = draw(OPS, 6); if (p.wait == 5) p.wait = draw(OPS, 4) ? 0 : 5 + draw(OPS, 2); p.nest = 0; p.inner = nullptr;
        p.nth = faults ? draw(FAULTS, 5) : 0; p.times = 1;
        if (depth < 2 && p.kind < 6 && draw(OPS, 3) == 2) { pool.emplace_back(new Plan(draw_plan(depth + 1))); p.inner = pool.back().get(); }
        else if (depth == 0 && p.kind < 6 && draw(OPS, 24) == 23) { p.times = draw(OPS, 60) == 59 ? 65600 : 1 + draw(OPS, 600); sim::count(p.times > 65535 ? "more than 65535 calls" : "many calls"); }
        return p;
    }
    template <int I> void scope(Plan const& p) {
        if (p.way == 3) { // left by an exception while another one unwinds the stack
            Plan q = p; q.way = 1; auto f = [&] { scope<I>(q); };
            try { OnExit<decltype(f)> g{f}; throw Leave(); } catch (Leave const&) {}
            return;
        }
        Tally& me = own[sim::thr::self()];
        uint64_t t0 = sim::clk::mono(), t1 = 0, t2 = 0; ++total.started[I]; ++me.started[I];
        try {
            sim::alloc::Target t;
            bb::Tracker<bb::TrackerID(I)> tr;
            { sim::alloc::Host h; t1 = sim::clk::mono(); sim::thr::point(); static const uint64_t w[] = {0, 1, 1000, 1000000, 5000000000ull, 400000000000000ull, 40000000000000000ull}; sim::clk::advance(w[p.times > 1 ? p.wait % 5 : p.wait]); if (p.wait > 4 && p.times == 1) sim::count("days in a scope"); if (p.inner) step(*p.inner); t2 = sim::clk::mono(); if (p.way == 1) throw Leave(); }
        } catch (Leave const&) {}
        ++total.ended[I]; ++me.ended[I]; total.lo[I] += t2 - t1; me.lo[I] += t2 - t1; total.hi[I] += sim::clk::mono() - t0;
    }
    template <int... I> void dispatch(int id, Plan const& p, std::integer_sequence<int, I...>) { (void)std::initializer_list<int>{(id == I ? (scope<I>(p), 0) : 0)...}; }

    template <class F> void tracked(std::initializer_list<bb::TrackerID> ids, Plan const& p, F f) {
        Tally& me = own[sim::thr::self()]; uint64_t t0 = sim::clk::mono(); for (auto i : ids) ++total.started[int(i)], ++me.started[int(i)];
        bool oom = false;
        try { sim::alloc::Target t; f(); } catch (std::bad_alloc const&) { oom = true; sim::count("probe:operation_failed_on_allocation"); }
        // where a failing allocation ended it is the operation's own business: its calls may or may not have begun
        for (auto i : ids) { if (oom) ++me.maybe[int(i)]; else ++total.ended[int(i)], ++me.ended[int(i)]; total.hi[int(i)] += sim::clk::mono() - t0; }
        (void)p;
    }
    void library(Plan const& p) {
        using I = bb::TrackerID;
        DD const& D = *d; DF const& F = *f; SD const& S = *s; ZZ const& Z = *z;
        switch (p.id % 8) {
        case 0: tracked({I::Native_GeneralDense}, p, [&] { DD c = (D * D).execute<bb::Native>(); }); break;
        case 1: tracked({I::OpenBLAS_dgemm}, p, [&] { DD c = (D * D).execute<bb::OpenBLAS>(); }); break;
        case 2: tracked({I::OpenBLAS_sgemm}, p, [&] { DF c = (F * F).execute<bb::OpenBLAS>(); }); break;
        case 3: tracked({I::Native_sparse}, p, [&] { SD c = (S * S).execute<bb::Native>(); }); break;
        case 4: tracked({I::Native_sparse_dense}, p, [&] { DD c = (S * D).execute<bb::Native>(); }); break;
        case 5: tracked({I::Native_dense_sparse}, p, [&] { DD c = (D * S).execute<bb::Native>(); }); break;
        case 6: tracked({I::Native_matrix_zero}, p, [&] { ZZ c = (D * Z).execute<bb::Native>(); }); break;
        default: tracked({I::Native_zero_zero}, p, [&] { ZZ c = (Z * Z).execute<bb::Native>(); });
        }
    }
    struct Row { uint64_t n; uint64_t t; };
    /// false: the report failed on an allocation
    bool print(std::vector<Row>& r) {
        uint32_t failed = sim::alloc::failures(); std::ostringstream o; try { sim::alloc::Target t; struct Buf : std::streambuf { std::string s; int overflow(int c) override { sim::alloc::Host h; s += char(c); return 0; } std::streamsize xsputn(char const* p, std::streamsize n) override { sim::alloc::Host h; s.append(p, n); return n; } } b; std::ostream os(&b); bb::TrackerRegister::print(os); sim::alloc::Host h; if (!os || sim::alloc::failures() != failed) return false; o << b.s; } // streams lose what they cannot store
            catch (std::bad_alloc const&) { return false; }
        r.assign(NID, Row{0, 0}); std::istringstream in(o.str()); std::string line; bool data = false; std::vector<int> seen(NID);
        while (std::getline(in, line)) {
            if (line.find("----") == 0) { data = true; continue; } if (!data || line.empty()) continue;
            std::istringstream l(line); std::string name, unit; long long n, t; if (!(l >> name >> n >> t >> unit) || unit != "ns") sim::fail_now("malformed-report", "tracker line '%s'", line.c_str());
            int k = -1; for (int i = 0; i < NID; ++i) if (name == names[i]) k = i;
            if (k < 0 || seen[k]++) sim::fail_now("malformed-report", "unexpected tracker line '%s'", line.c_str());
            if (t < 0 || n < 0) sim::fail_now("wrong-time", "tracker line '%s'", line.c_str());
            r[k] = Row{uint64_t(n), uint64_t(t)};
        }
        if (!data) sim::fail_now("malformed-report", "no table in '%s'", o.str().c_str());
        return true;
    }
    void check_print() {
        // what this thread completed is in the totals, what it has not left yet is not; of the other
        // threads' calls any number may be, but never fewer than this thread has already seen
        Tally& me = own[sim::thr::self()];
        std::vector<Row> r; if (!print(r)) return;
        for (int i = 0; i < NID; ++i) {
            uint64_t lo = std::max(me.ended[i], me.shown[i]), hi = total.started[i] - (me.started[i] - me.ended[i] - me.maybe[i]); me.shown[i] = std::max(me.shown[i], r[i].n);
            if (r[i].n < lo || r[i].n > hi) sim::fail_now("wrong-count", "%s: printed %llu calls while between %llu and %llu had been made", names[i], (unsigned long long)r[i].n, (unsigned long long)lo, (unsigned long long)hi);
            if (r[i].t < me.lo[i]) sim::fail_now("wrong-time", "%s: printed %llu ns while at least %llu ns had been tracked", names[i], (unsigned long long)r[i].t, (unsigned long long)me.lo[i]);
        }
    }
    void step(Plan const& p) {
        if (p.kind < 6) { sim::thr::label("tracked scope"); for (uint32_t k = 0; k < p.times; ++k) dispatch(p.id, p, std::make_integer_sequence<int, NID>()); }
        else if (p.kind < 8) { sim::thr::label("tracked operation"); library(p); }
        else { sim::thr::label("print"); check_print(); }
    }
    static void body(void* w, int id) { TrackWorld& t = *static_cast<TrackWorld*>(w); for (auto& p : t.plan[id]) { t.step(p); if (p.nth && p.kind >= 6) sim::alloc::arm(p.nth); } }
    void go() {
        sim::clk::read_cost(draw(OPS, 2) * 25); nthr = draw(OPS, 16) == 15 ? 5 + int(draw(OPS, 3)) : 1 + int(draw(OPS, 4)); draw_junk();
        Ref x = gen(2, 2), y = gen(2, 2);
        { sim::alloc::Target t; d = Make<DD>::make(x); f = Make<DF>::make(x); s = Make<SD>::make(y); z = Make<ZZ>::make(x); }
        // threads of a second wave start after those of the first one have ended; the main thread works between them
        uint32_t waves = draw(OPS, 4) == 3 ? 2 : 1;
        for (uint32_t v = 0; v < waves; ++v) { wave(v); }
        { sim::alloc::Target t; d.reset(); f.reset(); s.reset(); z.reset(); }
        if (sim::alloc::live()) sim::fail("leak", "%zu blocks still allocated (sizes %s)", sim::alloc::live(), sim::alloc::describe_live());
    }
    void wave(uint32_t v) {
        for (auto& p : plan) p.clear();
        if (draw(OPS, 3) == 2) { uint32_t n = 1 + draw(OPS, 2); for (uint32_t k = 0; k < n; ++k) { sim::Span sp; Plan p = draw_plan(0); step(p); sim::count("calls of the main thread"); } }
        if (v) sim::count("second waves");
        for (int i = 1; i <= nthr; ++i) { uint32_t n = 1 + draw(OPS, 5); for (uint32_t k = 0; k < n; ++k) { sim::Span sp; plan[i].push_back(draw_plan(0)); } }
        sim::thr::run(nthr, body, this);
        sim::alloc::disarm(); sim::count(nthr > 1 ? "runs with several threads" : "runs with one thread");
        for (int rep = 0; rep < 2; ++rep) {
            std::vector<Row> r; if (!print(r)) sim::fail("malformed-report", "printing the totals failed");
            for (int i = 0; i < NID; ++i) {
                sim::ev("%s %llu", names[i], (unsigned long long)r[i].n);
                if (r[i].n < total.ended[i] || r[i].n > total.started[i]) sim::fail("wrong-count", "%s: %llu calls were tracked, %llu were made (print %d)", names[i], (unsigned long long)r[i].n, (unsigned long long)total.started[i], rep);
                if (r[i].t < total.lo[i] || r[i].t > total.hi[i]) sim::fail("wrong-time", "%s: %llu ns were tracked, between %llu and %llu ns passed", names[i], (unsigned long long)r[i].t, (unsigned long long)total.lo[i], (unsigned long long)total.hi[i]);
            }
        }
    }
};
}
SIM_WORLD(track_threads, "track/threads") { static TrackWorld w; w.faults = false; w.go(); }
SIM_WORLD(track_faults, "track/faults") { static TrackWorld w; w.faults = true; w.go(); }

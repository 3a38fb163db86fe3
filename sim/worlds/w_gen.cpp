// World "gen" (property C13): simulated threads generate matrices from seeds and parameters, in any
// order and interleaving, over junk-filled memory and with failing allocations. Every matrix
// generated from the same parameters is the same, bit for bit, and lies in the requested range.
#include "model.h"
#include "BlasBooster/Core/MatrixFiller.h"
#include "BlasBooster/MatrixFactory/MatrixGenerator.h"
#include <map>
using namespace mdl;
using sim::draw; using sim::OPS; using sim::FAULTS;

namespace {
struct Param { uint32_t seed; double lo, hi; size_t r, c; bool operator<(Param const& o) const { return std::tie(seed, lo, hi, r, c) < std::tie(o.seed, o.lo, o.hi, o.r, o.c); } };
struct Plan { int op; Param p; double v; uint32_t nth; int keep; };

struct GenWorld {
    bool faults; int nthr; std::vector<Plan> plan[8]; std::map<Param, std::vector<double>> first;
    std::unique_ptr<bb::MatrixGenerator> shared; Param sp;

    Param param() {
        static const double lim[] = {0.0, 1.0, 9.0, 0.5, -2.0, 300.0, 3.0};
        Param p; uint32_t k = draw(OPS, 6); p.seed = k < 4 ? k : k == 4 ? 4294967295u : draw(OPS, 1u << 31);
        p.lo = lim[draw(OPS, 6)]; p.hi = lim[draw(OPS, 7)]; if (p.hi < p.lo) std::swap(p.lo, p.hi);
        uint32_t z = draw(OPS, 12); p.r = 1 + draw(OPS, z == 10 ? 40 : 6); p.c = 1 + draw(OPS, z == 10 ? 40 : 6); if (z == 11) (draw(OPS, 2) ? p.r : p.c) = 1 + draw(OPS, 400); return p;
    }
    bb::MatrixGenerator::Settings settings(Param const& p) { return bb::MatrixGenerator::Settings().set_seed(p.seed).set_minValue(p.lo).set_maxValue(p.hi); }
    void verify(DD const& m, Param const& p) {
        sim::alloc::Host h; Ref x = read(m, "generated matrix");
        if (x.r != p.r || x.c != p.c) sim::fail("wrong-shape", "asked for %zux%zu, generated %zux%zu", p.r, p.c, x.r, x.c);
        double lo = std::pow(10, -p.hi) * (1 - 1e-12), hi = std::pow(10, -p.lo) * (1 + 1e-12);
        for (double v : x.v) if (!(std::abs(v) >= lo && std::abs(v) <= hi)) sim::fail("out-of-range", "element %.17g generated for 10^-[%g,%g], seed %u", v, p.lo, p.hi, p.seed);
        auto r = first.emplace(p, x.v);
        if (!r.second) { sim::count("probe:generated_again"); if (memcmp(r.first->second.data(), x.v.data(), x.v.size() * sizeof(double))) sim::fail("not-reproducible", "seed %u, 10^-[%g,%g], %zux%zu: %s now, other elements before", p.seed, p.lo, p.hi, p.r, p.c, x.str().c_str()); }
        sim::count("generated");
    }
    template <class F> bool op(char const* w, F f) {
        sim::thr::label(w);
        try { sim::alloc::Target t; f(); return true; }
        catch (std::bad_alloc const&) { sim::count("probe:operation_failed_on_allocation"); if (!faults) sim::fail("unexpected-exception", "%s throws bad_alloc although no allocation failed", w); return false; }
        catch (std::exception const& e) { sim::fail("unexpected-exception", "%s throws: %s", w, e.what()); }
    }
    template <class M, class Filler> void filled(char const* w, Param const& p, Filler const& f, std::function<double(size_t, size_t)> want) {
        alignas(M) unsigned char b[sizeof(M)]; M* m = nullptr;
        if (!op(w, [&] { if constexpr (std::is_same<M, SD>::value) m = new (b) M(p.r, p.c, p.r * p.c, f); else m = new (b) M(p.r, p.c, f); })) return;
        Ref x = read(static_cast<M const&>(*m), w); sim::count(w);
        if (x.r != p.r || x.c != p.c) sim::fail("wrong-shape", "%s: asked for %zux%zu, got %zux%zu", w, p.r, p.c, x.r, x.c);
        for (size_t j = 0; j < x.c; ++j) for (size_t i = 0; i < x.r; ++i) if (x.at(i, j) != want(i, j)) sim::fail("wrong-element", "%s: element (%zu,%zu) is %.17g, expected %.17g", w, i, j, x.at(i, j), want(i, j));
        sim::alloc::Target t; m->~M();
    }
    void step(Plan const& pl) {
        Param p = pl.p; sim::alloc::arm(pl.nth);
        switch (pl.op) {
        case 0: case 1: case 2: { alignas(DD) unsigned char b[sizeof(DD)]; DD* m = nullptr; 
            if (op("generate", [&] { bb::MatrixGenerator g(p.r, p.c, settings(p)); if (g.getNbRows() != p.r || g.getNbColumns() != p.c) sim::fail("wrong-shape", "factory says %zux%zu", g.getNbRows(), g.getNbColumns()); m = new (b) DD(g()); })) { verify(*m, p); sim::alloc::Target t; m->~DD(); } break; }
        case 3: case 4: { alignas(DD) unsigned char b[sizeof(DD)]; DD* m = nullptr; // the same generator is used again, and by several threads
            if (op("generate again", [&] { bb::MatrixFactory const& f = *shared; m = new (b) DD(f()); })) { verify(*m, sp); sim::alloc::Target t; m->~DD(); } break; }
        case 5: filled<DD>("AllFiller", p, bb::AllFiller<double>(pl.v), [&](size_t, size_t) { return pl.v; }); break;
        case 6: filled<DD>("ContinuousNumberFiller", p, bb::ContinuousNumberFiller(), [&](size_t i, size_t j) { return double(1 + i + j * p.r); }); break;
        case 7: filled<RD>("ContinuousNumberFiller row-major", p, bb::ContinuousNumberFiller(), [&](size_t i, size_t j) { return double(1 + j + i * p.c); }); break;
        case 8: filled<DD>("HilbertFiller", p, bb::HilbertFiller(), [&](size_t i, size_t j) { return 1.0 / double(i + j + 1); }); break;
        case 9: filled<RD>("HilbertFiller row-major", p, bb::HilbertFiller(), [&](size_t i, size_t j) { return 1.0 / double(i + j + 1); }); break;
        case 10: filled<SD>("ContinuousNumberFiller sparse", p, bb::ContinuousNumberFiller(), [&](size_t i, size_t j) { return double(1 + i + j * p.r); }); break;
        case 11: filled<DF>("AllFiller float", p, bb::AllFiller<double>(pl.v), [&](size_t, size_t) { return double(float(pl.v)); }); break;
        case 12: p.c = p.r; filled<DD>("DiagonalFiller", p, bb::DiagonalFiller<double>(pl.v), [&](size_t i, size_t j) { return i == j ? pl.v : 0.0; }); break;
        default: if (p.r == p.c) ++p.c; { bool refused = false; sim::thr::label("DiagonalFiller");
            try { sim::alloc::Target t; DD m(p.r, p.c, bb::DiagonalFiller<double>(pl.v)); } catch (std::bad_alloc const&) { refused = true; } catch (std::exception const&) { refused = true; }
            if (!refused) sim::fail("not-refused", "DiagonalFiller fills a %zux%zu matrix", p.r, p.c); }
        }
        sim::alloc::disarm();
    }
    static void body(void* w, int id) { GenWorld& g = *static_cast<GenWorld*>(w); for (auto& p : g.plan[id]) g.step(p); }
    void go() {
        draw_junk(); nthr = draw(OPS, 16) == 15 ? 4 + int(draw(OPS, 4)) : 1 + int(draw(OPS, 3)); sp = param(); Param q[3] = {param(), param(), sp};
        { sim::alloc::Target t; shared.reset(new bb::MatrixGenerator(sp.r, sp.c, settings(sp))); }
        for (int i = 1; i <= nthr; ++i) { uint32_t n = 1 + draw(OPS, 5); for (uint32_t k = 0; k < n; ++k) { sim::Span s; Plan p; p.op = int(draw(OPS, 14)); p.p = q[draw(OPS, 3)]; p.v = double(draw(OPS, 100)) / 8 - 3; p.nth = faults ? draw(FAULTS, 5) : 0; plan[i].push_back(p); } }
        sim::thr::run(nthr, body, this); sim::alloc::disarm();
        // and once more alone, over other memory contents
        sim::alloc::junk(draw(FAULTS, 4), 7);
        for (int k = 0; k < 3; ++k) { sim::alloc::Target t; DD m = bb::MatrixGenerator(q[k].r, q[k].c, settings(q[k]))(); verify(m, q[k]); }
        { sim::alloc::Target t; shared.reset(); }
        uint64_t h = 1; for (auto& f : first) { h = sim::mix(h, sim::hash_bytes(f.second.data(), f.second.size() * 8)); } sim::state(h); sim::evhash(h);
        if (sim::alloc::live()) sim::fail("leak", "%zu blocks still allocated (sizes %s)", sim::alloc::live(), sim::alloc::describe_live());
    }
};
}
SIM_WORLD(gen_threads, "gen/threads") { static GenWorld w; w.faults = false; w.go(); }
SIM_WORLD(gen_faults, "gen/faults") { static GenWorld w; w.faults = true; w.go(); }

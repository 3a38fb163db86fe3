// World "det" (property C16): one seeded history of operations is executed three times over
// differently filled heaps and stacks. Every result (bit for bit), every refusal, the number of
// allocations and the number of tracked calls must be the same each time.
//   det/repeat : no faults     det/faults : the same allocations fail each time
#include "model.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Core/Norm.h"
#include "BlasBooster/Utilities/Tracker.h"
#ifdef WITH_OPENBLAS
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#endif
using namespace mdl;
using sim::draw; using sim::OPS; using sim::FAULTS;

namespace {
__attribute__((noinline)) void paint(uint32_t mode) {
    volatile unsigned char a[24576]; uint64_t h = mode;
    for (size_t i = 0; i < sizeof a; ++i) { if (mode == 0) a[i] = 0; else if (mode == 1) a[i] = 0xFF; else { h = h * 6364136223846793005ull + 1442695040888963407ull; a[i] = (unsigned char)(h >> 57); } }
    asm volatile("" : : "r"(a) : "memory");
}

struct DetWorld {
    struct Step { std::string what; uint64_t h; std::string text; };
    enum { N = 5 };
    bool faults; std::vector<Step> trace; uint32_t mode = 0; uint64_t h = 0; std::string text;
    DynamicMatrix s[N]; int big = 6;

    void note(uint64_t v) { h = sim::mix(h, v); }
    void note(std::string const& t) { sim::alloc::Host g; note(sim::hash_bytes(t.data(), t.size())); if (text.size() < 400) text += t; }
    void bits(double v) { sim::alloc::Host g; uint64_t u; memcpy(&u, &v, 8); note(v == v ? u : 1); if (text.size() < 200) { text += num(v); text += ' '; } }
    void bits(Ref const& x) { sim::alloc::Host g; note(x.r * 1000 + x.c); if (text.size() < 400) text += std::to_string(x.r) + "x" + std::to_string(x.c) + ": "; for (double v : x.v) bits(v); }

    // values whose sums depend on the order of summation
    Ref values(size_t r, size_t c) {
        Ref x = gen(r, c); uint64_t sd = draw(OPS, 1u << 20); bool tame = draw(OPS, 3) == 0;
        for (size_t i = 0; i < x.v.size(); ++i) if (x.v[i] != 0.0 && !tame) { uint64_t q = sim::mix(sd, i); x.v[i] *= std::ldexp(1.0 + double(q & 0xFFFFF) / 1048577.0, int((q >> 20) % 40) - 30); }
        return x;
    }
    DynamicMatrix build(Ref const& x, int k) {
        switch (k) { case 0: return Make<DD>::make(x); case 1: return Make<SD>::make(x); case 2: return Make<MSD>::make(x); case 3: return Make<DF>::make(x);
        case 4: return Make<SF>::make(x); case 5: return Make<MSS>::make(x); default: return Make<ZZ>::make(x); }
    }
    void create(int i, size_t r, size_t c) { int k = int(draw(OPS, 7)); Ref x = values(r, c); sim::alloc::Target t; s[i].reset(); s[i] = build(x, k); }
    size_t dim() { return 1 + draw(OPS, uint32_t(big)); }
    size_t rows(int i) { return bb::getNbRows(s[i]); } size_t cols(int i) { return bb::getNbColumns(s[i]); }
    void need(int i) { if (!s[i]) create(i, dim(), dim()); }

    template <class F> void run(char const* what, F f) {
        paint(mode); uint32_t nth = faults ? draw_nth() : 0; sim::alloc::arm(nth); size_t live = sim::alloc::live();
        h = 0; text.clear(); int out = 0; std::string why;
        uint64_t c0[25]; for (int i = 0; i < 25; ++i) c0[i] = bb::TrackerRegister::count[i];
        try { sim::alloc::Target t; f(); }
        catch (std::bad_alloc const&) { out = 1; }
        catch (sim::Violation&) { throw; }
        catch (std::exception const& e) { out = 2; sim::alloc::Host g; why = e.what(); }
        uint32_t seen = sim::alloc::seen(); sim::alloc::disarm();
        if (out == 1) { h = 0; text = "out of memory"; } if (out == 2) { h = 0; note(why); }
        note(out); note(seen); for (int i = 0; i < 25; ++i) note(bb::TrackerRegister::count[i] - c0[i]);
        (void)live; text += " [allocations " + std::to_string(seen) + ", outcome " + std::to_string(out) + "]";
        trace.push_back(Step{what, h, text}); sim::count(what);
    }
    template <class R> void show(R const& r) { sim::alloc::Host g; bits(read(r, "result")); }

    void op() {
        int i = int(draw(OPS, N)), j = int(draw(OPS, N)), d = int(draw(OPS, N)); uint32_t k = draw(OPS, 18);
        need(i);
        switch (k) {
        case 0: case 1: case 2: { // sum, difference
            if (!s[j] || rows(j) != rows(i) || cols(j) != cols(i)) { j = (i + 1) % N; create(j, rows(i), cols(i)); }
            DynamicMatrix r; run(k ? "dynamic -" : "dynamic +", [&] { DynamicMatrix const& a = s[i]; DynamicMatrix const& b = s[j]; r = k ? a - b : a + b; show(r); });
            sim::alloc::Target t; if (r) s[d] = r; break; }
        case 3: case 4: case 5: {
            if (!s[j] || rows(j) != cols(i)) { j = (i + 1) % N; create(j, cols(i), dim()); }
            DynamicMatrix r; run(k == 3 ? "dynamic * Native" : "dynamic * TheBestPolicy", [&] { DynamicMatrix const& a = s[i]; DynamicMatrix const& b = s[j]; if (k == 3) r = (a * b).execute<bb::Native>(); else r = (a * b).execute<bb::TheBestPolicy>(); show(r); });
            sim::alloc::Target t; if (r) s[d] = r; break; }
        case 6: { if (!s[j] || rows(j) != rows(i) || cols(j) != cols(i)) { j = (i + 1) % N; create(j, rows(i), cols(i)); }
            bool plus = draw(OPS, 2); run(plus ? "dynamic +=" : "dynamic -=", [&] { if (plus) s[i] += s[j]; else s[i] -= s[j]; show(s[i]); });
            if (trace.back().text.find("outcome 0") == std::string::npos) { sim::alloc::Target t; s[i].reset(); } break; }
        case 7: { run("norm and occupation", [&] { size_t t = s[i]->getTypeIndex(); if (t != 4 && t != 5) { bits(bb::getNorm(s[i])); { DD a(s[i]); bits(a.getOccupation(bb::AbsoluteValueRangeChecker<double>(0.5))); } note(bb::isNormLargerThan(s[i], 1.0)); } note(bb::getSize(s[i])); }); break; }
        case 8: { // conversions
            run("conversions", [&] { DD a(s[i]); show(a); SD b(a, bb::AbsoluteValueRangeChecker<double>(0.01)); show(b); DF c(a); show(c); RD e(a); show(e); SF g(c); show(g); ZZ z(a); show(z); DD q(e); show(q); }); break; }
        case 9: { run("transpose", [&] { DD a(s[i]); show(bb::transpose(a)); RD r(a); show(bb::transpose(r)); }); break; }
        case 10: { // fillers and resizing over recycled memory
            size_t r = dim(), c = dim(); run("fill and resize", [&] { DD a(r, c, bb::AllFiller<double>(0.5)); show(a); a.resize(c + 1, r, bb::AllFiller<double>(0.25)); show(a); RD b(c, r, bb::AllFiller<double>(2)); show(b); b.fill(3); show(b); a = 7.0; show(a); bits(a.getNorm()); }); break; }
        case 11: { double lo = draw(OPS, 4) / 16.0, hi = lo + 1 / 16.0; bb::Threshold th(bb::ThresholdSettings().set_significanceThresholdSinglePrecision(hi).set_significanceThresholdDoublePrecision(lo));
            run("convert by thresholds", [&] { DD a(s[i]); DynamicMatrix r = bb::MatrixConverter()(a, th); note(r->getTypeIndex()); show(r); }); break; }
        case 12: case 13: { // blocks
            size_t mn = draw(OPS, 3), mx = std::max<size_t>(1, 2 * mn) + draw(OPS, 3); double lo = draw(OPS, 4) / 16.0, hi = lo + 1 / 16.0;
            bb::Threshold th(bb::ThresholdSettings().set_significanceThresholdSinglePrecision(hi).set_significanceThresholdDoublePrecision(lo));
            run("blocks", [&] { DD a(s[i]); DD at(bb::transpose(a)); auto sz = bb::BlockSizeGenerator(mn, mx).matrix_matrix_mult(a, at);
                for (size_t v : std::get<0>(sz)) note(v); for (size_t v : std::get<1>(sz)) note(v); for (size_t v : std::get<2>(sz)) note(v);
                auto A = bb::BlockedMatrixGenerator()(a, std::get<0>(sz), std::get<1>(sz), th); auto B = bb::BlockedMatrixGenerator()(at, std::get<1>(sz), std::get<2>(sz), th);
                show(A); show(B); show(DD(A)); auto C = (A * B).execute<bb::TheBestPolicy>(); show(C); show(DD(C));
                for (size_t v : bb::get_type_counting(C)) note(v); show(bb::generateTypeMatrix(C)); for (auto const& v : bb::generateDimensionMatrix(A)) { note(v.first); note(v.second); } }); break; }
        case 14: { // static kinds
            size_t m = dim(), q = dim(), n = dim(); Ref x = values(m, q), y = values(q, n);
            run("static products", [&] { auto a = Make<DD>::make(x); auto b = Make<DD>::make(y); DD const& ca = *a; DD const& cb = *b; show((ca * cb).execute<bb::OpenBLAS>()); show((ca * cb).execute<bb::Native>()); show(DD(ca * cb));
                auto sa = Make<SD>::make(x); auto sb = Make<SD>::make(y); SD const& csa = *sa; SD const& csb = *sb; show((csa * csb).execute<bb::Native>()); show((csa * cb).execute<bb::Native>()); show((ca * csb).execute<bb::Native>()); show(SD(csa * csb));
                auto ra = Make<RD>::make(x); auto rb = Make<RD>::make(y); RD const& cra = *ra; RD const& crb = *rb; show((cra * crb).execute<bb::Native>()); auto f = Make<DF>::make(x); auto g = Make<DF>::make(y); DF const& cf = *f; DF const& cg = *g; show((cf * cg).execute<bb::OpenBLAS>()); }); break; }
        case 15: { // printing
            run("print", [&] { std::ostringstream o; o << s[i] << bb::fullprint << s[i] << bb::shortprint << s[i]; std::string t = o.str(); sim::alloc::Host g; note(t); }); break; }
        case 16: { // value semantics
            run("copies and moves", [&] { DD a(s[i]); DD b(a); DD c(std::move(a)); show(b); show(c); note(a.getNbRows()); a = b; show(a); b = std::move(c); show(b); using std::swap; DD e(2, 2, bb::AllFiller<double>(1)); swap(e, b); show(e); show(b);
                SD u(e); SD v(u); SD w(std::move(u)); show(v); show(w); u = w; show(u); w = std::move(v); show(w); MSS z(Make<SD>::make(read(e, "x")), Make<SF>::make(read(e, "x"))); MSS zz(z); show(zz); }); break; }
        default: create(i, dim(), dim());
        }
    }
    void go() {
        uint32_t o = sim::mark(OPS), f = sim::mark(FAULTS); std::vector<Step> first;
        for (uint32_t pass = 0; pass < 3; ++pass) {
            sim::rewind(OPS, o); sim::rewind(FAULTS, f); trace.clear();
            mode = pass; sim::alloc::junk(pass == 2 ? 3 : pass, 5); sim::count("fault:junk_memory");
            big = draw(OPS, 12) == 11 ? 36 : 6; uint32_t n = 2 + draw(OPS, 10);
            for (uint32_t q = 0; q < n; ++q) { sim::Span sp; sim::steps(1); op(); size_t m = std::min(trace.size(), first.size()); if (pass && trace.size() <= m) compare(first); }
            { sim::alloc::Target t; for (auto& x : s) x.reset(); }
            if (sim::alloc::live()) sim::fail("leak", "%zu blocks still allocated (sizes %s)", sim::alloc::live(), sim::alloc::describe_live());
            if (!pass) { first = trace; for (auto& t : first) { sim::ev("%s %016llx %s", t.what.c_str(), (unsigned long long)t.h, t.text.substr(0, 160).c_str()); sim::state(t.h); } }
            else if (first.size() != trace.size()) sim::fail("harness", "passes of different length");
        }
    }
    void compare(std::vector<Step> const& first) {
        for (size_t q = 0; q < trace.size(); ++q) if (trace[q].h != first[q].h || trace[q].what != first[q].what)
            sim::fail("depends-on-memory", "step %zu (%s) gives %s over memory filled with zeros, and %s over memory filled with pattern %u", q, first[q].what.c_str(), first[q].text.c_str(), trace[q].text.c_str(), mode);
    }
};
} // namespace

SIM_WORLD(det_repeat, "det/repeat") { DetWorld w; w.faults = false; w.go(); }
SIM_WORLD(det_faults, "det/faults") { DetWorld w; w.faults = true; w.go(); }
// lazily created state of the library and of the C++ runtime must not be created in one pass only
SIM_WARMUP(warm) { sim::alloc::Target t; DD a(2, 2, bb::AllFiller<double>(1)); DD const& c = a; DD b = (c * c).execute<bb::OpenBLAS>(); DynamicMatrix p(new DD(b)), q(new DD(b)); DynamicMatrix const& x = p; DynamicMatrix const& y = q;
    DynamicMatrix r = x + y; r = x - y; r = (x * y).execute<bb::Native>(); r = (x * y).execute<bb::TheBestPolicy>(); r += x; r -= x; std::ostringstream o; o << r << 1.5 << 3; try { throw std::runtime_error("x"); } catch (std::exception&) {} }

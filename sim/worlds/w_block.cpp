// World "block" (property C04): matrices are split into blocks whose kinds follow seeded threshold
// settings, assembled again, copied, multiplied and combined, against a reference that knows what
// each element may become.
//   block/values : content and kinds
//   block/faults : the nth allocation of an operation fails
// World "part" (property C15): block partitions of seeded matrices, settings and detection arrays,
// each computed three times over differently filled heaps and stacks.
#include "model.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#ifdef WITH_OPENBLAS
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#endif
#include <numeric>
using namespace mdl;
using sim::draw; using sim::OPS; using sim::FAULTS;

namespace {
typedef bb::BlockedDenseMatrix BM;
typedef std::vector<size_t> Sizes;

Sizes partition(size_t n) { Sizes s; while (n) { size_t k = 1 + draw(OPS, uint32_t(n)); s.push_back(k); n -= k; } return s; }
double maxabs(Ref const& x) { double m = 0; for (double v : x.v) m = std::max(m, std::abs(v)); return m; }

struct Content { Ref x; bool loose = false; };       // shared by copies: blocks are shared handles
struct Obj { std::unique_ptr<BM> m; std::shared_ptr<Content> c; Sizes r, k; };
const int N = 5;

struct Setting {
    double sd, ss, occ[7][2];                         // [kind][0 = double, 1 = single]
    bb::Threshold make() const {
        return bb::Threshold(bb::ThresholdSettings()
            .set_significanceThresholdSinglePrecision(ss).set_significanceThresholdDoublePrecision(sd)
            .set_occupationThresholdMatrixZeroSinglePrecision(occ[0][1]).set_occupationThresholdMatrixZeroDoublePrecision(occ[0][0])
            .set_occupationThresholdMatrixSparseFloatSinglePrecision(occ[1][1]).set_occupationThresholdMatrixSparseFloatDoublePrecision(occ[1][0])
            .set_occupationThresholdMatrixDenseFloatSinglePrecision(occ[2][1]).set_occupationThresholdMatrixDenseFloatDoublePrecision(occ[2][0])
            .set_occupationThresholdMatrixSparseDoubleSinglePrecision(occ[3][1]).set_occupationThresholdMatrixSparseDoubleDoublePrecision(occ[3][0])
            .set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision(occ[4][1]).set_occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision(occ[4][0])
            .set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision(occ[5][1]).set_occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision(occ[5][0])
            .set_occupationThresholdMatrixDenseDoubleSinglePrecision(1.0).set_occupationThresholdMatrixDenseDoubleDoublePrecision(1.0));
    }
};

struct BlockWorld {
    bool faults; size_t maxdim = 8;
    Obj s[N];

    Setting setting() {
        Setting t;
        t.sd = draw(OPS, 4) / 16.0 * unit; t.ss = t.sd + (1 + draw(OPS, 6)) / 16.0 * unit;
        // kinds that keep no double precision part accept no element above the single precision threshold
        for (int k = 0; k < 7; ++k) { t.occ[k][0] = draw(OPS, 9) / 8.0; t.occ[k][1] = k == 1 || k == 2 ? 0.0 : draw(OPS, 9) / 8.0; }
        t.occ[0][0] = 0.0;   // (a zero matrix keeps nothing)
        if (draw(OPS, 4) == 3) { static const double dflt[7][2] = {{0, 0}, {.2, 0}, {1, 0}, {.2, .2}, {.4, .2}, {1, .2}, {1, 1}}; memcpy(t.occ, dflt, sizeof dflt); }
        return t;
    }
    /// values k/16 (exact in every kind), or with digits that single precision cannot hold
    Ref content(size_t r, size_t c, Sizes const& rs, Sizes const& cs, bool fine) {
        Ref x(r, c); static const uint32_t dens[] = {60, 100, 20, 5, 0};
        uint64_t sd = draw(OPS, 1u << 20); size_t co = 0;
        for (size_t j = 0; j < cs.size(); ++j) {
            size_t ro = 0;
            for (size_t i = 0; i < rs.size(); ++i) {
                uint32_t d = dens[draw(OPS, 5)], top = 1 + draw(OPS, 12);
                for (size_t q = 0; q < cs[j]; ++q) for (size_t p = 0; p < rs[i]; ++p) {
                    uint64_t h = sim::mix(sd, (ro + p) * 1000 + co + q);
                    if (h % 100 >= d) continue;
                    double v = double(1 + (h >> 8) % top) / 16.0;
                    if (fine) v += std::ldexp(double((h >> 20) & 1023), -44);
                    v *= unit;
                    x.at(ro + p, co + q) = (h >> 40) & 1 ? -v : v;
                }
                ro += rs[i];
            }
            co += cs[j];
        }
        return x;
    }
    int expected_kind(Ref const& x, size_t r0, size_t c0, size_t r, size_t c, Setting const& t) {
        size_t nd = 0, ns = 0;
        for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) { double v = std::abs(x.at(r0 + i, c0 + j)); nd += v > t.sd; ns += v > t.ss; }
        double od = double(nd) / (r * c), os = double(ns) / (r * c);
        for (int k = 0; k < 6; ++k) if (od <= t.occ[k][0] && os <= t.occ[k][1]) return k;
        return 6;
    }
    void drop(int i) { if (s[i].m) { sim::alloc::Target t; s[i].m.reset(); } s[i] = Obj(); }

    template <class F> int attempt(char const* op, F f) {   // 0 done, 1 out of memory, 2 refused
        uint32_t nth = faults ? draw_nth() : 0;
        sim::alloc::arm(nth);
        try { sim::alloc::Target t; f(); }
        catch (std::bad_alloc const&) {
            if (!sim::alloc::disarm()) sim::fail("unexpected-exception", "%s throws bad_alloc although no allocation failed", op);
            sim::count("probe:operation_failed_on_allocation"); sim::ev("%s: allocation %u failed", op, nth); return 1;
        } catch (sim::Violation&) { throw; }
        catch (std::exception const& e) { sim::alloc::disarm(); sim::ev("%s refused: %s", op, e.what()); return 2; }
        sim::alloc::disarm(); return 0;
    }
    template <class F> void must(char const* op, F f) {
        int r = attempt(op, f);
        if (r == 1) { check(op); bool sv = faults; faults = false; r = attempt(op, f); faults = sv; if (r == 1) sim::fail("retry", "%s fails again without a fault", op); sim::count("probe:retry_after_failure"); }
        if (r == 2) sim::fail("refused", "%s is refused", op);
    }
    void check(char const* op) {
        for (int i = 0; i < N; ++i) if (s[i].m) {
            char w[96]; snprintf(w, sizeof w, "after %s: blocked matrix %d", op, i);
            Ref y = read(static_cast<BM const&>(*s[i].m), w);
            if (s[i].c->loose) { if (y.r != s[i].c->x.r || y.c != s[i].c->x.c) sim::fail("malformed", "%s changed its shape", w); }
            else if (y != s[i].c->x) sim::fail("operand-changed", "%s holds %s, expected %s", w, y.str().c_str(), s[i].c->x.str().c_str());
        }
    }
    void put(int i, std::unique_ptr<BM> m, Ref const& x, Sizes const& r, Sizes const& k) {
        drop(i); s[i].m = std::move(m); s[i].c = std::make_shared<Content>(); s[i].c->x = x; s[i].r = r; s[i].k = k;
        Ref y = read(static_cast<BM const&>(*s[i].m), "new blocked matrix");
        if (y != x) sim::fail("wrong-result", "the blocks hold %s, expected %s", y.str().c_str(), x.str().c_str());
        DD* d = nullptr;
        must("assemble", [&] { d = new DD(static_cast<BM const&>(*s[i].m)); });
        Ref z = read(static_cast<DD const&>(*d), "assembled matrix");
        { sim::alloc::Target t; delete d; }
        if (z != x) sim::fail("wrong-result", "assembling gives %s, expected %s", z.str().c_str(), x.str().c_str());
    }
    /// what the element v became is one of the values its precision class allows
    void split(int i, Sizes const& rs, Sizes const& cs) {
        size_t R = std::accumulate(rs.begin(), rs.end(), size_t(0)), C = std::accumulate(cs.begin(), cs.end(), size_t(0));
        bool fine = draw(OPS, 3) == 2; Setting t = setting(); Ref x = content(R, C, rs, cs, fine);
        bool flt = draw(OPS, 4) == 3; if (flt && fine) for (auto& v : x.v) v = float(v);
        std::unique_ptr<BM> m; std::shared_ptr<DD> d; std::shared_ptr<DF> f;
        { sim::alloc::Target g; if (flt) f = Make<DF>::make(x); else d = Make<DD>::make(x); }
        bb::Threshold th; th = t.make(); if (draw(OPS, 2)) { bb::Threshold u(setting().make()); u = th; th = setting().make(); th = u; } sim::count("split");
        must("split", [&] { if (flt) m.reset(new BM(bb::BlockedMatrixGenerator()(static_cast<DF const&>(*f), rs, cs, th))); else m.reset(new BM(bb::BlockedMatrixGenerator()(static_cast<DD const&>(*d), rs, cs, th))); });
        Ref src = flt ? read(static_cast<DF const&>(*f), "source") : read(static_cast<DD const&>(*d), "source");
        if (src != x) sim::fail("operand-changed", "splitting changed the source matrix");
        { sim::alloc::Target g; d.reset(); f.reset(); }
        BM const& b = *m;
        Ref y = read(b, "split matrix");
        if (b.getNbRows() != rs.size() || b.getNbColumns() != cs.size() || y.r != R || y.c != C)
            sim::fail("wrong-shape", "%zux%zu split into %zux%zu blocks gives %zux%zu blocks of a %zux%zu matrix", R, C, rs.size(), cs.size(), size_t(b.getNbRows()), size_t(b.getNbColumns()), y.r, y.c);
        for (size_t p = 0; p < y.v.size(); ++p) {
            double v = x.v[p], g = y.v[p], a = std::abs(v);
            bool ok = a > t.ss ? g == v : a > t.sd ? g == v || g == double(float(v)) : g == v || g == double(float(v)) || g == 0.0;
            if (!ok) sim::fail("precision", "element (%zu,%zu) = %.17g became %.17g (significance thresholds %.17g single, %.17g double)", p % R, p / R, v, g, t.ss, t.sd);
        }
        size_t ro, co = 0;
        for (size_t j = 0; j < cs.size(); co += cs[j], ++j) for (size_t q = ro = 0; q < rs.size(); ro += rs[q], ++q) {
            if (bb::getNbRows(b(q, j)) != rs[q] || bb::getNbColumns(b(q, j)) != cs[j]) sim::fail("wrong-shape", "block (%zu,%zu) has another size than asked for", q, j);
            int want = expected_kind(x, ro, co, rs[q], cs[j], t), got = int(b(q, j)->getTypeIndex());
            if (want != got) sim::fail("wrong-kind", "block (%zu,%zu) is of kind %d, the settings choose %d", q, j, got, want);
            char w[32]; snprintf(w, sizeof w, "kind %d", got); sim::count(w);
        }
        put(i, std::move(m), y, rs, cs);
    }
    /// settings that contradict each other are refused, whatever the matrix
    void contradiction() {
        Setting t = setting(); t.sd = t.ss + (1 + draw(OPS, 4)) / 16.0 * unit; Sizes r = partition(1 + draw(OPS, uint32_t(maxdim))), k = partition(1 + draw(OPS, uint32_t(maxdim)));
        Ref x = content(std::accumulate(r.begin(), r.end(), size_t(0)), std::accumulate(k.begin(), k.end(), size_t(0)), r, k, false);
        std::shared_ptr<DD> d; { sim::alloc::Target g; d = Make<DD>::make(x); }
        std::unique_ptr<BM> m; bb::Threshold th = t.make(); sim::count("split_contradiction");
        int q = attempt("split with contradicting thresholds", [&] { m.reset(new BM(bb::BlockedMatrixGenerator()(static_cast<DD const&>(*d), r, k, th))); });
        if (q == 0) sim::fail("not-refused", "a matrix is split with a single precision threshold %g below the double precision threshold %g", t.ss, t.sd);
        if (read(static_cast<DD const&>(*d), "source") != x) sim::fail("operand-changed", "a refused split changed the source matrix");
        sim::alloc::Target g; d.reset();
    }
    /// block sizes that do not add up to the dimensions are refused
    void unfit() {
        Sizes r = partition(1 + draw(OPS, uint32_t(maxdim))), k = partition(1 + draw(OPS, uint32_t(maxdim))); Setting t = setting();
        Ref x = content(std::accumulate(r.begin(), r.end(), size_t(0)), std::accumulate(k.begin(), k.end(), size_t(0)), r, k, false);
        Sizes& v = draw(OPS, 2) ? r : k; size_t p = draw(OPS, uint32_t(v.size()));
        switch (draw(OPS, 5)) {
        case 0: v[p] += 1 + draw(OPS, 5); break;
        case 1: if (v[p] > 1) --v[p]; else v.push_back(1); break;
        case 2: if (v.size() > 1) v.pop_back(); else v[0] *= 2; break;
        case 3: v.push_back(1 + draw(OPS, 3)); break;
        default: v.push_back(SIZE_MAX - 2); v.push_back(3);           // the sum overflows to the dimension
        }
        std::shared_ptr<DD> d; { sim::alloc::Target g; d = Make<DD>::make(x); }
        std::unique_ptr<BM> m; bb::Threshold th = t.make(); sim::count("split_unfit");
        int q = attempt("split with unfit block sizes", [&] { m.reset(new BM(bb::BlockedMatrixGenerator()(static_cast<DD const&>(*d), r, k, th))); });
        if (q == 0) sim::fail("not-refused", "a %zux%zu matrix is split into blocks of other dimensions", x.r, x.c);
        if (read(static_cast<DD const&>(*d), "source") != x) sim::fail("operand-changed", "a refused split changed the source matrix");
        sim::alloc::Target g; d.reset();
    }
    bool exact(Ref const& x) { for (double v : x.v) if (v / unit * 16.0 != std::floor(v / unit * 16.0)) return false; return maxabs(x) < 64.0 * unit; }
    void need(int i) { for (int n = 0; !s[i].m || s[i].c->loose || !exact(s[i].c->x); ++n) { split(i, partition(1 + draw(OPS, uint32_t(maxdim))), partition(1 + draw(OPS, uint32_t(maxdim)))); if (n > 20) sim::fail("harness", "no exact matrix"); } }
    void need_as(int j, Sizes const& r, Sizes const& k, int avoid) {
        (void)avoid; for (int n = 0; !s[j].m || s[j].c->loose || s[j].r != r || s[j].k != k || !exact(s[j].c->x); ++n) { split(j, r, k); if (n > 20) sim::fail("harness", "no exact matrix"); }
    }

    void product(int i, int j, int d) {
        need(i); if (j == i && s[i].r != s[i].k) j = (i + 1) % N;
        if (!s[j].m || s[j].c->loose || s[j].r != s[i].k || !exact(s[j].c->x)) { if (j == i) j = (i + 1) % N; need_as(j, s[i].k, partition(1 + draw(OPS, uint32_t(maxdim))), i); }
        Ref x = mul(s[i].c->x, s[j].c->x); if (maxabs(s[i].c->x) * maxabs(s[j].c->x) * 256 * s[i].c->x.c > 16777216.0 * unit * unit) return;
        Sizes r = s[i].r, k = s[j].k; std::unique_ptr<BM> m; bool nat = draw(OPS, 2);
        BM const& a = *s[i].m; BM const& b = *s[j].m; sim::count(nat ? "product Native" : "product TheBestPolicy");
        must("product of blocked matrices", [&] { if (nat) m.reset(new BM((a * b).execute<bb::Native>())); else m.reset(new BM((a * b).execute<bb::TheBestPolicy>())); });
        check("product");
        put(d, std::move(m), x, r, k);
    }
    void compound(int i, int j) {
        need(i); if (j == i) j = (i + 1) % N; 
        if (s[j].m && s[j].c == s[i].c) { s[j].m ? drop(j) : void(); }
        need_as(j, s[i].r, s[i].k, i);
        bool plus = !draw(OPS, 2); BM& a = *s[i].m; BM const& b = *s[j].m; sim::count(plus ? "blocked +=" : "blocked -=");
        Ref x = add(s[i].c->x, s[j].c->x, plus ? 1.0 : -1.0);
        int r = attempt("compound assignment of blocked matrices", [&] { if (plus) a += b; else a -= b; });
        if (r == 0) { s[i].c->x = x; check("compound"); return; }
        if (r == 2) {
            bool all_dense = true; for (auto const& q : static_cast<BM const&>(a)) all_dense &= q->getTypeIndex() == 2 || q->getTypeIndex() == 6;
            if (all_dense) sim::fail("refused", "compound assignment to dense blocks is refused");
            sim::count("probe:compound_refused");
        }
        s[i].c->loose = true; check("failed compound"); drop(i);
    }
    void whole(int i, int j) {
        need(i); if (j == i) return;
        uint32_t k = draw(OPS, 4); std::unique_ptr<BM> m; BM const& a = *s[i].m;
        if (k == 0) { sim::count("copy"); must("copy", [&] { m.reset(new BM(a)); }); drop(j); s[j].m = std::move(m); s[j].c = s[i].c; s[j].r = s[i].r; s[j].k = s[i].k; }
        else if (k == 1) { need(j); sim::count("assign"); must("assign", [&] { *s[j].m = a; }); s[j].c = s[i].c; s[j].r = s[i].r; s[j].k = s[i].k; }
        else if (k == 2) { sim::count("move"); must("move", [&] { m.reset(new BM(std::move(*s[i].m))); }); drop(j); s[j] = Obj(); s[j].m = std::move(m); s[j].c = s[i].c; s[j].r = s[i].r; s[j].k = s[i].k; drop(i); }
        else { need(j); sim::count("swap"); { sim::alloc::Target t; using std::swap; swap(*s[i].m, *s[j].m); } std::swap(s[i].c, s[j].c); std::swap(s[i].r, s[j].r); std::swap(s[i].k, s[j].k); }
    }
    /// a blocked matrix written down as lists of blocks; lists that do not fit together are refused
    typedef std::initializer_list<bb::DynamicMatrix> L; typedef std::initializer_list<L> LL;
    static BM* listed(size_t r, size_t k, std::vector<bb::DynamicMatrix> const& b, int ragged) {   // row by row
        auto row2 = [&](L first) { return ragged == 1 ? new BM(LL{first, L{b[k]}}) : new BM(LL{first, L{b[k], b[k + 1], b[k + 1]}}); };
        if (ragged) return k == 2 ? row2(L{b[0], b[1]}) : row2(L{b[0], b[1], b[2]});
        switch (r * 4 + k) {
        case 5: return new BM(LL{L{b[0]}});
        case 6: return new BM(LL{L{b[0], b[1]}});
        case 7: return new BM(LL{L{b[0], b[1], b[2]}});
        case 9: return new BM(LL{L{b[0]}, L{b[1]}});
        case 10: return new BM(LL{L{b[0], b[1]}, L{b[2], b[3]}});
        case 11: return new BM(LL{L{b[0], b[1], b[2]}, L{b[3], b[4], b[5]}});
        case 13: return new BM(LL{L{b[0]}, L{b[1]}, L{b[2]}});
        case 14: return new BM(LL{L{b[0], b[1]}, L{b[2], b[3]}, L{b[4], b[5]}});
        default: return new BM(LL{L{b[0], b[1], b[2]}, L{b[3], b[4], b[5]}, L{b[6], b[7], b[8]}});
        }
    }
    void lists(int i, int d) {
        Sizes r, k; for (uint32_t n = 1 + draw(OPS, 3); n; --n) r.push_back(1 + draw(OPS, uint32_t(maxdim / 2))); for (uint32_t n = 1 + draw(OPS, 3); n; --n) k.push_back(1 + draw(OPS, uint32_t(maxdim / 2)));
        split(i, r, k); BM const& a = *s[i].m; Ref x = s[i].c->x; std::vector<bb::DynamicMatrix> b; uint32_t bad = draw(OPS, 4); int ragged = 0; std::unique_ptr<BM> m;
        for (size_t q = 0; q < r.size(); ++q) for (size_t j = 0; j < k.size(); ++j) b.push_back(a(q, j));
        if (bad == 3) {
            uint32_t w = draw(OPS, 3);
            if (w == 0 && r.size() >= 2 && k.size() >= 2) ragged = 1 + int(draw(OPS, k.size() > 2 ? 1 : 2));
            else {
                size_t q = draw(OPS, uint32_t(r.size())), j = draw(OPS, uint32_t(k.size())); bool row = w == 1 ? k.size() >= 2 : r.size() < 2;
                if (row ? k.size() < 2 : r.size() < 2) return;
                sim::alloc::Target g; b[q * k.size() + j] = bb::DynamicMatrix(Make<DD>::make(Ref(r[q] + (row ? 1 : 0), k[j] + (row ? 0 : 1))));
            }
            sim::count("blocks_do_not_fit");
            int res = attempt("list of blocks that do not fit", [&] { m.reset(listed(r.size(), k.size(), b, ragged)); });
            if (res == 0) sim::fail("not-refused", "blocks that do not fit together are taken as a %zux%zu blocked matrix", r.size(), k.size());
            check("refused list"); sim::alloc::Target g; b.clear(); return;
        }
        sim::count("blocks_listed");
        must("list of blocks", [&] { m.reset(listed(r.size(), k.size(), b, 0)); });
        std::shared_ptr<Content> c = s[i].c; { sim::alloc::Target g; b.clear(); } if (i == d) d = (i + 1) % N;
        put(d, std::move(m), x, r, k); s[d].c = c; check("list of blocks");
    }
    void report(int i) {
        need(i); sim::count("report"); BM const& a = *s[i].m; std::unique_ptr<bb::TypeMatrix> tm; std::unique_ptr<bb::DimensionMatrix> dm; std::unique_ptr<bb::NormMatrix> nm; std::array<size_t, 7> cnt{};
        bool two = false; for (auto const& q : a) two |= q->getTypeIndex() == 4 || q->getTypeIndex() == 5;   // norm of a two-part sum: not offered by the library
        must("report", [&] { tm.reset(new bb::TypeMatrix(bb::generateTypeMatrix(a))); dm.reset(new bb::DimensionMatrix(bb::generateDimensionMatrix(a))); if (!two) nm.reset(new bb::NormMatrix(bb::generateNormMatrix(a))); cnt = bb::get_type_counting(a); });
        std::array<size_t, 7> want{}; size_t co = 0;
        for (size_t j = 0; j < s[i].k.size(); co += s[i].k[j], ++j) for (size_t q = 0, ro = 0; q < s[i].r.size(); ro += s[i].r[q], ++q) {
            int kind = int(a(q, j)->getTypeIndex()); ++want[kind]; double n2 = 0, n1 = 0;
            Ref b = read(a(q, j), "block");
            for (double v : b.v) { n1 += std::abs(v); n2 += v * v; }
            if (static_cast<bb::TypeMatrix const&>(*tm)(q, j) != kind) sim::fail("wrong-report", "type matrix says %d for a block of kind %d", static_cast<bb::TypeMatrix const&>(*tm)(q, j), kind);
            auto const& d = static_cast<bb::DimensionMatrix const&>(*dm)(q, j);
            if (d.first != s[i].r[q] || d.second != s[i].k[j]) sim::fail("wrong-report", "dimension matrix says %zux%zu for a block of %zux%zu", d.first, d.second, s[i].r[q], s[i].k[j]);
            if (two) continue;
            double n = static_cast<bb::NormMatrix const&>(*nm)(q, j);
            if (std::abs(n - std::sqrt(n2)) > 1e-5 * (unit + std::sqrt(n2))) sim::fail("wrong-report", "norm matrix says %.17g for a block of norm %.17g", n, std::sqrt(n2));
        }
        if (cnt != want) sim::fail("wrong-report", "block kinds are counted wrongly");
        sim::alloc::Target t; tm.reset(); dm.reset(); nm.reset();
    }
    void go() {
        draw_junk(); draw_unit(); if (draw(OPS, 16) == 15) maxdim = 40;
        uint32_t n = 2 + draw(OPS, 10);
        for (uint32_t q = 0; q < n; ++q) {
            sim::Span sp; int i = int(draw(OPS, N)), j = int(draw(OPS, N)), d = int(draw(OPS, N)); uint32_t op = draw(OPS, 12); sim::steps(1);
            if (op == 0 && draw(OPS, 3) == 2) { if (draw(OPS, 2)) contradiction(); else unfit(); }
            else if (op == 1 && draw(OPS, 2)) lists(i, d);
            else if (op < 3) split(i, partition(1 + draw(OPS, uint32_t(maxdim))), partition(1 + draw(OPS, uint32_t(maxdim))));
            else if (op < 6) product(i, j, d);
            else if (op < 8) compound(i, j);
            else if (op < 10) whole(i, j);
            else report(i);
            check("operation");
            uint64_t h = 1; for (int k = 0; k < N; ++k) if (s[k].m) h = sim::mix(h, s[k].c->x.hash() + s[k].r.size() * 31 + s[k].k.size()); sim::state(h); sim::ev("op %u", op);
        }
        for (int i = 0; i < N; ++i) drop(i);
        if (sim::alloc::live()) sim::fail("leak", "%zu blocks still allocated after every matrix was destroyed (sizes %s)", sim::alloc::live(), sim::alloc::describe_live());
    }
};

// ---- partitions ---------------------------------------------------------------------------
/// fills the stack below the caller with a pattern
__attribute__((noinline)) void paint(uint32_t mode) {
    volatile unsigned char a[16384]; uint64_t h = mode;
    for (size_t i = 0; i < sizeof a; ++i) { if (mode == 0) a[i] = 0; else if (mode == 1) a[i] = 0xFF; else { h = h * 6364136223846793005ull + 1442695040888963407ull; a[i] = (unsigned char)(h >> 57); } }
    asm volatile("" : : "r"(a) : "memory");
}
struct PartWorld {
    typedef std::vector<Sizes> Out;
    void cover(Sizes const& b, size_t n, size_t mn, size_t mx, bool whole_ok, char const* what) {
        size_t sum = 0; for (size_t k : b) { if (!k) sim::fail("empty-block", "%s of %zu (min %zu, max %zu) has an empty block", what, n, mn, mx); if (k > n) sim::fail("not-covering", "%s of %zu (min %zu, max %zu) has a block of %zu", what, n, mn, mx, k); sum += k; }
        if (sum != n) sim::fail("not-covering", "%s of %zu (min %zu, max %zu): sizes sum to %zu", what, n, mn, mx, sum);
        if (whole_ok && b.size() == 1) return;
        for (size_t k : b) if (k > mx && n > mx) sim::fail("block-size", "%s of %zu (min %zu, max %zu) has a block of %zu", what, n, mn, mx, k);
        if (b.size() > 1) for (size_t k : b) if (k < mn) sim::fail("block-size", "%s of %zu (min %zu, max %zu) has a block of %zu", what, n, mn, mx, k);
    }
    template <class F> Out thrice(F f, char const* what) {
        Out first;
        for (uint32_t pass = 0; pass < 3; ++pass) {
            sim::alloc::junk(pass == 2 ? 3 : pass, 17); sim::count("fault:junk_memory"); paint(pass == 2 ? 2 + draw(FAULTS, 1000) : pass);
            Out o; { sim::alloc::Target t; o = f(); sim::alloc::Host h; Out c(o); { sim::alloc::Target t2; Out().swap(o); } o.swap(c); if (!pass) first = o; else if (o != first) sim::fail("garbage", "%s depends on the previous content of the memory", what); }
        }
        return first;
    }
    void settings(size_t& mn, size_t& mx, bool wide) {
        if (draw(OPS, 24) == 23) { static const size_t lo[] = {0, 5, size_t(1) << 40, SIZE_MAX / 2 - 1}; mn = lo[draw(OPS, 4)]; mx = SIZE_MAX - draw(OPS, 3); sim::count("endless_blocks"); return; }
        if (wide) { mn = draw(OPS, 300); mx = std::max<size_t>(1, 2 * mn) + draw(OPS, 300); return; } mn = draw(OPS, 7); mx = std::max<size_t>(1, 2 * mn) + draw(OPS, 6); }
    void go() {
        uint32_t n = 1 + draw(OPS, 4);
        for (uint32_t q = 0; q < n; ++q) {
            sim::Span sp; sim::steps(1);
            bool wide = draw(OPS, 12) == 11; if (wide) sim::count("wide_blocks"); size_t mn, mx; settings(mn, mx, wide);
            if (draw(OPS, 8) == 7) { // sizes that leave no choice are refused
                size_t a = 1 + draw(OPS, 6), b = draw(OPS, uint32_t(2 * a)); bool r = false;
                if (draw(OPS, 3) == 2) { static const size_t hi[] = {size_t(1) << 63, SIZE_MAX, size_t(1) << 62, (size_t(1) << 63) + 1000}, at[] = {1000, SIZE_MAX, (size_t(1) << 63) - 1, 0}; a = hi[draw(OPS, 4)] - draw(OPS, 2); b = at[draw(OPS, 4)]; if (a <= b / 2) a = b; } sim::count("contradicting_sizes");
                try { bb::BlockSizeGenerator g(a, b); } catch (std::exception const&) { r = true; }
                if (!r) sim::fail("not-refused", "block sizes from %zu to %zu are accepted", a, b);
            }
            bb::BlockSizeGenerator g(mn, mx);
            uint32_t op = draw(OPS, 4); size_t big = wide ? 1000 : draw(OPS, 8) == 7 ? 70 : 20;
            if (op == 0) {
                size_t len = draw(OPS, uint32_t(big)); uint32_t levels = 1 + draw(OPS, 4); uint64_t sd = draw(OPS, 1u << 20); bool dbl = draw(OPS, 2);
                std::vector<double> d(len); std::vector<size_t> z(len);
                for (size_t i = 0; i < len; ++i) { z[i] = sim::mix(sd, i) % levels; d[i] = double(z[i]); }
                sim::count("get_block_size"); sim::ev("detect %zu levels %u min %zu max %zu", len, levels, mn, mx);
                Out o = thrice([&] { Out r; r.push_back(dbl ? g.get_block_size(d) : g.get_block_size(z)); return r; }, "get_block_size");
                cover(o[0], len + 1, mn, mx, false, "partition");
            } else {
                size_t R = 1 + draw(OPS, uint32_t(big)), C = 1 + draw(OPS, uint32_t(big)), K = 1 + draw(OPS, uint32_t(big));
                if (wide) { uint32_t w = draw(OPS, 3); if (w != 0) R = 1 + R % 7; if (w != 1) C = 1 + C % 7; if (w != 2) K = 1 + K % 7; }
                bool rm = draw(OPS, 3) == 2, flt = draw(OPS, 4) == 3; Ref x = matrix(R, C), y = matrix(C, K);
                sim::ev("matrix %zux%zu(x%zu) min %zu max %zu op %u", R, C, K, mn, mx, op);
                if (op == 3 && draw(OPS, 8) == 7) { // factors without a product
                    sim::count("unfit_factors"); Ref z = matrix(draw(OPS, 2) ? C + 1 + draw(OPS, uint32_t(C)) : C > 1 ? 1 + draw(OPS, uint32_t(C - 1)) : 2, K); bool refused = false;
                    { sim::alloc::Target t; try { if (rm) two<RD>(g, x, z); else if (flt) two<DF>(g, x, z); else two<DD>(g, x, z); } catch (std::exception const&) { refused = true; } }
                    if (!refused) sim::fail("not-refused", "block sizes for a product of %zux%zu and %zux%zu are given", x.r, x.c, z.r, z.c);
                }
                if (op < 3) {
                    sim::count("operator()");
                    Out o = thrice([&] { return rm ? one<RD>(g, x) : flt ? one<DF>(g, x) : one<DD>(g, x); }, "operator()");
                    cover(o[0], R, mn, mx, R <= mx && C <= mx, "row partition"); cover(o[1], C, mn, mx, R <= mx && C <= mx, "column partition");
                } else {
                    sim::count("matrix_matrix_mult");
                    Out o = thrice([&] { return rm ? two<RD>(g, x, y) : flt ? two<DF>(g, x, y) : two<DD>(g, x, y); }, "matrix_matrix_mult");
                    cover(o[0], R, mn, mx, false, "row partition"); cover(o[1], C, mn, mx, false, "inner partition"); cover(o[2], K, mn, mx, false, "column partition");
                }
            }
            sim::state(sim::mix(mn * 100 + mx, op));
        }
        if (sim::alloc::live()) sim::fail("leak", "%zu blocks still allocated (sizes %s)", sim::alloc::live(), sim::alloc::describe_live());
    }
    Ref matrix(size_t r, size_t c) {
        Ref x(r, c); uint64_t sd = draw(OPS, 1u << 20); uint32_t kind = draw(OPS, 4); size_t b = 1 + draw(OPS, 9);
        for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) {
            uint64_t h = kind == 0 ? sd : kind == 1 ? sim::mix(sd, (i / b) * 100 + j / b) : sim::mix(sd, i * 100 + j);
            double v = std::ldexp(1.0, int(h % 11) - 5); if (kind == 3 && h % 7 == 0) v = 0; if (kind == 3 && h % 31 == 0) v = HUGE_VAL; if (kind == 3 && h % 37 == 0) v = NAN;
            x.at(i, j) = h & 0x10000 ? -v : v;
        }
        return x;
    }
    template <class M> Out one(bb::BlockSizeGenerator const& g, Ref const& x) { auto m = Make<M>::make(x); auto r = g(static_cast<M const&>(*m)); Out o; o.push_back(std::get<0>(r)); o.push_back(std::get<1>(r)); return o; }
    template <class M> Out two(bb::BlockSizeGenerator const& g, Ref const& x, Ref const& y) {
        auto a = Make<M>::make(x); auto b = Make<M>::make(y); auto r = g.matrix_matrix_mult(static_cast<M const&>(*a), static_cast<M const&>(*b));
        Out o; o.push_back(std::get<0>(r)); o.push_back(std::get<1>(r)); o.push_back(std::get<2>(r)); return o; }
};
} // namespace

SIM_WORLD(block_values, "block/values") { BlockWorld w; w.faults = false; w.go(); }
SIM_WORLD(block_faults, "block/faults") { BlockWorld w; w.faults = true; w.go(); }
SIM_WORLD(part_sizes, "part/sizes") { PartWorld w; w.go(); }

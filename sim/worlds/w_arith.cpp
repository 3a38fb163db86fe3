// World "arith" (property C03): chains of sums, differences, products and compound assignments
// over shared dynamically typed operands of every kind, plus statically typed operations of both
// orientations, against the reference model.
//   arith/values : every result exact, operands unchanged
//   arith/faults : the nth allocation of an operation fails
#include "model.h"
#ifdef WITH_OPENBLAS
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#endif
#if __has_include(<Eigen/Dense>)
#define SIM_EIGEN
#include "BlasBooster/Core/Multiplication_Eigen.h"
#endif
using namespace mdl;
using sim::draw; using sim::OPS; using sim::FAULTS;

namespace {
const int N = 6;
struct Obj { DynamicMatrix m; Ref x; bool loose = false; std::vector<double> ext; std::vector<float> extf; /* memory of the program, if the matrix is one over it */ };
typedef bb::Matrix<Sparse,float> SFm;

bool dense_kind(DynamicMatrix const& m) { return m->getTypeIndex() == DD::typeIndex_ || m->getTypeIndex() == DF::typeIndex_; }
bool float_kind(DynamicMatrix const& m) { return m->getTypeIndex() == DF::typeIndex_ || m->getTypeIndex() == SF::typeIndex_; }
double maxabs(Ref const& x) { double m = 0; for (double v : x.v) m = std::max(m, std::abs(v)); return m; }

struct ArithWorld {
    bool faults; int maxdim = 4; bool thin = false; size_t base = 0;
    static bool whole(Ref const& x) { for (double v : x.v) if (std::floor(v / unit) * unit != v) return false; return true; }
    std::shared_ptr<Obj> s[N];

    std::shared_ptr<bb::MatrixBase> build(Ref const& x, int k) {
        switch (k) {
        case 0: return Make<DD>::make(x); case 1: return Make<SD>::make(x); case 2: return Make<MSD>::make(x); case 3: return Make<DF>::make(x);
        case 4: return Make<SF>::make(x); case 5: return Make<MSS>::make(x); default: return Make<ZZ>::make(x);
        }
    }
    void put(int i, DynamicMatrix m, Ref const& x) { sim::alloc::Host h; auto o = std::make_shared<Obj>(); { sim::alloc::Target t; o->m = std::move(m); } o->x = x; drop(i); s[i] = o; }
    /// a dense operand over memory of the program: the operation must leave it there, unchanged, and may not keep it
    void create_external(int i, size_t r, size_t c) {
        Ref x = gen(r, c); auto o = std::make_shared<Obj>(); o->x = x;
        if (draw(OPS, 2)) { o->x = x = fine(x); o->ext = x.v; sim::alloc::Target t; o->m = std::make_shared<DD>(r, c, o->ext.data()); }
        else { o->extf.assign(x.v.begin(), x.v.end()); sim::alloc::Target t; o->m = std::make_shared<DF>(r, c, o->extf.data()); }
        drop(i); s[i] = o; sim::count("create over external memory");
    }
    static void const* data(DynamicMatrix const& m) {
        if (m->getTypeIndex() == DD::typeIndex_) return static_cast<DD const&>(*m).getDataPointer();
        if (m->getTypeIndex() == DF::typeIndex_) return static_cast<DF const&>(*m).getDataPointer();
        return nullptr;
    }
    void not_shared(DynamicMatrix const& r, Obj const& o, char const* what) {
        void const* p = data(r); if (p && (p == o.ext.data() || p == o.extf.data())) sim::fail("shared-result", "the result of %s uses the memory of its operand", what);
    }
    void drop(int i) { if (!s[i]) return; { sim::alloc::Target t; if (s[i].use_count() == 1) s[i]->m.reset(); } s[i].reset(); }
    void create(int i, size_t r, size_t c, int kind = -1) {
        Ref x = gen(r, c); if (kind < 0) kind = int(draw(OPS, 7)); if (kind == 6) x = Ref(r, c); else if (kind < 3) x = fine(x, kind < 2);
        DynamicMatrix m; { sim::alloc::Target t; m = build(x, kind); }
        put(i, std::move(m), x); sim::count("create");
    }
    size_t dim() { if (thin) return draw(OPS, 4) == 3 ? sim::range(1, 300) : sim::range(1, 3); return base + sim::range(1, maxdim); }
    void need(int i) { if (!s[i] || s[i]->loose || maxabs(s[i]->x) > 2000 * unit) { if (draw(OPS, 5) == 4) create_external(i, dim(), dim()); else create(i, dim(), dim()); } }

    void check(char const* op) {
        for (int i = 0; i < N; ++i) if (s[i]) {
            char w[96]; snprintf(w, sizeof w, "after %s: operand %d (%s)", op, i, dyn_name(*s[i]->m));
            Ref y = read(s[i]->m, w);
            void const* e = s[i]->ext.empty() ? s[i]->extf.empty() ? nullptr : static_cast<void const*>(s[i]->extf.data()) : s[i]->ext.data();
            if (e && data(s[i]->m) != e) sim::fail("wrong-memory", "%s left its memory", w);
            if (s[i]->loose) { if (y.r != s[i]->x.r || y.c != s[i]->x.c) sim::fail("malformed", "%s changed its shape from %zux%zu to %zux%zu", w, s[i]->x.r, s[i]->x.c, y.r, y.c); }
            else if (y != s[i]->x) sim::fail("operand-changed", "%s holds %s, expected %s", w, y.str().c_str(), s[i]->x.str().c_str());
        }
    }
    enum Res { OK, NOMEM, REFUSED };
    template <class F> Res attempt(char const* op, F f) {
        uint32_t nth = faults ? draw_nth() : 0;
        sim::alloc::arm(nth);
        try { sim::alloc::Target t; f(); }
        catch (std::bad_alloc const&) {
            if (!sim::alloc::disarm()) sim::fail("unexpected-exception", "%s throws bad_alloc although no allocation failed", op);
            sim::ev("%s: allocation %u failed", op, nth); sim::count("probe:operation_failed_on_allocation"); return NOMEM;
        } catch (sim::Violation&) { throw; }
        catch (std::exception const& e) { sim::alloc::disarm(); sim::ev("%s refused: %s", op, e.what()); return REFUSED; }
        sim::alloc::disarm(); return OK;
    }
    /// shape, exactness and content of a result
    void result(int k, char const* what, DynamicMatrix m, Ref const& x) {
        Ref y = read(m, what);
        if (y != x) sim::fail("wrong-result", "%s gives %s, expected %s", what, y.str().c_str(), x.str().c_str());
        if (k < 0) { sim::alloc::Target t; m.reset(); } else put(k, std::move(m), x);
    }

    /// operands that do not fit: refused, and nothing is changed
    void unfit(int i, int j) {
        need(i); if (j == i) j = (i + 1) % N; uint32_t op = draw(OPS, 7); bool prod = op >= 4; size_t r = s[i]->x.r, c = s[i]->x.c;
        auto other = [&](size_t n) { return n > 1 && draw(OPS, 2) ? n - 1 - draw(OPS, uint32_t(n - 1)) : n + 1 + draw(OPS, 3); };
        if (prod) create(j, other(c), dim()); else { uint32_t w = draw(OPS, 4); if (w == 3 && r != c) create(j, c, r); else create(j, w != 1 ? other(r) : r, w != 0 ? other(c) : c); }
        std::shared_ptr<Obj> a = s[i], b = s[j]; static char const* names[] = {"+", "-", "+=", "-=", "*TheBestPolicy", "*Native", "*TheBestPolicy"};
        char w[96]; snprintf(w, sizeof w, "%s %s %s of %zux%zu and %zux%zu", dyn_name(*a->m), names[op], dyn_name(*b->m), r, c, b->x.r, b->x.c); sim::count("unfit_operands"); sim::ev("%s", w);
        DynamicMatrix m;
        Res res = attempt(w, [&] { DynamicMatrix const& p = a->m; DynamicMatrix const& q = b->m;
            switch (op) { case 0: m = p + q; break; case 1: m = p - q; break; case 2: m = (p += q); break; case 3: m = (p -= q); break; case 5: m = (p * q).execute<bb::Native>(); break; default: m = (p * q).execute<bb::TheBestPolicy>(); } });
        if (res == OK) sim::fail("not-refused", "%s is not refused", w);
        check(w);
    }
    void binary(int i, int j, int k) {
        if (draw(OPS, 16) == 15) return unfit(i, j);
        need(i); uint32_t op = draw(OPS, base ? 4 : 6);
        bool prod = op >= 3;
        bool fits = s[j] && !s[j]->loose && maxabs(s[j]->x) <= 2000 * unit && (prod ? s[j]->x.r == s[i]->x.c : s[j]->x.r == s[i]->x.r && s[j]->x.c == s[i]->x.c);
        if (!fits) { if (j == i) j = (i + 1) % N; size_t r = prod ? s[i]->x.c : s[i]->x.r, c = prod ? dim() : s[i]->x.c; if (draw(OPS, 5) == 4) create_external(j, r, c); else create(j, r, c); }
        std::shared_ptr<Obj> a = s[i], b = s[j];
        if (prod && maxabs(a->x) * maxabs(b->x) * double(a->x.c) > 4194304.0 * unit * unit) return;
        int digits = float_kind(a->m) && float_kind(b->m) ? 24 : 53;
        if (prod ? !exact_mul(a->x, b->x, digits) : !exact_sum(a->x, b->x, digits)) return;
        static char const* names[] = {"+", "-", "-", "*TheBestPolicy", "*Native", "*TheBestPolicy"};
        char w[96]; snprintf(w, sizeof w, "%s %s %s", dyn_name(*a->m), names[op], dyn_name(*b->m));
        sim::count(w); sim::ev("%s", w);
        Ref x = prod ? mul(a->x, b->x) : add(a->x, b->x, op == 0 ? 1.0 : -1.0);
        DynamicMatrix r;
        auto f = [&] { DynamicMatrix const& p = a->m; DynamicMatrix const& q = b->m;
            switch (op) { case 0: r = p + q; break; case 1: case 2: r = p - q; break; case 4: r = (p * q).execute<bb::Native>(); break; default: r = (p * q).execute<bb::TheBestPolicy>(); } };
        Res res = attempt(w, f);
        if (res == NOMEM) { check(w); bool sv = faults; faults = false; res = attempt(w, f); faults = sv; if (res != OK) sim::fail("retry", "%s fails again without a fault", w); sim::count("probe:retry_after_failure"); }
        if (res == REFUSED) sim::fail("refused", "%s of %zux%zu and %zux%zu is refused", w, a->x.r, a->x.c, b->x.r, b->x.c);
        not_shared(r, *a, w); not_shared(r, *b, w);
        a.reset(); b.reset();
        result(prod && unit != 1.0 ? -1 : k, w, std::move(r), x);
    }
    void compound(int i, int j) {
        need(i);
        if (!s[j] || s[j]->loose || s[j]->x.r != s[i]->x.r || s[j]->x.c != s[i]->x.c || maxabs(s[j]->x) > 2000 * unit) { if (j == i) j = (i + 1) % N; create(j, s[i]->x.r, s[i]->x.c); }
        bool plus = !draw(OPS, 2);
        std::shared_ptr<Obj> a = s[i], b = s[j];
        char w[96]; snprintf(w, sizeof w, "%s %s %s", dyn_name(*a->m), plus ? "+=" : "-=", dyn_name(*b->m)); sim::count(w); sim::ev("%s", w);
        Ref x = add(a->x, b->x, plus ? 1.0 : -1.0);
        if (!exact_sum(a->x, b->x, 53)) return;
        if (a->m->getTypeIndex() == DF::typeIndex_ && !whole(x)) return; // rounded by the target's type
        Ref before = a->x;
        DynamicMatrix r;
        Res res = attempt(w, [&] { if (plus) r = (a->m += b->m); else r = (a->m -= b->m); });
        { sim::alloc::Target t; r.reset(); }
        if (res == OK) { a->x = x; check(w); return; }
        if (res == REFUSED && dense_kind(a->m)) sim::fail("refused", "%s is refused", w);
        if (res == REFUSED) { // before anything was changed
            sim::count("probe:compound_refused"); Ref y = read(a->m, w);
            if (y != before) sim::fail("refused-but-changed", "%s is refused, but changed its target from %s to %s", w, before.str().c_str(), y.str().c_str());
        }
        a->loose = true; check(w);
        // a target hit by a failure stays usable: it can be read, and then dropped
        drop(i);
    }
    // --- statically typed operations, both orientations -----------------------------------
    template <class R, class F> void stat(char const* w, Ref const& x, F f) {
        sim::count(w); std::unique_ptr<R> r;
        Res res = attempt(w, [&] { r.reset(new R(f())); });
        if (res == NOMEM) { bool sv = faults; faults = false; res = attempt(w, [&] { r.reset(new R(f())); }); faults = sv; if (res != OK) sim::fail("retry", "%s fails again without a fault", w); }
        if (res == REFUSED) sim::fail("refused", "%s is refused", w);
        Ref y = read(static_cast<R const&>(*r), w);
        if (y != x) sim::fail("wrong-result", "%s gives %s, expected %s", w, y.str().c_str(), x.str().c_str());
        sim::alloc::Target t; r.reset();
    }
    template <class A, class B, class R> void static_mul(char const* w) {
        size_t m = dim(), k = dim(), n = dim(); Ref x = gen(m, k), y = gen(k, n); if (std::is_same<typename A::value_type, double>::value) x = fine(x); else if (std::is_same<typename B::value_type, double>::value) y = fine(y);
        std::shared_ptr<A> a; std::shared_ptr<B> b; { sim::alloc::Target t; a = Make<A>::make(x); b = Make<B>::make(y); }
        A const& ca = *a; B const& cb = *b; Ref z = mul(x, y);
        stat<R>(w, z, [&] { return (ca * cb).template execute<bb::Native>(); });
        stat<R>(w, z, [&] { return R(ca * cb); });
        if (read(ca, w) != x || read(cb, w) != y) sim::fail("operand-changed", "%s changed an operand", w);
        sim::alloc::Target t; a.reset(); b.reset();
    }
    template <class A> void static_blas(char const* w) {
        size_t m = dim(), k = dim(), n = dim(); Ref x = gen(m, k), y = gen(k, n); if (std::is_same<A, DD>::value) x = fine(x);
        std::shared_ptr<A> a, b; { sim::alloc::Target t; a = Make<A>::make(x); b = Make<A>::make(y); }
        A const& ca = *a; A const& cb = *b;
        stat<A>(w, mul(x, y), [&] { return (ca * cb).template execute<bb::OpenBLAS>(); });
        stat<A>(w, mul(x, y), [&] { return (ca * cb).template execute<bb::TheBestPolicy>(); });
#ifdef SIM_EIGEN
        stat<A>("static Eigen", mul(x, y), [&] { return (ca * cb).template execute<bb::EigenI>(); });
#endif
        if (read(ca, w) != x || read(cb, w) != y) sim::fail("operand-changed", "%s changed an operand", w);
        sim::alloc::Target t; a.reset(); b.reset();
    }
    template <class A, class B, class R> void static_sum(char const* w) {
        size_t m = dim(), n = dim(); Ref x = gen(m, n), y = gen(m, n); if (std::is_same<typename A::value_type, double>::value) x = fine(x); if (std::is_same<typename B::value_type, double>::value) y = fine(y);
        std::shared_ptr<A> a; std::shared_ptr<B> b; { sim::alloc::Target t; a = Make<A>::make(x); b = Make<B>::make(y); }
        A const& ca = *a; B const& cb = *b;
        stat<R>(w, add(x, y), [&] { return ca + cb; });
        stat<R>(w, add(x, y, -1.0), [&] { return ca - cb; });
        if (read(ca, w) != x || read(cb, w) != y) sim::fail("operand-changed", "%s changed an operand", w);
        sim::alloc::Target t; a.reset(); b.reset();
    }
    /// operands of static types that do not fit
    template <class A, class B> void static_unfit(char const* w) {
        size_t m = dim(), k = dim(), n = dim(), u = draw(OPS, 2) ? k + 1 + draw(OPS, 3) : k > 1 ? k - 1 : k + 1; Ref x = gen(m, k), y = gen(u, n), z = gen(m, u);
        std::shared_ptr<A> a; std::shared_ptr<B> b, d; { sim::alloc::Target t; a = Make<A>::make(x); b = Make<B>::make(y); d = Make<B>::make(z); }
        A const& ca = *a; B const& cb = *b; B const& cd = *d; sim::count("unfit_operands"); uint32_t op = draw(OPS, 4); Res res;
        switch (op) {
        case 0: res = attempt(w, [&] { auto r = (ca * cb).template execute<bb::Native>(); (void)r; }); break;
        case 1: if constexpr (std::is_same<typename A::parameter, typename B::parameter>::value) { res = attempt(w, [&] { auto r = ca + cd; (void)r; }); break; } // fall through
        case 2: if constexpr (std::is_same<typename A::parameter, typename B::parameter>::value) { res = attempt(w, [&] { auto r = ca - cd; (void)r; }); break; } // fall through
        default: if constexpr (std::is_same<A, B>::value) res = attempt(w, [&] { if (op == 3) *a += cd; else *a -= cd; }); else res = attempt(w, [&] { auto r = (ca * cb).template execute<bb::Native>(); (void)r; });
        }
        if (res == OK) sim::fail("not-refused", "%s of matrices that do not fit (operation %u) is not refused", w, op);
        if (read(ca, w) != x || read(cb, w) != y || read(cd, w) != z) sim::fail("operand-changed", "%s changed an operand", w);
        sim::alloc::Target t; a.reset(); b.reset(); d.reset();
    }
    void statics() {
        if (draw(OPS, 8) == 7) switch (draw(OPS, 5)) {
            case 0: return static_unfit<DD, DD>("static DD, DD"); case 1: return static_unfit<RD, RD>("static RD, RD"); case 2: return static_unfit<SD, DD>("static SD, DD");
            case 3: return static_unfit<SD, SD>("static SD, SD"); default: return static_unfit<DD, RD>("static DD, RD"); }
        typedef bb::Matrix<Dense,float,bb::Parameter<size_t,bb::RowMajor>> RF;
        switch (draw(OPS, 14)) {
        case 0: static_mul<DD, DD, DD>("static DD*DD"); break;
        case 1: static_mul<RD, RD, DD>("static RD*RD"); break;
        case 2: static_mul<DD, RD, DD>("static DD*RD"); break;
        case 3: static_mul<RD, DD, DD>("static RD*DD"); break;
        case 4: static_mul<SD, RD, DD>("static SD*RD"); break;
        case 5: static_mul<RD, SD, DD>("static RD*SD"); break;
        case 6: static_mul<SD, SD, SD>("static SD*SD"); break;
        case 7: static_mul<SF, DD, DD>("static SF*DD"); break;
        case 8: static_sum<RD, RD, RD>("static RD+-RD"); break;
        case 9: static_sum<RD, RF, RD>("static RD+-RF"); break;
        case 10: static_sum<SF, DD, DD>("static SF+-DD"); break;
        case 11: static_blas<DD>("static BLAS DD*DD"); break;
        case 12: static_blas<DF>("static BLAS DF*DF"); break;
        default: { // compound of the other orientation, and of two-part sums of dense matrices
            size_t m = dim(), n = dim(); Ref x = gen(m, n), y = gen(m, n), z = gen(m, n), v = gen(m, n); bool plus = draw(OPS, 2); double sg = plus ? 1 : -1;
            if (draw(OPS, 2)) {
                std::shared_ptr<RD> a, b; { sim::alloc::Target t; a = Make<RD>::make(x); b = Make<RD>::make(y); }
                if (plus) *a += static_cast<RD const&>(*b); else *a -= static_cast<RD const&>(*b);
                sim::count("static RD+=RD"); if (read(static_cast<RD const&>(*a), "RD+=RD") != add(x, y, sg)) sim::fail("wrong-result", "RD += RD");
                sim::alloc::Target t; a.reset(); b.reset();
            } else {
                typedef bb::MultipleMatrix<DD,DF> MDF; std::shared_ptr<DD> p, u; std::shared_ptr<DF> q, w;
                { sim::alloc::Target t; p = Make<DD>::make(x); q = Make<DF>::make(y); u = Make<DD>::make(z); w = Make<DF>::make(v);
                  MDF a(p, q), b(u, w); bool mm = draw(OPS, 2);
                  if (mm) { if (plus) a += b; else a -= b; } else { if (plus) a += static_cast<DD const&>(*u); else a -= static_cast<DD const&>(*u); }
                  sim::count("static Multiple+="); Ref want = add(add(x, y), mm ? add(z, v) : z, sg), got = read(a, "Multiple+=");
                  if (got != want) sim::fail("wrong-result", "Multiple %s= %s gives %s, expected %s", plus ? "+" : "-", mm ? "Multiple" : "Dense", got.str().c_str(), want.str().c_str());
                  if (read(static_cast<DD const&>(*u), "operand") != z || read(static_cast<DF const&>(*w), "operand") != v) sim::fail("operand-changed", "Multiple += changed its right operand");
                  sim::alloc::Host h; p.reset(); q.reset(); u.reset(); w.reset(); }
            } }
        }
    }
    void go() {
        draw_junk(); draw_unit(true);
        // most runs use small matrices; some reach the blocked kernels of the library behind
        { uint32_t k = draw(OPS, 24); if (k >= 22) maxdim = 40; thin = k == 21; if (thin) sim::count("thin_shapes"); if (k == 20 && draw(OPS, 8) == 7) { base = 256; maxdim = 8; sim::count("vast_shapes"); } }
        uint32_t n = base ? 1 + draw(OPS, 3) : 2 + draw(OPS, 12);
        for (uint32_t k = 0; k < n; ++k) {
            sim::Span sp; int i = int(draw(OPS, N)), j = int(draw(OPS, N)), d = int(draw(OPS, N)); uint32_t op = draw(OPS, 12); sim::steps(1);
            if (op < 6) binary(i, j, d);
            else if (op < 9) compound(i, j);
            else if (op == 9) { need(i); drop(j); s[j] = s[i]; sim::count("share"); }
            else if (op == 10) { if (!base) statics(); }
            else if (draw(OPS, 2)) create_external(i, dim(), dim());
            else create(i, dim(), dim());
            check("operation");
            uint64_t h = 1; for (int q = 0; q < N; ++q) if (s[q]) h = sim::mix(h, s[q]->x.hash() + s[q]->m->getTypeIndex()); sim::state(h);
        }
        for (int i = 0; i < N; ++i) drop(i);
        if (sim::alloc::live()) sim::fail("leak", "%zu blocks still allocated after every matrix was destroyed (sizes %s)", sim::alloc::live(), sim::alloc::describe_live());
    }
};
} // namespace

SIM_WORLD(arith_values, "arith/values") { ArithWorld w; w.faults = false; w.go(); }
SIM_WORLD(arith_faults, "arith/faults") { ArithWorld w; w.faults = true; w.go(); }

// World "view" (property C14): matrices over caller-provided memory and rectangular windows, mixed
// with owning matrices, through seeded histories of writes, moves, swaps, assignments, resizes,
// conversions, arithmetic and destruction. Every caller buffer lies between guard words and is
// compared with the model after every operation.
//   view/history : values     view/faults : the nth allocation of an operation fails
#include "model.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/Copy.h"
#include "BlasBooster/Core/Norm.h"
#include <cstdlib>
using namespace mdl;
using sim::draw; using sim::OPS; using sim::FAULTS;

namespace {
template <class M> struct Tr;
template <class T, class P> struct Tr<bb::Matrix<Dense,T,P>> {
    typedef T value; static const bool row = std::is_same<typename P::orientation, bb::RowMajor>::value;
    typedef bb::Matrix<Dense,T,bb::Parameter<size_t,bb::ColumnMajor,bb::VariableSize,bb::LeadingDimension>> view;
    typedef bb::Matrix<Dense,T,bb::Parameter<size_t,bb::RowMajor>> rowm; typedef bb::Matrix<Dense,T> colm;
};

const double GUARD = 1234567.0;

template <class M>
struct ViewWorld {
    typedef typename Tr<M>::value T; typedef typename Tr<M>::view V;
    struct Store { std::vector<double> v; T* base = nullptr; size_t n = 0; };   // base != null: caller's buffer of n elements
    typedef std::shared_ptr<Store> SP;
    struct Slot { std::unique_ptr<M> m; SP st; size_t r = 0, c = 0; };
    struct View { std::unique_ptr<V> v; SP st; size_t r = 0, c = 0, off = 0, ld = 0; int owner = -1; };
    enum { NB = 2, NS = 4, NV = 3 };
    bool faults; Extent ex; SP buf[NB]; Slot s[NS]; View w[NV];

    static size_t pos(Slot const& a, size_t i, size_t j) { return Tr<M>::row ? i * a.c + j : i + j * a.r; }
    static Ref ref(Slot const& a) { Ref x(a.r, a.c); for (size_t j = 0; j < a.c; ++j) for (size_t i = 0; i < a.r; ++i) x.at(i, j) = a.st->v[pos(a, i, j)]; return x; }
    static Ref ref(View const& a) { Ref x(a.r, a.c); for (size_t j = 0; j < a.c; ++j) for (size_t i = 0; i < a.r; ++i) x.at(i, j) = a.st->v[a.off + i + j * a.ld]; return x; }
    static SP own(Ref const& x) { SP p = std::make_shared<Store>(); Slot a; a.r = x.r; a.c = x.c; p->v.resize(x.v.size()); for (size_t j = 0; j < x.c; ++j) for (size_t i = 0; i < x.r; ++i) p->v[pos(a, i, j)] = x.at(i, j); return p; }
    /// values: one in units of the run, and with digits of its own where the elements are double
    static double val(int k) { return k * unit + (k && finely ? unit * std::ldexp(double(k), -30) : 0.0); }
    static Ref gen(size_t r, size_t c) { Ref x = mdl::gen(r, c); return finely ? fine(x) : x; }
    static double maxabs(Ref const& x) { double m = 0; for (double v : x.v) m = std::max(m, std::abs(v)); return m; }

    void make_buffer(int b) {
        size_t n = 1 + draw(OPS, ex.r * ex.c > 36 ? ex.r * ex.c : 24); SP p = std::make_shared<Store>(); p->n = n;
        T* raw = static_cast<T*>(malloc((n + 8) * sizeof(T))); for (size_t i = 0; i < n + 8; ++i) raw[i] = T(GUARD);
        p->base = raw + 4; uint64_t sd = draw(OPS, 1u << 16);
        for (size_t i = 0; i < n; ++i) { p->v.push_back(val(int(sim::mix(sd, i) % 19) - 9)); p->base[i] = T(p->v[i]); }
        buf[b] = p;
    }
    void drop_views(SP const& st) { for (auto& q : w) if (q.st == st && (!st || !st->base)) { sim::alloc::Target t; q.v.reset(); sim::alloc::Host h; q = View(); } }
    void drop(int i) { if (!s[i].m) return; drop_views(s[i].st); { sim::alloc::Target t; s[i].m.reset(); } s[i] = Slot(); }
    void dropv(int k) { { sim::alloc::Target t; w[k].v.reset(); } w[k] = View(); }

    void check(char const* op) {
        for (int b = 0; b < NB; ++b) if (buf[b]) {
            for (int g = 1; g <= 4; ++g) if (buf[b]->base[-g] != T(GUARD) || buf[b]->base[buf[b]->n + g - 1] != T(GUARD)) sim::fail("foreign-memory", "after %s: the memory next to caller buffer %d was overwritten", op, b);
            for (size_t i = 0; i < buf[b]->n; ++i) if (double(buf[b]->base[i]) != buf[b]->v[i]) sim::fail("foreign-memory", "after %s: element %zu of caller buffer %d is %g, expected %g", op, i, b, double(buf[b]->base[i]), buf[b]->v[i]);
        }
        for (int i = 0; i < NS; ++i) if (s[i].m) {
            char t[64]; snprintf(t, sizeof t, "after %s: matrix %d", op, i); M const& m = *s[i].m;
            Ref y = read(m, t), x = ref(s[i]);
            if (y != x) sim::fail("wrong-content", "%s holds %s, expected %s", t, y.str().c_str(), x.str().c_str());
            if (s[i].st->base && m.getDataPointer() != s[i].st->base) sim::fail("wrong-memory", "%s no longer uses the caller's memory", t);
            if (!s[i].st->base && m.getSize()) for (auto& b : buf) if (b && m.getDataPointer() >= b->base && m.getDataPointer() < b->base + b->n) sim::fail("wrong-memory", "%s should own its memory but uses the caller's", t);
        }
        for (int k = 0; k < NV; ++k) if (w[k].v) {
            char t[64]; snprintf(t, sizeof t, "after %s: window %d", op, k); V const& v = *w[k].v; Ref x = ref(w[k]);
            if (v.getNbRows() != x.r || v.getNbColumns() != x.c || v.getSize() != x.r * x.c) sim::fail("wrong-content", "%s is %zux%zu, expected %zux%zu", t, size_t(v.getNbRows()), size_t(v.getNbColumns()), x.r, x.c);
            Ref y(x.r, x.c); for (size_t j = 0; j < x.c; ++j) for (size_t i = 0; i < x.r; ++i) y.at(i, j) = v(i, j);
            if (y != x) sim::fail("wrong-content", "%s holds %s, expected %s", t, y.str().c_str(), x.str().c_str());
            size_t n = 0; for (auto it = v.begin(), e = v.end(); it != e; ++it, ++n) { if (n >= x.v.size()) sim::fail("window", "%s: iteration does not end with the window", t); if (double(*it) != x.v[n]) sim::fail("window", "%s: iteration leaves the window", t); }
            if (n != x.v.size()) sim::fail("window", "%s: iteration visits %zu of %zu elements", t, n, x.v.size());
        }
    }
    template <class F> int attempt(char const* op, F f) {
        uint32_t nth = faults ? draw_nth() : 0; sim::alloc::arm(nth);
        try { sim::alloc::Target t; f(); }
        catch (std::bad_alloc const&) { if (!sim::alloc::disarm()) sim::fail("unexpected-exception", "%s throws bad_alloc although no allocation failed", op); sim::count("probe:operation_failed_on_allocation"); sim::ev("%s: allocation %u failed", op, nth); return 1; }
        catch (sim::Violation&) { throw; }
        catch (std::exception const& e) { sim::alloc::disarm(); sim::ev("%s refused: %s", op, e.what()); return 2; }
        sim::alloc::disarm(); return 0;
    }
    /// f must succeed (possibly at the second attempt, after an injected failure)
    template <class F> void must(char const* op, F f) {
        sim::count(op); int r = attempt(op, f);
        if (r == 1) { check(op); bool sv = faults; faults = false; r = attempt(op, f); faults = sv; if (r == 1) sim::fail("retry", "%s fails again without a fault", op); sim::count("probe:retry_after_failure"); }
        if (r == 2) sim::fail("refused", "%s is refused", op);
    }
    void proxy(int i) {
        int b = int(draw(OPS, NB)); if (!buf[b]) make_buffer(b);
        size_t r = ex.rows(), c = ex.cols(); while (r * c > buf[b]->n) { if (r > 1 && (r > c || ex.r < ex.c || c == 1)) --r; else --c; }
        drop(i); must("proxy", [&] { s[i].m.reset(new M(r, c, buf[b]->base)); }); s[i].st = buf[b]; s[i].r = r; s[i].c = c;
    }
    void owner(int i, size_t r, size_t c) {
        Ref x = gen(r, c); drop(i); must("owner", [&] { s[i].m.reset(new M(r, c)); });
        write(*s[i].m, x); s[i].st = own(x); s[i].r = r; s[i].c = c;
    }
    void need(int i) { if (!s[i].m) { if (draw(OPS, 3)) proxy(i); else { size_t r = ex.rows(), c = ex.cols(); owner(i, r, c); } } }

    void write_some(int i) {
        need(i); Slot& a = s[i]; if (!a.r || !a.c) return; uint32_t k = draw(OPS, 6); double x = val(int(draw(OPS, 19)) - 9); size_t p = draw(OPS, uint32_t(a.r * a.c)); size_t pi = p % a.r, pj = p / a.r;
        sim::count("write");
        switch (k) {
        case 0: (*a.m)(pi, pj) = T(x); a.st->v[pos(a, pi, pj)] = x; break;
        case 1: a.m->getDataPointer()[p] = T(x); a.st->v[p] = x; break;
        case 2: *(a.m->begin() + p) = T(x); a.st->v[p] = x; break;
        case 3: a.m->fill(T(x)); std::fill_n(a.st->v.begin(), a.r * a.c, x); break;
        case 4: *a.m = T(x); std::fill_n(a.st->v.begin(), a.r * a.c, x); break;
        default: if (a.st->base) { size_t q = draw(OPS, uint32_t(a.st->n)); a.st->base[q] = T(x); a.st->v[q] = x; }   // the caller writes
        }
    }
    void resize(int i) {
        need(i); Slot& a = s[i]; size_t n = a.r * a.c; if (!n) return;
        if (draw(OPS, 2)) {   // same number of elements: another shape of the same memory
            size_t c = 1 + draw(OPS, uint32_t(n)); while (n % c) --c;
            must("reshape", [&] { a.m->resize(n / c, c); }); a.r = n / c; a.c = c; return;
        }
        size_t r = ex.rows(), c = ex.cols(); if (r * c == n) return;
        if (a.st->base) {
            sim::count("resize of a proxy"); int k = attempt("resize", [&] { a.m->resize(r, c); });
            if (k == 0) sim::fail("not-refused", "resizing a matrix over caller-provided memory from %zu to %zu elements is not refused", n, r * c);
        } else {
            drop_views(a.st); must("resize", [&] { a.m->resize(r, c); }); Ref x = gen(r, c); write(*a.m, x); a.st = own(x); a.r = r; a.c = c;
        }
    }
    /// what a move left behind in slot i no longer refers to the memory: it can be resized or dropped
    void husk(int i) {
        Slot o; o.m = std::move(s[i].m); s[i] = Slot(); size_t r = 1 + draw(OPS, 4), c = 1 + draw(OPS, 4);
        if (draw(OPS, 2)) { sim::count("resize of a moved-from matrix"); must("resize of a moved-from matrix", [&] { o.m->resize(r, c); }); Ref x = gen(r, c); write(*o.m, x); s[i].m = std::move(o.m); s[i].st = own(x); s[i].r = r; s[i].c = c; return; }
        sim::alloc::Target t; o.m.reset();
    }
    void whole(int i, int j) {
        need(i); if (i == j) return; uint32_t k = draw(OPS, 5); Slot& a = s[i];
        if (k == 0) { M* p = nullptr; must("copy", [&] { p = new M(static_cast<M const&>(*a.m)); }); Ref x = ref(a); drop(j); s[j].m.reset(p); s[j].st = own(x); s[j].r = x.r; s[j].c = x.c; }
        else if (k == 1) { M* p = nullptr; must("move", [&] { p = new M(std::move(*a.m)); }); drop(j); s[j].m.reset(p); s[j].st = a.st; s[j].r = a.r; s[j].c = a.c; husk(i); }
        else if (k == 2) { need(j); drop_views(s[j].st); sim::count("move assignment"); { sim::alloc::Target t; *s[j].m = std::move(*a.m); } s[j].st = a.st; s[j].r = a.r; s[j].c = a.c; husk(i); }
        else if (k == 3) { need(j); sim::count("swap"); { sim::alloc::Target t; using std::swap; swap(*s[i].m, *s[j].m); } std::swap(s[i].st, s[j].st); std::swap(s[i].r, s[j].r); std::swap(s[i].c, s[j].c); }
        else { // assignment: from an owner, the content; from a proxy, the caller's memory
            need(j); drop_views(s[j].st); must("assign", [&] { *s[j].m = static_cast<M const&>(*a.m); });
            s[j].st = a.st->base ? a.st : own(ref(a)); s[j].r = a.r; s[j].c = a.c; }
    }
    void arith(int i, int j) {
        need(i); Slot& a = s[i]; if (!a.r || !a.c) return; if (i == j) j = (i + 1) % NS;
        if (!s[j].m || s[j].r != a.r || s[j].c != a.c) owner(j, a.r, a.c);
        Slot& b = s[j]; Ref x = ref(a), y = ref(b); if (maxabs(x) > 4000 * unit || maxabs(y) > 4000 * unit) { { sim::alloc::Target t; a.m->fill(T(unit)); } std::fill_n(a.st->v.begin(), a.r * a.c, unit); return; }
        if constexpr (!Tr<M>::row) if (draw(OPS, 3) == 2) { mixed(i); return; }
        uint32_t k = draw(OPS, 6); M const& ca = *a.m; M const& cb = *b.m;
        if (k < 2) {
            must(k ? "-=" : "+=", [&] { if (k) *a.m -= cb; else *a.m += cb; });
            for (size_t q = 0; q < a.c; ++q) for (size_t p = 0; p < a.r; ++p) a.st->v[pos(a, p, q)] = x.at(p, q) + (k ? -1 : 1) * y.at(p, q);
        } else if (k < 4) {
            M* p = nullptr; must(k == 2 ? "+" : "-", [&] { p = k == 2 ? new M(ca + cb) : new M(ca - cb); });
            result("sum", p, add(x, y, k == 2 ? 1.0 : -1.0));
        } else {
            typedef typename std::conditional<Tr<M>::row, typename Tr<M>::colm, typename Tr<M>::rowm>::type O;
            if (k == 4) { O* p = nullptr; must("other orientation", [&] { p = new O(ca); }); result("other orientation", p, x); }
            else { auto* p = static_cast<M*>(nullptr); must("transpose", [&] { p = new M(bb::transpose(ca)); }); result("transpose", p, trans(x)); }
        }
    }
    /// sums and differences with the kinds for which the result starts as a copy of the dense operand, and dynamic and blocked uses
    void mixed(int i) {
        typedef bb::Matrix<Sparse,T> S; Slot& a = s[i]; M const& ca = *a.m; Ref x = ref(a), y = gen(a.r, a.c), z(a.r, a.c); uint32_t k = draw(OPS, 10);
        std::shared_ptr<S> sp; std::shared_ptr<ZZ> zz; { sim::alloc::Target t; if (k < 4) sp = Make<S>::make(y); else if (k < 7) zz = Make<ZZ>::make(z); }
        M* p = nullptr;
        switch (k) {
        case 0: must("+ sparse", [&] { p = new M(ca + static_cast<S const&>(*sp)); }); result("+ sparse", p, add(x, y)); break;
        case 1: must("- sparse", [&] { p = new M(ca - static_cast<S const&>(*sp)); }); result("- sparse", p, add(x, y, -1.0)); break;
        case 2: must("sparse +", [&] { p = new M(static_cast<S const&>(*sp) + ca); }); result("sparse +", p, add(y, x)); break;
        case 3: must("sparse -", [&] { p = new M(static_cast<S const&>(*sp) - ca); }); result("sparse -", p, add(y, x, -1.0)); break;
        case 4: must("+ zero", [&] { p = new M(ca + static_cast<ZZ const&>(*zz)); }); result("+ zero", p, x); break;
        case 5: must("- zero", [&] { p = new M(ca - static_cast<ZZ const&>(*zz)); }); result("- zero", p, x); break;
        case 6: must("zero -", [&] { p = new M(static_cast<ZZ const&>(*zz) - ca); }); result("zero -", p, add(z, x, -1.0)); break;
        case 7: { S* q = nullptr; must("sparse from", [&] { q = new S(ca); }); Ref g = read(static_cast<S const&>(*q), "sparse from"); { sim::alloc::Target t; delete q; } if (g != x) sim::fail("wrong-result", "sparse from gives %s, expected %s", g.str().c_str(), x.str().c_str()); break; }
        case 8: { // a dynamically typed sum with an own copy of it
            M* q = nullptr; must("dynamic", [&] { bb::DynamicMatrix d(new M(ca)), e(new M(ca)); bb::DynamicMatrix f = d + e; q = new M(static_cast<M const&>(*f)); }); result("dynamic", q, add(x, x)); break; }
        default: { // blocked and assembled
            M* q = nullptr; std::vector<size_t> r(1, a.r), c(1, a.c); if (a.r > 1) r = {1, a.r - 1}; if (a.c > 1) c = {a.c - 1, 1};
            bb::Threshold th; if (finely) th = bb::Threshold(bb::ThresholdSettings().set_significanceThresholdSinglePrecision(2e-290).set_significanceThresholdDoublePrecision(1e-290));
            must("blocked", [&] { auto b = bb::BlockedMatrixGenerator()(ca, r, c, th); q = new M(bb::Matrix<Dense,T>(b)); }); result("blocked", q, x); }
        }
        sim::alloc::Target t; sp.reset(); zz.reset();
    }
    template <class R> void result(char const* op, R* p, Ref const& x) {
        Ref y = read(static_cast<R const&>(*p), op); if (y != x) sim::fail("wrong-result", "%s gives %s, expected %s", op, y.str().c_str(), x.str().c_str());
        // results own their memory: writing to them leaves everything else alone
        if (p->getSize()) { *p = typename R::value_type(77); check(op); }
        sim::alloc::Target t; delete p;
    }
    // ---- windows ---------------------------------------------------------------------------
    void window(int k, int i) {
        if constexpr (!Tr<M>::row) {
            need(i); int from = draw(OPS, 3) == 2 ? int(draw(OPS, NV)) : -1; if (from == k || (from >= 0 && !w[from].v)) from = -1;
            size_t R = from >= 0 ? w[from].r : s[i].r, C = from >= 0 ? w[from].c : s[i].c; if (!R || !C) return;
            size_t r = 1 + draw(OPS, uint32_t(R)), c = 1 + draw(OPS, uint32_t(C)), r0 = draw(OPS, uint32_t(R - r + 1)), c0 = draw(OPS, uint32_t(C - c + 1));
            View n; V* p = nullptr;
            if (draw(OPS, 8) == 7) { // a window beyond its matrix is refused
                size_t br = r, bc = c, b0 = r0, d0 = c0; sim::count("window_beyond");
                switch (draw(OPS, 6)) { case 0: br = R - r0 + 1 + draw(OPS, 3); break; case 1: bc = C - c0 + 1 + draw(OPS, 3); break; case 2: b0 = R - r + 1 + draw(OPS, 3); break; case 3: d0 = C - c + 1 + draw(OPS, 3); break; case 4: br = SIZE_MAX - draw(OPS, uint32_t(r0 + 1)); break; default: b0 = SIZE_MAX - draw(OPS, uint32_t(r + 1)); }
                try { sim::alloc::Target t; if (from >= 0) p = new V(static_cast<V const&>(*w[from].v), br, bc, b0, d0); else p = new V(static_cast<M const&>(*s[i].m), br, bc, b0, d0); } catch (std::exception const&) {}
                if (p) { { sim::alloc::Target t; delete p; } sim::fail("window", "a %zux%zu window at (%zu,%zu) of a %zux%zu matrix is accepted", br, bc, b0, d0, R, C); }
            }
            if (from >= 0) { must("window of a window", [&] { p = new V(static_cast<V const&>(*w[from].v), r, c, r0, c0); }); n.st = w[from].st; n.ld = w[from].ld; n.off = w[from].off + r0 + c0 * n.ld; }
            else { must("window", [&] { p = new V(static_cast<M const&>(*s[i].m), r, c, r0, c0); }); n.st = s[i].st; n.ld = R; n.off = r0 + c0 * R; }
            n.v.reset(p); n.r = r; n.c = c; dropv(k); w[k] = std::move(n);
        }
    }
    void use_window(int k, int i) {
        if constexpr (!Tr<M>::row) {
            if (!w[k].v) { window(k, i); if (!w[k].v) return; }
            View& a = w[k]; V& v = *a.v; V const& cv = v; Ref x = ref(a); double z = val(int(draw(OPS, 19)) - 9); size_t p = draw(OPS, uint32_t(x.v.size()));
            auto set = [&](size_t q, double t) { a.st->v[a.off + q % a.r + (q / a.r) * a.ld] = t; };
            switch (draw(OPS, 11)) {
            case 0: v(p % a.r, p / a.r) = T(z); set(p, z); sim::count("window write"); break;
            case 1: v = T(z); for (size_t q = 0; q < x.v.size(); ++q) set(q, z); sim::count("window fill"); break;
            case 2: { auto it = v.begin(); for (size_t q = 0; q < p; ++q) ++it; *it = T(z); set(p, z); sim::count("window iterate"); break; }
            case 3: { auto it = v.rbegin(); for (size_t q = x.v.size() - 1; q > p; --q) --it; *it = T(z); set(p, z); sim::count("window iterate back"); break; }
            case 4: { // a walk with turns, one past each end included
                long n = long(x.v.size()); bool rb = draw(OPS, 2); auto it = rb ? v.rbegin() : v.begin(); long at = rb ? n - 1 : 0; uint32_t len = draw(OPS, 40); uint64_t sd = draw(OPS, 1u << 16); bool up = true; sim::count("window walk");
                for (uint32_t q = 0; q < len; ++q) { if (sim::mix(sd, q) % 5 == 0) up = !up; if (up && at == n) up = false; if (!up && at == -1) up = true; if (up) { ++it; ++at; } else { --it; --at; }
                    if (at == -1) { if (it != v.rend()) sim::fail("window", "walking back over a %zux%zu window misses its reverse end", a.r, a.c); }
                    else if (at < n) { if (double(*it) != x.v[at]) sim::fail("window", "walking over a %zux%zu window reads %g at position %ld, expected %g", a.r, a.c, double(*it), at, x.v[at]); }
                    else if (it != v.end()) sim::fail("window", "walking over a %zux%zu window misses its end", a.r, a.c); }
                break; }
            case 5: { long n = long(x.v.size()); sim::count("window reverse"); long q = n - 1; auto it = v.rbegin(), e = v.rend(); for (; it != e; --it, --q) { if (q < 0) sim::fail("window", "reverse iteration does not end with the window"); if (double(*it) != x.v[q]) sim::fail("window", "reverse iteration leaves the window"); } if (q != -1) sim::fail("window", "reverse iteration misses elements");
                q = n; for (auto b = v.end(); b != v.begin();) { --b; --q; if (q < 0 || double(*b) != x.v[q]) sim::fail("window", "iteration from the end leaves the window"); } break; }
            case 6: { M* m = nullptr; must("copy of a window", [&] { m = new M(cv); }); result("copy of a window", m, x); break; }
            case 7: { typedef bb::Matrix<Sparse,T> S; S* m = nullptr; must("sparse from window", [&] { m = new S(cv); }); Ref y = read(static_cast<S const&>(*m), "sparse from window"); { sim::alloc::Target t; delete m; } if (y != x) sim::fail("wrong-result", "sparse from window gives %s, expected %s", y.str().c_str(), x.str().c_str()); break; }
            case 8: { bool bad = draw(OPS, 4) == 3; Ref y = gen(a.r + (bad ? draw(OPS, 3) : 0), a.c); if (bad && y.r == a.r) { if (a.r != a.c && draw(OPS, 2)) y = gen(a.c, a.r); else y = gen(a.r, a.c > 1 && draw(OPS, 2) ? a.c - 1 : a.c + 1); }
                if (bad) { // and so is a copy of other dimensions
                    sim::count("copy_unfit"); std::shared_ptr<M> m; { sim::alloc::Target t; m = Make<M>::make(y); } bool refused = false; try { sim::alloc::Target t; bb::copy(static_cast<M const&>(*m), v); } catch (std::exception const&) { refused = true; }
                    { sim::alloc::Target t; m.reset(); } if (!refused) sim::fail("not-refused", "a %zux%zu matrix is copied into a %zux%zu window", y.r, y.c, a.r, a.c); break; } std::shared_ptr<M> m; { sim::alloc::Target t; m = Make<M>::make(y); } must("copy into window", [&] { bb::copy(static_cast<M const&>(*m), v); }); for (size_t q = 0; q < y.v.size(); ++q) set(q, y.v[q]); { sim::alloc::Target t; m.reset(); } break; }
            case 9: { double n2 = 0; size_t nz = 0; for (double t : x.v) { n2 += t * t; nz += t != 0; } double n = 0; size_t cnt = 0; must("window norm", [&] { n = cv.getNorm(); cnt = cv.getNbOfSignificantElements(bb::AbsoluteValueRangeChecker<double>()); });
                if (std::abs(n - std::sqrt(n2)) > 1e-4 * std::sqrt(n2)) sim::fail("wrong-result", "norm of a window is %g, expected %g", n, std::sqrt(n2)); if (cnt != nz) sim::fail("wrong-result", "a window of %zu significant elements counts %zu", nz, cnt); break; }
            default: { V* q = nullptr; must("second window", [&] { q = new V(cv); }); (*q)(p % a.r, p / a.r) = T(z); set(p, z); sim::alloc::Target t; delete q; }
            }
        }
    }
    void go() {
        draw_junk(); draw_unit(std::is_same<T,double>::value); ex.draw(6, 30, 500); uint32_t n = 3 + draw(OPS, 22);
        for (uint32_t q = 0; q < n; ++q) {
            sim::Span sp; sim::steps(1); int i = int(draw(OPS, NS)), j = int(draw(OPS, NS)), k = int(draw(OPS, NV)); uint32_t op = draw(OPS, 16);
            char const* name = "";
            if (op < 2) proxy(i), name = "proxy"; else if (op < 5) write_some(i), name = "write"; else if (op < 6) resize(i), name = "resize"; else if (op < 9) whole(i, j), name = "whole";
            else if (op < 11) arith(i, j), name = "arithmetic"; else if (op < 12) window(k, i), name = "window"; else if (op < 15) use_window(k, i), name = "use of a window"; else if (draw(OPS, 2)) dropv(k), name = "drop window"; else drop(i), name = "drop";
            sim::ev("%s", name); check(name);
            uint64_t h = 1; for (auto& t : s) h = sim::mix(h, t.m ? t.r * 100 + t.c * 10 + (t.st->base ? 1 : 2) : 0); for (auto& t : w) h = sim::mix(h, t.v ? t.off * 1000 + t.r * 10 + t.c : 0); sim::state(h);
        }
        for (int k = 0; k < NV; ++k) dropv(k);
        for (int i = 0; i < NS; ++i) drop(i);
        check("destruction");
        if (sim::alloc::live()) sim::fail("leak", "%zu blocks still allocated after every matrix was destroyed (sizes %s)", sim::alloc::live(), sim::alloc::describe_live());
    }
};
template <class M> void run(bool faults) { ViewWorld<M> w; w.faults = faults; w.go(); }
void pick(bool faults) { switch (draw(OPS, 4)) { case 0: case 1: return run<DD>(faults); case 2: return run<DF>(faults); default: return run<RD>(faults); } }
} // namespace

SIM_WORLD(view_history, "view/history") { pick(false); }
SIM_WORLD(view_faults, "view/faults") { pick(true); }

// World "cache" (property C06): histories of mutations, whole-object operations and failing
// allocations interleaved with norm and occupation queries. Every query is compared with the
// value computed from scratch over the elements the matrix has at that moment.
#include "model.h"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <tuple>
using namespace mdl;
using sim::draw; using sim::OPS; using sim::FAULTS;

namespace {
template <class NT> using DN = bb::Matrix<Dense,double,bb::Parameter<size_t,bb::ColumnMajor,bb::VariableSize,bb::NoLeadingDimension,bb::NoUnblockedDimension,NT>>;
template <class NT> using SN = bb::Matrix<Sparse,double,bb::Parameter<size_t,bb::ColumnMajor,bb::VariableSize,bb::NoLeadingDimension,bb::NoUnblockedDimension,NT>>;
typedef DN<bb::NormOne> D1; typedef DN<bb::NormMax> DM; typedef SN<bb::NormOne> S1;
const int N = 3;

template <class M> struct Slot { std::shared_ptr<M> m; bool loose = false; };
template <class M> struct Pool { Slot<M> s[N]; };
template <class M> struct IsSparse : std::false_type {}; template <class T, class P> struct IsSparse<bb::Matrix<Sparse,T,P>> : std::true_type {};

template <class M> double want_norm(M const& m, bb::NormTwo*) { double s = 0; for (auto i = m.begin(); i != m.end(); ++i) s += double(*i) * double(*i); return std::sqrt(s); }
template <class M> double want_norm(M const& m, bb::NormOne*) { double s = 0; for (auto i = m.begin(); i != m.end(); ++i) s += std::abs(double(*i)); return s; }
template <class M> double want_norm(M const& m, bb::NormMax*) { double s = 0; for (auto i = m.begin(); i != m.end(); ++i) s = std::max(s, std::abs(double(*i))); return s; }

struct CacheWorld {
    bool faults; Extent ex;
    std::tuple<Pool<DD>, Pool<DF>, Pool<RD>, Pool<SD>, Pool<SF>, Pool<D1>, Pool<DM>, Pool<S1>> pools;
    template <class M> Pool<M>& pool() { return std::get<Pool<M>>(pools); }

    template <class F> bool attempt(char const* op, F f) {
        uint32_t nth = faults && draw(FAULTS, 2) ? 1 + draw(FAULTS, 4) : 0;
        sim::alloc::arm(nth);
        try { sim::alloc::Target t; f(); }
        catch (std::bad_alloc const&) {
            if (!sim::alloc::disarm()) sim::fail("unexpected-exception", "%s throws bad_alloc although no allocation failed", op);
            sim::ev("%s: an allocation failed", op); sim::count("probe:operation_failed_on_allocation"); return false;
        } catch (sim::Violation&) { throw; }
        catch (std::exception const& e) { sim::fail("unexpected-exception", "%s throws: %s", op, e.what()); }
        sim::alloc::disarm(); return true;
    }

    // --- queries ---------------------------------------------------------------------------
    template <class M, class C> void occ(M const& m, C const& c, char const* what, int i, std::function<bool(double)> accept) {
        size_t want = 0; for (auto k = m.begin(); k != m.end(); ++k) want += accept(std::abs(double(*k)));
        uint32_t how = m.getSize() ? draw(OPS, 3) : 0; size_t got = 0; double o = 0; bool l = false, s = false; double thr = draw(OPS, 5) * 0.25;
        double wo = m.getSize() ? double(want) / m.getSize() : 0;
        bool ok = attempt(what, [&] { if (how == 0) got = m.getNbOfSignificantElements(c); else if (how == 1) o = m.getOccupation(c); else { l = m.isOccupationLargerThan(thr, c); s = m.isOccupationSmallerThan(thr, c); } });
        if (!ok) return;
        sim::count("occupation_query");
        if (how == 0 && got != want) sim::fail("stale-occupation", "slot %d: %s answers %zu, the matrix has %zu such elements", i, what, got, want);
        if (how == 1 && o != wo) sim::fail("stale-occupation", "slot %d: occupation %s is %g, expected %g", i, what, o, wo);
        if (how == 2 && (l != (wo > thr) || s != (wo < thr))) sim::fail("stale-occupation", "slot %d: occupation %s larger/smaller than %g answers %d/%d for %g", i, what, thr, l, s, wo);
    }
    /// the norm functions keep nothing
    template <class M> void free_norms(M const& m, int i) {
        double n1 = 0, n2 = 0, nm = 0; for (auto k = m.begin(); k != m.end(); ++k) { double x = std::abs(double(*k)); n1 += x; n2 += x * x; nm = std::max(nm, x); } n2 = std::sqrt(n2);
        double g1 = n1, g2 = n2, gm = nm;
        if (!attempt("norm functions", [&] { g1 = bb::norm<bb::NormOne>(m); g2 = bb::norm<bb::NormTwo>(m); if constexpr (std::is_same<typename M::value_type, double>::value) gm = bb::norm<bb::NormMax>(m); })) return;
        sim::count("free_norm"); auto off = [&](double g, double w) { return !(std::abs(g - w) <= 1e-9 * (unit + w)); };
        if (off(g1, n1) || off(g2, n2) || gm != nm) sim::fail("wrong-norm", "slot %d: norms one/two/max are %.17g/%.17g/%.17g, the elements give %.17g/%.17g/%.17g", i, g1, g2, gm, n1, n2, nm);
    }
    template <class M> void query(int i) { query_on<M>(*pool<M>().s[i].m, i); }
    /// junk: the elements are whatever the memory contained, possibly no numbers
    template <class M> void query_on(M const& m, int i, bool junk = false) {
        uint32_t q = draw(OPS, 11); if (m.getSize() == 0) sim::count("query_empty");
        if (junk) for (auto k = m.begin(); k != m.end(); ++k) if (!(std::abs(double(*k)) < 1e100)) { sim::count("query_undefined_skipped"); return; }
        if (q == 10) { free_norms(m, i); return; }
        if (q < 4) {
            double want = want_norm(m, (typename M::parameter::NormType*)0), got = want; double thr = want + (int(draw(OPS, 3)) - 1) * (unit + (junk ? want : 0)); bool l = want > thr, s = want < thr;
            if (!attempt("norm", [&] { if (q < 2) got = m.getNorm(); else if (q == 2) { m.updateNorm(); got = m.getNorm(); } else { l = m.isNormLargerThan(thr); s = m.isNormSmallerThan(thr); } })) return;
            sim::count("norm_query");
            if (std::abs(got - want) > 1e-9 * (unit + want)) sim::fail("stale-norm", "slot %d: norm is %.17g, the elements give %.17g", i, got, want);
            if (l != (want > thr) || s != (want < thr)) sim::fail("stale-norm", "slot %d: norm larger/smaller than %g answers %d/%d for %g", i, thr, l, s, want);
            return;
        }
        double a = draw(OPS, 6), b = a + 1 + draw(OPS, 6), h = a + 0.5; int z = int(a); a *= unit; b *= unit; h *= unit; char w[80]; double fa = a, fb = b;
        if (finely && draw(OPS, 2)) { double d = unit * std::ldexp(1.0, -30); a += d * (int(draw(OPS, 7)) - 3); if (a < 0) a = 0; b += d * (int(draw(OPS, 7)) - 3); }
        switch (draw(OPS, 7)) {
        case 0: snprintf(w, sizeof w, "(%.12g,inf) double", a); occ(m, bb::AbsoluteValueRangeChecker<double>(a), w, i, [=](double x) { return x > a; }); break;
        case 1: snprintf(w, sizeof w, "(%.12g,%.12g] double", a, b); occ(m, bb::AbsoluteValueRangeChecker<double,bb::ExclusiveBound,bb::InclusiveBound>(a, b), w, i, [=](double x) { return x > a && x <= b; }); break;
        case 2: snprintf(w, sizeof w, "[%.12g,%.12g] double", a, b); occ(m, bb::AbsoluteValueRangeChecker<double,bb::InclusiveBound,bb::InclusiveBound>(a, b), w, i, [=](double x) { return x >= a && x <= b; }); break;
        case 3: snprintf(w, sizeof w, "(%.12g,%.12g) double", a, b); occ(m, bb::AbsoluteValueRangeChecker<double,bb::ExclusiveBound,bb::ExclusiveBound>(a, b), w, i, [=](double x) { return x > a && x < b; }); break;
        case 4: snprintf(w, sizeof w, "(%g,inf) float", h); occ(m, bb::AbsoluteValueRangeChecker<float>(float(h)), w, i, [=](double x) { return x > h; }); break;
        case 5: snprintf(w, sizeof w, "(%g,%g] float", fa, fb); occ(m, bb::AbsoluteValueRangeChecker<float,bb::ExclusiveBound,bb::InclusiveBound>(float(fa), float(fb)), w, i, [=](double x) { return x > fa && x <= fb; }); break;
        default: snprintf(w, sizeof w, "(%d,inf) int", z); occ(m, bb::AbsoluteValueRangeChecker<int>(z), w, i, [=](double x) { return x > z; }); break;
        }
    }

    // --- mutations -------------------------------------------------------------------------
    template <class M> static bool doubles() { return std::is_same<typename M::value_type, double>::value; }
    template <class M> Ref content() { size_t r = ex.rows(), c = ex.cols(); Ref x = gen(r, c); if (doubles<M>()) x = fine(x); if (x.nnz() == 0) x.at(0, 0) = 2 * unit; return x; }
    template <class M> static void put(M& m, Ref const& x) { write(m, x); }
    template <class M> std::shared_ptr<M> fresh(Ref const& x) {
        if constexpr (IsSparse<M>::value) { auto p = std::make_shared<M>(x.r, x.c, x.nnz()); write(*p, x); return p; }
        else { auto p = std::make_shared<M>(x.r, x.c); write(*p, x); return p; }
    }
    template <class M> void create(int i) {
        Ref x = content<M>(); Slot<M>& s = pool<M>().s[i];
        for (;;) { if (attempt("construct", [&] { s.m = fresh<M>(x); })) break; } s.loose = false; sim::count("construct");
    }
    template <class M> void need(int i) { Slot<M>& s = pool<M>().s[i]; if (!s.m || s.loose) create<M>(i); }
    /// a moved-from matrix is well-formed: it answers for whatever it holds now
    template <class M> void moved_from(int j) { Slot<M>& b = pool<M>().s[j]; for (int k = 0; k < 2; ++k) if (draw(OPS, 2)) { sim::count("query_moved_from"); query_on<M>(*b.m, j); } b.loose = true; }
    template <class M> void mutate(int i, int j) {
        Slot<M>& a = pool<M>().s[i]; Slot<M>& b = pool<M>().s[j]; double v = sim::range(0, 9) * unit; typedef typename M::value_type T; if (finely && doubles<M>() && v != 0.0 && draw(OPS, 2)) v += unit * std::ldexp(1.0, -30);
        uint32_t op = draw(OPS, 15); char nm[16]; snprintf(nm, sizeof nm, "mutate_%u", op); sim::count(nm);
        switch (op) {
        case 0: case 1: { // element through the element operator / the data pointer / an iterator
            size_t n = std::distance(static_cast<M const&>(*a.m).begin(), static_cast<M const&>(*a.m).end()); if (!n) return; size_t k = draw(OPS, uint32_t(n));
            if constexpr (!IsSparse<M>::value) {
                uint32_t how = draw(OPS, 3); size_t R = a.m->getNbRows(), C = a.m->getNbColumns();
                if (how == 0) { size_t r = k % R, c = k / R; if (c >= C) return; (*a.m)(r, c) = T(v); } else if (how == 1) a.m->getDataPointer()[k] = T(v); else *(a.m->begin() + k) = T(v);
            } else *(a.m->begin() + k) = T(v);
            break; }
        case 2: // last element backwards from the end
            { if constexpr (!IsSparse<M>::value) { if (a.m->getSize()) { auto e = a.m->end(); *--e = T(v); } } else { if (a.m->nnz()) { auto e = a.m->end(); *--e = T(v); } } break; }
        case 3: if constexpr (!IsSparse<M>::value) *a.m = T(v); else for (auto& x : *a.m) x = T(v); break;
        case 4: if constexpr (!IsSparse<M>::value) a.m->fill(T(v)); else for (auto& x : *a.m) x += T(v); break;
        case 5: { // resize with or without a filler; a failed resize leaves a usable matrix
            Ref x = content<M>(); bool same = draw(OPS, 2); if (same) { Ref y(a.m->getNbRows(), a.m->getNbColumns()); if (y.v.size()) { x = y; x.v[0] = v + unit; } }
            if constexpr (IsSparse<M>::value) { if (attempt("resize", [&] { a.m->resize(x.r, x.c, x.nnz()); })) { if (draw(OPS, 2)) query_on<M>(*a.m, i, true); write(*a.m, x); } }
            else if (draw(OPS, 2)) attempt("resize", [&] { a.m->resize(x.r, x.c, bb::AllFiller<double>(v)); });
            else if (attempt("resize", [&] { a.m->resize(x.r, x.c); })) { if (draw(OPS, 2)) query_on<M>(*a.m, i, true); write(*a.m, x); }
            break; }
        case 6: case 7: need<M>(j); attempt("copy_assign", [&] { *a.m = static_cast<M const&>(*b.m); }); break;
        case 8: if (i == j) return; need<M>(j); if (attempt("move_assign", [&] { *a.m = std::move(*b.m); })) moved_from<M>(j); break;
        case 9: { // new object by copy or move
            if (i == j) return; need<M>(j);
            bool mv = draw(OPS, 2); std::shared_ptr<M> p;
            if (!attempt(mv ? "move_construct" : "copy_construct", [&] { if (mv) p = std::make_shared<M>(std::move(*b.m)); else p = std::make_shared<M>(static_cast<M const&>(*b.m)); })) { if (mv) b.loose = true; break; }
            if (mv) moved_from<M>(j); { sim::alloc::Target t; a.m = p; p.reset(); } a.loose = false; break; }
        case 10: if (i == j) return; need<M>(j); attempt("swap", [&] { using std::swap; swap(*a.m, *b.m); }); break;
        case 11: // compound arithmetic with a matrix of the same shape
            if constexpr (!IsSparse<M>::value) {
                Ref x(a.m->getNbRows(), a.m->getNbColumns(), v + unit); for (auto k = static_cast<M const&>(*a.m).begin(); k != static_cast<M const&>(*a.m).end(); ++k) if (std::abs(double(*k)) > 4000 * unit) return;
                std::shared_ptr<M> p; { sim::alloc::Target t; p = fresh<M>(x); }
                bool plus = draw(OPS, 2); attempt("compound", [&] { if (plus) *a.m += static_cast<M const&>(*p); else *a.m -= static_cast<M const&>(*p); });
                { sim::alloc::Target t; p.reset(); }
            } break;
        case 12: // load from an archive into an existing object
            if constexpr (!IsSparse<M>::value) {
                need<M>(j); if (i == j) return;
                std::stringstream ss; { boost::archive::binary_oarchive oa(ss); M const& c = *b.m; oa << c; }
                bool f = faults; faults = false;   // covered with faults by the serialisation worlds
                attempt("load", [&] { boost::archive::binary_iarchive ia(ss); ia >> *a.m; }); faults = f;
            } break;
        case 13: if constexpr (IsSparse<M>::value) if (draw(OPS, 2)) { // give up reserved elements: only the first ones remain
            Ref x = content<M>(); size_t n = x.nnz(), cap = n + 1 + draw(OPS, 4);
            if (!attempt("resize", [&] { a.m->resize(x.r, x.c, cap); })) break;
            write(*a.m, x); for (auto k = a.m->begin() + n; k != a.m->end(); ++k) *k = T(v + unit);
            query<M>(i); if (attempt("shrink", [&] { a.m->shrink(n); })) sim::count("shrink"); else create<M>(i);
            break; }
            // use as an operand of a const operation must not disturb anything
            if constexpr (std::is_same<M, DD>::value || std::is_same<M, DF>::value || std::is_same<M, SD>::value) { std::unique_ptr<M> p; attempt("transpose", [&] { p.reset(new M(bb::transpose(static_cast<M const&>(*a.m)))); }); sim::alloc::Target t; p.reset(); } break;
        default: create<M>(i);
        }
    }
    template <class M> void step(int i, int j) {
        need<M>(i);
        if (!ex.base && draw(OPS, 40) == 39) { uint32_t n = 10 + draw(OPS, 50); for (uint32_t k = 0; k < n; ++k) query<M>(i); sim::count("long series of queries"); return; }
        if (draw(OPS, 3) == 0) { mutate<M>(i, j); }
        else if (draw(OPS, 2)) { query<M>(i); } // query, mutate, query
        else { query<M>(i); if (pool<M>().s[i].m && !pool<M>().s[i].loose) mutate<M>(i, j); }
        for (int k = 0; k < N; ++k) if (pool<M>().s[k].m && !pool<M>().s[k].loose && draw(OPS, 2)) query<M>(k);
    }
    void multiple() { // norms of two-part sums, static and dynamic
        Ref x = gen(sim::range(1, 4), sim::range(1, 4)); sim::count("multiple_norm");
        std::shared_ptr<MSD> m; { sim::alloc::Target t; m = Make<MSD>::make(x); }
        double n1 = 0, n2 = 0, nm = 0; for (double v : x.v) { n1 += std::abs(v); n2 += v * v; nm = std::max(nm, std::abs(v)); } n2 = std::sqrt(n2);
        double g1 = n1, g2 = n2, gm = nm;
        attempt("norm of a sum", [&] { g1 = bb::norm<bb::NormOne>(*m); g2 = bb::norm<bb::NormTwo>(*m); gm = bb::norm<bb::NormMax>(*m); });
        if (std::abs(g1 - n1) > 1e-9 * (unit + n1) || std::abs(g2 - n2) > 1e-9 * (unit + n2) || std::abs(gm - nm) > 1e-9 * (unit + nm))
            sim::fail("norm-of-sum", "norms one/two/max of %s are %g/%g/%g, expected %g/%g/%g", x.str().c_str(), g1, g2, gm, n1, n2, nm);
        // dynamic query after a change through the shared handle
        std::shared_ptr<DD> d; { sim::alloc::Target t; d = Make<DD>::make(x); }
        DynamicMatrix h = d; double got = n2;
        attempt("norm through a handle", [&] { got = bb::getNorm(h); }); if (std::abs(got - n2) > 1e-9 * (unit + n2)) sim::fail("stale-norm", "norm through a handle is %g, expected %g", got, n2);
        DynamicMatrix hm = m; double gh = n2; got = n2; attempt("norm of handles", [&] { gh = bb::norm<bb::NormTwo>(hm); got = bb::norm<bb::NormTwo>(h); });
        if (std::abs(gh - n2) > 1e-9 * (unit + n2) || std::abs(got - n2) > 1e-9 * (unit + n2)) sim::fail("wrong-norm", "norms of handles to %s are %.17g and %.17g, expected %.17g", x.str().c_str(), gh, got, n2);
        (*d)(0, 0) = x.at(0, 0) + 5 * unit; double w = want_norm(static_cast<DD const&>(*d), (bb::NormTwo*)0); got = w;
        attempt("norm through a handle", [&] { got = bb::getNorm(h); }); if (std::abs(got - w) > 1e-9 * (unit + w)) sim::fail("stale-norm", "norm through a handle is %g after an element was written, expected %g", got, w);
        sim::alloc::Target t; h.reset(); hm.reset(); d.reset(); m.reset();
    }
    /// blocked matrix: its blocks are shared, so its norm follows changes made through a block
    void blocked() {
        typedef bb::BlockedDenseMatrix BL; sim::count("blocked_norm");
        std::shared_ptr<BL> b; std::vector<std::shared_ptr<DD>> parts; size_t br = sim::range(1, 2), bc = sim::range(1, 2);
        { sim::alloc::Target t; b = std::make_shared<BL>(br, bc, 2 * br, 2 * bc);
          for (size_t j = 0; j < bc; ++j) for (size_t i = 0; i < br; ++i) { auto d = Make<DD>::make(gen(2, 2)); parts.push_back(d); (*b)(i, j) = d; } }
        for (int k = 0; k < 4; ++k) {
            double s = 0; for (auto& d : parts) for (auto v : static_cast<DD const&>(*d)) s += v * v;
            double got = std::sqrt(s);
            bool direct = draw(OPS, 2); attempt("norm of a blocked matrix", [&] { got = direct ? bb::norm<bb::NormTwo>(static_cast<BL const&>(*b)) : b->getNorm(); });
            if (std::abs(got - std::sqrt(s)) > 1e-9 * (unit + std::sqrt(s))) sim::fail("stale-norm", "norm of a blocked matrix is %g, its blocks give %g", got, std::sqrt(s));
            auto& d = parts[draw(OPS, uint32_t(parts.size()))]; (*d)(draw(OPS, 2), draw(OPS, 2)) = sim::range(0, 20) * unit;
        }
        sim::alloc::Target t; b.reset(); parts.clear();
    }
    /// window: its elements belong to the matrix, which may change them at any time
    void window() {
        typedef bb::Matrix<Dense,double,bb::Parameter<size_t,bb::ColumnMajor,bb::VariableSize,bb::LeadingDimension>> W; sim::count("window_query");
        need<DD>(0); DD& m = *pool<DD>().s[0].m; size_t R = m.getNbRows(), C = m.getNbColumns(); if (!R || !C) return;
        size_t r = sim::range(1, R), c = sim::range(1, C), r0 = sim::range(0, R - r), c0 = sim::range(0, C - c);
        std::unique_ptr<W> w; { sim::alloc::Target t; w.reset(new W(m, r, c, r0, c0)); }
        W const& cw = *w; DD const& cm = m;
        for (int k = 0; k < 4; ++k) {
            double s = 0; size_t n = 0; double lim = sim::range(0, 9) * unit;
            for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < r; ++i) { double v = cm(r0 + i, c0 + j); s += v * v; n += std::abs(v) > lim; }
            s = std::sqrt(s); double got = s; size_t gn = n;
            attempt("norm of a window", [&] { got = cw.getNorm(); }); attempt("occupation of a window", [&] { gn = cw.getNbOfSignificantElements(bb::AbsoluteValueRangeChecker<double>(lim)); });
            if (std::abs(got - s) > 1e-9 * (unit + s)) sim::fail("stale-norm", "norm of a window is %.17g, its elements give %.17g", got, s);
            if (gn != n) sim::fail("stale-occupation", "a window has %zu elements larger than %g, %zu are answered", n, lim, gn);
            size_t i = draw(OPS, uint32_t(R)), j = draw(OPS, uint32_t(C)); double v = sim::range(0, 20) * unit;
            if (draw(OPS, 2)) m(i, j) = v; else (*w)(i % r, j % c) = v;
        }
        { sim::alloc::Target t; w.reset(); }
        m(0, 0) = 3 * unit; // (the norm of the matrix only follows writes through the matrix itself)
        query<DD>(0);
    }
    uint64_t abstract() { uint64_t h = 7; std::apply([&](auto&... p) { (([&] { for (int i = 0; i < N; ++i) if (p.s[i].m && !p.s[i].loose) { double q = 0; auto const& c = *p.s[i].m; for (auto k = c.begin(); k != c.end(); ++k) q = q * 1.3 + double(*k); h = sim::mix(h, uint64_t(int64_t(q * 64)) ^ (c.isNormUpToDate() ? 1 : 0)); } })(), ...); }, pools); return h; }
    void go() {
        draw_junk(); draw_unit(true); ex.draw(5, 40, 600);
        uint32_t n = 3 + draw(OPS, ex.base ? 3 : 20), focus = draw(OPS, 8);
        for (uint32_t k = 0; k < n; ++k) {
            sim::Span sp; uint32_t kind = draw(OPS, 20); if (kind >= 10) kind = focus; int i = int(draw(OPS, N)), j = int(draw(OPS, N));
            sim::ev("step kind=%u i=%d j=%d", kind, i, j); sim::steps(1);
            switch (kind) {
            case 0: step<DD>(i, j); break; case 1: step<DF>(i, j); break; case 2: step<RD>(i, j); break; case 3: step<SD>(i, j); break;
            case 4: step<SF>(i, j); break; case 5: step<D1>(i, j); break; case 6: step<DM>(i, j); break; case 7: step<S1>(i, j); break; case 8: if (draw(OPS, 2)) multiple(); else window(); break; default: blocked();
            }
            sim::state(abstract());
        }
        std::apply([&](auto&... p) { (([&] { for (int i = 0; i < N; ++i) { sim::alloc::Target t; p.s[i].m.reset(); } })(), ...); }, pools);
        if (sim::alloc::live()) sim::fail("leak", "%zu blocks still allocated after every matrix was destroyed (sizes %s)", sim::alloc::live(), sim::alloc::describe_live());
    }
};
} // namespace

SIM_WORLD(cache_plain, "cache/history") { CacheWorld w; w.faults = false; w.go(); }
SIM_WORLD(cache_faults, "cache/faults") { CacheWorld w; w.faults = true; w.go(); }

// World "life": histories of construction, copy, move, swap, assignment, resize, conversion,
// element access and destruction over slots of every matrix kind, against the reference model.
//   life/faults : the nth allocation of an operation fails (property C01)
//   life/values : no faults; value semantics over histories (property C02)
#include "model.h"
#include <tuple>
using namespace mdl;
using sim::draw; using sim::OPS; using sim::FAULTS;

namespace {
typedef bb::BlockedDenseMatrix BL;
const int N = 3;   // slots per kind
enum St { EMPTY, KNOWN, LOOSE };   // LOOSE: moved-from or hit by a failed operation

template <class M> struct Pool { std::optional<M> m[N]; Ref x[N]; St st[N] = {EMPTY, EMPTY, EMPTY}; };

char const* kind_name(DD*) { return "DenseDouble"; } char const* kind_name(DF*) { return "DenseFloat"; }
char const* kind_name(RD*) { return "DenseRowMajor"; } char const* kind_name(SD*) { return "SparseDouble"; }
char const* kind_name(SF*) { return "SparseFloat"; } char const* kind_name(ZZ*) { return "Zero"; } char const* kind_name(BL*) { return "Blocked"; }

template <class M> struct IsSparse : std::false_type {}; template <class T, class P> struct IsSparse<bb::Matrix<Sparse,T,P>> : std::true_type {};
template <class M> struct IsZero : std::false_type {}; template <class P> struct IsZero<bb::Matrix<Zero,NullType,P>> : std::true_type {};
template <class M> struct IsBlocked : std::is_same<M, BL> {};
template <class M> struct IsDense : std::bool_constant<!IsSparse<M>::value && !IsZero<M>::value && !IsBlocked<M>::value> {};

struct LifeWorld {
    bool faults;
    std::tuple<Pool<DD>, Pool<DF>, Pool<RD>, Pool<SD>, Pool<SF>, Pool<ZZ>, Pool<BL>> pools;
    template <class M> Pool<M>& pool() { return std::get<Pool<M>>(pools); }

    Extent ex;
    template <class M> static bool doubles() { if constexpr (IsZero<M>::value || IsBlocked<M>::value) return false; else return std::is_same<typename M::value_type, double>::value; }
    template <class M> Ref content() { size_t r = ex.rows(), c = ex.cols(); Ref x = gen(r, c); return doubles<M>() ? fine(x) : x; }
    /// a value of an element
    template <class M> double value(int lo = 0) { double v = sim::range(lo, 9) * unit; if (doubles<M>() && finely && v != 0.0) v += unit * std::ldexp(1.0, -30); return v; }

    // --- running one operation under the fault plan ---------------------------------------
    template <class F> bool attempt(char const* op, F f) {
        uint32_t nth = faults ? draw_nth() : 0;
        sim::alloc::arm(nth);
        try { sim::alloc::Target t; f(); }
        catch (std::bad_alloc const&) {
            bool fired = sim::alloc::disarm();
            if (!fired) sim::fail("unexpected-exception", "%s throws bad_alloc although no allocation failed", op);
            sim::ev("%s: allocation %u failed, operation threw", op, nth); sim::count("probe:operation_failed_on_allocation");
            return false;
        } catch (sim::Violation&) { throw; }
        catch (std::exception const& e) { sim::alloc::disarm(); sim::fail("unexpected-exception", "%s throws: %s", op, e.what()); }
        sim::alloc::disarm();
        return true;
    }
    /// op must succeed when retried without a fault
    template <class F, class G> void run(char const* op, F f, G after_failure) {
        sim::count(op);
        if (!attempt(op, f)) {
            after_failure(); check_all(op);
            bool save = faults; faults = false;
            if (!attempt(op, f)) sim::fail("retry", "%s fails again without a fault", op);
            faults = save; sim::count("probe:retry_after_failure");
        }
    }
    template <class M> void loosen(int i) { if (pool<M>().m[i]) { pool<M>().st[i] = LOOSE; } }

    template <class M> void check_slot(int i, char const* op) {
        Pool<M>& p = pool<M>(); if (!p.m[i]) return;
        char what[100]; snprintf(what, sizeof what, "after %s: %s slot %d", op, kind_name((M*)0), i);
        if constexpr (IsBlocked<M>::value) {
            if (p.st[i] == LOOSE) { if (stored(*p.m[i]) != p.m[i]->getNbRows() * p.m[i]->getNbColumns()) sim::fail("malformed", "%s: %zu blocks stored but %zu x %zu", what, size_t(stored(*p.m[i])), size_t(p.m[i]->getNbRows()), size_t(p.m[i]->getNbColumns())); return; }
        } else if (p.st[i] == LOOSE) { check_shape(*p.m[i], what); return; }
        Ref y = read(*p.m[i], what);
        if (y != p.x[i]) sim::fail("content", "%s holds %s, expected %s", what, y.str().c_str(), p.x[i].str().c_str());
    }
    template <class M> void check_pool(char const* op) { for (int i = 0; i < N; ++i) check_slot<M>(i, op); }
    void check_all(char const* op) { check_pool<DD>(op); check_pool<DF>(op); check_pool<RD>(op); check_pool<SD>(op); check_pool<SF>(op); check_pool<ZZ>(op); check_pool<BL>(op); }

    // --- operations of one kind ------------------------------------------------------------
    template <class M> void emplace_from(int i, char const* op, Ref const& x, std::function<void(std::optional<M>&)> f) {
        Pool<M>& p = pool<M>();
        { sim::alloc::Target t; p.m[i].reset(); } p.st[i] = EMPTY;
        run(op, [&] { f(p.m[i]); }, [&] { if (p.m[i]) sim::fail("malformed", "%s: object exists after its constructor threw", op); });
        p.x[i] = x; p.st[i] = KNOWN;
    }
    std::shared_ptr<bb::MatrixBase> block(Ref const& x, int k) {
        switch (k) { case 0: return Make<DD>::make(x); case 1: return Make<SD>::make(x); case 2: return Make<DF>::make(x); default: return Make<MSD>::make(x); }
    }

    template <class M> void create(int i) {
        if constexpr (IsBlocked<M>::value) {
            size_t br = sim::range(1, 2), bc = sim::range(1, 2); std::vector<size_t> rs, cs; size_t R = 0, C = 0;
            int lim = ex.r > 5 ? 20 : 3; for (size_t k = 0; k < br; ++k) { rs.push_back(sim::range(1, lim)); R += rs.back(); }
            for (size_t k = 0; k < bc; ++k) { cs.push_back(sim::range(1, lim)); C += cs.back(); }
            std::vector<Ref> parts; std::vector<int> kinds; Ref x(R, C); size_t co = 0;
            for (size_t j = 0; j < bc; ++j) { size_t ro = 0; for (size_t k = 0; k < br; ++k) {
                parts.push_back(gen(rs[k], cs[j])); kinds.push_back(int(draw(OPS, 4))); if (kinds.back() < 2) parts.back() = fine(parts.back());
                for (size_t b = 0; b < cs[j]; ++b) for (size_t a = 0; a < rs[k]; ++a) x.at(ro + a, co + b) = parts.back().at(a, b);
                ro += rs[k]; } co += cs[j]; }
            emplace_from<M>(i, "construct_blocked", x, [&](std::optional<M>& o) {
                try { o.emplace(br, bc, R, C); for (size_t j = 0; j < bc; ++j) for (size_t k = 0; k < br; ++k) (*o)(k, j) = block(parts[k + j * br], kinds[k + j * br]); }
                catch (...) { o.reset(); throw; } });
        } else if constexpr (IsZero<M>::value) {
            Ref x(ex.rows(), ex.cols());
            emplace_from<M>(i, "construct_zero", x, [&](std::optional<M>& o) { o.emplace(x.r, x.c); });
        } else if constexpr (IsSparse<M>::value) {
            Ref x = content<M>();
            if (x.nnz() == 0) x.at(0, 0) = 1;
            emplace_from<M>(i, "construct_sparse", x, [&](std::optional<M>& o) { o.emplace(x.r, x.c, x.nnz()); write(*o, x); });
        } else {
            uint32_t how = draw(OPS, 3);
            if (how == 0) { Ref x = content<M>(); emplace_from<M>(i, "construct_dense", x, [&](std::optional<M>& o) { o.emplace(x.r, x.c); write(*o, x); }); }
            else if (how == 1) { double v = value<M>(); Ref x(ex.rows(), ex.cols(), v);
                emplace_from<M>(i, "construct_filled", x, [&](std::optional<M>& o) { o.emplace(x.r, x.c, bb::AllFiller<double>(v)); }); }
            else { typedef typename M::value_type T; T a = T(sim::range(0, 9)), b = T(sim::range(0, 9)); Ref x(2, 3); x.at(0, 0) = a; x.at(0, 1) = b; x.at(0, 2) = 1; x.at(1, 0) = b; x.at(1, 1) = 2; x.at(1, 2) = a;
                if (draw(OPS, 4) == 3) { // rows of different length are refused
                    uint32_t w = draw(OPS, 4); bool refused = false; sim::count("ragged_list"); typedef std::initializer_list<T> L; typedef std::initializer_list<L> LL; std::optional<M> bad;
                    try { sim::alloc::Target t; if (w == 0) bad.emplace(LL{L{a, b}, L{b}}); else if (w == 1) bad.emplace(LL{L{a}, L{b, a}}); else if (w == 2) bad.emplace(LL{L{a, b, a}, L{b, a, b}, L{}}); else bad.emplace(LL{L{a, b, a}, L{b, a, b, a}}); }
                    catch (std::exception const&) { refused = true; }
                    if (!refused) sim::fail("not-refused", "a list with rows of different length becomes a %zux%zu matrix", size_t(bad->getNbRows()), size_t(bad->getNbColumns()));
                }
                emplace_from<M>(i, "construct_list", x, [&](std::optional<M>& o) { o.emplace(std::initializer_list<std::initializer_list<T>>{{a, b, T(1)}, {b, T(2), a}}); }); }
        }
    }
    template <class M> bool has(int i) { return pool<M>().st[i] == KNOWN; }
    template <class M> void need(int i) { if (!has<M>(i)) { create<M>(i); check_all("construction"); } }

    template <class M> void copy_construct(int i, int j) {
        if (i == j) j = (j + 1) % N;
        need<M>(j);
        Pool<M>& p = pool<M>(); Ref x = p.x[j];
        emplace_from<M>(i, "copy_construct", x, [&](std::optional<M>& o) { o.emplace(static_cast<M const&>(*p.m[j])); });
    }
    template <class M> void move_construct(int i, int j) {
        if (i == j) j = (j + 1) % N;
        need<M>(j);
        Pool<M>& p = pool<M>(); Ref x = p.x[j];
        emplace_from<M>(i, "move_construct", x, [&](std::optional<M>& o) { o.emplace(std::move(*p.m[j])); });
        p.st[j] = LOOSE;
    }
    template <class M> void copy_assign(int i, int j) {
        Pool<M>& p = pool<M>(); need<M>(j); if (!p.m[i]) need<M>(i);
        run(i == j ? "self_assign" : "copy_assign", [&] { *p.m[i] = static_cast<M const&>(*p.m[j]); }, [&] { loosen<M>(i); });
        p.x[i] = Ref(p.x[j]); p.st[i] = KNOWN;
    }
    template <class M> void move_assign(int i, int j) {
        Pool<M>& p = pool<M>(); if (i == j) j = (j + 1) % N; need<M>(j); if (!p.m[i]) need<M>(i);
        Ref x = p.x[j];
        run("move_assign", [&] { *p.m[i] = std::move(*p.m[j]); }, [&] { loosen<M>(i); });
        p.x[i] = x; p.st[i] = KNOWN; p.st[j] = LOOSE;
    }
    template <class M> void swap_slots(int i, int j) {
        Pool<M>& p = pool<M>(); if (i == j) j = (j + 1) % N; need<M>(i); need<M>(j);
        run("swap", [&] { using std::swap; swap(*p.m[i], *p.m[j]); }, [&] { sim::fail("swap", "swap throws"); });
        std::swap(p.x[i], p.x[j]);
    }
    template <class M> void resize(int i) {
        Pool<M>& p = pool<M>(); if (!p.m[i]) need<M>(i);
        if constexpr (IsBlocked<M>::value) {
            size_t r = sim::range(1, 3), c = sim::range(1, 3);
            Ref x(2 * r, 2 * c);
            run("resize_blocked", [&] { p.m[i]->resize(r, c, 2 * r, 2 * c); for (size_t b = 0; b < c; ++b) for (size_t a = 0; a < r; ++a) (*p.m[i])(a, b) = std::make_shared<ZZ>(2, 2); }, [&] { loosen<M>(i); });
            p.x[i] = x; p.st[i] = KNOWN;
        } else if constexpr (IsZero<M>::value) {
            size_t r = ex.rows(), c = ex.cols();
            run("resize_zero", [&] { p.m[i]->resize(r, c); }, [&] { loosen<M>(i); }); p.x[i] = Ref(r, c); p.st[i] = KNOWN;
        } else if constexpr (IsSparse<M>::value) {
            Ref x = content<M>(); if (x.nnz() == 0) x.at(x.r - 1, x.c - 1) = 3;
            run("resize_sparse", [&] { p.m[i]->resize(x.r, x.c, x.nnz()); }, [&] { loosen<M>(i); });
            check_shape(*p.m[i], "after resize");
            if (p.m[i]->getNbRows() != x.r || p.m[i]->getNbColumns() != x.c || p.m[i]->nnz() != x.nnz()) sim::fail("malformed", "resize: wrong shape");
            write(*p.m[i], x); p.x[i] = x; p.st[i] = KNOWN;
        } else {
            Ref x = content<M>();
            uint32_t how = draw(OPS, 2);
            if (how) { double v = value<M>(); for (auto& e : x.v) e = v; run("resize_filled", [&] { p.m[i]->resize(x.r, x.c, bb::AllFiller<double>(v)); }, [&] { loosen<M>(i); }); }
            else { run("resize_dense", [&] { p.m[i]->resize(x.r, x.c); }, [&] { loosen<M>(i); }); check_shape(*p.m[i], "after resize"); if (p.m[i]->getNbRows() != x.r || p.m[i]->getNbColumns() != x.c) sim::fail("malformed", "resize: wrong shape"); write(*p.m[i], x); }
            p.x[i] = x; p.st[i] = KNOWN;
        }
    }
    /// dimensions that no memory can hold are refused, also where their product overflows, and leave a proper object
    template <class M> void impossible(int i) {
        static const size_t huge[][2] = {{size_t(1) << 63, 2}, {size_t(1) << 32, size_t(1) << 32}, {size_t(1) << 61, 8}, {(size_t(1) << 62) + 1, 4}, {6148914691236517206u, 3}, {size_t(-1), 1}, {size_t(-1), size_t(-1)}, {size_t(1) << 24, size_t(1) << 24}};
        uint32_t k = draw(OPS, 8); size_t r = huge[k][0], c = huge[k][1]; if (draw(OPS, 2)) std::swap(r, c); bool anew = draw(OPS, 2); Pool<M>& p = pool<M>();
        if constexpr (IsZero<M>::value || IsBlocked<M>::value) { create<M>(i); return; }
        else {
            if (IsSparse<M>::value && c > size_t(-1) / 2) std::swap(r, c);   // columns are stored one by one
            if (!p.m[i]) need<M>(i);
            sim::count("impossible_dimensions"); bool refused = false; char op[90]; snprintf(op, sizeof op, "%s %zu x %zu", anew ? "constructing" : "resizing to", r, c);
            if (anew) { { sim::alloc::Target t; p.m[i].reset(); } p.st[i] = EMPTY; }
            try { sim::alloc::Target t; if (anew) p.m[i].emplace(r, c); else p.m[i]->resize(r, c); }
            catch (std::bad_alloc const&) { refused = true; } catch (std::length_error const&) { refused = true; }
            if (!refused) sim::fail("malformed", "%s %s succeeds", op, kind_name((M*)0));
            if (anew && p.m[i]) sim::fail("malformed", "%s: object exists after its constructor threw", op);
            if (p.m[i]) { p.st[i] = LOOSE; check_all(op); if (draw(OPS, 2)) resize<M>(i); }
        }
    }
    template <class M> void destroy(int i) { Pool<M>& p = pool<M>(); { sim::alloc::Target t; p.m[i].reset(); } p.st[i] = EMPTY; sim::count("destroy"); }

    /// conversion from kind A into a new object of kind M
    template <class M, class A> void convert(int i, int j) {
        if constexpr (!IsBlocked<M>::value && !IsBlocked<A>::value && !(IsZero<A>::value && (IsSparse<M>::value || std::is_same<M, RD>::value || IsZero<M>::value)) && !std::is_same<M, A>::value
                      && !(IsSparse<A>::value && IsSparse<M>::value && false)) {
            need<A>(j);
            Ref x = pool<A>().x[j]; if (IsZero<M>::value) x = Ref(x.r, x.c);
            if (std::is_same<M, DF>::value || std::is_same<M, SF>::value) for (double& v : x.v) v = float(v);
            char op[64]; snprintf(op, sizeof op, "convert_%s_%s", kind_name((A*)0), kind_name((M*)0));
            if (draw(OPS, 2) && pool<M>().m[i]) { // assignment of a converted value
                run(op, [&] { *pool<M>().m[i] = M(static_cast<A const&>(*pool<A>().m[j])); }, [&] { loosen<M>(i); });
                pool<M>().x[i] = x; pool<M>().st[i] = KNOWN;
            } else emplace_from<M>(i, op, x, [&](std::optional<M>& o) { o.emplace(static_cast<A const&>(*pool<A>().m[j])); });
        } else create<M>(i);
    }
    template <class M> void transpose_into(int i, int j) {
        if constexpr (IsDense<M>::value || IsSparse<M>::value) {
            if (i == j) j = (j + 1) % N;
            need<M>(j);
            emplace_from<M>(i, "transpose", trans(pool<M>().x[j]), [&](std::optional<M>& o) { o.emplace(bb::transpose(static_cast<M const&>(*pool<M>().m[j]))); });
        } else create<M>(i);
    }
    template <class M> void element(int i) {
        Pool<M>& p = pool<M>(); need<M>(i);
        if constexpr (IsDense<M>::value) {
            size_t a = draw(OPS, p.x[i].r), b = draw(OPS, p.x[i].c); double v = value<M>();
            uint32_t how = draw(OPS, 3); sim::count("write_element");
            typedef typename M::value_type T;
            if (how == 0) (*p.m[i])(a, b) = T(v);
            else if (how == 1) { size_t k = std::is_same<M, RD>::value ? a * p.x[i].c + b : a + b * p.x[i].r; *(p.m[i]->begin() + k) = T(v); }
            else { size_t k = std::is_same<M, RD>::value ? a * p.x[i].c + b : a + b * p.x[i].r; p.m[i]->getDataPointer()[k] = T(v); }
            p.x[i].at(a, b) = v;
        } else if constexpr (IsSparse<M>::value) {
            size_t n = p.m[i]->nnz(); if (!n) return; size_t k = draw(OPS, uint32_t(n)); double v = value<M>(1); sim::count("write_element");
            *(p.m[i]->begin() + k) = typename M::value_type(v);
            p.x[i] = read(*p.m[i], "after writing an element");
        } else create<M>(i);
    }
    template <class M> void fill(int i) {
        Pool<M>& p = pool<M>(); need<M>(i);
        if constexpr (IsDense<M>::value) { double v = value<M>(); run("fill", [&] { *p.m[i] = typename M::value_type(v); }, [&] { loosen<M>(i); }); for (auto& e : p.x[i].v) e = v; }
        else create<M>(i);
    }
    /// i = j op k for same-shape operands
    template <class M> void arith(int i, int j) {
        if constexpr (!IsBlocked<M>::value && !IsZero<M>::value) {
            Pool<M>& p = pool<M>(); int k = int(draw(OPS, N));
            if (!has<M>(j) || !has<M>(k) || p.x[j].r != p.x[k].r || p.x[j].c != p.x[k].c) { // make k fit j
                need<M>(j);
                if (k != j) emplace_from<M>(k, "copy_construct", p.x[j], [&](std::optional<M>& o) { o.emplace(static_cast<M const&>(*p.m[j])); });
            }
            double s = draw(OPS, 2) ? -1.0 : 1.0; M const& a = *p.m[j]; M const& b = *p.m[k];
            if (!exact_sum(p.x[j], p.x[k], digits<M>())) return create<M>(i);
            Ref x = add(p.x[j], p.x[k], s);
            if constexpr (IsDense<M>::value) if (draw(OPS, 2) && j != k) {
                run(s > 0 ? "add_assign" : "sub_assign", [&] { if (s > 0) *p.m[j] += b; else *p.m[j] -= b; }, [&] { loosen<M>(j); }); p.x[j] = x; p.st[j] = KNOWN; return; }
            if (p.m[i] && i != j && i != k) {
                run(s > 0 ? "add" : "sub", [&] { if (s > 0) *p.m[i] = a + b; else *p.m[i] = a - b; }, [&] { loosen<M>(i); });
                p.x[i] = x; p.st[i] = KNOWN;
            } else if (!p.m[i]) emplace_from<M>(i, s > 0 ? "add" : "sub", x, [&](std::optional<M>& o) { if (s > 0) o.emplace(a + b); else o.emplace(a - b); });
        } else create<M>(i);
    }
    template <class M> static int digits() { return std::is_same<typename M::value_type, float>::value ? 24 : 53; }
    template <class M> void multiply(int i, int j) {
        if constexpr (!IsBlocked<M>::value && !IsZero<M>::value && !std::is_same<M, RD>::value) {
            Pool<M>& p = pool<M>(); if (i == j) j = (j + 1) % N; need<M>(j);
            int k = 3 - i - j;
            if (!has<M>(k) || p.x[k].r != p.x[j].c) { if constexpr (IsDense<M>::value || IsSparse<M>::value) emplace_from<M>(k, "transpose", trans(p.x[j]), [&](std::optional<M>& o) { o.emplace(bb::transpose(static_cast<M const&>(*p.m[j]))); }); }
            if (p.x[j].r * p.x[k].c > 2500 || !exact_mul(p.x[j], p.x[k], digits<M>())) return create<M>(i);
            Ref x = mul(p.x[j], p.x[k]);
            M const& a = *p.m[j]; M const& b = *p.m[k];
            emplace_from<M>(i, "multiply", x, [&](std::optional<M>& o) { o.emplace(a * b); });
        } else create<M>(i);
    }

    /// a sparse matrix with reserved elements gives them up: the first ones stay
    template <class M> void shrink(int i) {
        if constexpr (IsSparse<M>::value) {
            Pool<M>& p = pool<M>(); if (!p.m[i]) need<M>(i);
            Ref x = content<M>(); if (x.nnz() == 0 && draw(OPS, 2)) x.at(x.r - 1, 0) = 2;
            size_t n = x.nnz(), cap = n + 1 + draw(OPS, 4);
            run("resize_sparse", [&] { p.m[i]->resize(x.r, x.c, cap); }, [&] { loosen<M>(i); });
            write(*p.m[i], x); for (auto k = p.m[i]->begin() + n; k != p.m[i]->end(); ++k) *k = 7;
            p.st[i] = LOOSE;   // not a matrix of the model until it is shrunk
            run("shrink", [&] { p.m[i]->shrink(n); }, [&] {
                if (p.m[i]->nnz() != cap && p.m[i]->nnz() != n) sim::fail("malformed", "a failed shrink from %zu to %zu elements leaves %zu", cap, n, size_t(p.m[i]->nnz()));
                check_shape(*p.m[i], "after a failed shrink"); });
            p.x[i] = x; p.st[i] = KNOWN;
        } else create<M>(i);
    }
    /// conversion of a dense matrix with an explicit range of significant elements
    template <class M, class A> void convert_range(int i, int j) {
        need<A>(j); double lo = sim::range(0, 6), hi = lo + 1 + sim::range(0, 5); lo *= unit; hi *= unit; bool up = draw(OPS, 2); Ref x = pool<A>().x[j];
        for (auto& v : x.v) if (!(std::abs(v) > lo && (!up || std::abs(v) <= hi))) v = 0;
        if (std::is_same<M, DF>::value || std::is_same<M, SF>::value) for (double& v : x.v) v = float(v);
        emplace_from<M>(i, "convert_range", x, [&](std::optional<M>& o) {
            A const& a = *pool<A>().m[j];
            if (up) o.emplace(a, bb::AbsoluteValueRangeChecker<double,bb::ExclusiveBound,bb::InclusiveBound>(lo, hi)); else o.emplace(a, bb::AbsoluteValueRangeChecker<double>(lo)); });
        if (pool<M>().m[i]->nnz() != x.nnz()) sim::fail("content", "converting %s with the range from %g (%g): %zu elements stored", x.str().c_str(), lo, up ? hi : 1e99, size_t(pool<M>().m[i]->nnz()));
    }
    /// a whole-matrix assignment gives every element its value, whatever the memory contained
    template <class M> void overwrite(int i) {
        if constexpr (IsDense<M>::value) {
            typedef typename M::value_type T; Pool<M>& p = pool<M>(); double v = value<M>(); size_t r = ex.rows(), c = ex.cols(); uint32_t how = draw(OPS, 3); bool anew = draw(OPS, 2);
            if (!p.m[i]) need<M>(i);
            if (anew) emplace_from<M>(i, "construct_dense", Ref(r, c), [&](std::optional<M>& o) { o.emplace(r, c); });
            else run("resize_dense", [&] { p.m[i]->resize(r, c); }, [&] { loosen<M>(i); });
            run("overwrite", [&] { if (how == 0) *p.m[i] = T(v); else if (how == 1) p.m[i]->fill(T(v)); else { bb::AllFiller<double> f(v); f(*p.m[i]); } }, [&] { loosen<M>(i); });
            p.x[i] = Ref(r, c, v); p.st[i] = KNOWN;
        } else create<M>(i);
    }
    template <class M> void step(int i, int j, uint32_t op) {
        switch (op) {
        case 0: create<M>(i); break;
        case 1: copy_construct<M>(i, j); break;
        case 2: copy_assign<M>(i, j); break;
        case 3: move_construct<M>(i, j); break;
        case 4: move_assign<M>(i, j); break;
        case 5: swap_slots<M>(i, j); break;
        case 6: resize<M>(i); break;
        case 7: destroy<M>(i); break;
        case 8: element<M>(i); break;
        case 9: fill<M>(i); break;
        case 10: transpose_into<M>(i, j); break;
        case 11: arith<M>(i, j); break;
        case 12: multiply<M>(i, j); break;
        case 13: convert<M, DD>(i, j); break;
        case 14: convert<M, DF>(i, j); break;
        case 15: convert<M, RD>(i, j); break;
        case 16: convert<M, SD>(i, j); break;
        case 17: convert<M, SF>(i, j); break;
        case 18: convert<M, ZZ>(i, j); break;
        case 19: if constexpr (IsSparse<M>::value) { if (draw(OPS, 2)) convert_range<M, DD>(i, j); else if (draw(OPS, 2)) convert_range<M, DF>(i, j); else convert_range<M, RD>(i, j); } else overwrite<M>(i); break;
        case 20: shrink<M>(i); break;
        case 21: impossible<M>(i); break;
        }
        check_all("operation");
    }
    void unblock(int i, int j) {
        need<BL>(j);
        emplace_from<DD>(i, "convert_Blocked_DenseDouble", pool<BL>().x[j], [&](std::optional<DD>& o) { o.emplace(static_cast<BL const&>(*pool<BL>().m[j])); });
        check_all("unblock");
    }
    /// sums of two parts, with and without a second part
    template <class M, class P> void join(int i) {
        Ref x = content<M>(); char op[64]; snprintf(op, sizeof op, "convert_two_parts_%s", kind_name((M*)0)); std::shared_ptr<P> m;
        if (!fitting<P>(x)) return create<M>(i);
        { sim::alloc::Target t; m = Make<P>::make(x); }
        emplace_from<M>(i, op, x, [&](std::optional<M>& o) { o.emplace(static_cast<P const&>(*m)); });
        { sim::alloc::Target t; m.reset(); } check_all(op);
    }
    /// the second part of x is held in single precision
    template <class P> static bool fitting(Ref const& x) { for (double v : x.v) if (v != double(float(v))) return false; return true; }
    /// from a handle of any kind
    template <class M> void from_handle(int i) {
        Ref x = content<M>(); uint32_t k = draw(OPS, 6); bool f = fitting<M>(x); std::shared_ptr<bb::MatrixBase> m;
        { sim::alloc::Target t; m = k == 0 ? std::shared_ptr<bb::MatrixBase>(Make<SD>::make(x)) : k == 1 && f ? std::shared_ptr<bb::MatrixBase>(Make<SF>::make(x)) : k == 2 && f ? std::shared_ptr<bb::MatrixBase>(Make<DF>::make(x))
            : k == 3 && f ? std::shared_ptr<bb::MatrixBase>(Make<MSS>::make(x)) : k == 4 && f ? std::shared_ptr<bb::MatrixBase>(Make<MSD>::make(x)) : std::shared_ptr<bb::MatrixBase>(Make<DD>::make(x)); }
        emplace_from<M>(i, "convert_handle", x, [&](std::optional<M>& o) { o.emplace(static_cast<DynamicMatrix const&>(m)); });
        { sim::alloc::Target t; m.reset(); } check_all("handle");
    }
    uint64_t abstract() {
        uint64_t h = 1; std::apply([&](auto&... p) { (([&] { for (int i = 0; i < N; ++i) h = sim::mix(h, p.st[i] == KNOWN ? p.x[i].hash() : p.st[i]); })(), ...); }, pools); return h;
    }
    void go() {
        draw_junk(); draw_unit(true); ex.draw(5, 40, 600);
        uint32_t n = 3 + draw(OPS, ex.base ? 4 : 18), focus = draw(OPS, 8);
        for (uint32_t k = 0; k < n; ++k) {
            sim::Span sp;
            uint32_t kind = draw(OPS, 16); if (kind >= 8) kind = focus; int i = int(draw(OPS, N)), j = int(draw(OPS, N)); uint32_t op = draw(OPS, 22);
            sim::ev("step kind=%u op=%u i=%d j=%d", kind, op, i, j); sim::steps(1);
            switch (kind) {
            case 0: step<DD>(i, j, op); break; case 1: step<DF>(i, j, op); break; case 2: step<RD>(i, j, op); break;
            case 3: step<SD>(i, j, op); break; case 4: step<SF>(i, j, op); break; case 5: step<ZZ>(i, j, op); break; case 6: step<BL>(i, j, op); break;
            case 7: switch (draw(OPS, 6)) { case 0: join<DD, MSS>(i); break; case 1: join<DD, MSD>(i); break; case 2: join<DF, MSD>(i); break; case 3: from_handle<DD>(i); break; default: unblock(i, j); } break;
            }
            sim::state(abstract());
        }
        std::apply([&](auto&... p) { (([&] { for (int i = 0; i < N; ++i) { sim::alloc::Target t; p.m[i].reset(); } })(), ...); }, pools);
        if (sim::alloc::live()) sim::fail("leak", "%zu blocks still allocated after every matrix was destroyed (sizes %s)", sim::alloc::live(), sim::alloc::describe_live());
    }
};
} // namespace

SIM_WORLD(life_faults, "life/faults") { LifeWorld w; w.faults = true; w.go(); }
SIM_WORLD(life_values, "life/values") { LifeWorld w; w.faults = false; w.go(); }

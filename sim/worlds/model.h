// Reference model and readers shared by the worlds. Only the public interface of the library
// is used, so that the worlds judge what the code does and not how it is written.
#pragma once
#include "../core/sim.h"
#include <cmath>
#include <exception>
#include <functional>
#include <memory>
#include <new>
#include <optional>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include "BlasBooster/Core/AllMatrixTypes.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/DynamicMatrix.h"
#include "BlasBooster/Core/MatrixConverter.h"
#include "BlasBooster/Core/MultipleMatrix.h"
#include "BlasBooster/Core/Multiplication_TheBestPolicy.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/Transposition.h"
#include "BlasBooster/Core/ZeroMatrix.h"

namespace mdl {
namespace bb = BlasBooster;
using bb::Dense; using bb::Sparse; using bb::Zero; using bb::NullType; using bb::DynamicMatrix;

/// Reference: column-major doubles. Values are small integers, so float arithmetic is exact.
struct Ref {
    size_t r = 0, c = 0;
    std::vector<double> v;
    Ref() {}
    Ref(size_t r, size_t c, double x = 0.0) : r(r), c(c), v(r * c, x) {}
    double& at(size_t i, size_t j) { return v[i + j * r]; }
    double at(size_t i, size_t j) const { return v[i + j * r]; }
    bool operator==(Ref const& o) const { return r == o.r && c == o.c && v == o.v; }
    bool operator!=(Ref const& o) const { return !(*this == o); }
    size_t nnz() const { size_t n = 0; for (double x : v) n += x != 0.0; return n; }
    std::string str() const {
        std::ostringstream s; s << r << "x" << c << "[";
        for (size_t i = 0; i < r; ++i) { if (i) s << "; "; for (size_t j = 0; j < c; ++j) s << (j ? " " : "") << at(i, j); }
        s << "]"; std::string t = s.str(); if (t.size() > 300) t = t.substr(0, 300) + "...]"; return t;
    }
    uint64_t hash() const { return sim::hash_bytes(v.data(), v.size() * sizeof(double), sim::mix(r, c)); }
};

inline Ref add(Ref const& a, Ref const& b, double s = 1.0) { Ref x(a); for (size_t i = 0; i < x.v.size(); ++i) x.v[i] += s * b.v[i]; return x; }
inline Ref mul(Ref const& a, Ref const& b) {
    Ref x(a.r, b.c);
    for (size_t j = 0; j < b.c; ++j) for (size_t k = 0; k < a.c; ++k) for (size_t i = 0; i < a.r; ++i) x.at(i, j) += a.at(i, k) * b.at(k, j);
    return x;
}
inline Ref trans(Ref const& a) { Ref x(a.c, a.r); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) x.at(j, i) = a.at(i, j); return x; }

/// The unit of the values of this run, a power of two: what is small or large is not for the library to judge.
inline double unit = 1.0;
/// In some runs double elements have digits that no float can hold.
inline bool finely = false;
inline void draw_unit(bool fine = false) {
    uint32_t k = sim::draw(sim::OPS, 8); unit = k < 6 ? 1.0 : std::ldexp(1.0, int(sim::draw(sim::OPS, 41)) * (k == 6 ? -1 : 1)); if (unit != 1.0) sim::count(unit < 1 ? "tiny_values" : "huge_values");
    finely = fine && sim::draw(sim::OPS, 3) == 2;
}
/// exponents of the lowest and behind the highest bit of all elements
struct Bits { int lo = 0, hi = 0; bool any = false; void take(double v) { if (v == 0.0) return; int e; double m = std::frexp(std::abs(v), &e); uint64_t u = uint64_t(std::ldexp(m, 53)); int l = e - 53 + __builtin_ctzll(u); if (!any || l < lo) lo = l; if (!any || e > hi) hi = e; any = true; } };
inline Bits bits(Ref const& x) { Bits b; for (double v : x.v) b.take(v); return b; }
/// sums and products of such operands are exact in a number with that many digits, in whatever order they are added up
inline bool exact_sum(Ref const& x, Ref const& y, int digits) { Bits a = bits(x), b = bits(y); if (!a.any || !b.any) return true; return std::max(a.hi, b.hi) + 1 - std::min(a.lo, b.lo) <= digits; }
inline bool exact_mul(Ref const& x, Ref const& y, int digits) { Bits a = bits(x), b = bits(y); if (!a.any || !b.any) return true; int k = 0; while ((size_t(1) << k) < x.c) ++k; return a.hi - a.lo + b.hi - b.lo + k <= digits && a.lo + b.lo > -120 && a.hi + b.hi + k < 120; }

/// Seeded content. dens = percentage of nonzero elements.
inline Ref gen(size_t r, size_t c, int maxabs = 9) {
    Ref x(r, c);
    static const uint32_t dens[] = {60, 100, 20, 5, 0};
    uint32_t d = dens[sim::draw(sim::OPS, 5)]; if (d == 60 && r * c > 65535) d = 100;
    // one generator seed per matrix keeps the tape short; the content is still a choice
    uint64_t s = sim::draw(sim::OPS, 1u << 20);
    for (size_t i = 0; i < x.v.size(); ++i) {
        uint64_t h = sim::mix(s, i);
        if (h % 100 < d) { int k = 1 + int((h >> 8) % maxabs); x.v[i] = ((h >> 40) & 1 ? -k : k) * unit; }
    }
    return x;
}

/// elements that no float can hold, for operands that are double (all: also where a two-part sum has its second part)
inline Ref fine(Ref x, bool all = true) {
    if (!finely || sim::draw(sim::OPS, 2)) return x;
    for (size_t i = 0; i < x.v.size(); ++i) if (x.v[i] != 0.0 && (all || ((i * 2654435761u >> 7) & 1))) x.v[i] += unit * std::ldexp(1.0 + double(i % 5), -30) * (i & 2 ? -1 : 1);
    sim::count("fine_values"); return x;
}
/// The shapes of a run: mostly small, sometimes large, sometimes long and thin.
struct Extent {
    uint32_t r = 5, c = 5, base = 0;
    void small(uint32_t n) { r = c = n; }
    /// one run of twelve is large, one of twenty-four long and thin, one of 192 vast
    void draw(uint32_t n, uint32_t big, uint32_t thin) {
        r = c = n; uint32_t k = sim::draw(sim::OPS, 24);
        if (k >= 22) { r = c = big; sim::count("large_shapes"); }
        else if (k == 20 && sim::draw(sim::OPS, 8) == 7) { base = 256; r = c = 8; sim::count("vast_shapes"); }   // more elements than 16 bits can count
        else if (k == 21) { bool tall = sim::draw(sim::OPS, 2); r = tall ? thin : 2; c = tall ? 2 : thin; sim::count("thin_shapes"); }
    }
    size_t rows() const { return base + 1 + sim::draw(sim::OPS, r); }
    size_t cols() const { return base + 1 + sim::draw(sim::OPS, c); }
};

template <class T> std::string num(T x) { std::ostringstream s; s.precision(17); s << x; return s.str(); }

template <class M> size_t stored(M const& m) { return size_t(std::distance(m.begin(), m.end())); }

/// Readers. cls is the violation class if the object is not a well-formed matrix.
template <class T, class P>
Ref read(bb::Matrix<Dense,T,P> const& m, char const* what) {
    Ref x(m.getNbRows(), m.getNbColumns());
    if (m.getSize() != x.r * x.c) sim::fail("malformed", "%s: getSize()=%zu but %zu x %zu", what, size_t(m.getSize()), x.r, x.c);
    if (stored(m) != x.r * x.c) sim::fail("malformed", "%s: %zu stored elements but %zu x %zu", what, size_t(stored(m)), x.r, x.c);
    for (size_t j = 0; j < x.c; ++j) for (size_t i = 0; i < x.r; ++i) x.at(i, j) = m(i, j);
    return x;
}
/// dimensions and storage agree and every element is readable; content unspecified
template <class T, class P>
void check_shape(bb::Matrix<Dense,T,P> const& m, char const* what) {
    if (m.getSize() != m.getNbRows() * m.getNbColumns() || stored(m) != m.getNbRows() * m.getNbColumns())
        sim::fail("malformed", "%s: %zu stored elements, getSize()=%zu but %zu x %zu", what, size_t(stored(m)), size_t(m.getSize()), size_t(m.getNbRows()), size_t(m.getNbColumns()));
    volatile T sink; for (size_t j = 0; j < m.getNbColumns(); ++j) for (size_t i = 0; i < m.getNbRows(); ++i) sink = m(i, j);
    (void)sink;
}
template <class T, class P>
void check_shape(bb::Matrix<Sparse,T,P> const& m, char const* what) {
    size_t r = m.getNbRows(), c = m.getNbColumns(), nnz = m.nnz(), no = m.sizeOffset();
    if (m.getSize() != r * c) sim::fail("malformed", "%s: getSize()=%zu but %zu x %zu", what, size_t(m.getSize()), r, c);
    if (!(no == c + 1 || (no == 0 && r == 0 && c == 0))) sim::fail("malformed", "%s: %zu offsets for %zu columns", what, no, c);
    if (size_t(m.end() - m.begin()) != nnz || size_t(m.endKey() - m.beginKey()) != nnz) sim::fail("malformed", "%s: value and key arrays differ in length", what);
    volatile T sink; for (auto i = m.begin(); i != m.end(); ++i) sink = *i;
    volatile size_t k; for (auto i = m.beginKey(); i != m.endKey(); ++i) k = *i;
    for (auto i = m.beginOffset(); i != m.endOffset(); ++i) k = *i;
    (void)sink; (void)k;
}
template <class P>
void check_shape(bb::Matrix<Zero,NullType,P> const& m, char const* what) {
    if (m.getSize() != m.getNbRows() * m.getNbColumns()) sim::fail("malformed", "%s: getSize()=%zu but %zu x %zu", what, size_t(m.getSize()), size_t(m.getNbRows()), size_t(m.getNbColumns()));
}
template <class T, class P>
Ref read(bb::Matrix<Sparse,T,P> const& m, char const* what) {
    check_shape(m, what);
    Ref x(m.getNbRows(), m.getNbColumns());
    if (x.c == 0) return x;
    size_t nnz = m.nnz();
    auto off = m.beginOffset();
    if (*off != 0) sim::fail("malformed", "%s: first offset is %zu", what, size_t(*off));
    for (size_t j = 0; j < x.c; ++j) {
        size_t a = *(off + j), b = *(off + j + 1);
        if (b < a || b > nnz) sim::fail("malformed", "%s: offsets %zu..%zu of column %zu with %zu stored elements", what, a, b, j, nnz);
        for (size_t k = a; k < b; ++k) {
            size_t key = *(m.beginKey() + k);
            if (key >= x.r) sim::fail("malformed", "%s: row index %zu in column %zu of a %zu x %zu matrix", what, key, j, x.r, x.c);
            if (k > a && key <= size_t(*(m.beginKey() + k - 1))) sim::fail("malformed", "%s: row indices of column %zu are not increasing", what, j);
            x.at(key, j) = *(m.begin() + k);
        }
    }
    if (size_t(*(off + x.c)) != nnz) sim::fail("malformed", "%s: %zu elements stored but the last offset is %zu", what, nnz, size_t(*(off + x.c)));
    return x;
}
template <class P>
Ref read(bb::Matrix<Zero,NullType,P> const& m, char const* what) { check_shape(m, what); return Ref(m.getNbRows(), m.getNbColumns()); }
template <class A, class B>
Ref read(bb::MultipleMatrix<A,B> const& m, char const* what) {
    Ref a = read(m.getMatrix1(), what), b = read(m.getMatrix2(), what);
    if (a.r != b.r || a.c != b.c) sim::fail("malformed", "%s: parts differ in shape", what);
    if (m.getNbRows() != a.r || m.getNbColumns() != a.c || m.getSize() != a.r * a.c) sim::fail("malformed", "%s: shape of the sum differs from its parts", what);
    return add(a, b);
}
typedef bb::Matrix<Dense,double> DD; typedef bb::Matrix<Dense,float> DF;
typedef bb::Matrix<Sparse,double> SD; typedef bb::Matrix<Sparse,float> SF;
typedef bb::Matrix<Zero> ZZ;
typedef bb::MultipleMatrix<SD,SF> MSS; typedef bb::MultipleMatrix<SD,DF> MSD;
typedef bb::Matrix<Dense,double,bb::Parameter<size_t,bb::RowMajor>> RD;

inline char const* dyn_name(bb::MatrixBase const& b) {
    size_t t = b.getTypeIndex();
    if (t == ZZ::typeIndex_) return "Zero"; if (t == SF::typeIndex_) return "SparseFloat"; if (t == DF::typeIndex_) return "DenseFloat";
    if (t == SD::typeIndex_) return "SparseDouble"; if (t == MSS::typeIndex_) return "MultipleSparseSparse";
    if (t == MSD::typeIndex_) return "MultipleSparseDense"; if (t == DD::typeIndex_) return "DenseDouble"; return "?";
}
inline Ref read(DynamicMatrix const& p, char const* what) {
    if (!p) sim::fail("malformed", "%s: empty dynamic matrix", what);
    size_t t = p->getTypeIndex();
#define MDL_T(M) if (t == M::typeIndex_) { M const* q = dynamic_cast<M const*>(p.get()); if (!q) sim::fail("malformed", "%s: type index %zu does not match the object", what, t); return read(*q, what); }
    MDL_T(ZZ) MDL_T(SF) MDL_T(DF) MDL_T(SD) MDL_T(MSS) MDL_T(MSD) MDL_T(DD)
#undef MDL_T
    sim::fail("malformed", "%s: unknown type index %zu", what, t);
}
template <class P>
Ref read(bb::Matrix<Dense,DynamicMatrix,P> const& m, char const* what) {
    size_t br = m.getNbRows(), bc = m.getNbColumns();
    if (m.getSize() != br * bc || stored(m) != br * bc) sim::fail("malformed", "%s: %zu blocks but %zu x %zu", what, size_t(stored(m)), br, bc);
    std::vector<Ref> b; for (size_t j = 0; j < bc; ++j) for (size_t i = 0; i < br; ++i) b.push_back(read(m(i, j), what));
    size_t R = 0, C = 0; for (size_t i = 0; i < br; ++i) R += b[i].r; for (size_t j = 0; j < bc; ++j) C += b[j * br].c;
    if (br * bc && (m.getUnblockedRows() != R || m.getUnblockedColumns() != C))
        sim::fail("malformed", "%s: blocks make %zu x %zu but the matrix says %zu x %zu", what, R, C, size_t(m.getUnblockedRows()), size_t(m.getUnblockedColumns()));
    Ref x(R, C); size_t co = 0;
    for (size_t j = 0; j < bc; ++j) {
        size_t ro = 0;
        for (size_t i = 0; i < br; ++i) {
            Ref const& y = b[i + j * br];
            if (y.r != b[i].r || y.c != b[j * br].c) sim::fail("malformed", "%s: block (%zu,%zu) is %zu x %zu, its row is %zu high and its column %zu wide", what, i, j, y.r, y.c, b[i].r, b[j * br].c);
            for (size_t q = 0; q < y.c; ++q) for (size_t p = 0; p < y.r; ++p) x.at(ro + p, co + q) = y.at(p, q);
            ro += y.r;
        }
        co += b[j * br].c;
    }
    return x;
}

/// Writers: give an existing object of the right shape a content
template <class T, class P>
void write(bb::Matrix<Dense,T,P>& m, Ref const& x) { for (size_t j = 0; j < x.c; ++j) for (size_t i = 0; i < x.r; ++i) m(i, j) = T(x.at(i, j)); }
/// fills storage made with exactly nnz elements
template <class T, class P>
void write(bb::Matrix<Sparse,T,P>& m, Ref const& x) {
    auto v = m.begin(); auto k = m.beginKey(); auto o = m.beginOffset(); size_t n = 0;
    for (size_t j = 0; j < x.c; ++j) {
        *(o + j) = n;
        for (size_t i = 0; i < x.r; ++i) if (x.at(i, j) != 0.0) { *(v + n) = T(x.at(i, j)); *(k + n) = i; ++n; }
    }
    *(o + x.c) = n;
}

/// Build a matrix of type M holding x (allocations belong to the code under test)
template <class M> struct Make;
template <class T, class P> struct Make<bb::Matrix<Dense,T,P>> {
    static std::shared_ptr<bb::Matrix<Dense,T,P>> make(Ref const& x) {
        auto m = std::make_shared<bb::Matrix<Dense,T,P>>(x.r, x.c); write(*m, x); return m; }
};
template <class T, class P> struct Make<bb::Matrix<Sparse,T,P>> {
    static std::shared_ptr<bb::Matrix<Sparse,T,P>> make(Ref const& x) {
        DD d(x.r, x.c); write(d, x);
        return std::make_shared<bb::Matrix<Sparse,T,P>>(d);
    }
};
template <class P> struct Make<bb::Matrix<Zero,NullType,P>> {
    static std::shared_ptr<bb::Matrix<Zero,NullType,P>> make(Ref const& x) { return std::make_shared<bb::Matrix<Zero,NullType,P>>(x.r, x.c); }
};
template <class A, class B> struct Make<bb::MultipleMatrix<A,B>> {
    // split: even positions in the first part, odd ones in the second
    static std::shared_ptr<bb::MultipleMatrix<A,B>> make(Ref const& x) {
        Ref a(x.r, x.c), b(x.r, x.c);
        for (size_t i = 0; i < x.v.size(); ++i) ((i * 2654435761u >> 7) & 1 ? a : b).v[i] = x.v[i];
        return std::make_shared<bb::MultipleMatrix<A,B>>(Make<A>::make(a), Make<B>::make(b));
    }
};

inline bool is_pow2ish(double) { return true; }

/// Which allocation of an operation fails (0: none). Long operations are hit late as well.
inline uint32_t draw_nth() { uint32_t d = sim::draw(sim::FAULTS, 9); return d < 7 ? d : 6 + sim::draw(sim::FAULTS, 18); }

/// Random junk mode for fresh memory, drawn from the fault stream
inline void draw_junk() { uint32_t m = sim::draw(sim::FAULTS, 4); sim::alloc::junk(m, 1 + sim::draw(sim::FAULTS, 1000)); if (m) sim::count("fault:junk_memory"); }

} // namespace mdl

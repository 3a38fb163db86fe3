// World "conc" (property C05): simulated threads read, query, convert, transpose, combine, multiply,
// print, copy and dispatch over the same unmodified matrices, statically typed, behind dynamically
// typed handles and blocked, under a seeded schedule. Nothing is initialised beforehand: the first
// use of every table and cache happens in a thread. Every result equals the reference model's.
//   conc/read   : every operation succeeds
//   conc/faults : seeded allocations of the threads fail; the operations hit have no result, all others do
#include "model.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#include "BlasBooster/Core/MatrixIO.h"
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#include <numeric>
using namespace mdl;
using sim::draw; using sim::OPS; using sim::FAULTS;

namespace {
typedef bb::BlockedDenseMatrix BM;
typedef std::vector<size_t> Sizes;
const int K = 7;
struct Plan { int op, i, j, v, w; uint32_t nth; };

/// a stream buffer whose memory belongs to the harness
struct Buf : std::streambuf {
    std::string s;
    int overflow(int c) override { sim::alloc::Host h; s += char(c); return 0; }
    std::streamsize xsputn(char const* p, std::streamsize n) override { sim::alloc::Host h; s.append(p, size_t(n)); return n; }
};

/// left operand (a), same shape (b), fitting right operand (c); each in seven kinds and row-major
struct Operand { Ref x; DynamicMatrix m[K]; std::shared_ptr<DD> dd; std::shared_ptr<DF> df; std::shared_ptr<SD> sd; std::shared_ptr<SF> sf; std::shared_ptr<ZZ> zz; std::shared_ptr<MSS> mss; std::shared_ptr<MSD> msd; std::shared_ptr<RD> rd; std::unique_ptr<BM> bm; Sizes r, k; std::vector<double> ed; std::vector<float> ef; /* memory of the program under the dense operands */ Ref ref(int kind) const { return kind == 6 ? Ref(x.r, x.c) : x; }
    void reset() { for (auto& q : m) q.reset(); dd.reset(); df.reset(); sd.reset(); sf.reset(); zz.reset(); mss.reset(); msd.reset(); rd.reset(); bm.reset(); } };

struct ConcWorld {
    bool faults; int nthr; Operand a, b, c; std::vector<Plan> plan[8];
    bb::Threshold th;
    Sizes partition(size_t n) { Sizes s; while (n) { size_t k = 1 + draw(OPS, uint32_t(n)); s.push_back(k); n -= k; } return s; }
    void build(Operand& o, Ref const& x, Sizes r, Sizes k) {
        o.x = x; o.r = r; o.k = k;
        bool ext = draw(OPS, 3) == 2; if (ext) { sim::count("operands over external memory"); o.ed = x.v; o.ef.assign(x.v.begin(), x.v.end()); }
        sim::alloc::Target t;
        if (ext) { o.dd = std::make_shared<DD>(x.r, x.c, o.ed.data()); o.df = std::make_shared<DF>(x.r, x.c, o.ef.data()); }
        else { o.dd = Make<DD>::make(x); o.df = Make<DF>::make(x); }
        o.sd = Make<SD>::make(x); o.sf = Make<SF>::make(x); o.zz = Make<ZZ>::make(x); o.mss = Make<MSS>::make(x); o.msd = Make<MSD>::make(x); o.rd = Make<RD>::make(x);
        o.m[0] = o.dd; o.m[1] = o.df; o.m[2] = o.sd; o.m[3] = o.sf; o.m[4] = o.mss; o.m[5] = o.msd; o.m[6] = o.zz;
        // queries of the caches happen on a matrix of its own: split a temporary
        DD tmp(*o.dd); o.bm.reset(new BM(bb::BlockedMatrixGenerator()(tmp, r, k, th)));
    }
    static void same(char const* w, Ref const& got, Ref const& want) { if (got != want) sim::fail("wrong-result", "%s gives %s, expected %s", w, got.str().c_str(), want.str().c_str()); }

    /// op: runs f in the target scope; out of memory is an outcome in which nothing is compared
    template <class F> bool op(char const* w, F f) {
        sim::thr::label(w);
        try { sim::alloc::Target t; f(); return true; }
        catch (std::bad_alloc const&) { sim::count("probe:operation_failed_on_allocation"); if (!faults) sim::fail("unexpected-exception", "%s throws bad_alloc although no allocation failed", w); return false; }
        catch (std::exception const& e) { sim::fail("unexpected-exception", "%s throws: %s", w, e.what()); }
    }
    /// the norm a copy or result answers belongs to its own elements
    template <class M> void norm_of(char const* w, M const& m, Ref const& x) {
        double n2 = 0, n = 0; for (double v : x.v) n2 += v * v; n2 = std::sqrt(n2);
        if (op(w, [&] { n = m.getNorm(); }) && std::abs(n - n2) > 1e-5 * (1 + n2)) sim::fail("wrong-result", "%s: norm of the result is %.17g, expected %.17g", w, n, n2);
    }
    /// a result of type R compared with x
    template <class R, class F> void result(char const* w, Ref const& x, F f) {
        alignas(R) unsigned char buf[sizeof(R)]; R* r = nullptr;
        if (!op(w, [&] { r = new (buf) R(f()); })) return;
        sim::count(w);
        { Ref y = read(static_cast<R const&>(*r), w); same(w, y, x); }
        if constexpr (std::is_same<R, DD>::value || std::is_same<R, SD>::value || std::is_same<R, RD>::value || std::is_same<R, DF>::value) norm_of(w, static_cast<R const&>(*r), x);
        sim::alloc::Target t; r->~R();
    }
    template <class A, class B, class R> void product(char const* w, A const& x, B const& y, Ref const& z, bool blas) {
        if constexpr (std::is_same<A, B>::value && (std::is_same<A, DD>::value || std::is_same<A, DF>::value)) { if (blas) { result<R>(w, z, [&] { return (x * y).template execute<bb::OpenBLAS>(); }); return; } }
        result<R>(w, z, [&] { return (x * y).template execute<bb::Native>(); });
    }
    template <class A, class B, class R> void sum(char const* w, A const& x, B const& y, Ref const& p, Ref const& q, bool plus) { result<R>(w, add(p, q, plus ? 1 : -1), [&] { if (plus) return R(x + y); return R(x - y); }); }

    template <class M> void queries(char const* w, M const& m, Ref const& x, Plan const& p) {
        double n2 = 0; for (double v : x.v) n2 += v * v; n2 = std::sqrt(n2);
        double n = 0; bool l = false, s = false; double thr = n2 + (p.v % 3 - 1); size_t cnt = 0; double occ = 0; bool ol = false;
        if (p.v % 7 == 6) { // the norm functions keep nothing
            double n1 = 0, nm = 0, g1 = 0, gm = 0; for (double v : x.v) { n1 += std::abs(v); nm = std::max(nm, std::abs(v)); } gm = nm;
            if (!op(w, [&] { g1 = bb::norm<bb::NormOne>(m); n = bb::norm<bb::NormTwo>(m); if constexpr (std::is_same<typename M::value_type, double>::value) gm = bb::norm<bb::NormMax>(m); })) return;
            sim::count("free norms"); if (std::abs(g1 - n1) > 1e-5 * (1 + n1) || std::abs(n - n2) > 1e-5 * (1 + n2) || gm != nm) sim::fail("wrong-result", "%s: norms one/two/max are %.17g/%.17g/%.17g, expected %.17g/%.17g/%.17g", w, g1, n, gm, n1, n2, nm);
            return; }
        switch (p.w % 4) {
        case 0: if (!op(w, [&] { n = m.getNorm(); })) return; if (std::abs(n - n2) > 1e-5 * (1 + n2)) sim::fail("wrong-result", "%s: norm is %.17g, expected %.17g", w, n, n2); break;
        case 1: if (!op(w, [&] { l = m.isNormLargerThan(thr); s = m.isNormSmallerThan(thr); })) return; if (p.v % 3 != 1 && (l != (n2 > thr) || s != (n2 < thr))) sim::fail("wrong-result", "%s: norm %.17g larger/smaller than %.17g answers %d/%d", w, n2, thr, l, s); break;
        default: {
            double lo = p.v % 5; int kind = p.v / 5 % 3; size_t want = 0, wz = 0; for (double v : x.v) { double q = std::abs(v); want += kind == 0 ? q > lo : kind == 1 ? q > lo && q <= lo + 3 : q >= lo + 1 && q <= lo + 3; } (void)wz;
            auto ask = [&](auto const& ch) { return op(w, [&] { cnt = m.getNbOfSignificantElements(ch); occ = m.getOccupation(ch); ol = m.isOccupationLargerThan(0.3, ch); }); };
            bool ok = false; 
            if (kind == 0) { std::optional<bb::AbsoluteValueRangeChecker<double>> ch; if (op(w, [&] { ch.emplace(lo); })) ok = ask(*ch); }
            else if (kind == 1) { std::optional<bb::AbsoluteValueRangeChecker<double, bb::ExclusiveBound, bb::InclusiveBound>> ch; if (op(w, [&] { ch.emplace(lo, lo + 3); })) ok = ask(*ch); }
            else { std::optional<bb::AbsoluteValueRangeChecker<float, bb::InclusiveBound, bb::InclusiveBound>> ch; if (op(w, [&] { ch.emplace(float(lo + 1), float(lo + 3)); })) ok = ask(*ch); }
            if (!ok) return;
            double wo = double(want) / double(x.v.size());
            if (cnt != want || occ != wo || ol != (wo > 0.3)) sim::fail("wrong-result", "%s: %zu elements in range (occupation %g), expected %zu", w, cnt, occ, want);
        } }
        sim::count("query");
    }
    template <class M> void print(char const* w, M const& m, Ref const& x, bool full) {
        Buf buf; std::string s;
        { std::optional<std::ostream> os; sim::alloc::Host h; os.emplace(&buf); if (!op(w, [&] { if (full) *os << bb::fullprint; *os << m; })) return; if (!*os) { if (faults) return; sim::fail("wrong-result", "%s: printing failed", w); } }
        sim::count("print"); s = buf.s; if (faults) return; // a failing allocation inside a stream is swallowed by it
        if constexpr (std::is_same<M, DD>::value || std::is_same<M, DF>::value || std::is_same<M, RD>::value) {
            std::istringstream in(s); std::string line; if (full) { size_t pos = s.find("Dimension"); if (pos == std::string::npos) sim::fail("wrong-result", "%s printed '%s'", w, s.c_str()); in.seekg(std::streamoff(pos)); std::getline(in, line); }
            for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) { double v; if (!(in >> v) || v != x.at(i, j)) sim::fail("wrong-result", "%s printed '%s' for %s", w, s.c_str(), x.str().c_str()); }
            if (in >> line) sim::fail("wrong-result", "%s printed '%s' for %s", w, s.c_str(), x.str().c_str());
        }
    }
    /// a private copy may be changed at will
    template <class M> void mutate(char const* w, M const& m, Ref const& x, int how) {
        alignas(M) unsigned char buf[sizeof(M)]; M* q = nullptr;
        if (!op(w, [&] { q = new (buf) M(m); })) return;
        sim::count(w); same(w, read(static_cast<M const&>(*q), w), x);
        if (how & 1) norm_of(w, static_cast<M const&>(*q), x);
        { sim::alloc::Target t; for (auto i = q->begin(); i != q->end(); ++i) *i = typename std::decay<decltype(*i)>::type(0); }
        same(w, read(static_cast<M const&>(*q), w), Ref(x.r, x.c));
        double n = 1; if (op(w, [&] { n = q->getNorm(); }) && n != 0) sim::fail("wrong-result", "%s: norm of the cleared copy is %g", w, n);
        if (op(w, [&] { *q = m; })) { same(w, read(static_cast<M const&>(*q), w), x); norm_of(w, static_cast<M const&>(*q), x); }
        sim::alloc::Target t; q->~M();
    }
    Operand& pick(int v) { return v % 3 == 0 ? a : v % 3 == 1 ? b : c; }

    void step(Plan const& p) {
        sim::alloc::arm(p.nth); Operand& o = pick(p.w); bool plus = p.v & 1; int i = p.i, j = p.j;
        switch (p.op) {
        case 0: case 1: { // dynamic product
            DynamicMatrix r; static thread_local char w[96]; snprintf(w, sizeof w, "%s * %s", dyn_name(*a.m[i]), dyn_name(*c.m[j]));
            DynamicMatrix const& x = a.m[i]; DynamicMatrix const& y = c.m[j];
            if (op(w, [&] { if (p.v % 3) r = (x * y).execute<bb::TheBestPolicy>(); else r = (x * y).execute<bb::Native>(); })) { sim::count("dynamic product"); same(w, read(r, w), mul(a.ref(i), c.ref(j))); }
            sim::alloc::Target t; r.reset(); break; }
        case 2: { // dynamic sum
            DynamicMatrix r; static thread_local char w[96]; snprintf(w, sizeof w, "%s %c %s", dyn_name(*a.m[i]), plus ? '+' : '-', dyn_name(*b.m[j]));
            DynamicMatrix const& x = a.m[i]; DynamicMatrix const& y = b.m[j];
            if (op(w, [&] { if (plus) r = x + y; else r = x - y; })) { sim::count("dynamic sum"); same(w, read(r, w), add(a.ref(i), b.ref(j), plus ? 1 : -1)); }
            sim::alloc::Target t; r.reset(); break; }
        case 3: { Ref z = mul(a.x, c.x), o0(a.x.r, c.x.c); // static product
            switch (p.v % 12) {
            case 0: product<DD, DD, DD>("DD*DD", *a.dd, *c.dd, z, plus); break;
            case 1: product<DD, DD, DD>("DD*DD BLAS", *a.dd, *c.dd, z, true); break;
            case 2: product<DF, DF, DF>("DF*DF BLAS", *a.df, *c.df, z, true); break;
            case 3: product<SD, SD, SD>("SD*SD", *a.sd, *c.sd, z, false); break;
            case 4: product<SD, DD, DD>("SD*DD", *a.sd, *c.dd, z, false); break;
            case 5: product<DD, SD, DD>("DD*SD", *a.dd, *c.sd, z, false); break;
            case 6: product<RD, RD, DD>("RD*RD", *a.rd, *c.rd, z, false); break;
            case 7: product<SF, DD, DD>("SF*DD", *a.sf, *c.dd, z, false); break;
            case 8: product<DD, ZZ, ZZ>("DD*ZZ", *a.dd, *c.zz, o0, false); break;
            case 9: product<SD, RD, DD>("SD*RD", *a.sd, *c.rd, z, false); break;
            case 10: product<SF, SF, SF>("SF*SF", *a.sf, *c.sf, z, false); break;
            default: product<DF, DF, DF>("DF*DF", *a.df, *c.df, z, false); } break; }
        case 4: // static sum
            switch (p.v % 8) {
            case 0: sum<DD, DD, DD>("DD+-DD", *a.dd, *b.dd, a.x, b.x, p.w & 1); break;
            case 1: sum<SD, SD, SD>("SD+-SD", *a.sd, *b.sd, a.x, b.x, p.w & 1); break;
            case 2: sum<SF, DD, DD>("SF+-DD", *a.sf, *b.dd, a.x, b.x, p.w & 1); break;
            case 3: sum<RD, RD, RD>("RD+-RD", *a.rd, *b.rd, a.x, b.x, p.w & 1); break;
            case 4: sum<DD, SD, DD>("DD+-SD", *a.dd, *b.sd, a.x, b.x, p.w & 1); break;
            case 5: sum<ZZ, DD, DD>("ZZ+-DD", *a.zz, *b.dd, a.ref(6), b.x, p.w & 1); break;
            case 6: sum<DF, DD, DD>("DF+-DD", *a.df, *b.dd, a.x, b.x, p.w & 1); break;
            default: sum<SF, SF, SF>("SF+-SF", *a.sf, *b.sf, a.x, b.x, p.w & 1); } break;
        case 5: case 6: // queries
            switch (i) {
            case 0: case 4: queries("query DD", *a.dd, a.x, p); break;
            case 1: queries("query DF", *a.df, a.x, p); break;
            case 2: case 5: queries("query SD", *a.sd, a.x, p); break;
            case 3: queries("query SF", *a.sf, a.x, p); break;
            default: queries("query RD", *a.rd, a.x, p); } break;
        case 7: // copy and change the copy
            switch (i % 5) {
            case 0: mutate("copy DD", *a.dd, a.x, p.v); break;
            case 1: mutate("copy DF", *a.df, a.x, p.v); break;
            case 2: result<SD>("copy SD", a.x, [&] { return static_cast<SD const&>(*a.sd); }); break;
            case 3: result<MSD>("copy MSD", a.x, [&] { return static_cast<MSD const&>(*a.msd); }); break;
            default: mutate("copy RD", *a.rd, a.x, p.v); } break;
        case 8: // conversions and transposition
            switch (p.v % 12) {
            case 0: result<SD>("SD(DD)", o.x, [&] { return SD(static_cast<DD const&>(*o.dd)); }); break;
            case 1: result<DD>("DD(SD)", o.x, [&] { return DD(static_cast<SD const&>(*o.sd)); }); break;
            case 2: result<DF>("DF(DD)", o.x, [&] { return DF(static_cast<DD const&>(*o.dd)); }); break;
            case 3: result<RD>("RD(DD)", o.x, [&] { return RD(static_cast<DD const&>(*o.dd)); }); break;
            case 4: result<DD>("DD(MSD)", o.x, [&] { return DD(static_cast<MSD const&>(*o.msd)); }); break;
            case 5: result<DD>("DD(RD)", o.x, [&] { return DD(static_cast<RD const&>(*o.rd)); }); break;
            case 6: result<SF>("SF(DF)", o.x, [&] { return SF(static_cast<DF const&>(*o.df)); }); break;
            case 7: result<DD>("transpose DD", trans(o.x), [&] { return bb::transpose(static_cast<DD const&>(*o.dd)); }); break;
            case 8: result<SD>("transpose SD", trans(o.x), [&] { return bb::transpose(static_cast<SD const&>(*o.sd)); }); break;
            case 9: result<RD>("transpose RD", trans(o.x), [&] { return bb::transpose(static_cast<RD const&>(*o.rd)); }); break;
            case 10: result<DD>("DD(handle)", o.ref(i), [&] { return DD(static_cast<DynamicMatrix const&>(o.m[i])); }); break;
            default: { DynamicMatrix r; // the kind the thresholds choose
                if (op("MatrixConverter", [&] { r = bb::MatrixConverter()(static_cast<DD const&>(*o.dd), th); })) { sim::count("MatrixConverter"); same("MatrixConverter", read(r, "MatrixConverter"), o.x); }
                sim::alloc::Target t; r.reset(); } } break;
        case 9: { // handles are copied and dropped, dispatched on
            DynamicMatrix h1, h2; size_t r = 0, k = 0; double n = 0; Ref x = o.ref(i); bool norm = i != 4 && i != 5; double n2 = 0; for (double v : x.v) n2 += v * v; n2 = std::sqrt(n2);
            { sim::alloc::Target t; h1 = o.m[i]; h2 = h1; }
            if (op("handle", [&] { r = bb::getNbRows(h1); k = bb::getNbColumns(h2); if (p.v % 3 == 2) { norm = true; n = bb::norm<bb::NormTwo>(h1); } else if (norm) n = bb::getNorm(h1); })) {
                sim::count("handle"); if (r != x.r || k != x.c || (norm && std::abs(n - n2) > 1e-5 * (1 + n2))) sim::fail("wrong-result", "handle to %s says %zux%zu, norm %.17g; expected %zux%zu, %.17g", dyn_name(*h1), r, k, n, x.r, x.c, n2);
                same("handle", read(h1, "handle"), x); }
            sim::alloc::Target t; h1.reset(); h2.reset(); break; }
        case 10: // printing
            switch (i) { case 0: print("print DD", *o.dd, o.x, plus); break; case 1: print("print DF", *o.df, o.x, plus); break; case 2: print("print SD", *o.sd, o.x, plus); break;
            case 3: print("print RD", *o.rd, o.x, plus); break; case 4: print("print handle", o.m[j], o.ref(j), plus); break; default: print("print ZZ", *o.zz, o.ref(6), plus); } break;
        default: { // blocked matrices
            BM const& x = *a.bm; BM const& y = *c.bm; BM const& z = *b.bm;
            switch (p.v % 9) {
            case 0: result<BM>("blocked product", mul(a.x, c.x), [&] { return BM((x * y).execute<bb::Native>()); }); break;
            case 1: result<BM>("blocked product", mul(a.x, c.x), [&] { return BM((x * y).execute<bb::TheBestPolicy>()); }); break;
            case 2: result<DD>("assemble", b.x, [&] { return DD(z); }); break;
            case 3: { BM* q = nullptr; alignas(BM) unsigned char buf[sizeof(BM)]; if (op("copy blocked", [&] { q = new (buf) BM(x); })) { sim::count("copy blocked"); same("copy blocked", read(static_cast<BM const&>(*q), "copy blocked"), a.x); sim::alloc::Target t; q->~BM(); } break; }
            case 4: { alignas(bb::TypeMatrix) unsigned char b1[sizeof(bb::TypeMatrix)]; bb::TypeMatrix* t = nullptr; std::array<size_t, 7> cnt{};
                if (op("type matrix", [&] { cnt = bb::get_type_counting(x); t = new (b1) bb::TypeMatrix(bb::generateTypeMatrix(x)); })) { sim::count("type matrix"); for (size_t q = 0; q < x.getNbRows(); ++q) for (size_t u = 0; u < x.getNbColumns(); ++u) if (size_t(static_cast<bb::TypeMatrix const&>(*t)(q, u)) != x(q, u)->getTypeIndex()) sim::fail("wrong-result", "type matrix of a shared blocked matrix");
                    sim::alloc::Target g; t->~Matrix(); } break; }
            case 8: { double n = 0, n2 = 0; for (double v : a.x.v) n2 += v * v; n2 = std::sqrt(n2); if (op("norm of blocks", [&] { n = p.w % 2 ? bb::norm<bb::NormTwo>(x) : x.getNorm(); })) { sim::count("norm of blocks"); if (std::abs(n - n2) > 1e-5 * (1 + n2)) sim::fail("wrong-result", "norm of a shared blocked matrix is %.17g, expected %.17g", n, n2); } break; }
            case 5: result<BM>("split", o.x, [&] { return bb::BlockedMatrixGenerator()(static_cast<DD const&>(*o.dd), o.r, o.k, th); }); break;
            case 6: { std::tuple<Sizes, Sizes> s; if (op("block sizes", [&] { s = bb::BlockSizeGenerator(1, 3)(static_cast<DD const&>(*o.dd)); })) { sim::count("block sizes"); auto total = [](Sizes const& q) { return std::accumulate(q.begin(), q.end(), size_t(0)); };
                    if (total(std::get<0>(s)) != o.x.r || total(std::get<1>(s)) != o.x.c) sim::fail("wrong-result", "block sizes of a shared %zux%zu matrix", o.x.r, o.x.c); }
                sim::alloc::Target g; s = std::tuple<Sizes, Sizes>(); break; }
            default: { DynamicMatrix h; { sim::alloc::Target t; h = x(size_t(p.w) % x.getNbRows(), size_t(p.i) % x.getNbColumns()); } size_t n = 0; if (op("block", [&] { n = bb::getNbRows(h); }) && n != a.r[size_t(p.w) % x.getNbRows()]) sim::fail("wrong-result", "block has %zu rows", n); sim::count("block"); sim::alloc::Target t; h.reset(); }
            } } }
        sim::alloc::disarm();
    }
    static void body(void* w, int id) { ConcWorld& t = *static_cast<ConcWorld*>(w); for (auto& p : t.plan[id]) t.step(p); }
    void check(Operand& o, char const* n) {
        for (int k = 0; k < K; ++k) { Ref y = read(o.m[k], n); if (y != o.ref(k)) sim::fail("operand-changed", "shared operand %s (%s) holds %s, expected %s", n, dyn_name(*o.m[k]), y.str().c_str(), o.ref(k).str().c_str()); }
        if (read(static_cast<RD const&>(*o.rd), n) != o.x || read(static_cast<BM const&>(*o.bm), n) != o.x) sim::fail("operand-changed", "shared operand %s changed", n);
        if (o.dd.use_count() != 2) sim::fail("lost-reference", "a shared handle has %ld owners, 2 are left", o.dd.use_count());
    }
    void go() {
        draw_junk(); nthr = draw(OPS, 16) == 15 ? 5 + int(draw(OPS, 3)) : 1 + int(draw(OPS, 4)); sim::clk::read_cost(1);
        int md = draw(OPS, 6) == 5 ? 9 : 4;
        { sim::alloc::Target t; th = bb::Threshold(bb::ThresholdSettings()); }
        Sizes r = partition(sim::range(1, md)), k = partition(sim::range(1, md)), n = partition(sim::range(1, md));
        auto total = [](Sizes const& s) { return std::accumulate(s.begin(), s.end(), size_t(0)); };
        build(a, gen(total(r), total(k)), r, k); build(b, gen(total(r), total(k)), r, k); build(c, gen(total(k), total(n)), k, n);
        // in some runs the threads meet at the cached answers of one matrix
        static const int qi[] = {0, 1, 2, 6}, ci[] = {0, 1, 2, 4}; bool meet = draw(OPS, 4) == 3; int subject = int(draw(OPS, 4));
        for (int t = 1; t <= nthr; ++t) { uint32_t q = 1 + draw(OPS, 5); for (uint32_t u = 0; u < q; ++u) { sim::Span sp; Plan p; p.op = int(draw(OPS, 14)); p.i = int(draw(OPS, K)); p.j = int(draw(OPS, K)); p.v = int(draw(OPS, 60)); p.w = int(draw(OPS, 12)); p.nth = faults ? draw_nth() : 0; if (meet) { if (p.op < 7) p.op = 5, p.i = qi[subject]; else if (p.op < 12) p.op = 7, p.i = ci[subject]; } plan[t].push_back(p); } }
        sim::thr::run(nthr, body, this);
        sim::alloc::disarm(); sim::count(nthr > 1 ? "runs with several threads" : "runs with one thread");
        check(a, "a"); check(b, "b"); check(c, "c");
        { sim::alloc::Target t; a.reset(); b.reset(); c.reset(); th = bb::Threshold(bb::ThresholdSettings()); }
        size_t base = 0; (void)base;
        if (sim::alloc::live()) sim::fail("leak", "%zu blocks still allocated (sizes %s)", sim::alloc::live(), sim::alloc::describe_live());
    }
};
}
SIM_WORLD(conc_read, "conc/read") { static ConcWorld w; w.faults = false; w.go(); }
SIM_WORLD(conc_faults, "conc/faults") { static ConcWorld w; w.faults = true; w.go(); }

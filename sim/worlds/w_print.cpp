// World "print" (property C17): histories of prints of matrices of every kind onto streams that keep
// their state (short or full print, number format, errors) from one print to the next, whose buffers
// fail at any character or flush, with failing allocations and junk memory. What a stream that stays
// good shows is parsed and compared with the matrix, element by element; the matrix is unchanged.
#include "w_print.h"
#include <cctype>
#include <limits>
using namespace mdl;
using sim::draw; using sim::OPS; using sim::FAULTS;
namespace bb = BlasBooster;

namespace {
/// the device behind a stream: takes so many characters, then fails (or throws); may fail to flush
struct Device : std::streambuf {
    std::string text; size_t room = ~size_t(0); bool throws = false, badflush = false, struck = false; uint32_t bufsize = 0;
    void refuse() { struck = true; sim::alloc::Host h; sim::count(throws ? "fault:device_exception" : "fault:device_error"); if (throws) throw std::runtime_error("device"); }
    int_type overflow(int_type c) override { sim::alloc::Host h; if (traits_type::eq_int_type(c, traits_type::eof())) return 0; if (text.size() >= room) { refuse(); return traits_type::eof(); } text += char(c); return c; }
    std::streamsize xsputn(char const* s, std::streamsize n) override {
        sim::alloc::Host h; size_t k = std::min(size_t(n), room - std::min(room, text.size())); text.append(s, k); if (k < size_t(n)) { refuse(); } return std::streamsize(k); }
    int sync() override { if (badflush) { struck = true; sim::alloc::Host h; sim::count("fault:flush_error"); return -1; } return 0; }
};
struct Failed : std::exception {};

struct Parser {
    std::vector<std::string> lines;
    explicit Parser(std::string const& t) { std::string l; for (char c : t) if (c == '\n') { lines.push_back(l); l.clear(); } else l += c; if (!l.empty()) lines.push_back(l); }
    static std::vector<std::string> words(std::string const& l) { std::vector<std::string> r; std::string w; for (char c : l + " ") if (isspace((unsigned char)c)) { if (!w.empty()) r.push_back(w); w.clear(); } else w += c; return r; }
    static bool number(std::string const& w, double& v) { char* e; v = strtod(w.c_str(), &e); return *e == 0 && e != w.c_str(); }
};

struct PrintWorld {
    enum { NS = 2, NM = 6 };
    bool faults; struct Item { int kind = -1; Ref x; std::shared_ptr<DD> dd; std::shared_ptr<RD> rd; std::shared_ptr<DF> df; DynamicMatrix dyn; std::shared_ptr<Window> win; std::shared_ptr<bb::TypeMatrix> ints; std::shared_ptr<bb::DimensionMatrix> dims;
        std::shared_ptr<bb::BlockedDenseMatrix> blocked; std::vector<double> vec; size_t r0 = 0, c0 = 0, r = 0, c = 0; } it[NM];
    struct Str { Device d; std::unique_ptr<std::ostream> o; bool full = false; } st[NS];

    // --- matrices
    double value(uint64_t h) {
        switch (h % 16) { case 0: return 0.0; case 1: return -0.0; case 2: return std::numeric_limits<double>::infinity(); case 3: return -std::numeric_limits<double>::infinity();
        case 4: return std::nan(""); case 5: return double(int(h >> 8) % 1000); case 6: return 1e-310; case 7: return 9.99999999999e99; case 8: return -9.999999999996; default: return std::ldexp(1.0 + double(h >> 12) / 4503599627370496.0, int((h >> 4) % 200) - 100) * ((h >> 60) & 1 ? -1 : 1); }
    }
    size_t dim() { uint32_t k = draw(OPS, 14); return k < 12 ? 1 + draw(OPS, 6) : k == 12 ? 98 + draw(OPS, 6) : 1 + draw(OPS, 30); }
    void create(Item& t) {
        drop(t); int k = int(draw(OPS, 14)); Ref x; t.r = dim(); t.c = dim(); uint64_t s = draw(OPS, 1u << 20); uint32_t tame = draw(OPS, 3);
        x = Ref(t.r, t.c); Ref g = k >= 4 && k < 10 ? gen(t.r, t.c) : Ref();
        for (size_t i = 0; i < x.v.size(); ++i) { uint64_t h = sim::mix(s, i); x.v[i] = k >= 4 && k < 10 && g.v[i] == 0 ? 0.0 : tame ? double(int(h % 19)) - 9 : value(h); if (k >= 4 && k < 10 && (x.v[i] == 0 || std::isnan(x.v[i]))) x.v[i] = 0.0; }
        if (k == 2 || k == 5 || k == 8 || k == 9) for (double& v : x.v) v = double(float(v));
        if (k == 11) for (double& v : x.v) v = std::isfinite(v) ? double(int(std::fmod(v, 1e6))) : 7.0;
        if ((k == 10 || k == 13) && t.r * t.c > 2000) { t.r = std::min<size_t>(t.r, 40); t.c = std::min<size_t>(t.c, 40); Ref y(t.r, t.c); for (size_t j = 0; j < t.c; ++j) for (size_t i = 0; i < t.r; ++i) y.at(i, j) = x.at(i, j); x = y; }
        sim::alloc::Target tg;
        switch (k) {
        case 0: t.dd = Make<DD>::make(x); break;
        case 1: t.rd = Make<RD>::make(x); break;
        case 2: t.df = Make<DF>::make(x); break;
        case 3: { t.dd = Make<DD>::make(x); t.r0 = draw(OPS, uint32_t(t.r)); t.c0 = draw(OPS, uint32_t(t.c)); size_t r = 1 + draw(OPS, uint32_t(t.r - t.r0)), c = 1 + draw(OPS, uint32_t(t.c - t.c0)); t.win = std::make_shared<Window>(*t.dd, r, c, t.r0, t.c0); break; }
        case 4: t.dyn = Make<SD>::make(x); break;
        case 5: t.dyn = Make<SF>::make(x); break;
        case 6: { t.dyn = Make<ZZ>::make(x); x = Ref(x.r, x.c); break; }
        case 7: t.dyn = Make<DD>::make(x); break;
        case 8: t.dyn = Make<MSS>::make(x); break;
        case 9: t.dyn = Make<MSD>::make(x); break;
        case 10: { t.dims = std::make_shared<bb::DimensionMatrix>(t.r, t.c); for (size_t j = 0; j < t.c; ++j) for (size_t i = 0; i < t.r; ++i) (*t.dims)(i, j) = bb::Dim(size_t(std::abs(x.at(i, j)) < 1e9 ? std::abs(x.at(i, j)) : 5), i + j); break; }
        case 11: { t.ints = std::make_shared<bb::TypeMatrix>(t.r, t.c); for (size_t j = 0; j < t.c; ++j) for (size_t i = 0; i < t.r; ++i) (*t.ints)(i, j) = int(x.at(i, j)); break; }
        case 12: break; // no matrix
        default: { t.blocked = std::make_shared<bb::BlockedDenseMatrix>(1 + draw(OPS, 2), 1 + draw(OPS, 2)); for (size_t j = 0; j < t.blocked->getNbColumns(); ++j) for (size_t i = 0; i < t.blocked->getNbRows(); ++i) {
            sim::alloc::Host h; Ref y = gen(1 + s % 3, 1 + s % 4); sim::alloc::Target g; switch (draw(OPS, 4)) { case 0: (*t.blocked)(i, j) = Make<DD>::make(y); break; case 1: (*t.blocked)(i, j) = Make<SD>::make(y); break; case 2: (*t.blocked)(i, j) = Make<ZZ>::make(y); break; default: (*t.blocked)(i, j) = Make<MSD>::make(y); } } }
        }
        sim::alloc::Host h; t.kind = k; t.x = x; sim::count("create");
    }
    void drop(Item& t) { sim::alloc::Target g; t.win.reset(); t.dd.reset(); t.rd.reset(); t.df.reset(); t.dyn.reset(); t.ints.reset(); t.dims.reset(); t.blocked.reset(); t.kind = -1; }
    static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
    static void same(Ref const& a, Ref const& b, char const* w) {
        if (a.r != b.r || a.c != b.c) sim::fail("changed", "printing changed a matrix (%s) from %zux%zu to %zux%zu", w, b.r, b.c, a.r, a.c);
        for (size_t i = 0; i < a.v.size(); ++i) if (!same(a.v[i], b.v[i]) && !(a.v[i] == 0 && b.v[i] == 0)) sim::fail("changed", "printing changed element %zu of a matrix (%s) from %.17g to %.17g", i, w, b.v[i], a.v[i]);
    }
    void unchanged(Item const& t) {
        switch (t.kind) { case 0: case 3: same(read(*t.dd, "dense"), t.x, "dense"); break; case 1: same(read(*t.rd, "row-major"), t.x, "row-major"); break; case 2: same(read(*t.df, "float"), t.x, "float"); break;
        case 4: case 5: case 6: case 7: case 8: case 9: same(read(t.dyn, "dynamic"), t.x, "dynamic"); break; case 11: for (size_t j = 0; j < t.c; ++j) for (size_t i = 0; i < t.r; ++i) if ((*t.ints)(i, j) != int(t.x.at(i, j))) sim::fail("changed", "printing changed an integer matrix"); }
    }
    // --- what has to be shown
    struct Fmt { std::ios_base::fmtflags f; std::streamsize p; bool full; };
    static bool shows(std::string const& w, double v, Fmt const& f, bool integer = false) {
        double p; if (!Parser::number(w, p)) return false;
        if (std::isnan(v)) return std::isnan(p);
        if (!std::isfinite(v)) return p == v;
        if (integer) return p == v;
        auto ff = f.f & std::ios_base::floatfield; double d = double(f.p);
        if (ff == std::ios_base::fixed) return std::abs(p - v) <= 0.501 * std::pow(10, -d) + std::abs(v) * 1e-15;
        if (ff == std::ios_base::scientific) return std::abs(p - v) <= std::abs(v) * 0.501 * std::pow(10, -d) + 1e-319;
        return std::abs(p - v) <= std::abs(v) * 5.01 * std::pow(10, -std::max(1.0, d)) + 1e-319;
    }
    template <class F> static void fail(char const*, F) {}
    static void bad(char const* what, std::string const& t) { std::string u = t.substr(0, 600); sim::fail("wrong-text", "%s; shown: %s", what, u.c_str()); }
    /// a dense matrix from line l on; returns the line after it
    static size_t dense(Parser const& p, size_t l, size_t r, size_t c, Fmt f, std::string const& all, std::string const& name, std::function<bool(std::string const&, size_t, size_t)> elem) {
        if (r > 100 || c > 100) { if (l >= p.lines.size() || p.lines[l].find("too large") == std::string::npos) bad("no notice that the matrix is too large", all); return l + 1; }
        if (f.full) {
            if (l + 1 >= p.lines.size() || p.lines[l].find(name) == std::string::npos) bad("full print without the name of the matrix", all);
            auto w = Parser::words(p.lines[l + 1]); std::vector<double> n; double v; for (auto& x : w) if (Parser::number(x, v)) n.push_back(v);
            if (n.size() != 2 || n[0] != double(r) || n[1] != double(c)) bad("full print without the dimensions of the matrix", all);
            l += 2;
        }
        for (size_t i = 0; i < r; ) {
            if (l >= p.lines.size()) bad("rows are missing", all);
            auto w = Parser::words(p.lines[l++]); if (w.empty() && i == 0) continue;
            if (w.size() != c) { char b[100]; snprintf(b, sizeof b, "row %zu of %zu shows %zu elements of %zu", i, r, w.size(), c); bad(b, all); }
            for (size_t j = 0; j < c; ++j) if (!elem(w[j], i, j)) { char b[120]; snprintf(b, sizeof b, "element (%zu,%zu) is shown as '%.40s'", i, j, w[j].c_str()); bad(b, all); }
            ++i;
        }
        while (l < p.lines.size() && Parser::words(p.lines[l]).empty()) ++l;
        return l;
    }
    template <class M> static std::string sparse(std::string const& t, M const& m, Fmt f, std::string const& all) {
        size_t r = m.getNbRows(), c = m.getNbColumns();
        if (r * c > 100) { size_t e = t.find('\n'); if (t.find("too large") == std::string::npos || e == std::string::npos || t.find("too large") > e) bad("no notice that the sparse matrix is too large", all); return t.substr(e + 1); }
        // ends with the offsets: c + 1 numbers after the last label
        size_t a = t.find("Value array ="), b = t.find("Key array ="), d = t.find("Offset array =");
        if (a == std::string::npos || b == std::string::npos || d == std::string::npos || !(a < b && b < d)) bad("a sparse matrix without its arrays", all);
        std::string head = t.substr(0, a), va = t.substr(a + 13, b - a - 13), ka = t.substr(b + 11, d - b - 11), rest = t.substr(d + 14);
        if (head.find(M::name()) == std::string::npos) bad("a sparse matrix without its name", all);
        auto w = Parser::words(head); std::vector<double> n; double v; for (auto& x : w) if (Parser::number(x, v)) n.push_back(v);
        if (n.size() != 3 || n[0] != double(r * c) || n[1] != double(r) || n[2] != double(c)) bad("a sparse matrix without its size and dimensions", all);
        auto vs = Parser::words(va), ks = Parser::words(ka); size_t i = 0;
        if (vs.size() != m.nnz() || ks.size() != m.nnz()) bad("a sparse matrix with another number of elements", all);
        for (auto q = m.begin(); q != m.end(); ++q, ++i) if (!shows(vs[i], *q, f)) bad("a sparse matrix with another value", all);
        i = 0; for (auto q = m.beginKey(); q != m.endKey(); ++q, ++i) if (!shows(ks[i], double(*q), f, true)) bad("a sparse matrix with another row index", all);
        size_t pos = 0; for (auto q = m.beginOffset(); q != m.endOffset(); ++q) {
            while (pos < rest.size() && isspace((unsigned char)rest[pos])) ++pos; size_t e = pos; while (e < rest.size() && isdigit((unsigned char)rest[e])) ++e;
            if (e == pos || !shows(rest.substr(pos, e - pos), double(*q), f, true)) bad("a sparse matrix with another offset", all); pos = e; }
        while (pos < rest.size() && isspace((unsigned char)rest[pos])) ++pos; // padding before what follows
        return rest.substr(pos);
    }
    static void nothing_more(std::string const& t, std::string const& all) { for (char c : t) if (!isspace((unsigned char)c)) bad("more text than the matrix has", all); }
    static void dyn_text(DynamicMatrix const& m, Ref const& x, Fmt f, std::string const& all) {
        size_t t = m->getTypeIndex();
        auto de = [&](std::string const& rest, Ref const& y, std::string const& name) { Parser p(rest); Fmt g{std::ios_base::scientific, 10, f.full}; size_t l = dense(p, 0, y.r, y.c, g, all, name, [&](std::string const& w, size_t i, size_t j) { return shows(w, y.at(i, j), g); }); for (; l < p.lines.size(); ++l) nothing_more(p.lines[l], all); };
        if (t == DD::typeIndex_) de(all, x, DD::name());
        else if (t == DF::typeIndex_) de(all, x, DF::name());
        else if (t == SD::typeIndex_) nothing_more(sparse(all, *dynamic_cast<SD const*>(m.get()), f, all), all);
        else if (t == SF::typeIndex_) nothing_more(sparse(all, *dynamic_cast<SF const*>(m.get()), f, all), all);
        else if (t == MSS::typeIndex_) { auto& q = *dynamic_cast<MSS const*>(m.get()); nothing_more(sparse(sparse(all, q.getMatrix1(), f, all), q.getMatrix2(), f, all), all); }
        else if (t == MSD::typeIndex_) { auto& q = *dynamic_cast<MSD const*>(m.get()); de(sparse(all, q.getMatrix1(), f, all), read(q.getMatrix2(), "second part"), DF::name()); }
        else if (t == ZZ::typeIndex_) { auto w = Parser::words(all); std::vector<double> n; double v; for (auto& s : w) if (Parser::number(s, v)) n.push_back(v);
            if (all.find(ZZ::name()) == std::string::npos || n.size() != 3 || n[0] != double(x.r * x.c) || n[1] != double(x.r) || n[2] != double(x.c)) bad("a zero matrix without its name, size and dimensions", all); }
    }
    void verify(Item const& t, std::string const& text, Fmt f) {
        Fmt g{std::ios_base::scientific, 10, f.full}; Parser p(text); size_t l = 0;
        auto el = [&](std::string const& w, size_t i, size_t j) { return shows(w, t.x.at(i, j), g); };
        switch (t.kind) {
        case 0: l = dense(p, 0, t.x.r, t.x.c, g, text, DD::name(), el); break;
        case 1: l = dense(p, 0, t.x.r, t.x.c, g, text, RD::name(), el); break;
        case 2: l = dense(p, 0, t.x.r, t.x.c, g, text, DF::name(), el); break;
        case 3: l = dense(p, 0, t.win->getNbRows(), t.win->getNbColumns(), g, text, Window::name(), [&](std::string const& w, size_t i, size_t j) { return shows(w, t.x.at(i + t.r0, j + t.c0), g); }); break;
        case 10: { if (t.r > 100 || t.c > 100) { dense(p, 0, t.r, t.c, g, text, bb::DimensionMatrix::name(), nullptr); return; }
            std::string all, got = squeeze(text); for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) all += std::to_string((*t.dims)(i, j).first) + "x" + std::to_string((*t.dims)(i, j).second);
            std::string head = f.full ? squeeze(bb::DimensionMatrix::name()) : ""; if (got.size() < all.size() + head.size() || got.compare(0, head.size(), head) || got.compare(got.size() - all.size(), all.size(), all) || (!f.full && got != all)) bad("other dimensions", text);
            return; }
        case 11: l = dense(p, 0, t.r, t.c, g, text, bb::TypeMatrix::name(), [&](std::string const& w, size_t i, size_t j) { return w == std::to_string(int(t.x.at(i, j))); }); break;
        case 12: if (text.find("No ") == std::string::npos || p.lines.size() != 1) bad("no notice that there is no matrix", text); return;
        case 13: return; // see blocks()
        default: dyn_text(t.dyn, t.x, f, text); return;
        }
        for (; l < p.lines.size(); ++l) nothing_more(p.lines[l], text);
    }
    static std::string squeeze(std::string const& t) { std::string r; for (char c : t) if (!isspace((unsigned char)c)) r += c; return r; }
    static void show(std::ostream& o, Item const& t, bool elsewhere) {
        switch (t.kind) { case 0: if (elsewhere) other::print(o, *t.dd); else o << *t.dd; break; case 1: other::print(o, *t.rd); break; case 2: o << *t.df; break; case 3: o << *t.win; break;
        case 10: o << *t.dims; break; case 11: other::print(o, *t.ints); break; case 13: o << *t.blocked; break; default: o << t.dyn; }
    }
    void print(Item& t, Str& s, bool elsewhere) {
        if (t.kind < 0) create(t);
        bool was_good = s.o->good(); bool thrown = false, nomem = false; Fmt f{s.o->flags(), s.o->precision(), s.full}; size_t from = s.d.text.size();
        // the same print onto a device that works, for comparison
        Device ideal; { std::ostream q(&ideal); { sim::alloc::Host h; q.copyfmt(*s.o); q.exceptions(std::ios_base::goodbit); } sim::alloc::Target g; show(q, t, elsewhere); sim::alloc::Host h; if (!q.good()) sim::fail("reports-failure", "printing onto a working device leaves the stream failed"); }
        verify(t, ideal.text, f);
        if (t.kind == 13) { // a blocked matrix shows its blocks, row by row
            std::string all; for (size_t i = 0; i < t.blocked->getNbRows(); ++i) for (size_t j = 0; j < t.blocked->getNbColumns(); ++j) { Device d; std::ostream q(&d); q << std::scientific; q.precision(10); { sim::alloc::Target g; q << (*t.blocked)(i, j); } all += d.text; }
            std::string got = squeeze(ideal.text); if (f.full) { size_t k = got.find(squeeze(bb::BlockedDenseMatrix::name())); if (k != 0) bad("full print without the name of the blocked matrix", ideal.text); sim::count("probe:blocked_full"); }
            else if (got != squeeze(all)) bad("a blocked matrix shows other text than its blocks", ideal.text); }
        uint32_t nth = 0; 
        if (faults && draw(FAULTS, 2)) switch (draw(FAULTS, 4)) { case 0: s.d.room = s.d.text.size() + draw(FAULTS, uint32_t(ideal.text.size() + 2)); break; case 1: s.d.room = s.d.text.size() + draw(FAULTS, uint32_t(ideal.text.size() + 2)); s.d.throws = true; break; case 2: s.d.badflush = true; break; default: nth = draw_nth(); }
        s.d.struck = false; sim::alloc::arm(nth);
        try { sim::alloc::Target g; show(*s.o, t, elsewhere); }
        catch (std::bad_alloc const&) { nomem = true; }
        catch (std::ios_base::failure const&) { thrown = true; }
        catch (std::runtime_error const& e) { thrown = true; }
        bool noalloc = sim::alloc::disarm();
        std::string got = s.d.text.substr(from);
        if (nomem && !noalloc) sim::fail("unexpected-exception", "printing throws bad_alloc although no allocation failed");
        if (nomem) sim::count("probe:operation_failed_on_allocation");
        if (thrown && was_good && !s.d.struck && !(noalloc && s.o->bad())) sim::fail("unexpected-exception", "printing throws although the device works");
        if (thrown && s.o->exceptions() == std::ios_base::goodbit && !s.d.throws && !noalloc) sim::fail("unexpected-exception", "printing throws although the stream does not ask for exceptions");
        if (s.d.struck && !thrown && !nomem && s.o->good()) sim::fail("unreported-failure", "the device refused text, but the stream is good after the print");
        if (!was_good && !got.empty()) sim::fail("wrong-text", "a failed stream shows text");
        bool complete = was_good && !thrown && !nomem && s.o->good();
        if (complete && got != ideal.text) { sim::ev("got %s", got.substr(0, 300).c_str()); bad(noalloc ? "an allocation failed; the stream is good, but shows other text" : "the same matrix shows other text", got); }
        if (!complete && ideal.text.compare(0, got.size(), got)) bad("a print that failed shows other text than the beginning of the matrix", got);
        sim::ev("print kind %d %zux%zu%s: %zu of %zu characters%s%s", t.kind, t.r, t.c, f.full ? " full" : "", got.size(), ideal.text.size(), thrown ? " thrown" : "", nomem ? " no memory" : "");
        sim::count("print"); if (complete) sim::count("probe:complete_print"); else sim::count("probe:failed_print");
        sim::state(sim::mix(sim::hash_bytes(ideal.text.data(), ideal.text.size()), got.size()));
        s.d.room = ~size_t(0); s.d.throws = s.d.badflush = false;
        unchanged(t);
        if (s.d.text.size() > 200000) { s.d.text.clear(); s.d.text.shrink_to_fit(); }
    }
    void step() {
        uint32_t k = draw(OPS, 16); Str& s = st[draw(OPS, NS)]; Item& t = it[draw(OPS, NM)]; if (!s.o->good() && draw(OPS, 3)) s.o->clear();
        switch (k) {
        case 0: create(t); break;
        case 1: if (s.o->good()) { sim::alloc::Target g; bool e = draw(OPS, 2); if (e) other::full(*s.o); else *s.o << bb::fullprint; s.full = true; sim::count("fullprint"); } break;
        case 2: if (s.o->good()) { sim::alloc::Target g; bool e = draw(OPS, 2); if (e) other::brief(*s.o); else *s.o << bb::shortprint; s.full = false; } break;
        case 3: switch (draw(OPS, 6)) { case 0: *s.o << std::fixed; break; case 1: *s.o << std::scientific; break; case 2: s.o->unsetf(std::ios_base::floatfield); break; case 3: *s.o << std::left; break; case 4: *s.o << std::right; break; default: s.o->precision(1 + draw(OPS, 17)); } break;
        case 4: s.o->clear(); sim::count("clear"); break;
        case 5: { bool on = draw(OPS, 2); if (s.o->good()) s.o->exceptions(on ? std::ios_base::badbit : std::ios_base::goodbit); break; }
        case 6: { Str& q = st[draw(OPS, NS)]; if (&q != &s) { auto e = s.o->exceptions(); try { s.o->exceptions(std::ios_base::goodbit); s.o->copyfmt(*q.o); } catch (...) {} s.o->exceptions(std::ios_base::goodbit); (void)e; s.full = q.full; } break; }
        case 7: { // a vector
            std::vector<double> v; uint32_t n = draw(OPS, 8); uint64_t sd = draw(OPS, 1000); if (!s.o->good()) break; for (uint32_t i = 0; i < n; ++i) v.push_back(value(sim::mix(sd, i))); Fmt f{s.o->flags(), s.o->precision(), s.full}; size_t from = s.d.text.size(); bool good = s.o->good();
            { sim::alloc::Target g; bb::operator<<(*s.o, v); } std::string got = s.d.text.substr(from); if (!good) break; Parser p(got); auto w = Parser::words(got);
            if (p.lines.size() != n + 1 || Parser::words(p.lines[0]).back() != std::to_string(n)) bad("a vector shows other elements", got);
            for (uint32_t i = 0; i < n; ++i) if (!shows(p.lines[i + 1], v[i], f)) bad("a vector shows another element", got); sim::count("print vector"); break; }
        default: print(t, s, draw(OPS, 2));
        }
    }
    void go() {
        draw_junk(); for (auto& s : st) s.o.reset(new std::ostream(&s.d));
        uint32_t n = 2 + draw(OPS, 14);
        for (uint32_t i = 0; i < n; ++i) { sim::Span sp; sim::steps(1); step(); }
        for (auto& t : it) drop(t);
        if (sim::alloc::live()) sim::fail("leak", "%zu blocks still allocated (sizes %s)", sim::alloc::live(), sim::alloc::describe_live());
    }
};
}
SIM_WORLD(print_text, "print/text") { static PrintWorld w; w.faults = false; w.go(); }
SIM_WORLD(print_faults, "print/faults") { static PrintWorld w; w.faults = true; w.go(); }
SIM_WARMUP(warm) { sim::alloc::Target t; std::ostringstream o; o << 1.5 << 3 << std::scientific << 2.5; try { throw std::runtime_error("x"); } catch (std::exception&) {} try { throw std::ios_base::failure("x"); } catch (std::exception&) {} }

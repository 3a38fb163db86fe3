// World "file" (properties C09-C12): matrix files, imports, archives and pattern images over a
// simulated file system: short and interrupted transfers, failing opens, reads, writes, seeks and
// closes, full disks, crashes at any point of a write, other processes acting in between, and
// failing allocations. The files' contents are known to the model.
#include "w_filelib.h"
#include "BlasBooster/Core/MatrixFileIO.h"
#include "BlasBooster/Core/PatternGenerator.h"
#include "BlasBooster/MatrixFactory/MatrixFileImporter.h"
#include "BlasBooster/Utilities/BoostSerializePath.h"
#include "BlasBooster/Utilities/FileIO.h"
#include <boost/serialization/vector.hpp>
#include <boost/serialization/map.hpp>
#include <cstdlib>
#include <map>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mdl;

namespace {
// ---- C09: matrix files described by a descriptor -----------------------------------------
typedef bb::Matrix<Dense,float,bb::Parameter<size_t,bb::RowMajor>> RF;

struct LoadWorld {
    bool faults;
    struct Spec { size_t r, c, ldr, ldc, ro, co; };
    std::string descriptor(Spec const& s, char const* file) {
        std::ostringstream o; std::string tag[] = {"nbRows", "nbColumns", "rowLeadingDimension", "columnLeadingDimension", "rowOffset", "columnOffset"};
        size_t v[] = {s.r, s.c, s.ldr, s.ldc, s.ro, s.co};
        uint32_t rot = draw(OPS, 6);
        for (int i = 0; i < 6; ++i) { int k = int(i + rot) % 6; o << "<" << tag[k] << ">" << v[k] << "</" << tag[k] << ">" << (draw(OPS, 2) ? "\n" : " "); }
        o << "<filename>" << file << "</filename>"; return o.str();
    }
    template <class M, class T> void step() {
        sim::Span sp;
        Spec s; shape(s.r, s.c, 60, 3000); s.ldr = s.r; s.ldc = s.c; s.ro = s.co = 0;
        if (draw(OPS, 2)) { s.ro = draw(OPS, 4); s.ldr += s.ro + draw(OPS, 3); }
        if (draw(OPS, 2)) { s.co = draw(OPS, 4); s.ldc += s.co + draw(OPS, 3); }
        Ref file = any(gen(s.ldr, s.ldc, 1000), sizeof(T) == 4);
        std::string data(file.v.size() * sizeof(T), 0); for (size_t i = 0; i < file.v.size(); ++i) { T x = T(file.v[i]); memcpy(&data[i * sizeof(T)], &x, sizeof(T)); }
        Ref want(s.r, s.c); for (size_t j = 0; j < s.c; ++j) for (size_t i = 0; i < s.r; ++i) want.at(i, j) = file.at(i + s.ro, j + s.co);
        size_t need = ((s.co + s.c - 1) * s.ldr + s.ro + s.r) * sizeof(T); // the file's bytes up to the last element
        std::string desc = descriptor(s, "data.bin"); bool good = true; char const* damage = "none";
        if (draw(OPS, 6) == 5) data += std::string(1 + draw(OPS, 20), 'x'); // more data than described is no error
        bool nodata = false, nodesc = false;
        if (faults) switch (draw(FAULTS, 12)) {
        case 7: damage = "truncated data"; data.resize(draw(FAULTS, uint32_t(data.size()) + 1)); good = data.size() >= need; sim::count("fault:truncated_file"); break;
        case 8: damage = "data missing"; nodata = true; good = false; sim::count("fault:missing_file"); break;
        case 9: damage = "descriptor missing"; nodesc = true; good = false; sim::count("fault:missing_file"); break;
        case 10: { damage = "contradicting dimensions"; good = false; sim::count("fault:contradicting_descriptor"); Spec b = s; static const size_t huge[] = {1, 2, size_t(1) << 31, size_t(1) << 62, size_t(1) << 63, ~size_t(0)};
            size_t h = huge[draw(FAULTS, 6)];
            switch (draw(FAULTS, 7)) {
            case 6: { uint32_t e = 20 + draw(FAULTS, 24); b.ldr = size_t(1) << e; b.co = (size_t(1) << 63) / sizeof(T) * 2 >> e; b.ldc = b.co + s.c + draw(FAULTS, 3); b.c = 1; break; } // the position in the file overflows
            case 0: b.r = ~h ? s.ldr - s.ro + h : h; break; // the sum with the offset overflows
            case 1: b.c = ~h ? s.ldc - s.co + h : h; break;
            case 2: b.ro = ~h ? s.ldr - s.r + h : h; break;
            case 3: b.co = ~h ? s.ldc - s.c + h : h; break;
            case 4: if (h < 3 || !~h) h = size_t(1) << 62; b.r += h; b.ldr += h; break;              // larger than any file
            default: b.r += size_t(1) << 32; b.ldr += size_t(1) << 32; b.c += size_t(1) << 32; b.ldc += size_t(1) << 32; break; // the product overflows
            }
            desc = descriptor(b, "data.bin"); break; }
        case 11: damage = "descriptor cut"; good = false; sim::count("fault:truncated_file"); desc.resize(desc.size() - 1 - draw(FAULTS, 27)); break;
        }
        bool vast = draw(OPS, 60) == 59 && !strcmp(damage, "none");
        if (vast) { // a window far inside a data file of several gigabytes, which consists of holes elsewhere
            s.ldr = (size_t(1) << 16) + draw(OPS, 5); s.ro = draw(OPS, 1000); s.co = (size_t(1) << (31 + draw(OPS, 3))) / (s.ldr * sizeof(T)) + draw(OPS, 3); s.ldc = s.co + s.c + draw(OPS, 3); desc = descriptor(s, "data.bin"); sim::count("vast files");
        }
        unlink("data.bin"); unlink("desc.xml");
        if (vast) { int fd = open("data.bin", O_RDWR | O_CREAT, 0600); bool w = fd >= 0 && !ftruncate(fd, off_t(s.ldr * s.ldc * sizeof(T)));
            for (size_t j = 0; w && j < s.c; ++j) for (size_t i = 0; w && i < s.r; ++i) { T x = T(want.at(i, j)); w = pwrite(fd, &x, sizeof x, off_t(((s.co + j) * s.ldr + s.ro + i) * sizeof(T))) == ssize_t(sizeof x); }
            if (fd >= 0) close(fd); if (!w) sim::fail("harness", "cannot write a vast file"); nodata = true; }
        if (!nodata) spit("data.bin", data); if (!nodesc) spit("desc.xml", desc);
        draw_junk();
        bool member = draw(OPS, 2); size_t or_ = 1 + draw(OPS, 4), oc = 1 + draw(OPS, 4);
        size_t handles = io::handles();
        for (int round = 0; round < 2; ++round) {
            alignas(M) unsigned char buf[sizeof(M)]; M* m = nullptr; std::string why;
            if (member) { sim::alloc::Target t; m = new (buf) M(or_, oc, bb::AllFiller<T>(T(77))); }
            plant(faults && round == 0, false);
            bool ok = attempt([&] {
                if (member) { std::ifstream is("desc.xml"); is >> *m; }
                else m = new (buf) M(filesystem::path("desc.xml"));
            }, why);
            uint64_t ops = io::ops(); bool struck = heal();
            sim::ev("load %zux%zu of %zux%zu %s %s: %s", s.r, s.c, s.ldr, s.ldc, damage, member ? "stream" : "path", ok ? "ok" : "error");
            if (ok) {
                if (!good) sim::fail("invented-elements", "%zux%zu at (%zu,%zu) of %zux%zu, %s: loading reports no error%s", s.r, s.c, s.ro, s.co, s.ldr, s.ldc, damage, struck ? " (and a fault struck)" : "");
                Ref got = read(*m, "loaded matrix");
                if (got != want) sim::fail("wrong-elements", "%zux%zu at (%zu,%zu) of %zux%zu (%s%s): loaded %s, stored %s", s.r, s.c, s.ro, s.co, s.ldr, s.ldc, damage, struck ? ", a fault struck" : "", got.str().c_str(), want.str().c_str());
                sim::count("matrices_loaded");
            } else {
                if (good && !struck) sim::fail("unexpected-error", "%zux%zu at (%zu,%zu) of %zux%zu: loading fails although nothing is wrong: %s", s.r, s.c, s.ro, s.co, s.ldr, s.ldc, why.c_str());
                sim::count("probe:load_refused");
                if (member) check_shape(*m, "target of a failed load");
            }
            if (m && (ok || member)) { sim::alloc::Target t; m->~M(); }
            if (io::handles() != handles) sim::fail("handle-leak", "%zu files stay open after loading (%s)", io::handles() - handles, ok ? "success" : why.c_str());
            sim::state(sim::mix(ok + 2 * struck + 4 * good, sim::mix(ops, sizeof(T))));
            if (ok || !good) break;
            sim::count("probe:retry_after_failure"); // the fault is gone: the same load has to work
        }
        sim::steps(1);
    }
    void run() {
        Dir d; size_t live = sim::alloc::live(); uint32_t n = 1 + draw(OPS, 4);
        for (uint32_t i = 0; i < n; ++i) switch (draw(OPS, 4)) {
        case 0: step<DD, double>(); break; case 1: step<DF, float>(); break;
        case 2: step<RD, double>(); break; default: step<RF, float>(); break;
        }
        if (sim::alloc::live() != live) sim::fail("memory-leak", "%zu blocks stay allocated after loading matrices: %s", sim::alloc::live() - live, sim::alloc::describe_live());
    }
};
SIM_WORLD(load_values, "file/load") { LoadWorld w; w.faults = false; w.run(); }
SIM_WORLD(load_faults, "file/load-faults") { LoadWorld w; w.faults = true; w.run(); }

// ---- C10: imports -----------------------------------------------------------------------
struct Act { std::string data; uint32_t how; };
void disturb(void* p) { Act* a = static_cast<Act*>(p); if (a->how == 0) { if (truncate("data.bin", off_t(draw(FAULTS, uint32_t(a->data.size()) + 1)))) {} } else if (a->how == 1) unlink("data.bin"); else unlink("matrix.txt"); }

struct ImportWorld {
    bool faults;
    void step() {
        sim::Span sp; size_t r, c; shape(r, c, 60, 3000); Ref want = any(gen(r, c, 1000), false);
        std::string full(reinterpret_cast<char const*>(want.v.data()), want.v.size() * sizeof(double)), data = full;
        static char const* sep[] = {" ", "\n", "  \t"};
        std::string head = std::to_string(r) + sep[draw(OPS, 3)] + std::to_string(c) + sep[draw(OPS, 3)] + "data.bin";
        std::string goodhead = head; if (draw(OPS, 2)) head += "\n";
        if (draw(OPS, 6) == 5) data += std::string(1 + draw(OPS, 20), 'x');
        bool good = true, nohead = false, nodata = false; char const* damage = "none";
        if (faults) switch (draw(FAULTS, 12)) {
        case 7: damage = "truncated data"; data.resize(draw(FAULTS, uint32_t(data.size()) + 1)); good = data.size() >= full.size(); sim::count("fault:truncated_file"); break;
        case 8: damage = "data missing"; nodata = true; good = false; sim::count("fault:missing_file"); break;
        case 9: damage = "header missing"; nohead = true; good = false; sim::count("fault:missing_file"); break;
        case 10: damage = "header cut"; head = goodhead; head.resize(draw(FAULTS, uint32_t(head.size()))); good = false; sim::count("fault:truncated_file"); break;
        case 11: { damage = "impossible dimensions"; good = false; sim::count("fault:contradicting_descriptor");
            static char const* bad[] = {"4294967296 4294967296", "9223372036854775808 2", "2305843009213693953 8", "18446744073709551615 1", "99999999999999999999999 1", "x 2", "2 x", "1 1e", "-1 1", "1073741824 1073741824", "2 9223372036854775808", "8 2305843009213693953", "1 18446744073709551615", "3 6148914691236517206"};
            head = std::string(bad[draw(FAULTS, 14)]) + " data.bin"; break; }
        }
        unlink("data.bin"); unlink("matrix.txt"); if (!nodata) spit("data.bin", data); if (!nohead) spit("matrix.txt", head);
        draw_junk(); size_t handles = io::handles();
        for (int round = 0; round < 2; ++round) {
            typedef bb::MatrixFileImporter Imp; alignas(Imp) unsigned char fb[sizeof(Imp)]; Imp* f = nullptr; std::string why; bool failed = false;
            plant(faults && round == 0, false);
            Act act{data, 0}; bool disturbed = false;
            if (faults && round == 0 && draw(FAULTS, 6) == 5) { act.how = draw(FAULTS, 3); disturbed = true; io::foreign(1 + draw(FAULTS, 12), &disturb, &act); }
            bool opened = attempt([&] { f = new (fb) Imp("matrix.txt"); }, why);
            if (!opened) failed = true;
            bool struck = false;
            if (opened) {
                if ((f->getNbRows() != r || f->getNbColumns() != c) && good) sim::fail("wrong-shape", "%zux%zu announced, the file says %zux%zu", f->getNbRows(), f->getNbColumns(), r, c);
                uint32_t times = 1 + draw(OPS, 2);
                for (uint32_t t = 0; t < times; ++t) {
                    alignas(DD) unsigned char b[sizeof(DD)]; DD* m = nullptr;
                    bool ok = attempt([&] { bb::MatrixFactory const& mf = *f; m = new (b) DD(mf()); }, why);
                    sim::ev("import %zux%zu %s: %s", r, c, damage, ok ? "ok" : "error");
                    if (ok) {
                        if (!good) sim::fail("invented-elements", "%zux%zu, %s: import reports no error", r, c, damage);
                        Ref got = read(*m, "imported matrix"); if (got != want) sim::fail("wrong-elements", "%zux%zu (%s): imported %s, written %s", r, c, damage, got.str().c_str(), want.str().c_str());
                        sim::count("matrices_imported"); sim::alloc::Target tt; m->~DD();
                    } else failed = true;
                }
                sim::alloc::Target tt; f->~Imp();
            }
            struck = heal();
            if (failed) { sim::count("probe:load_refused"); if (good && !struck && !disturbed) sim::fail("unexpected-error", "%zux%zu: import fails although nothing is wrong: %s", r, c, why.c_str()); }
            if (io::handles() != handles) sim::fail("handle-leak", "%zu files stay open after an import", io::handles() - handles);
            sim::state(sim::mix(failed + 2 * struck + 4 * good + 8 * disturbed, r * 64 + c));
            if (!failed || !good) break;
            if (disturbed) { spit("data.bin", data); spit("matrix.txt", head); }
            sim::count("probe:retry_after_failure");
        }
        sim::steps(1);
    }
    void run() {
        Dir d; size_t live = sim::alloc::live(); uint32_t n = 1 + draw(OPS, 4);
        for (uint32_t i = 0; i < n; ++i) step();
        if (sim::alloc::live() != live) sim::fail("memory-leak", "%zu blocks stay allocated after imports: %s", sim::alloc::live() - live, sim::alloc::describe_live());
    }
};
SIM_WORLD(import_values, "file/import") { ImportWorld w; w.faults = false; w.run(); }
SIM_WORLD(import_faults, "file/import-faults") { ImportWorld w; w.faults = true; w.run(); }

// ---- C11: archives -------------------------------------------------------------------------
struct Sub { int k = 0; std::string s; template <class A> void serialize(A& a, unsigned) { a & BOOST_SERIALIZATION_NVP(k); a & BOOST_SERIALIZATION_NVP(s); } bool operator==(Sub const& o) const { return k == o.k && s == o.s; } };
struct Rec {
    int a = 0; unsigned long b = 0; double d = 0; float f = 0; bool flag = false; std::string name; std::vector<double> v; std::vector<Sub> subs; boost::filesystem::path path; std::map<std::string, int> m;
    template <class A> void serialize(A& r, unsigned) {
        r & BOOST_SERIALIZATION_NVP(a); r & BOOST_SERIALIZATION_NVP(b); r & BOOST_SERIALIZATION_NVP(d); r & BOOST_SERIALIZATION_NVP(f); r & BOOST_SERIALIZATION_NVP(flag);
        r & BOOST_SERIALIZATION_NVP(name); r & BOOST_SERIALIZATION_NVP(v); r & BOOST_SERIALIZATION_NVP(subs); r & BOOST_SERIALIZATION_NVP(path); r & BOOST_SERIALIZATION_NVP(m);
    }
    bool operator==(Rec const& o) const { return a == o.a && b == o.b && d == o.d && f == o.f && flag == o.flag && name == o.name && v == o.v && subs == o.subs && path == o.path && m == o.m; }
    std::string str() const { std::ostringstream s; s.precision(17); s << "{" << a << "," << b << "," << d << "," << f << "," << flag << ",'" << name << "',[" << v.size() << "],[" << subs.size() << "]," << path.string() << ",{" << m.size() << "}}"; return s.str(); }
};
std::string text() { static const char cs[] = "abcXYZ019 <>&\"'/=._-;:#%+*()[]{}\\!?@"; uint32_t n = draw(OPS, 12); std::string s; for (uint32_t i = 0; i < n; ++i) s += cs[draw(OPS, sizeof cs - 1)]; return s; }
double real() {
    switch (draw(OPS, 6)) { case 0: return 0; case 1: return double(int(draw(OPS, 2001)) - 1000); case 2: return 0.1; case 3: return 1.0 / 3.0; case 4: return -2.5e-300;
    default: { double x = double(1 + draw(OPS, 1u << 30)) / double(1 + draw(OPS, 1u << 30)); return draw(OPS, 2) ? x : -x; } }
}
Rec record() {
    Rec r; r.a = int(draw(OPS, 2001)) - 1000; r.b = draw(OPS, 8) == 7 ? ~0ul : draw(OPS, 100000); r.d = real(); r.f = float(real()); r.flag = draw(OPS, 2); r.name = text();
    uint32_t n = draw(OPS, 10) == 9 ? 1500 : draw(OPS, 5); double x = real(); for (uint32_t i = 0; i < n; ++i) r.v.push_back(i < 4 ? real() : x * i);
    n = draw(OPS, 3); for (uint32_t i = 0; i < n; ++i) { Sub s; s.k = int(draw(OPS, 100)); s.s = text(); r.subs.push_back(s); }
    r.path = text(); n = draw(OPS, 3); for (uint32_t i = 0; i < n; ++i) r.m[text()] = int(draw(OPS, 50)); return r;
}
struct Val { int kind = -1; Rec rec; Ref mat; }; // kind: -1 nothing, 0 record, 1 DD, 2 DF, 3 row-major, 4 plain number
bool same(Val const& x, Val const& y) { return x.kind == y.kind && (x.kind == 0 ? x.rec == y.rec : x.kind == 4 ? x.rec.a == y.rec.a : x.mat == y.mat); }
std::string show(Val const& v) { return v.kind == 0 ? v.rec.str() : v.kind == 4 ? num(v.rec.a) : v.mat.str(); }

struct Slot { char const* name; bool xml; bool exists = false, known = false; Val val; };
struct Creation { char const* file; std::string content; bool did; };
void create(void* p) { Creation* c = static_cast<Creation*>(p); FILE* f = fopen(c->file, "wx"); if (f) { fwrite(c->content.data(), 1, c->content.size(), f); fclose(f); c->did = true; } }

struct SaveWorld {
    bool faults; Slot slot[4] = {{"a.xml", true}, {"bb.bin", false}, {"cc.xml", true}, {"d.bin", false}};

    // matrices live in memory of the library
    struct Box {
        std::function<void(char const*, bool)> put; std::function<void(char const*)> get; std::function<Ref()> see; std::function<void()> drop;
        template <class M> void hold(Ref const* x) {
            M* m; { sim::alloc::Target t; m = x ? new M(x->r, x->c) : new M(2, 2, bb::AllFiller<double>(5)); } if (x) write(*m, *x);
            put = [m](char const* f, bool ow) { bb::writeBinary(*m, "matrix", f, ow); }; get = [m](char const* f) { bb::readBinary(*m, "matrix", f); };
            see = [m] { return ::mdl::read(*m, "matrix read back"); }; drop = [m] { sim::alloc::Target t; delete m; };
        }
        Box(int kind, Ref const* x) { if (kind == 1) hold<DD>(x); if (kind == 2) hold<DF>(x); if (kind == 3) hold<RD>(x); }
        ~Box() { if (drop) drop(); }
    };
    void put(Slot& s, Val& v, Box& box, bool ow) {
        switch (v.kind) {
        case 0: if (s.xml) bb::writeXML(v.rec, "record", s.name, ow); else bb::writeBinary(v.rec, "record", s.name, ow); break;
        case 1: case 2: case 3: box.put(s.name, ow); break;
        default: if (s.xml) bb::writeXML(v.rec.a, "number", s.name, ow); else bb::writeBinary(v.rec.a, "number", s.name, ow);
        }
    }
    bool get(Slot& s, int kind, Val& v, std::string& why, bool inject = false) {
        v = Val(); v.kind = kind; Box box(kind, nullptr); plant(inject, false);
        if (s.xml) sim::alloc::arm(0); // boost's XML archive ends the process if its destructor gets no memory
        bool ok = attempt([&] {
            switch (kind) {
            case 0: { Rec r; if (s.xml) bb::readXML(r, "record", s.name); else bb::readBinary(r, "record", s.name); sim::alloc::Host h; v.rec = r; break; }
            case 1: case 2: case 3: box.get(s.name); break;
            default: if (s.xml) bb::readXML(v.rec.a, "number", s.name); else bb::readBinary(v.rec.a, "number", s.name);
            }
        }, why);
        if (box.see) { Ref x = box.see(); if (ok) v.mat = x; } // a failed load leaves a well-formed matrix
        return ok;
    }
    Val value(bool xml) {
        Val v; uint32_t k = draw(OPS, xml ? 4 : 8);
        if (k == 3) { v.kind = 4; v.rec.a = int(draw(OPS, 20001)) - 10000; }
        else if (k < 4) { v.kind = 0; v.rec = record(); }
        else { v.kind = k == 4 ? 2 : k == 5 ? 3 : 1; size_t r, c; shape(r, c, 60, 2000); v.mat = any(gen(r, c, 100), v.kind == 2); }
        return v;
    }
    void step() {
        sim::Span sp; Slot& s = slot[draw(OPS, 4)]; std::string why; size_t handles = io::handles();
        if (draw(OPS, 3) == 2) { // read
            if (!s.known && s.exists) { if (s.val.kind < 0) return; }
            int kind = s.val.kind < 0 ? 0 : s.val.kind; Val got;
            bool ok = get(s, kind, got, why, faults); bool struck = heal(); sim::ev("read %s: %s", s.name, ok ? "ok" : "error");
            if (ok && !s.exists) sim::fail("invented-object", "reading %s, which does not exist, reports no error", s.name);
            if (ok && s.known && !same(got, s.val)) sim::fail("lost-write", "%s: read %s, written %s%s", s.name, show(got).c_str(), show(s.val).c_str(), struck ? " (a fault struck the read)" : "");
            if (!ok && s.known && s.exists && !struck) sim::fail("unreadable", "%s was written without an error (%s), reading it fails: %s", s.name, show(s.val).c_str(), why.c_str());
            if (!ok) sim::count("probe:load_refused"); else sim::count("objects_read");
        } else {
            Val v = value(s.xml); bool ow = draw(OPS, 3) != 2; bool had = s.exists; std::string before = had ? slurp(s.name) : "";
            Box box(v.kind, &v.mat); bool error = plant(faults, true).error; Creation other{s.name, "another process wrote this\n", false};
            if (faults) switch (draw(FAULTS, 8)) {
            case 6: if (!error) io::crash(1 + draw(FAULTS, 6)); break; // after an error the file may hold anything
            case 7: io::foreign(1 + draw(FAULTS, 3), &create, &other); break;
            }
            bool ok = attempt([&] { put(s, v, box, ow); }, why);
            bool crashed = io::crashed(); bool struck = heal();
            sim::ev("write %s %s%s: %s%s", s.name, ow ? "" : "(no overwriting) ", show(v).c_str(), ok ? "ok" : "error", crashed ? ", crashed" : "");
            if (other.did && !ow) {
                if (slurp(s.name) != other.content) sim::fail("overwritten", "%s was created by another process, writing it without overwriting modified it", s.name);
                if (ok) sim::fail("false-acknowledgement", "%s was created by another process, writing it without overwriting reports no error", s.name);
                s.exists = true; s.known = false; s.val = Val();
            } else if (had && !ow) {
                if (!there(s.name) || slurp(s.name) != before) sim::fail("overwritten", "%s exists, writing it without overwriting modified it", s.name);
                if (ok && !crashed) sim::fail("false-acknowledgement", "%s exists, writing it without overwriting reports no error", s.name);
                sim::count("probe:overwriting_refused");
            } else if (crashed) { // the process ended there; another one finds what reached the disk
                Val got; sim::count("probe:crashed_write");
                if (had && there(s.name) && slurp(s.name) == before) { sim::ev("unchanged by the crash"); return; }
                s.exists = there(s.name);
                bool r = get(s, v.kind, got, why); sim::ev("after the crash: %s", r ? "readable" : "error");
                if (r && !same(got, v)) sim::fail("torn-file", "%s was torn by a crash, reading it gives %s, written was %s", s.name, show(got).c_str(), show(v).c_str());
                if (r) { s.val = got; s.known = true; } else { s.val = v; s.known = false; }
            } else if (ok) {
                Val got; bool r = get(s, v.kind, got, why);
                if (!r) sim::fail(struck ? "error-not-reported" : "unreadable", "%s: writing %s reports no error%s, reading it fails: %s", s.name, show(v).c_str(), struck ? " although a fault struck" : "", why.c_str());
                if (!same(got, v)) sim::fail(struck ? "error-not-reported" : "lost-write", "%s: writing %s reports no error%s, reading it gives %s", s.name, show(v).c_str(), struck ? " although a fault struck" : "", show(got).c_str());
                s.exists = s.known = true; s.val = v; sim::count("objects_written");
            } else {
                if (!struck && !other.did) sim::fail("unexpected-error", "%s: writing %s fails although nothing is wrong: %s", s.name, show(v).c_str(), why.c_str());
                sim::count("probe:write_refused");
                if (had && there(s.name) && slurp(s.name) == before) return;
                s.exists = there(s.name); s.known = false; s.val = v;
                // after an error a stream may write again what it had written: nobody can read such a file
                if (s.exists) { Slot t{"clean.tmp", s.xml}; Box b(v.kind, &v.mat); std::string w; if (!attempt([&] { put(t, v, b, true); }, w)) sim::fail("unexpected-error", "writing %s fails although nothing is wrong: %s", show(v).c_str(), w.c_str());
                    std::string all = slurp(t.name), part = slurp(s.name); unlink(t.name); if (all.compare(0, part.size(), part) != 0) { s.val = Val(); sim::count("garbled_by_error"); } }
            }
            sim::state(sim::mix(ok + 2 * struck + 4 * crashed + 8 * had + 16 * ow + 32 * other.did, v.kind));
        }
        if (io::handles() != handles) sim::fail("handle-leak", "%zu files stay open after reading or writing %s", io::handles() - handles, s.name);
        sim::steps(1);
    }
    void run() {
        Dir d; size_t live = sim::alloc::live(); uint32_t n = 2 + draw(OPS, 9); draw_junk();
        for (uint32_t i = 0; i < n; ++i) step();
        for (Slot& s : slot) if (s.exists && s.known) { Val got; std::string why; if (!get(s, s.val.kind, got, why)) sim::fail("unreadable", "%s was written without an error, reading it at the end fails: %s", s.name, why.c_str()); if (!same(got, s.val)) sim::fail("lost-write", "%s: read %s at the end, written %s", s.name, show(got).c_str(), show(s.val).c_str()); }
        if (sim::alloc::live() != live) sim::fail("memory-leak", "%zu blocks stay allocated after reading and writing: %s", sim::alloc::live() - live, sim::alloc::describe_live());
    }
};
SIM_WORLD(save_values, "file/save") { SaveWorld w; w.faults = false; w.run(); }
SIM_WORLD(save_faults, "file/save-faults") { SaveWorld w; w.faults = true; w.run(); }

// ---- C12: pattern images -------------------------------------------------------------------
struct PatternWorld {
    bool faults;
    template <class M> void step() {
        sim::Span sp; typedef bb::PatternGenerator PG; size_t r, c; shape(r, c, 100, 2000);
        Ref x = gen(r, c, 9); static const char idx[] = ".oO@#*+-=%&XYZ"; static char const* hex[] = {"000000", "FF0000", "00ff7f", "ffffff", "123456"};
        bool fraction = draw(OPS, 3) == 2; if (fraction) for (auto& v : x.v) { v *= 0.1; if (draw(OPS, 20) == 19) v = draw(OPS, 2) ? INFINITY : -INFINITY; }
        uint32_t np = draw(OPS, 5); std::vector<double> th; std::string ch; PG::Settings st;
        for (uint32_t i = 0; i < np; ++i) { double t = draw(OPS, 21) * (fraction ? 0.1 : 0.5); th.push_back(t); ch += idx[i]; PG::Color c; c.set_index(std::string(1, idx[i])).set_color(hex[draw(OPS, 5)]).set_threshold(t); st.palette.push_back(c); }
        st.set_background_index(" ").set_background_color(hex[draw(OPS, 5)]);
        M* m; { sim::alloc::Target t; m = new M(x.r, x.c); } write(*m, x); x = ::mdl::read(*m, "matrix of the image");
        size_t handles = io::handles(); std::string why;
        for (int round = 0; round < 2; ++round) {
            bool old = draw(OPS, 2); if (old) spit("p.xpm", std::string(draw(OPS, 3000), 'q')); else unlink("p.xpm");
            plant(faults && round == 0, true);
            bool ok = attempt([&] { PG g(st); g(static_cast<M const&>(*m), "p.xpm"); }, why); bool struck = heal();
            sim::ev("pattern %zux%zu, %u colours: %s", x.r, x.c, np, ok ? "ok" : "error");
            if (io::handles() != handles) sim::fail("handle-leak", "%zu files stay open after writing an image", io::handles() - handles);
            if (!ok) { sim::count("probe:write_refused"); if (!struck) sim::fail("unexpected-error", "image of %zux%zu: writing fails although nothing is wrong: %s", x.r, x.c, why.c_str()); sim::count("probe:retry_after_failure"); continue; }
            check_image(slurp("p.xpm"), x, th, ch, st, struck); sim::count("images_written");
            sim::state(sim::mix(x.hash(), np)); break;
        }
        Ref after = ::mdl::read(*m, "matrix of the image"); if (after != x) sim::fail("source-modified", "writing an image modified the matrix"); { sim::alloc::Target t; delete m; } sim::steps(1);
    }
    void run() {
        Dir d; size_t live = sim::alloc::live(); uint32_t n = 1 + draw(OPS, 3);
        for (uint32_t i = 0; i < n; ++i) switch (draw(OPS, 4)) { case 0: case 1: step<DD>(); break; case 2: step<DF>(); break; default: step<RD>(); }
        if (sim::alloc::live() != live) sim::fail("memory-leak", "%zu blocks stay allocated after writing images: %s", sim::alloc::live() - live, sim::alloc::describe_live());
    }
};
SIM_WORLD(pattern_values, "file/pattern") { PatternWorld w; w.faults = false; w.run(); }
SIM_WORLD(pattern_faults, "file/pattern-faults") { PatternWorld w; w.faults = true; w.run(); }

SIM_WARMUP(warm) { std::ostringstream o; o << 1.5; std::locale l; (void)l; boost::filesystem::path p("a"); (void)exists(p); }
} // namespace

// File helpers shared by the worlds that work on a simulated file system.
#pragma once
#include "model.h"
#include "BlasBooster/Core/PatternGenerator.h"
#include <boost/filesystem.hpp>
#include <cstdlib>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using sim::draw; using sim::OPS; using sim::FAULTS;
namespace io = sim::io;

namespace {
// ---- scratch directory of one run -----------------------------------------------------
struct Dir {
    std::string path; char old[4096];
    Dir() {
        char const* base = getenv("SIM_SCRATCH"); if (!base || !getcwd(old, sizeof old)) sim::fail("harness", "no scratch directory");
        path = std::string(base) + "/run-" + std::to_string(getpid()); wipe();
        if (mkdir(path.c_str(), 0700) || chdir(path.c_str())) sim::fail("harness", "cannot create %s", path.c_str());
    }
    ~Dir() { if (chdir(old)) {} wipe(); }
    void wipe() { boost::system::error_code ec; boost::filesystem::remove_all(path, ec); }
};
std::string slurp(char const* f) {
    std::string s; FILE* p = fopen(f, "r"); if (!p) return s; char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s;
}
void spit(char const* f, std::string const& s) { FILE* p = fopen(f, "w"); if (!p || fwrite(s.data(), 1, s.size(), p) != s.size() || fclose(p)) sim::fail("harness", "cannot write %s", f); }
bool there(char const* f) { return access(f, F_OK) == 0; }

/// elements with bit patterns that only their own type can hold (from operands of small integers)
inline mdl::Ref any(mdl::Ref x, bool single) {
    if (draw(OPS, 3) != 2) return x;
    uint64_t sd = draw(OPS, 1u << 16); static const double special[] = {INFINITY, -INFINITY, 5e-324, 1.7976931348623157e308, 1e300, -2.5e-300, 3.4028234663852886e38, 1e-45};
    for (size_t i = 0; i < x.v.size(); ++i) if (x.v[i] != 0.0) { uint64_t h = sim::mix(sd, i); double v = h % 16 == 15 ? special[(h >> 8) % 8] : x.v[i] * (h % 2 ? 0.1 : 1.0 / 3.0) * (h % 8 == 6 ? std::pow(10.0, int((h >> 12) % 51) - 20) : 1.0); x.v[i] = single ? double(float(v)) : v; }
    sim::count("arbitrary_values"); return x;
}
/// shapes of a file: small, sometimes larger, sometimes a long column or row
inline void shape(size_t& r, size_t& c, uint32_t big, uint32_t thin) {
    uint32_t z = draw(OPS, 24), lim = z == 23 || z == 22 ? big : 6; r = 1 + draw(OPS, lim); c = 1 + draw(OPS, lim);
    if (z == 21) { (draw(OPS, 2) ? r : c) = 1 + draw(OPS, thin); sim::count("thin_shapes"); }
}

/// one operation of the library: true if it returned, false if it reported an error
template <class F> bool attempt(F f, std::string& why) {
    try { sim::alloc::Target t; f(); return true; }
    catch (sim::Violation&) { throw; }
    catch (std::exception const& e) { sim::alloc::Host h; why = e.what(); return false; }
}
struct Faults {
    bool error = false; // an error was planted
    uint32_t nth = 0;
};
/// plants faults for one operation
Faults plant(bool on, bool writes) {
    Faults f; io::reset(); sim::alloc::arm(0);
    if (!on) return f;
    io::shorten(draw(FAULTS, 3) == 2);
    switch (draw(FAULTS, 8)) {
    case 4: f.error = true; io::fail_nth(io::OPEN, 1 + draw(FAULTS, 3)); break;
    case 5: f.error = true; io::fail_nth(writes ? io::WRITE : io::READ, 1 + draw(FAULTS, 4)); break;
    case 6: f.error = true; if (writes) { if (draw(FAULTS, 2)) io::disk_space(draw(FAULTS, 600)); else io::fail_nth(io::CLOSE, 1 + draw(FAULTS, 2)); } else io::fail_nth(io::SEEK, 1 + draw(FAULTS, 8)); break;
    case 7: f.error = true; f.nth = 1 + draw(FAULTS, draw(FAULTS, 2) ? 60 : 8); sim::alloc::arm(f.nth); break;
    }
    return f;
}
/// faults stop; did one strike?
bool heal() { bool a = sim::alloc::disarm(); bool b = io::fired(); io::reset(); if (a) sim::count("probe:allocation_failed"); return a || b; }

/// the image's strings, in order
inline std::vector<std::string> strings(std::string const& f) { std::vector<std::string> r; size_t p = 0; for (;;) { size_t a = f.find('"', p); if (a == std::string::npos) return r; size_t b = f.find('"', a + 1); if (b == std::string::npos) { r.push_back("\x01 unterminated"); return r; } r.push_back(f.substr(a + 1, b - a - 1)); p = b + 1; } }
/// an XPM image of the matrix x under palette thresholds th and characters ch
inline void check_image(std::string const& f, mdl::Ref const& x, std::vector<double> const& th, std::string const& ch, BlasBooster::PatternGenerator::Settings const& st, bool struck)
{
    uint32_t np = uint32_t(th.size());
    std::vector<std::string> s = strings(f); char const* cls = struck ? "error-not-reported" : "malformed-image";
    std::ostringstream head; head << x.c << " " << x.r << " " << np + 1 << " 1";
    if (f.compare(0, 9, "/* XPM */") || s.empty() || s[0] != head.str()) sim::fail(cls, "image of %zux%zu with %u colours begins with '%s'", x.r, x.c, np + 1, s.empty() ? "" : s[0].c_str());
    if (s.size() != 2 + np + x.r) sim::fail(cls, "image of %zux%zu with %u colours has %zu strings instead of %zu", x.r, x.c, np + 1, s.size(), 2 + np + x.r);
    for (uint32_t i = 0; i <= np; ++i) { std::string want = std::string(1, i < np ? ch[i] : ' ') + "\tc #" + (i < np ? st.palette[i].color : st.background_color); if (s[1 + i] != want) sim::fail(cls, "colour %u is '%s', expected '%s'", i, s[1 + i].c_str(), want.c_str()); }
    for (size_t i = 0; i < x.r; ++i) {
        std::string want; for (size_t j = 0; j < x.c; ++j) { char p = ' '; for (uint32_t k = 0; k < np; ++k) if (std::abs(x.at(i, j)) >= th[k]) { p = ch[k]; break; } want += p; }
        if (s[2 + np + i] != want) sim::fail(struck ? cls : "wrong-pixel", "row %zu of the image is '%s', expected '%s'", i, s[2 + np + i].c_str(), want.c_str());
    }
    { std::string decl; size_t a = f.find("*/"), e = f.find('{'); for (size_t p = a + 2; a != std::string::npos && e != std::string::npos && p < e; ++p) if (!isspace((unsigned char)f[p])) decl += f[p];
      if (decl.compare(0, 6, "static") || decl.find("char*") == std::string::npos || decl.size() < 3 || decl.compare(decl.size() - 3, 3, "[]=")) sim::fail(cls, "the image declares '%s'", decl.c_str()); }
    // between the strings: separators, one closing bracket at the end
    std::string rest; { bool in = false; for (size_t p = 0; p < f.size(); ++p) { if (f[p] == '"') in = !in; else if (!in) rest += f[p]; } }
    size_t open = rest.find('{'), close = rest.rfind("};"); size_t commas = 0; if (open != std::string::npos && close != std::string::npos) for (size_t p = open; p < close; ++p) commas += rest[p] == ',';
    if (open == std::string::npos || close == std::string::npos || commas != s.size() - 1) sim::fail(cls, "the image is no C array of %zu strings", s.size());
    for (size_t p = close + 2; p < rest.size(); ++p) if (!isspace((unsigned char)rest[p])) sim::fail(cls, "the image goes on after its end");
}
} // namespace

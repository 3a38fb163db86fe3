// Runs one of the repository's command-line tools, compiled unchanged, as a function of this
// process: its main is the symbol tool_main, its screen is a buffer, its files are simulated.
#pragma once
#include "w_filelib.h"
#include <iostream>
extern "C" int tool_main(int, char**);

namespace {
struct Screen : std::streambuf { char b[1 << 21]; void reset() { setp(b, b + sizeof b); } std::string text() const { return std::string(pbase(), pptr()); } };
Screen screen_out, screen_err;

struct ToolRun { int rc; std::string out, err; bool struck, armed; };

/// what the operating system does to one execution of a tool
bool plant_tool(bool on)
{
    io::reset(); sim::alloc::arm(0);
    if (!on) return false;
    io::shorten(draw(FAULTS, 3) == 2);
    switch (draw(FAULTS, 10)) {
    case 4: io::fail_nth(io::OPEN, 1 + draw(FAULTS, 4)); return true;
    case 5: io::fail_nth(io::READ, 1 + draw(FAULTS, 6)); return true;
    case 6: io::fail_nth(io::WRITE, 1 + draw(FAULTS, 4)); return true;
    case 7: io::disk_space(draw(FAULTS, draw(FAULTS, 2) ? 600 : 40000)); return true;
    case 8: if (draw(FAULTS, 3) == 2) io::fail_nth(io::SEEK, 1 + draw(FAULTS, 8)); else io::fail_nth(io::CLOSE, 1 + draw(FAULTS, 4)); return true;
    case 9: sim::alloc::arm(1 + draw(FAULTS, draw(FAULTS, 2) ? 600 : 30)); return true;
    }
    return false;
}
ToolRun run_tool(char const* tool, std::vector<std::string> args, bool faults)
{
    args.insert(args.begin(), tool); std::vector<char*> v; for (auto& a : args) v.push_back(&a[0]); v.push_back(nullptr);
    std::ios fo(nullptr), fe(nullptr); fo.copyfmt(std::cout); fe.copyfmt(std::cerr);
    screen_out.reset(); screen_err.reset();
    std::streambuf* o = std::cout.rdbuf(&screen_out); std::streambuf* e = std::cerr.rdbuf(&screen_err);
    ToolRun r; r.rc = -1; size_t live = sim::alloc::live(), handles = io::handles(); std::string escaped;
    r.armed = plant_tool(faults);
    try { sim::alloc::Target t; r.rc = tool_main(int(args.size()), v.data()); }
    catch (sim::Violation&) { std::cout.rdbuf(o); std::cerr.rdbuf(e); throw; }
    catch (std::exception const& x) { sim::alloc::Host h; escaped = std::string("exception: ") + x.what(); }
    catch (...) { sim::alloc::Host h; escaped = "unknown exception"; }
    r.struck = heal();
    std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.copyfmt(fo); std::cerr.copyfmt(fe); std::cout.clear(); std::cerr.clear();
    r.out = screen_out.text(); r.err = screen_err.text();
    if (!escaped.empty()) sim::fail("crash", "%s ends with an uncaught %s", tool, escaped.c_str());
    if (io::handles() != handles) sim::fail("handle-leak", "%zu files stay open after %s", io::handles() - handles, tool);
    if (sim::alloc::live() != live) sim::fail("memory-leak", "%zu blocks stay allocated after %s: %s", sim::alloc::live() - live, tool, sim::alloc::describe_live());
    if (r.rc) sim::count(r.struck ? "probe:tool_reported_a_failure" : "tool_refused"); else sim::count("tool_succeeded");
    return r;
}
std::string last_line(ToolRun const& r) { std::string s = r.out + r.err; size_t e = s.find("xception"); if (e == std::string::npos) e = s.find("Error"); if (e == std::string::npos) return ""; return s.substr(e, s.find('\n', e) - e); }
std::string join(std::vector<std::string> const& a) { std::string s; for (auto& x : a) s += " " + x; return s; }
/// a matrix file and its descriptor
void matrix_files(mdl::Ref const& x, char const* desc, char const* data)
{
    std::string d(reinterpret_cast<char const*>(x.v.data()), x.v.size() * sizeof(double)); spit(data, d);
    std::ostringstream o; o << "<nbRows>" << x.r << "</nbRows><nbColumns>" << x.c << "</nbColumns><rowLeadingDimension>" << x.r << "</rowLeadingDimension><columnLeadingDimension>" << x.c
        << "</columnLeadingDimension><rowOffset>0</rowOffset><columnOffset>0</columnOffset><filename>" << data << "</filename>";
    spit(desc, o.str());
}
} // namespace

// World "tool/generate" (property C18): the matrix generator writes the whole described matrix or
// reports a failure, whatever its arguments and whatever the file system and the memory do.
#include "w_tool.h"
using namespace mdl;

namespace {
struct GenWorld {
    bool faults;
    void step() {
        sim::Span sp; sim::steps(1);
        bool big = draw(OPS, 10) == 9; size_t lim = big ? 150 : 9; size_t r = 1 + draw(OPS, lim), c = draw(OPS, 2) ? r : 1 + draw(OPS, lim);
        size_t bw = draw(OPS, 6) == 5 ? draw(OPS, uint32_t(2 * lim)) : draw(OPS, uint32_t(std::max(r, c)) + 2);
        static const double vals[] = {1, -1, 0.1, 2.5e-300, 1e300, 3};
        double v = vals[draw(OPS, 6)]; std::ostringstream sv; sv.precision(17); sv << v;
        std::vector<std::string> a; auto opt = [&](char const* s, char const* l, std::string const& x) { if (draw(OPS, 3) == 2) a.push_back(std::string(l) + "=" + x); else { a.push_back(draw(OPS, 2) ? s : l); a.push_back(x); } };
        opt("-r", "--rows", std::to_string(r)); opt("-c", "--cols", std::to_string(c)); opt("-b", "--band-width", std::to_string(bw));
        if (v != 1.0 || draw(OPS, 2)) opt("-v", "--value", sv.str());
        std::string file = "matrix.dat"; if (draw(OPS, 2)) { file = "out.bin"; opt("-m", "--matrix-file", file); }
        if (draw(OPS, 3) == 2) opt("-t", "--type", "band");
        bool good = true, help = false; char const* what = "valid arguments";
        switch (draw(OPS, 14)) {
        case 9: what = "a missing directory"; good = false; file = "no/such/out.bin"; a.push_back("-m"); a.push_back(file); break;
        case 10: what = "an unknown option"; good = false; a.insert(a.begin() + 0, "--nonsense"); break;
        case 11: what = "an unreadable number"; good = false; a.push_back("-c"); if (draw(OPS, 2)) a.push_back("x"); break;
        case 12: { what = "impossible dimensions"; good = false; static char const* huge[][2] = {{"1048576", "1048576"}, {"9223372036854775808", "2"}, {"4294967296", "4294967296"}, {"2305843009213693952", "8"}, {"-1", "1"}, {"6148914691236517206", "3"}};
            uint32_t k = draw(OPS, 6); a.push_back("-r"); a.push_back(huge[k][0]); a.push_back("-c"); a.push_back(huge[k][1]); break; }
        case 13: help = true; a.push_back("-h"); break;
        }
        unlink("matrix.dat"); unlink("out.bin"); std::string old; bool had = draw(OPS, 2); if (had) { old = std::string(draw(OPS, 3000), 'q'); spit(file.compare(0, 3, "no/") ? file.c_str() : "out.bin", old); }
        draw_junk();
        Ref x(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if ((i > j ? i - j : j - i) < bw) x.at(i, j) = v;
        for (int round = 0; round < 2; ++round) {
            ToolRun t = run_tool("generate_matrix", a, faults && round == 0); sim::ev("generate%s: %d", join(a).c_str(), t.rc);
            sim::state(sim::mix(t.rc + 2 * t.struck + 4 * good, r * 200 + c));
            if (help) { if (t.rc && !t.struck) sim::fail("unexpected-error", "asked for help, generate_matrix fails"); if (there(file.c_str()) && slurp(file.c_str()) != old) sim::fail("wrong-file", "asked for help, generate_matrix writes a file"); break; }
            if (t.rc == 0) {
                if (!good) sim::fail("error-not-reported", "generate_matrix%s (%s) reports success", join(a).c_str(), what);
                std::string f = slurp(file.c_str()); std::string want(reinterpret_cast<char const*>(x.v.data()), x.v.size() * sizeof(double));
                if (f.size() != want.size()) sim::fail(t.struck ? "error-not-reported" : "wrong-file", "generate_matrix%s reports success%s, but %s has %zu bytes instead of %zu", join(a).c_str(), t.struck ? " although a fault struck" : "", file.c_str(), f.size(), want.size());
                for (size_t k = 0; k < x.v.size(); ++k) { double e; memcpy(&e, f.data() + k * sizeof(double), sizeof e); if (e != x.v[k]) sim::fail(t.struck ? "error-not-reported" : "wrong-file", "generate_matrix%s: element (%zu,%zu) is %g, described %g", join(a).c_str(), k % r, k / r, e, x.v[k]); }
                break;
            }
            if (good && !t.struck) sim::fail("unexpected-error", "generate_matrix%s fails although nothing is wrong: %s", join(a).c_str(), last_line(t).c_str());
            if (!good) break;
            sim::count("probe:retry_after_failure");
        }
    }
    void run() { Dir d; uint32_t n = 1 + draw(OPS, 3); for (uint32_t i = 0; i < n; ++i) step(); }
};
SIM_WORLD(gen_values, "tool/generate") { GenWorld w; w.faults = false; w.run(); }
SIM_WORLD(gen_faults, "tool/generate-faults") { GenWorld w; w.faults = true; w.run(); }
SIM_WARMUP(warm) { if (!getenv("SIM_SCRATCH")) return; Dir d; char const* v[] = {"generate_matrix", "-r", "2", "-c", "2", nullptr};
    screen_out.reset(); std::streambuf* o = std::cout.rdbuf(&screen_out); { sim::alloc::Target t; tool_main(5, const_cast<char**>(v)); } std::cout.rdbuf(o); }
} // namespace

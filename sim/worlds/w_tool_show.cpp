// World "tool/pattern" (property C18): the pattern tool draws the whole matrix file, by elements
// or by the kinds of its blocks, or reports a failure.
#include "w_tool.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#include "BlasBooster/Core/Threshold.h"
using namespace mdl;

namespace {
struct ShowWorld {
    bool faults;
    void step() {
        sim::Span sp; sim::steps(1); typedef bb::PatternGenerator PG;
        bool blocks = draw(OPS, 2); size_t lim = draw(OPS, 10) == 9 ? 60 : blocks ? 14 : 6;
        Ref x(1 + draw(OPS, lim), 1 + draw(OPS, lim));
        if (blocks) { // regions of different magnitude and density, so that the blocks differ in kind
            uint64_t sd = draw(OPS, 1u << 20); size_t step = 1 + draw(OPS, 6); static const double mag[] = {1.0, 0.0, 1e-9, 1e-20, 0.5, 3.0};
            for (size_t i = 0; i < x.r; ++i) for (size_t j = 0; j < x.c; ++j) { uint64_t q = sim::mix(sd, (i / step) * 1000 + j / step); double m = mag[q % 6]; if (q % 7 < 4 || sim::mix(q, i * x.c + j) % 5 == 0) x.at(i, j) = m; }
        } else x = gen(x.r, x.c, 9);
        PG::Settings st; std::vector<double> th; std::string ch; static const char idx[] = ".oO@#*+-=%"; static char const* hex[] = {"000000", "FF0000", "00ff7f"};
        uint32_t np = draw(OPS, blocks ? 9 : 5); double cut = 5;
        for (uint32_t i = 0; i < np; ++i) { double t; if (blocks) { t = cut; cut /= 10; } else t = draw(OPS, 21) * 0.5; th.push_back(t); ch += idx[i]; PG::Color c; c.set_index(std::string(1, idx[i])).set_color(hex[draw(OPS, 3)]).set_threshold(t); st.palette.push_back(c); }
        st.set_background_index(" ").set_background_color(hex[draw(OPS, 3)]);
        size_t mn = draw(OPS, 5), mx = std::max<size_t>(1, 2 * mn) + draw(OPS, 6); int border = blocks ? int(draw(OPS, 6)) : 0; if (blocks && draw(OPS, 10) == 9) border = draw(OPS, 2) ? 1000 : -3;
        std::ostringstream js; js.precision(17); js << "{ \"pattern_generator_settings\": { \"palette\": [";
        for (uint32_t i = 0; i < np; ++i) js << (i ? "," : "") << "{\"index\": \"" << st.palette[i].index << "\", \"color\": \"" << st.palette[i].color << "\", \"threshold\": " << st.palette[i].threshold << "}";
        js << "], \"background_index\": \" \", \"background_color\": \"" << st.background_color << "\" }, \"blocked_matrix_generator_settings\": { \"min_block_size\": " << mn << ", \"max_block_size\": " << mx << " } }";
        std::string json = js.str();
        std::vector<std::string> a = {"m.xml", "-s", "set.json", "-t", blocks ? "type-blocks" : "elements"}; std::string file = "pattern.xpm";
        if (draw(OPS, 2)) { file = "out.xpm"; a.push_back("-p"); a.push_back(file); }
        if (border || draw(OPS, 3) == 2) { a.push_back("-w"); a.push_back(std::to_string(border)); }
        bool good = true; char const* what = "valid input"; std::string data;
        matrix_files(x, "m.xml", "m.bin"); spit("set.json", json);
        switch (draw(OPS, 16)) {
        case 10: what = "no matrix file"; good = false; unlink("m.xml"); break;
        case 11: what = "truncated matrix"; good = false; if (truncate("m.bin", off_t(draw(OPS, uint32_t(x.v.size() * sizeof(double)))))) sim::fail("harness", "truncate"); break;
        case 12: what = "truncated settings"; good = false; spit("set.json", json.substr(0, draw(OPS, uint32_t(json.size())))); break;
        case 13: what = "no settings file"; good = false; unlink("set.json"); break;
        case 14: what = "unknown pattern type"; good = false; a[4] = "elemental"; break;
        case 15: what = "no matrix argument"; good = false; a.erase(a.begin()); break;
        }
        unlink("pattern.xpm"); unlink("out.xpm"); if (draw(OPS, 2)) spit(file.c_str(), std::string(draw(OPS, 3000), 'q'));
        draw_junk(); sim::clk::read_cost(draw(OPS, 1000000));
        Ref pic = x;
        if (blocks) { // the expected image, from the kinds that blocking without faults decides
            std::vector<size_t> rs, cs; std::vector<int> kinds;
            { sim::alloc::Target t; auto m = Make<DD>::make(x); auto sizes = bb::BlockSizeGenerator(mn, mx)(static_cast<DD const&>(*m)); auto bm = bb::BlockedMatrixGenerator()(static_cast<DD const&>(*m), std::get<0>(sizes), std::get<1>(sizes), bb::Threshold(bb::ThresholdSettings()));
              auto const& rb = std::get<0>(sizes); auto const& cb = std::get<1>(sizes); sim::alloc::Host h; for (auto s : rb) rs.push_back(s); for (auto s : cb) cs.push_back(s); for (size_t j = 0; j < cs.size(); ++j) for (size_t i = 0; i < rs.size(); ++i) kinds.push_back(int(bm(i, j)->getTypeIndex())); }
            size_t oc = 0, k = 0; for (size_t j = 0; j < cs.size(); oc += cs[j++]) { size_t orr = 0; for (size_t i = 0; i < rs.size(); orr += rs[i++], ++k) for (size_t q = 0; q < cs[j]; ++q) for (size_t p = 0; p < rs[i]; ++p)
                pic.at(orr + p, oc + q) = int(p) < border || int(q) < border ? 0.0 : std::pow(10, -1.0 * kinds[k]); }
            sim::count("block_images");
        }
        for (int round = 0; round < 2; ++round) {
            ToolRun t = run_tool("show_pattern", a, faults && round == 0); sim::ev("pattern%s of %zux%zu: %d", join(a).c_str(), x.r, x.c, t.rc);
            sim::state(sim::mix(t.rc + 2 * t.struck + 4 * good + 8 * blocks, pic.hash()));
            if (t.rc == 0) {
                if (!good) sim::fail("error-not-reported", "show_pattern%s (%s) reports success", join(a).c_str(), what);
                check_image(slurp(file.c_str()), pic, th, ch, st, t.struck); break;
            }
            if (border < 0) break; // may be refused as well
            if (good && !t.struck) sim::fail("unexpected-error", "show_pattern%s of %zux%zu fails although nothing is wrong: %s", join(a).c_str(), x.r, x.c, last_line(t).c_str());
            if (!good) break;
            sim::count("probe:retry_after_failure");
        }
    }
    void run() { Dir d; uint32_t n = 1 + draw(OPS, 2); for (uint32_t i = 0; i < n; ++i) step(); }
};
SIM_WORLD(show_values, "tool/pattern") { ShowWorld w; w.faults = false; w.run(); }
SIM_WORLD(show_faults, "tool/pattern-faults") { ShowWorld w; w.faults = true; w.run(); }
SIM_WARMUP(warm) { if (!getenv("SIM_SCRATCH")) return; Dir d; Ref x(2, 2); matrix_files(x, "m.xml", "m.bin"); spit("s.json", "{\"pattern_generator_settings\": {\"background_index\": \"x\"}}"); char const* v[] = {"show_pattern", "m.xml", "-s", "s.json", "-t", "type-blocks", nullptr};
    screen_out.reset(); std::streambuf* o = std::cout.rdbuf(&screen_out); { sim::alloc::Target t; tool_main(6, const_cast<char**>(v)); } std::cout.rdbuf(o); }
} // namespace

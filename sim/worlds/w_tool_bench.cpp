// World "tool/benchmark" (property C18): the benchmark executes every configured action on every
// configured pair of matrices and reports each once, with its true deviation, or reports a failure.
#include "w_tool.h"
using namespace mdl;

namespace {
struct BenchWorld {
    bool faults;
    static Ref band(size_t n, size_t bw, double v) { Ref x(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if ((i > j ? i - j : j - i) < bw) x.at(i, j) = v; return x; }
    /// what an action computes: in single precision for the names that begin with s
    static Ref product(std::string const& action, Ref const& a, Ref const& b) {
        if (action.find("_sgemm") == std::string::npos) return mul(a, b);
        Ref x = a, y = b; for (auto& v : x.v) v = float(v); for (auto& v : y.v) v = float(v); return mul(x, y);
    }
    struct Spec { bool file; std::vector<size_t> d, b; double v; size_t r, k, c; std::string name; };
    struct Set { std::string json; std::vector<Ref> m; };
    int files = 0;
    static std::string array(std::vector<size_t> const& a) { std::ostringstream o; o << "["; for (size_t i = 0; i < a.size(); ++i) o << (i ? ", " : "") << a[i]; o << "]"; return o.str(); }
    /// left or right factors: what the specs leave open is drawn
    Set set(std::vector<Spec>& specs, bool right) {
        Set s; std::ostringstream o; o << "{"; bool first = true;
        for (auto& q : specs) {
            // values whose products are exact in double precision, and sums of products in single precision
            static const double vals[] = {1, 2, -3, 16777217, 0.5, 16777217, 16777217}; if (!first) o << ", "; first = false;
            if (!q.file) {
                if (right) { static const double other[] = {1, 2, -3, 4, 0.5}; q.v = other[draw(OPS, 5)]; for (auto& w : q.b) w = draw(OPS, 14); }
                else if (!right) { q.v = vals[draw(OPS, 7)]; for (auto& w : q.b) w = draw(OPS, 14); }
                o << "\"DiagonalBand\": {\"dimension\": " << array(q.d) << ", \"band_width\": " << array(q.b) << ", \"value\": " << std::setprecision(17) << q.v << "}";
                for (auto n : q.d) for (auto w : q.b) s.m.push_back(band(n, w, q.v));
            } else {
                Ref x = right ? gen(q.k, q.c, 9) : gen(q.r, q.k, 9); std::string f = "m" + std::to_string(files) + ".xml", g = "m" + std::to_string(files) + ".bin"; ++files; matrix_files(x, f.c_str(), g.c_str());
                o << "\"File\": \"" << f << "\""; s.m.push_back(x);
            }
        }
        o << "}"; s.json = o.str(); return s;
    }
    void step() {
        sim::Span sp; sim::steps(1); files = 0;
        static char const* names[] = {"native_dense", "openblas_dgemm", "openblas_sgemm", "eigen_dgemm", "eigen_sgemm", "blasbooster_block"};
        std::vector<std::string> act; bool many = draw(OPS, 12) == 11; uint32_t na = 1 + draw(OPS, many ? 24 : 4); if (many) sim::count("many_actions"); for (uint32_t i = 0; i < na; ++i) act.push_back(names[draw(OPS, 6)]);
        bool equal = draw(OPS, 3) == 2; std::vector<Spec> specs; uint32_t kinds = 1 + draw(OPS, draw(OPS, 12) == 11 ? 8 : 2);
        for (uint32_t i = 0; i < kinds; ++i) { Spec q{}; q.file = draw(OPS, 3) == 2; uint32_t nd = 1 + draw(OPS, kinds > 2 ? 3 : 2), nb = 1 + draw(OPS, kinds > 2 ? 3 : 2); for (uint32_t k = 0; k < nd; ++k) q.d.push_back(1 + draw(OPS, draw(OPS, 8) == 7 ? 24 : 8)); q.b.resize(nb);
            q.r = 1 + draw(OPS, 6); q.k = equal ? q.r : 1 + draw(OPS, 6); q.c = equal ? q.r : 1 + draw(OPS, 6); specs.push_back(q); }
        Set A = set(specs, false), B = A; std::string jb = "{\"EqualTo\": \"A\"}"; if (!equal) { B = set(specs, true); jb = B.json; }
        std::ostringstream js; js << "{ \"actions\": {";
        for (size_t i = 0; i < act.size(); ++i) { js << (i ? ", " : "") << "\"" << act[i] << "\": {"; if (act[i] == "blasbooster_block") { size_t mn = draw(OPS, 4); js << "\"threshold\": {\"min_block_size\": " << mn << ", \"max_block_size\": " << std::max<size_t>(1, 2 * mn) + draw(OPS, 6) << "}"; } js << "}"; }
        std::string acts = js.str() + "}"; std::string ja = "\"A\": " + A.json; std::string bench = draw(OPS, 2) ? ", \"benchmark\": {\"repetitions\": " + std::to_string(1 + draw(OPS, 3)) + "}" : "";
        auto text = [&] { return acts + ", \"matrices\": {" + ja + ", \"B\": " + jb + "}" + bench + " }"; };
        std::string json = text(); bool good = true; char const* what = "valid settings"; std::string file = "benchmark.json";
        std::vector<std::string> a; if (draw(OPS, 2)) { file = "set.json"; a.push_back("-s"); a.push_back(file); }
        int digits = 3; if (draw(OPS, 3) == 2) { digits = 1 + int(draw(OPS, 8)); a.push_back("-a"); a.push_back(std::to_string(digits)); }
        bool diff = draw(OPS, 2); if (diff) a.push_back(draw(OPS, 2) ? "-d" : "--diff");
        bool write = true;
        switch (draw(OPS, 24)) {
        case 10: what = "an unknown action"; good = false; acts.insert(acts.find('{', 2) + 1, "\"intelmkl_qgemm\": {}, "); json = text(); break;
        case 11: what = "an unknown kind of matrix"; good = false; ja.insert(ja.find('{') + 1, "\"Random\": \"x\", "); json = text(); break;
        case 12: what = "no set B"; good = false; json = acts + ", \"matrices\": {" + ja + "}" + bench + " }"; break;
        case 13: what = "no set A"; good = false; json = acts + ", \"matrices\": {\"B\": " + A.json + "}" + bench + " }"; break;
        case 14: what = "sets of different size"; good = false; jb = "{\"EqualTo\": \"A\", \"DiagonalBand\": {\"dimension\": [2], \"band_width\": [1], \"value\": 1}}"; json = text(); break;
        case 15: what = "truncated settings"; good = false; json = json.substr(0, draw(OPS, uint32_t(json.size() - 1))); break;
        case 16: what = "no settings file"; good = false; write = false; break;
        case 17: what = "no actions"; good = false; acts = "{ \"actions\": {}"; json = text(); break;
        case 18: what = "a reference to an unknown set"; good = false; jb = "{\"EqualTo\": \"C\"}"; json = text(); break;
        case 20: case 21: case 22: { // some or all pairs have no product
            what = "matrices that do not fit"; good = false; int by = draw(OPS, 2) ? 1 + int(draw(OPS, 12)) : -1; bool all = draw(OPS, 2), any = false;
            for (auto& q : specs) { size_t& n = q.file ? q.k : q.d.back(); if ((any && !all) || (by < 0 && n == 1)) continue; n += by; any = true; }
            if (!any) { specs[0].file ? specs[0].k += 1 : specs[0].d.back() += 1; } Set C = set(specs, true); jb = C.json; json = text(); break; }
        case 19: what = "a missing matrix file"; good = false; ja.insert(ja.find('{') + 1, "\"File\": \"none.xml\", "); json = text(); break;
        }
        unlink("benchmark.json"); unlink("set.json"); if (write) spit(file.c_str(), json);
        for (int i = 0; i < 8; ++i) unlink(("diff_" + std::to_string(i) + ".dat").c_str());
        draw_junk(); sim::clk::read_cost(draw(OPS, 1000000));
        for (int round = 0; round < 2; ++round) {
            ToolRun t = run_tool("benchmark", a, faults && round == 0); sim::ev("benchmark%s with %zu actions, %zu matrices: %d", join(a).c_str(), act.size(), A.m.size(), t.rc);
            sim::state(sim::mix(t.rc + 2 * t.struck + 4 * good, A.m.size() * 10 + act.size()));
            if (t.rc == 0) { if (!good) sim::fail("error-not-reported", "benchmark%s (%s) reports success: %s", join(a).c_str(), what, json.c_str()); report(t, act, A.m, B.m, diff, digits, json); break; }
            if (good && !t.struck) sim::fail("unexpected-error", "benchmark%s fails although nothing is wrong: %s, settings %s", join(a).c_str(), last_line(t).c_str(), json.c_str());
            if (!good) break;
            sim::count("probe:retry_after_failure");
        }
    }
    void report(ToolRun const& t, std::vector<std::string> const& act, std::vector<Ref> const& m, std::vector<Ref> const& m2, bool diff, int digits, std::string const& json) {
        char const* cls = t.struck ? "error-not-reported" : "wrong-report";
        std::istringstream in(t.out); std::string line; while (std::getline(in, line) && line.find("-----") == std::string::npos) {}
        for (size_t i = 0; i < m.size(); ++i) { Ref ref = product(act[0], m[i], m2[i]), last;
            for (size_t k = 0; k < act.size(); ++k) {
                if (!std::getline(in, line)) sim::fail(cls, "the report ends before action %zu (%s) of matrix %zu", k, act[k].c_str(), i);
                std::istringstream row(line); size_t no; std::string name; double time, mx, two;
                if (!(row >> no >> name >> time >> mx >> two)) sim::fail(cls, "unreadable line '%s'", line.c_str());
                if (no != i || name != act[k]) sim::fail(cls, "line '%s' where action %s of matrix %zu is due", line.c_str(), act[k].c_str(), i);
                if (!(time >= 0) || time > 1000) sim::fail(cls, "action %s took %g s", act[k].c_str(), time);
                // the parts an action reports of its time add up to it
                std::string part; double sum = 0, x; int parts = 0; while (row >> part >> x) { if (part.empty() || part.back() != ':' || !(x >= 0) || !(row >> part) || part != "s") sim::fail(cls, "unreadable details in line '%s'", line.c_str()); sum += x; ++parts; }
                if (!row.eof()) sim::fail(cls, "unreadable details in line '%s'", line.c_str());
                if (parts && std::abs(sum - time) > (parts + 1) * 0.5001 * std::pow(10.0, -digits)) sim::fail(cls, "action %s took %g s, but its parts add up to %g s: '%s'", act[k].c_str(), time, sum, line.c_str());
                Ref c = product(act[k], m[i], m2[i]); double wmx = 0, wtwo = 0; last = add(c, ref, -1.0); for (double v : last.v) { wmx = std::max(wmx, std::abs(v)); wtwo += v * v; } wtwo = std::sqrt(wtwo);
                double eps = 2 * std::pow(10.0, -digits); // both are printed with limited precision
                if (std::abs(mx - wmx) > eps * wmx || std::abs(two - wtwo) > eps * wtwo) sim::fail(cls, "action %s on matrix %zu reports norms %g and %g, expected %g and %g; settings %s", act[k].c_str(), i, mx, two, wmx, wtwo, json.c_str());
                sim::count(("action " + act[k]).c_str());
            }
            if (diff && act.size() > 1) { std::string f = slurp(("diff_" + std::to_string(i) + ".dat").c_str());
                if (f.size() != last.v.size() * sizeof(double)) sim::fail(t.struck ? "error-not-reported" : "wrong-file", "diff_%zu.dat has %zu bytes instead of %zu", i, f.size(), last.v.size() * sizeof(double));
                for (size_t q = 0; q < last.v.size(); ++q) { double e; memcpy(&e, f.data() + q * sizeof(double), sizeof e); if (e != last.v[q]) sim::fail(t.struck ? "error-not-reported" : "wrong-file", "diff_%zu.dat: element %zu is %g, expected %g", i, q, e, last.v[q]); }
                sim::count("difference files"); }
        }
    }
    void run() { Dir d; uint32_t n = 1 + draw(OPS, 2); for (uint32_t i = 0; i < n; ++i) step(); }
};
SIM_WORLD(bench_values, "tool/benchmark") { BenchWorld w; w.faults = false; w.run(); }
SIM_WORLD(bench_faults, "tool/benchmark-faults") { BenchWorld w; w.faults = true; w.run(); }
SIM_WARMUP(warm) { if (!getenv("SIM_SCRATCH")) return; Dir d;
    spit("benchmark.json", "{\"actions\": {\"native_dense\": {}, \"openblas_dgemm\": {}, \"openblas_sgemm\": {}, \"eigen_dgemm\": {}, \"eigen_sgemm\": {}, \"blasbooster_block\": {}}, \"matrices\": {\"A\": {\"DiagonalBand\": {\"dimension\": [3], \"band_width\": [1], \"value\": 1}}, \"B\": {\"EqualTo\": \"A\"}}}");
    char const* v[] = {"benchmark", "-d", nullptr}; screen_out.reset(); std::streambuf* o = std::cout.rdbuf(&screen_out); { sim::alloc::Target t; tool_main(2, const_cast<char**>(v)); } std::cout.rdbuf(o); }
} // namespace

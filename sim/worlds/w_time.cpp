// World "time" (property C08): seeded nests of scoped timers and trackers while simulated time
// passes, the wall clock is stepped and allocations fail.
#include "../core/sim.h"
#include "BlasBooster/Utilities/ScopedTimer.h"
#include "BlasBooster/Utilities/Tracker.h"
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

using sim::draw; using sim::OPS; using sim::FAULTS;
namespace bb = BlasBooster;

namespace {
struct Leave {};
/// where std::cout goes: its memory does not belong to the code under test
struct Sink : std::streambuf {
    std::string s;
    int overflow(int c) override { sim::alloc::Host h; if (c != EOF) s += char(c); return 0; }
    std::streamsize xsputn(char const* p, std::streamsize n) override { sim::alloc::Host h; s.append(p, n); return n; }
};
struct TimeWorld {
    Sink sink; std::streambuf* old; uint64_t total[3] = {}; size_t calls[3] = {};
    size_t depth = 0;

    void pass() {
        static const uint64_t scale[] = {0, 1, 1000, 1000000, 1000000000ull, 3600000000000ull, 86400ull * 1000000000ull};
        uint64_t s = scale[draw(OPS, 7)]; sim::clk::advance(s ? s * draw(OPS, 1000) / 7 : 0);
        switch (draw(FAULTS, 5)) {
        case 1: sim::clk::step_wall(-int64_t(1 + draw(FAULTS, 1000000)) * 1000000); break;
        case 2: sim::clk::step_wall(int64_t(1 + draw(FAULTS, 1000000)) * 1000000); break;
        case 3: sim::clk::step_wall(-int64_t(1 + draw(FAULTS, 400)) * 86400 * 1000000000ll); break;
        default: break;
        }
    }
    struct Format { std::ios_base::fmtflags f; std::streamsize p; char fill; bool operator==(Format const& o) const { return f == o.f && p == o.p && fill == o.fill; } };
    Format format() { return Format{std::cout.flags(), std::cout.precision(), std::cout.fill()}; }
    void scramble() {
        if (draw(OPS, 2)) std::cout.setf(draw(OPS, 2) ? std::ios_base::scientific : std::ios_base::fixed, std::ios_base::floatfield); else std::cout.unsetf(std::ios_base::floatfield);
        std::cout.precision(draw(OPS, 12)); std::cout.fill(draw(OPS, 2) ? ' ' : '*');
        if (draw(OPS, 4) == 3) std::cout.setf(std::ios_base::hex, std::ios_base::basefield); else std::cout.setf(std::ios_base::dec, std::ios_base::basefield);
        if (draw(OPS, 4) == 3) std::cout.setf(std::ios_base::showpos | std::ios_base::boolalpha | std::ios_base::left); else std::cout.unsetf(std::ios_base::showpos | std::ios_base::boolalpha | std::ios_base::left);
    }
    std::string taken() { std::string s; s.swap(sink.s); return s; }

    void timer() {
        std::string label; static const char* labels[] = {"t", "Total time", "", "a label that is longer than the small buffer of a string", "x: 1 s", "100%s"}; label = labels[draw(OPS, 6)];
        bool def = draw(OPS, 3) == 0; int precision = def ? 6 : int(draw(OPS, 13)); int way = int(draw(OPS, 3)); uint32_t nth = draw(FAULTS, 4);
        uint64_t t0 = 0, t1 = 0; size_t live = sim::alloc::live(); bool oom = false; Format f{}; bool made = false; std::string inner;
        taken();
        sim::alloc::arm(nth);
        try {
            sim::alloc::Target tg;
            t0 = sim::clk::mono();
            auto use = [&](ScopedTimer&) {
                sim::alloc::Host h; sim::alloc::disarm(); made = true;
                if (!taken().empty()) sim::fail("reports", "a timer printed something when it was started");
                pass(); if (draw(OPS, 2) && depth < 4) { ++depth; step(); --depth; inner = taken(); (void)inner; } pass();
                t1 = sim::clk::mono(); f = format();
            };
            if (def) { ScopedTimer t(label); use(t); if (way == 1) throw Leave(); if (way == 2) goto out; }
            else { ScopedTimer t(label, precision); use(t); if (way == 1) throw Leave(); if (way == 2) goto out; }
            out:;
        } catch (std::bad_alloc const&) { oom = true; } catch (Leave const&) { sim::count("left by exception"); }
        sim::alloc::disarm();
        std::string s = taken(); sim::ev("timer %s", s.c_str());
        if (sim::alloc::live() != live) sim::fail("leak", "timer leaked memory");
        if (oom && !made) { sim::count("probe:operation_failed_on_allocation"); if (!s.empty()) sim::fail("reports", "a timer that failed to start printed '%s'", s.c_str()); return; }
        if (!(format() == f)) sim::fail("format", "the number format of std::cout was changed by a timer: flags %x -> %x, precision %ld -> %ld", unsigned(f.f), unsigned(std::cout.flags()), long(f.p), long(std::cout.precision()));
        std::string head = label + ": ";
        size_t nl = 0; for (char c : s) nl += c == '\n';
        if (nl != 1 || s.back() != '\n' || s.compare(0, head.size(), head) || s.size() < head.size() + 4 || s.compare(s.size() - 3, 3, " s\n")) sim::fail("reports", "timer '%s' (precision %d) printed '%s'", label.c_str(), precision, s.c_str());
        std::string n = s.substr(head.size(), s.size() - head.size() - 3); char* e = nullptr; double v = strtod(n.c_str(), &e);
        double want = double(t1 - t0) * 1e-9;
        if (*e || n[0] == '-' || std::fabs(v - want) > 0.5000001 * std::pow(10.0, -precision) + want * 1e-14) sim::fail("wrong-time", "timer with precision %d printed '%s' after %.9f s", precision, s.c_str(), want);
        size_t dot = n.find('.'); size_t digits = dot == std::string::npos ? 0 : n.size() - dot - 1;
        if (digits != size_t(precision)) sim::fail("reports", "timer with precision %d printed '%s'", precision, s.c_str());
        sim::count("timer"); sim::state(sim::mix(way, precision * 10 + int(depth)));
    }
    template <bb::TrackerID ID> void tracker(int k) {
        int way = int(draw(OPS, 3)); uint64_t t0 = sim::clk::mono(), t1 = 0; 
        try {
            auto f = [&] { sim::alloc::Target tg; bb::Tracker<ID> t; sim::alloc::Host h; pass(); if (draw(OPS, 2) && depth < 4) { ++depth; step(); --depth; } pass(); t1 = sim::clk::mono(); if (way == 1) throw Leave(); if (way == 2) return; };
            f();
        } catch (Leave const&) {}
        total[k] += t1 - t0; ++calls[k]; sim::count("tracker");
    }
    void step() {
        switch (draw(OPS, 6)) {
        case 0: case 1: case 2: timer(); break;
        case 3: tracker<bb::TrackerID::get_block_size>(0); break;
        case 4: tracker<bb::TrackerID::Native_sparse>(1); break;
        default: scramble();
        }
    }
    void check_tracker() {
        static const char* names[] = {"get_block_size", "Native_sparse", "Native_zero_zero"};
        for (int rep = 0; rep < 2; ++rep) {
            std::ostringstream o; { sim::alloc::Target tg; bb::TrackerRegister::print(o); }
            size_t n[3] = {}; double t[3] = {}; std::istringstream in(o.str()); std::string line; size_t rows = 0; bool data = false;
            while (std::getline(in, line)) {
                if (line.find("----") == 0) { data = true; continue; } if (!data || line.empty()) continue;
                std::istringstream l(line); std::string name, unit; size_t c; std::string d; if (!(l >> name >> c >> d >> unit) || unit != "ns") sim::fail("reports", "tracker line '%s'", line.c_str());
                int k = -1; for (int i = 0; i < 3; ++i) if (name == names[i]) k = i;
                if (k < 0) sim::fail("reports", "unexpected tracker line '%s'", line.c_str());
                n[k] = c; ++rows; if (d[0] == '-') sim::fail("wrong-time", "negative time in tracker line '%s'", line.c_str()); t[k] = strtod(d.c_str(), nullptr);
                if (d != std::to_string(total[k])) sim::fail("wrong-time", "tracker line '%s' after %llu ns", line.c_str(), (unsigned long long)total[k]);
            }
            for (int i = 0; i < 3; ++i) if (n[i] != calls[i]) sim::fail("wrong-count", "tracker %s printed %zu calls of %zu", names[i], n[i], calls[i]);
        }
    }
    void go() {
        old = std::cout.rdbuf(&sink); sim::clk::advance(1 + draw(OPS, 1000));
        std::cout.exceptions(std::ios_base::goodbit); uint32_t n = 1 + draw(OPS, 10);
        for (uint32_t i = 0; i < n; ++i) { sim::Span sp; sim::steps(1); step(); taken(); pass(); }
        check_tracker();
        std::cout.rdbuf(old);
    }
};
}
SIM_WORLD(time_timers, "time/timers") { static TimeWorld w; w.go(); }

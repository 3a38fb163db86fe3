// Stand-in for the (absent, network-only) BrainTwister/Benchmark package: runs a function a
// configured number of times and reports its average time.
#pragma once
#include "BrainTwister/Record.h"
#include <chrono>
#include <iomanip> // the tools rely on it

namespace BrainTwister {

typedef std::chrono::steady_clock myclock;

class Benchmark
{
public:
    BRAINTWISTER_RECORD(Settings, ((int, repetitions, 1)))
    struct Result { myclock::duration average_time; int repetitions; };

    Benchmark(Settings const& settings = Settings()) : settings(settings) {}

    template <class F> Result benchIt(F f) const
    {
        int n = settings.repetitions < 1 ? 1 : settings.repetitions;
        auto start = myclock::now();
        for (int i = 0; i < n; ++i) f();
        return Result{(myclock::now() - start) / n, n};
    }

private:
    Settings settings;
};

} // namespace BrainTwister

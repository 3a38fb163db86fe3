// The benchmark, unchanged; its main gets another symbol.
int main(int, char**) __asm__("tool_main");
#include "Benchmark/benchmark.cpp"

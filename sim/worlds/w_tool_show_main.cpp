// The pattern tool, unchanged; its main gets another symbol.
int main(int, char**) __asm__("tool_main");
#include "Benchmark/show_pattern.cpp"

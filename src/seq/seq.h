// Exhaustive enumeration of choice trees over the real library code, in one process per worker.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace seq {
// one of n alternatives; every combination is executed
int pick(int n);
[[noreturn]] void fail(const std::string& msg);
void observe(const std::string& outcome); // distinct outcomes are counted
void note(const std::string& what); // shown in replays
bool verbose();
bool thorough();
void input(size_t bytes); // the case works on this many bytes (adds up); limits memory when watchMemory is on
void watchMemory(size_t base, size_t perByte); // peak of live heap above the start of the case
void split(uint64_t n); // at the beginning of a case: work is divided among the workers where that many alternatives have been chosen
void mayTake(int seconds); // of processor time, instead of 10
struct Skip { };

struct Suite {
    const char* prop;
    const char* name;
    std::function<void()> fn;
};
std::vector<Suite>& suites();
struct Reg {
    Reg(const char* p, const char* n, std::function<void()> f) { suites().push_back({ p, n, f }); }
};
}
#define SEQ_CHECK(c, msg)   \
    do {                    \
        if (!(c))           \
            seq::fail(msg); \
    } while (0)

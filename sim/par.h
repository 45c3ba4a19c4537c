// Threads under a scheduler: every task is a thread of its own (so that thread-local data is what it would be), but
// only one of them runs at a time, and who runs is decided at "points" - the basic blocks of the library (its code is
// compiled with -fsanitize-coverage=trace-pc), its allocations, its file operations and its locks - by a plan that is
// a pure function of the trace. The same plan on the same code is the same execution.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace par {
struct Plan {
    std::vector<uint64_t> at; // numbers of the points at which the running task is preempted, ascending
    uint64_t seed = 1;        // who goes on
    uint64_t patience = 1000000; // points after which a task is preempted in any case (somebody may be spinning)
};
struct Report {
    uint64_t points = 0, switches = 0, trail = 0;
};
Report run(const std::vector<std::function<void()>>& tasks, const Plan& plan);
bool in_task();
uint64_t work(); // basic blocks of the library that ran outside of tasks, in builds that announce them
void point(); // called inside library code only
} // namespace par

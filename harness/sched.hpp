// Controlled scheduler + happens-before race detector + heap checker for code compiled with
// -fsanitize=thread but linked against the runtime in sched.cpp instead of libtsan.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace sched {

// Runs the bodies as real threads, one at a time; every interleaving of their visible operations
// (atomics, mutexes, rwlocks, condition variables, yield(), thread exit) with at most
// `preemption_bound` preemptions is enumerated through mc::choose.
void run(std::vector<std::function<void()>> bodies, int preemption_bound);

void yield_point(const char* what = "user"); // extra scheduling point inside user callbacks
int self();                 // id of the running controlled thread, -1 outside run()
unsigned long now();        // logical time, strictly increasing with every call
int steps();                // visible operations so far in this execution

// One execution of the race/heap monitor; everything between begin and end is monitored.
void begin_execution();
void end_execution();       // frees the quarantine
std::size_t live_allocations(); // blocks allocated since begin_execution and not yet freed

// Harness bookkeeping that must not itself look like shared data of the code under test.
struct event
{
    int kind, a, b, c, thread;
};
void log(int kind, int a = 0, int b = 0, int c = 0);
std::size_t log_size();
event log_at(std::size_t i);
void log_clear();
int counter_add(int index, int delta); // returns the new value, index < 64
int counter_get(int index);
void counters_clear();
extern const char* (*event_name)(int);
} // namespace sched

// A deterministic scheduler: the threads of the program run one at a time, and at every lock, wait, notify, yield,
// sleep, atomic access and (now and then) plain memory access a seeded choice decides who continues.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace sched {
void begin(uint64_t seed, std::function<void(const char*)> on_stuck);  // the calling thread is number 0
void end();                                                            // all others must be gone
void point();
int self();
void log(const char* json);              // an event, in the order things happen
void print(const char* stuck);           // "@{log, stuck, steps}" to standard output
uint64_t steps();
}  // namespace sched

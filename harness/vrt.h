// vrt: deterministic user-space scheduler for real multi-threaded C++ code.
//
// Scenario code and the library under test are compiled with -fsanitize=thread
// (instrumentation only) and linked against vrt.cpp instead of libtsan.  All
// std::thread's become fibers on one OS thread; every atomic access, mutex,
// condition variable, futex, sleep and clock access is a controlled scheduling
// point.  See vrt.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace vrt {

// Append one JSON record to the trace of this run (printf style).  Not a
// scheduling point.
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Before a query that is recorded by one event after its load: the query sees everything that was recorded so far, and nobody
// else runs until the event (the weak memory model otherwise orders only what happens after an event of this thread).
void fence();
// Explicit scheduling point.
void point();
// Id of the running fiber (0 = the scenario's main).
int tid();
// Record event e with the id of every thread the calling one creates from now on (nullptr: no longer).
void spawn_event(const char* e);
// Virtual time in milliseconds.
// Terminate the run right now (the trace keeps what was recorded so far).
[[noreturn]] void stop_run();
// A choice made by the explorer (0..n-1); not counted as a preemption.
int choice(int n);
// Sleep until virtual time advanced by ms, and wait until every other fiber is
// blocked (or finished).  settle() does not let time pass.
void settle();
// Number of blocks currently allocated in this run.
long live_blocks();
// Exclude what is currently allocated from the leak check.
void forgive_leaks();
// Turn off race checking for a driver-owned region.
void no_race(void* p, size_t n);

// --- provided by the scenario ---------------------------------------------
// parse the program (called once, outside of a run)
}
void scenario_load(const std::string& program);
// run it (called once per explored schedule, on fiber 0)
void scenario_main();

// mcsched.h - controlled scheduling of real threads for harnesses compiled with -fsanitize=thread.
//
// Only one thread of a run is ever allowed to proceed.  The compiler's thread-sanitizer callbacks are
// implemented by mcsched_rt.cpp (libtsan is not linked): every plain access inside a mc::Lib scope is checked
// against a vector-clock happens-before relation, and every synchronisation operation (atomic access, lock,
// guarded initialisation) - on request also every heap call and every function entry - is a scheduling point
// at which mc::choose decides which thread runs next.  Switching away from a thread that could continue costs
// one preemption; all schedules within the preemption bound are explored.
#pragma once
#include "mc.h"
namespace sched {
struct Opt { int preemptions = 2; bool heap_points = false; bool func_points = false; };
// runs the bodies as threads under every schedule within the bound (call once per execution);
// a data race, deadlock or failed check ends the execution through mc::fail
void run(const std::vector<std::function<void()>> &bodies, const Opt &o = Opt());
// returns the library's global data to its state at process start (call before the library is first used)
void begin();
void point(const char *what);           // an explicit scheduling point
int self();                             // index of the running body, -1 outside a run
uint64_t accesses();                    // plain accesses checked so far in this process
}

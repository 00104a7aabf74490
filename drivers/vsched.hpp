// Controlled execution of concurrent code.
//
// The code under test is compiled with -fsanitize=thread but linked with the
// runtime in vsched.cpp instead of the sanitizer's: every memory access of it
// is a point where another thread may be chosen.  Threads are coroutines;
// pthread and semaphore calls are redirected with -Wl,--wrap (see vsched.py
// for the list), keep their state in the primitives themselves and never
// block the process.  The order of execution is therefore decided completely
// by a Strategy and can be enumerated and repeated.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vs
{

// How one execution ended.
enum class End { FINISHED, STUCK, ENDLESS };

struct Options
{
	uint64_t seed = 1;
	long executions = 200; // at most this many executions per exploration
	int preemptions = 2;   // bound of the systematic part
	long interrupts = 0;   // how many sem_wait calls may be interrupted by a signal
	long failures = 0;     // how many thread creations may fail
	long steps = 20000;    // points per execution before fair scheduling takes over
};

struct Execution
{
	End end;
	std::vector<std::string> events;
	std::vector<std::string> faults; // use of freed memory, misuse of primitives
};

// Runs `body` as the first thread again and again under different schedules.
void explore(const Options &options, const std::function<void()> &body,
		const std::function<void(const Execution &)> &done);

// --- inside an execution ---
int spawn(std::function<void()> f);  // new thread, not visible to pthread_join
void point();                        // another thread may run here
void yield();                        // let somebody else run if anybody can
void block(const void *on);          // until wake(on)
void wake(const void *on);
int self();
bool active();
void event(std::string e);           // append to the execution's record
void fault(std::string e);
size_t choose(size_t n);             // nondeterministic choice made by the strategy
long failed();                       // creations that were made to fail

// When set, every thread created must have been joined or detached in the end.
extern bool accountThreads;
// When set, runs at every point of the thread that called interruptible(true).
extern std::function<void()> handler;
void interruptible(long at);         // run `handler` at the at-th point from now
long points();                       // points passed since interruptible()

} // namespace vs

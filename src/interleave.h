// Controlled scheduler: runs real threads one at a time. Every access to shared
// memory of the code compiled with -fsanitize=thread (whose callbacks sched.cpp
// implements instead of the ThreadSanitizer runtime), every lock operation,
// atomic operation and stream operation is a scheduling point whose outcome is
// an enumerated choice, up to a bound on the preemptions. Happens-before is
// tracked with vector clocks: conflicting accesses that are not ordered are
// reported as data races.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace sched {
	/// Run the threads to their end, every interleaving with at most
	/// @preemptions preemptions being enumerated.
	/// Returns a description of the first data race, or "".
	std::string run(const std::vector<std::function<void()>>& threads, int preemptions);
	/// Index of the running thread, -1 if it is not controlled.
	int self();
	/// The harness's own bookkeeping: not scheduled, not monitored.
	struct Quiet {
		Quiet();
		~Quiet();
	};
	/// Scheduling points and context switches of the last run.
	extern int points, switches;
}

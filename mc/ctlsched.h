// A cooperative scheduler over real threads: only one runs at a time, and every synchronization operation of the
// instrumented library (mutexes, read-write locks, once, static guards, condition variables, atomics) is a scheduling point.
// Hand-over uses raw futexes, which ThreadSanitizer does not see: its happens-before relation is the program's own.
#pragma once
extern "C" {
struct SchedDecision { unsigned char cur, cur_enabled, voluntary, chosen; unsigned enabled; };
enum { SCHED_MAX = 1 << 16 };
extern SchedDecision sched_trace[SCHED_MAX];
extern int sched_len;          // decisions taken
extern int sched_points;       // scheduling points passed
extern int sched_deadlock;     // 1: every unfinished thread is blocked
extern int sched_diverged;     // the prescribed choice was not enabled
void sched_begin(int threads, const unsigned char *prefix, int n);
void sched_enter(int me);      // first thing a controlled thread does
void sched_leave();            // last thing
void sched_step();             // an explicit scheduling point (between operations)
void sched_wait();             // run until all threads left or deadlock
}

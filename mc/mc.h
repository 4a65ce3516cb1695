// mc.h - stateless model checking of real multi-threaded code.
// The code under test is compiled with -fsanitize=thread but linked with this runtime instead of
// ThreadSanitizer's: threads become fibers of one kernel thread, every atomic operation, lock, thread
// start and join is a scheduling point, and explore() runs the body under every inequivalent
// interleaving of those points (dynamic partial-order reduction with sleep sets), each in a forked
// child that starts from the same memory image.  Plain memory accesses are checked for data races
// with vector clocks, so that interleaving the scheduling points alone is enough.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
namespace mc
	{
	struct result
		{
		uint64_t schedules, blocked, transitions, longest; bool complete;
		bool failed; char kind[40]; char message[2000]; char schedule[1200];
		};
	typedef void (*body_function)(void *);
	// preemptions < 0: every interleaving; otherwise those with at most that many preemptive switches
	void explore(body_function body, void *argument, int preemptions, uint64_t max_schedules, result &r, void (*progress)(void) = nullptr);
	void fail(const char *kind, const char *format, ...);		// called by the body: the property does not hold under this schedule
	bool exploring();											// inside a body
	bool owned(const void *p, size_t n);						// p..p+n lies inside one block malloc()ed by the body and not freed
	extern void (*on_exit)(void);								// called when the body calls exit(); when it returns the execution has ended properly
	extern int fail_malloc_at;									// the n-th (from 0) malloc of the body returns NULL (negative: none)
	}
#endif

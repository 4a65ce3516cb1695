// mc.cpp - see mc.h.  Deliberately free of the C++ library: inline functions of it compiled here would
// replace the instrumented copies in the code under test.
#include "mc.h"
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long long a64;
extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t); size_t __real_strlen(const char *); }

namespace mc
	{
	enum { MAXT = 5, MAXD = 20000, SPIN = 400 };
	enum kind_t : uint8_t { READ, WRITE, CREATE, START, EXIT, JOIN, LOCK, UNLOCK, YIELD };
	static const char *KIND[] = {"load", "store/rmw", "create", "start", "exit", "join", "lock", "unlock", "yield"};
	struct op { uint64_t addr; uint8_t kind; };
	struct entry { op o; uint8_t tid; uint8_t enabled; };
	struct sleeper { uint8_t mask; op o[MAXT]; };
	struct channel
		{
		// parent to child
		int prefix_len; uint8_t prefix[MAXD]; sleeper before_last;
		// child to parent
		volatile int len; entry trace[MAXD];
		volatile int status;				// 0 running, 1 done, 2 sleep-blocked, 3 failed
		char kind[40]; char message[2000];
		};
	static channel *shm;
	static inline bool dependent(const op &a, const op &b)
		{
		if (a.addr != b.addr) return false;
		return !(a.kind == READ && b.kind == READ);
		}

	/* ------------------------------------------------------------------ child side: fibers */
	struct fiber
		{
		void *sp; void *stack; void *(*entry)(void *); void *arg, *ret;
		bool used, finished, joined; op pending; uint64_t target;
		uint32_t vc[MAXT], acq[MAXT], rel[MAXT];
		void *eh[2];
		};
	static fiber F[MAXT];
	static int current, created, unjoined;
	static bool inside = false;
	void (*on_exit)(void) = nullptr;
	struct block { char *p; size_t n; bool freed; };
	enum { BLOCKS = 4096 };
	static block B[BLOCKS]; static int blocks;
	bool owned(const void *p, size_t n) { for (int i = 0; i < blocks; i++) if (!B[i].freed && (const char *)p >= B[i].p && (const char *)p + n <= B[i].p + B[i].n) return true; return false; }
	int fail_malloc_at = -1;
	static int mallocs;
	bool exploring() { return inside; }
	struct mutex_state { uint64_t addr; int owner; int depth; uint32_t vc[MAXT]; };
	static mutex_state M[64]; static int mutexes;
	static sleeper sleeping;

	extern "C" void mc_switch(void **save, void *load);
	asm(R"(
	.text
	.globl mc_switch
	mc_switch:
		pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
		subq $8, %rsp
		stmxcsr (%rsp)
		fnstcw 4(%rsp)
		movq %rsp, (%rdi)
		movq %rsi, %rsp
		ldmxcsr (%rsp)
		fldcw 4(%rsp)
		addq $8, %rsp
		popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
		ret
	)");
	extern "C" void **__cxa_get_globals(void) noexcept;
	static void finish(int status) { shm->status = status; _exit(0); }
	void fail(const char *kind, const char *format, ...)
		{
		va_list ap; va_start(ap, format); vsnprintf(shm->message, sizeof shm->message, format, ap); va_end(ap);
		snprintf(shm->kind, sizeof shm->kind, "%s", kind);
		finish(3);
		}
	static mutex_state &mutex_of(uint64_t a)
		{
		for (int i = 0; i < mutexes; i++) if (M[i].addr == a) return M[i];
		if (mutexes == 64) fail("limit", "too many mutexes");
		M[mutexes].addr = a; M[mutexes].owner = -1; M[mutexes].depth = 0;
		return M[mutexes++];
		}
	static bool enabled(int t)
		{
		fiber &f = F[t];
		if (!f.used || f.finished) return false;
		if (f.pending.kind == JOIN) return F[f.target].finished;
		if (f.pending.kind == LOCK) return mutex_of(f.pending.addr).owner < 0;
		return true;
		}
	static void to(int t)
		{
		if (t == current) return;
		int old = current; current = t;
		void **g = __cxa_get_globals();
		F[old].eh[0] = g[0]; F[old].eh[1] = g[1]; g[0] = F[t].eh[0]; g[1] = F[t].eh[1];
		mc_switch(&F[old].sp, F[t].sp);
		}
	static int run_length, run_tid;
	// the pending operation of the current thread is known: let the schedule decide who goes next
	static void point()
		{
		for (;;)
			{
			uint8_t mask = 0; bool live = false;
			for (int t = 0; t < created; t++) { if (enabled(t)) mask |= 1 << t; if (F[t].used && !F[t].finished) live = true; }
			int d = shm->len, t = -1;
			if (d >= MAXD) fail("hang", "more than %d scheduling points in one execution", MAXD);
			if (!mask) fail("deadlock", "%s", live ? "every thread is waiting" : "no thread left");
			if (d < shm->prefix_len)
				{
				t = shm->prefix[d];
				if (!(mask >> t & 1)) fail("divergence", "the execution did not repeat itself at point %d", d);
				if (d == shm->prefix_len - 1) sleeping = shm->before_last;
				}
			else
				{
				uint8_t c = mask & ~sleeping.mask;
				if (!c) finish(2);
				if (c >> current & 1 && !(run_tid == current && run_length > SPIN && (c & ~(1 << current)))) t = current;
				else { for (int i = 1; i <= created; i++) { int x = (current + i) % created; if (c >> x & 1) { t = x; break; } } }
				}
			// t performs its pending operation next
			op o = F[t].pending;
			for (int q = 0; q < created; q++) if (sleeping.mask >> q & 1 && (q == t || dependent(sleeping.o[q], o))) sleeping.mask &= ~(1 << q);
			entry &e = shm->trace[d]; e.o = o; e.tid = t; e.enabled = mask; shm->len = d + 1;
			if (run_tid == t) run_length++; else { run_tid = t; run_length = 0; }
			to(t);
			return;
			}
		}
	static inline bool concurrent() { return inside && unjoined > 0; }
	static void visible(uint64_t addr, kind_t kind, uint64_t target = 0)
		{
		fiber &f = F[current]; f.pending.addr = addr; f.pending.kind = kind; f.target = target;
		point();
		}

	/* ------------------------------------------------------------------ vector clocks and races */
	static inline void join(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
	struct byte_shadow { uint32_t w[MAXT], r[MAXT], aw[MAXT], ar[MAXT]; };
	struct group { uint64_t key; uint8_t dead; byte_shadow b[8]; };
	enum { GROUPS = 1 << 18 };
	static group *shadow; static uint32_t groups, *slots;		// slots: hash table of 1 + index into shadow, which fills up in order
	static group &group_of(uint64_t key)
		{
		uint64_t h = ((key >> 3) * 0x9E3779B97F4A7C15ull) >> (64 - 15);
		h = (h << 3 | (key & 7)) & (GROUPS - 1);
		while (slots[h] && shadow[slots[h] - 1].key != key) h = (h + 1) & (GROUPS - 1);
		if (!slots[h]) { shadow[groups].key = key; slots[h] = ++groups; if (groups > GROUPS * 3 / 4) fail("limit", "shadow memory is full"); }
		return shadow[slots[h] - 1];
		}
	static void race(uint64_t a, const char *mine, int other, const char *theirs)
		{
		fail("race", "data race: thread %d %s %p while thread %d %s it without synchronisation", current, mine, (void *)a, other, theirs);
		}
	enum access_t { PR, PW, AR, AW };
	static const char *ACC[] = {"reads", "writes", "atomically reads", "atomically writes"};
	static inline void touch(uint64_t a, size_t n, access_t how)
		{
		uint32_t *c = F[current].vc;
		for (uint64_t at = a; at < a + n; )
			{
			group &g = group_of((at >> 3) + 1);
			do
				{
				byte_shadow &s = g.b[at & 7];
				if (g.dead >> (at & 7) & 1) fail("use after free", "thread %d %s %p, which has been freed", current, ACC[how], (void *)at);
				for (int t = 0; t < created; t++)
					{
					if (t == current) continue;
					if (s.w[t] > c[t]) race(at, ACC[how], t, ACC[PW]);
					if (how != AR && how != AW && s.aw[t] > c[t]) race(at, ACC[how], t, ACC[AW]);
					if (how == PW || how == AW) { if (s.r[t] > c[t]) race(at, ACC[how], t, ACC[PR]); }
					if (how == PW && s.ar[t] > c[t]) race(at, ACC[how], t, ACC[AR]);
					}
				(how == PR ? s.r : how == PW ? s.w : how == AR ? s.ar : s.aw)[current] = c[current];
				at++;
				}
			while (at < a + n && (at & 7));
			}
		}
	static inline bool on_a_stack(uint64_t a) { for (int t = 1; t < created; t++) if (a >= (uint64_t)F[t].stack && a < (uint64_t)F[t].stack + (8u << 20)) return t == current; return false; }
	static inline void plain(const volatile void *p, size_t n, bool w)
		{
		if (!concurrent() || !n) return;
		uint64_t a = (uint64_t)p;
		if (on_a_stack(a)) return;
		if (n > 65536) n = 65536;
		touch(a, n, w ? PW : PR);
		}
	// release clocks of atomic objects and other synchronisation objects
	struct sync { uint64_t addr; uint32_t vc[MAXT]; };
	enum { SYNCS = 1 << 16 };
	static sync *S; static uint32_t syncs, *sync_slots;
	static sync &sync_of(uint64_t a)
		{
		uint64_t h = ((a >> 6) * 0x9E3779B97F4A7C15ull) >> (64 - 10);
		h = (h << 6 | (a & 63)) & (SYNCS - 1);
		while (sync_slots[h] && S[sync_slots[h] - 1].addr != a) h = (h + 1) & (SYNCS - 1);
		if (!sync_slots[h]) { S[syncs].addr = a; sync_slots[h] = ++syncs; if (syncs > SYNCS * 3 / 4) fail("limit", "too many atomic objects"); }
		return S[sync_slots[h] - 1];
		}
	static inline bool acquires(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static inline bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static void atomic_before(const volatile void *p, size_t n, bool w)
		{
		visible((uint64_t)p, w ? WRITE : READ);
		touch((uint64_t)p, n, w ? AW : AR);
		}
	static void did_load(const volatile void *p, int mo)
		{
		fiber &f = F[current]; sync &s = sync_of((uint64_t)p);
		join(f.acq, s.vc); if (acquires(mo)) join(f.vc, s.vc);
		}
	static void did_store(const volatile void *p, int mo, bool rmw)
		{
		fiber &f = F[current]; sync &s = sync_of((uint64_t)p);
		if (!rmw) memset(s.vc, 0, sizeof s.vc);
		join(s.vc, releases(mo) ? f.vc : f.rel);
		f.vc[current]++;
		}

	/* ------------------------------------------------------------------ threads */
	static void first_steps()
		{
		int me = current;
		join(F[me].vc, sync_of((uint64_t)&F[me]).vc);
		F[me].ret = F[me].entry(F[me].arg);
		visible((uint64_t)&F[me].finished, EXIT);
		join(sync_of((uint64_t)&F[me].finished).vc, F[me].vc);
		F[me].finished = true;
		point();				// never comes back
		abort();
		}
	static int create(void *(*f)(void *), void *arg)
		{
		if (created == MAXT) fail("limit", "too many threads");
		int t = created++;
		fiber &n = F[t]; memset(&n, 0, sizeof n);
		n.stack = mmap(0, 8 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		n.entry = f; n.arg = arg; n.vc[t] = 1;
		uint64_t *sp = (uint64_t *)((char *)n.stack + (8 << 20) - 64);
		*--sp = 0; *--sp = (uint64_t)first_steps;
		sp -= 6; memset(sp, 0, 48);
		sp -= 1; uint32_t csr; uint16_t cw; asm volatile("stmxcsr %0" : "=m"(csr)); asm volatile("fnstcw %0" : "=m"(cw));
		((uint32_t *)sp)[0] = csr; ((uint32_t *)sp)[1] = cw;
		n.sp = sp;
		unjoined++;
		visible((uint64_t)&n, CREATE);
		n.used = true; n.pending.addr = (uint64_t)&n; n.pending.kind = START;
		join(sync_of((uint64_t)&n).vc, F[current].vc); F[current].vc[current]++;
		return t;
		}
	static void *join_thread(int t)
		{
		visible((uint64_t)&F[t].finished, JOIN, t);
		join(F[current].vc, F[t].vc);
		if (!F[t].joined) { F[t].joined = true; unjoined--; }
		return F[t].ret;
		}
	static void lock(void *m)
		{
		mutex_state &s = mutex_of((uint64_t)m);
		if (s.owner == current) { s.depth++; return; }
		visible((uint64_t)m, LOCK);
		mutex_state &n = mutex_of((uint64_t)m);
		n.owner = current; n.depth = 1; join(F[current].vc, n.vc);
		}
	static void unlock(void *m)
		{
		mutex_state &s = mutex_of((uint64_t)m);
		if (s.owner != current) return;
		if (--s.depth) return;
		visible((uint64_t)m, UNLOCK);
		mutex_state &n = mutex_of((uint64_t)m);
		join(n.vc, F[current].vc); F[current].vc[current]++; n.owner = -1;
		}

	/* ------------------------------------------------------------------ parent side: exploration */
	struct node { uint8_t chosen, enabled, backtrack, done; int preemptions; op chosen_op; op done_op[MAXT]; sleeper sleep; };
	static node *N; static int depth;
	static uint32_t (*HB)[MAXT];			// per event: for each thread, 1 + index of its latest event that happens before (or is) it
	static void analyse(int from)
		{
		int L = shm->len;
		static uint32_t last[MAXT][MAXT];
		uint32_t cur[MAXT][MAXT]; memset(cur, 0, sizeof cur);
		for (int j = 0; j < L; j++)
			{
			entry &e = shm->trace[j]; int t = e.tid;
			uint32_t base[MAXT]; memcpy(base, cur[t], sizeof base);
			// walk back over dependent events of other threads; adjacent ones that are not ordered otherwise are reversible races
			for (int i = j - 1; i >= 0; i--)
				{
				entry &x = shm->trace[i];
				if (x.tid == t || !dependent(x.o, e.o)) continue;
				if ((uint32_t)i < base[x.tid]) continue;				// ordered already
				int r = i; bool skip = false;
				if ((x.o.kind == CREATE && e.o.kind == START) || (x.o.kind == EXIT && e.o.kind == JOIN)) skip = true;
				if (x.o.kind == UNLOCK && e.o.kind == LOCK)
					{
					int k = i - 1; for (; k >= 0; k--) if (shm->trace[k].tid == x.tid && shm->trace[k].o.addr == x.o.addr && shm->trace[k].o.kind == LOCK) break;
					r = k; if (k < 0 || (uint32_t)k < cur[t][x.tid]) skip = true;
					}
				if (!skip && j >= from)
					{
					// the first event after r that does not depend on it, or else j itself
					int first = -1;
					for (int k = r + 1; k < j && first < 0; k++)
						if (HB[k][shm->trace[r].tid] < (uint32_t)r + 1) first = shm->trace[k].tid;
					// all initials of the sequence: threads whose first event in it has no predecessor in it
					uint8_t initials = 0; uint8_t seen = 0;
					for (int k = r + 1; k <= j; k++)
						{
						if (k < j && HB[k][shm->trace[r].tid] >= (uint32_t)r + 1) continue;
						int q = shm->trace[k].tid; if (seen >> q & 1) continue; seen |= 1 << q;
						bool initial = true;
						for (int m = r + 1; m < k && initial; m++)
							if (HB[m][shm->trace[r].tid] < (uint32_t)r + 1 && shm->trace[m].tid != q)
								{ uint32_t *h = k == j ? base : HB[k]; if (h[shm->trace[m].tid] >= (uint32_t)m + 1) initial = false; }
						if (initial) initials |= 1 << q;
						}
					if (first < 0) first = t;
					if (!(N[r].backtrack & initials))
						{
						if (N[r].enabled >> first & 1) N[r].backtrack |= 1 << first;
						else N[r].backtrack |= N[r].enabled;
						}
					}
				for (int q = 0; q < MAXT; q++) if (HB[i][q] > base[q]) base[q] = HB[i][q];
				}
			base[t] = j + 1;
			memcpy(HB[j], base, sizeof base); memcpy(cur[t], base, sizeof base);
			}
		(void)last;
		}
	static void become_child(body_function body, void *argument)
		{
		signal(SIGALRM, SIG_DFL); alarm(60);
		shadow = (group *)mmap(0, sizeof(group) * (size_t)GROUPS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		slots = (uint32_t *)mmap(0, sizeof(uint32_t) * (size_t)GROUPS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		sync_slots = (uint32_t *)mmap(0, sizeof(uint32_t) * (size_t)SYNCS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		S = (sync *)mmap(0, sizeof(sync) * (size_t)SYNCS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		memset(F, 0, sizeof F); created = 1; current = 0; unjoined = 0; F[0].used = true; F[0].vc[0] = 1; run_tid = -1; mutexes = 0; mallocs = 0; blocks = 0; groups = 0; syncs = 0;
		sleeping.mask = 0;
		if (shm->prefix_len == 0) sleeping.mask = 0;
		inside = true;
		body(argument);
		inside = false;
		finish(1);
		}
	void explore(body_function body, void *argument, int bound, uint64_t max_schedules, result &r, void (*progress)(void))
		{
		memset(&r, 0, sizeof r);
		if (!shm)
			{
			shm = (channel *)mmap(0, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			N = (node *)mmap(0, sizeof(node) * MAXD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			HB = (uint32_t (*)[MAXT])mmap(0, sizeof(*HB) * MAXD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			}
		depth = 0; shm->prefix_len = 0;
		for (;;)
			{
			shm->len = 0; shm->status = 0; shm->kind[0] = shm->message[0] = 0;
			pid_t pid = fork();
			if (pid == 0) become_child(body, argument);
			if (pid < 0) { r.failed = true; strcpy(r.kind, "limit"); strcpy(r.message, "fork failed"); return; }
			int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
			if (progress) progress();
			r.schedules++; r.transitions += shm->len;
			if ((uint64_t)shm->len > r.longest) r.longest = shm->len;
			int status = shm->status;
			if (status == 0)
				{
				status = 3;
				if (WIFSIGNALED(st)) { snprintf(shm->kind, 40, WTERMSIG(st) == SIGALRM ? "hang" : "crash"); snprintf(shm->message, 200, "the execution ended with signal %d", WTERMSIG(st)); }
				else { snprintf(shm->kind, 40, "exit"); snprintf(shm->message, 200, "the program called exit (status %d)", WEXITSTATUS(st)); }
				}
			if (status == 3)
				{
				r.failed = true; snprintf(r.kind, sizeof r.kind, "%s", shm->kind); snprintf(r.message, sizeof r.message, "%s", shm->message);
				size_t n = 0;
				for (int i = 0; i < shm->len && n + 30 < sizeof r.schedule; i++)
					{
					if (i && shm->trace[i].tid == shm->trace[i - 1].tid) continue;
					n += snprintf(r.schedule + n, sizeof r.schedule - n, "%s%d:T%d(%s)", i ? " " : "", i, shm->trace[i].tid, KIND[shm->trace[i].o.kind]);
					}
				return;
				}
			if (status == 2) r.blocked++;
			// new nodes
			int L = shm->len, from = depth;
			for (int d = depth ? depth - 1 : 0; d < L; d++)
				{
				node &n = N[d]; entry &e = shm->trace[d];
				if (d >= depth)
					{
					n.chosen = e.tid; n.enabled = e.enabled; n.backtrack = bound >= 0 ? e.enabled : 1 << e.tid; n.done = 0; n.sleep.mask = 0;
					if (d && bound < 0) { node &p = N[d - 1]; n.sleep = p.sleep; for (int q = 0; q < MAXT; q++) if (p.done >> q & 1 && q != p.chosen) { n.sleep.mask |= 1 << q; n.sleep.o[q] = p.done_op[q]; }
						for (int q = 0; q < MAXT; q++) if (n.sleep.mask >> q & 1 && (q == p.chosen || dependent(n.sleep.o[q], p.chosen_op))) n.sleep.mask &= ~(1 << q); }
					n.preemptions = d ? N[d - 1].preemptions : 0;
					if (d && e.tid != N[d - 1].chosen && (e.enabled >> N[d - 1].chosen & 1)) n.preemptions++;
					}
				n.chosen_op = e.o;
				}
			depth = L;
			if (bound < 0) analyse(from ? from - 1 : 0);
			// next schedule: deepest node with something left to try
			int found = -1;
			while (depth > 0 && found < 0)
				{
				node &n = N[depth - 1];
				n.done |= 1 << n.chosen; n.done_op[n.chosen] = n.chosen_op;
				uint8_t todo = n.backtrack & ~n.done & n.enabled; uint8_t asleep = n.sleep.mask;
				for (int q = 0; q < MAXT; q++)
					{
					if (!(todo >> q & 1) || (asleep >> q & 1)) continue;
					int p = depth > 1 ? N[depth - 2].preemptions + (q != N[depth - 2].chosen && (n.enabled >> N[depth - 2].chosen & 1) ? 1 : 0) : 0;
					if (bound >= 0 && p > bound) { n.done |= 1 << q; continue; }
					found = q; n.chosen = q; n.preemptions = p;
					break;
					}
				if (found < 0) depth--;
				}
			if (found < 0) { r.complete = true; return; }
			if (r.schedules >= max_schedules) { r.complete = false; return; }
			shm->prefix_len = depth;
			for (int d = 0; d < depth; d++) shm->prefix[d] = N[d].chosen;
			node &n = N[depth - 1];
			shm->before_last = n.sleep;
			if (bound < 0) for (int q = 0; q < MAXT; q++) if (n.done >> q & 1 && q != n.chosen) { shm->before_last.mask |= 1 << q; shm->before_last.o[q] = n.done_op[q]; }
			}
		}
	}
using namespace mc;

/* ---------------------------------------------------------------------- ThreadSanitizer's interface */
extern "C"
{
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define PLAIN(n) \
	void __tsan_read##n(void *p) { plain(p, n, false); } void __tsan_write##n(void *p) { plain(p, n, true); } \
	void __tsan_unaligned_read##n(void *p) { plain(p, n, false); } void __tsan_unaligned_write##n(void *p) { plain(p, n, true); } \
	void __tsan_volatile_read##n(void *p) { plain(p, n, false); } void __tsan_volatile_write##n(void *p) { plain(p, n, true); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_read_range(void *p, unsigned long n) { plain(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { plain(p, n, true); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) plain(p, 8, true); }
void __tsan_vptr_read(void **p) { plain(p, 8, false); }
void __tsan_atomic_signal_fence(int) {}
void __tsan_atomic_thread_fence(int mo)
	{
	if (!concurrent()) return;
	fiber &f = F[current];
	if (acquires(mo)) join(f.vc, f.acq);
	if (releases(mo)) { memcpy(f.rel, f.vc, sizeof f.rel); f.vc[current]++; }
	}
#define ATOMIC(T, n) \
	T __tsan_atomic##n##_load(const volatile T *p, int mo) { if (!concurrent()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); atomic_before(p, sizeof(T), false); did_load(p, mo); return *p; } \
	void __tsan_atomic##n##_store(volatile T *p, T v, int mo) { if (!concurrent()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } atomic_before(p, sizeof(T), true); *p = v; did_store(p, mo, false); } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) \
		{ \
		if (!concurrent()) return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
		atomic_before(p, sizeof(T), true); \
		if (*p == *c) { did_load(p, mo); *p = v; did_store(p, mo, true); return 1; } \
		did_load(p, fmo); *c = *p; return 0; \
		} \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) { return __tsan_atomic##n##_compare_exchange_strong(p, c, v, mo, fmo); } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) { __tsan_atomic##n##_compare_exchange_strong(p, &c, v, mo, fmo); return c; } \
	RMW(T, n, exchange, v) RMW(T, n, fetch_add, old + v) RMW(T, n, fetch_sub, old - v) RMW(T, n, fetch_and, old & v) RMW(T, n, fetch_or, old | v) RMW(T, n, fetch_xor, old ^ v) RMW(T, n, fetch_nand, ~(old & v))
#define RMW(T, n, name, expr) \
	T __tsan_atomic##n##_##name(volatile T *p, T v, int mo) { bool con = concurrent(); if (con) { atomic_before(p, sizeof(T), true); did_load(p, mo); } T old = *p; *p = (T)(expr); if (con) did_store(p, mo, true); return old; }
ATOMIC(a8, 8) ATOMIC(a16, 16) ATOMIC(a32, 32) ATOMIC(a64, 64)

/* memory functions */
void *__wrap_memcpy(void *d, const void *s, size_t n) { plain(s, n, false); plain(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { plain(s, n, false); plain(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { plain(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n)
	{
	if (concurrent()) { size_t m = 0; while (m < n && ((const char *)a)[m] == ((const char *)b)[m]) m++; if (m < n) m++; plain(a, m, false); plain(b, m, false); }
	return __real_memcmp(a, b, n);
	}
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); plain(s, n + 1, false); return n; }
/* allocation: inside an execution nothing is ever really freed, so that use after free is seen */
static bool from_new;
void *__wrap_malloc(size_t n)
	{
	if (!inside) return __real_malloc(n);
	if (!from_new && mallocs++ == fail_malloc_at) return nullptr;
	size_t *p = (size_t *)__real_malloc(n + 16);
	if (!p) return p;
	p[0] = n; p[1] = 0x6D636D636D636D63ull;
	if (blocks < BLOCKS) { B[blocks].p = (char *)(p + 2); B[blocks].n = n; B[blocks++].freed = false; }
	return p + 2;
	}
static void tombstone(void *q)
	{
	size_t *p = (size_t *)q - 2;
	if (p[1] == 0x6465616464656164ull) fail("double free", "%p was freed twice", q);
	if (p[1] != 0x6D636D636D636D63ull) { return; }
	p[1] = 0x6465616464656164ull;
	for (int i = 0; i < blocks; i++) if (B[i].p == (char *)q) B[i].freed = true;
	if (!concurrent()) return;
	size_t n = p[0] > 65536 ? 65536 : p[0];
	plain(q, n, true);
	for (uint64_t at = (uint64_t)q; at < (uint64_t)q + n; at++) group_of((at >> 3) + 1).dead |= 1 << (at & 7);
	}
void __wrap_free(void *p) { if (!inside) { __real_free(p); return; } if (p) tombstone(p); }
void *__wrap_calloc(size_t a, size_t b) { if (!inside) return __real_calloc(a, b); void *p = __wrap_malloc(a * b); if (p) __real_memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *q, size_t n)
	{
	if (!inside) return __real_realloc(q, n);
	if (!q) return __wrap_malloc(n);
	size_t old = ((size_t *)q)[-2]; void *p = __wrap_malloc(n);
	if (p) { __real_memcpy(p, q, old < n ? old : n); tombstone(q); }
	return p;
	}
/* threads */
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a) { if (!inside) { fprintf(stderr, "mc: thread outside an execution\n"); abort(); } int n = create(f, a); *t = (pthread_t)(n + 1); return 0; }
int pthread_join(pthread_t t, void **v) { void *r = join_thread((int)t - 1); if (v) *v = r; return 0; }
int pthread_detach(pthread_t) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { if (inside) lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m)
	{
	if (!concurrent()) return 0;
	visible((uint64_t)m, WRITE);
	mutex_state &s = mutex_of((uint64_t)m);
	if (s.owner >= 0 && s.owner != current) return EBUSY;
	s.owner = current; s.depth++; join(F[current].vc, s.vc); return 0;
	}
int pthread_mutex_unlock(pthread_mutex_t *m) { if (inside) unlock(m); return 0; }
int sched_yield(void) { return 0; }
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int status) { if (inside && mc::on_exit) { inside = false; mc::on_exit(); finish(1); } __real_exit(status); }
/* function-local statics */
int __cxa_guard_acquire(uint64_t *g)
	{
	if (inside) lock(g);
	if (*(volatile char *)g) { if (inside) { join(F[current].vc, sync_of((uint64_t)g).vc); unlock(g); } return 0; }
	return 1;
	}
void __cxa_guard_release(uint64_t *g) { *(volatile char *)g = 1; if (inside) { join(sync_of((uint64_t)g).vc, F[current].vc); unlock(g); } }
void __cxa_guard_abort(uint64_t *g) { if (inside) unlock(g); }
}
#include <new>
static void *fresh(size_t n) { from_new = true; void *p = __wrap_malloc(n ? n : 1); from_new = false; return p; }
void *operator new(size_t n) { void *p = fresh(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return fresh(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fresh(n); }
static void *aligned(size_t n, size_t a) { if (!inside) return aligned_alloc(a, (n + a - 1) / a * a); char *p = (char *)fresh(n + a); if (!p) throw std::bad_alloc(); return (void *)(((uint64_t)p + a) / a * a); }
void *operator new(size_t n, std::align_val_t a) { return aligned(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return aligned(n, (size_t)a); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { __wrap_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { __wrap_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { if (!inside) __real_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { if (!inside) __real_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { if (!inside) __real_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { if (!inside) __real_free(p); }

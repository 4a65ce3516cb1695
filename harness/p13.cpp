// P13 (threads): allocating from one arena, every interleaving.
#include "vf.h"
#include "mc.h"
#include "threads.h"
#include "allocator_pool.h"
#include "allocator_memory.h"
#include <memory>
struct request { size_t bytes, align; };
static std::vector<std::vector<request>> wants;
static size_t block_size, capacity; static bool fixed, must_fit;
struct got { uint8_t *p; request r; };
static got results[5][4]; static int made[5];
static std::string show() { std::string s; for (auto &w : wants) { s += "["; for (auto &r : w) s += std::to_string(r.bytes) + "@" + std::to_string(r.align) + " "; s.back() = ']'; } return s; }
static void worker(JASS::allocator *a, int t)
	{
	for (auto &r : wants[t])
		{
		uint8_t *p = (uint8_t *)a->malloc(r.bytes, r.align);
		got &g = results[t][made[t]++]; g.p = p; g.r = r;
		if (!p) { if (mc::fail_malloc_at < 0) mc::fail("null", "an allocation of %zu bytes failed", r.bytes); continue; }
		memset(p, 1 + t * 16 + made[t], r.bytes);
		}
	}
static uint8_t *base;
static void verify(JASS::allocator *a)
	{
	size_t sum = 0, most = 0; std::vector<got> all;
	for (int t = 0; t < 5; t++)
		for (int i = 0; i < made[t]; i++)
			{
			got &g = results[t][i]; if (!g.p) continue;
			sum += g.r.bytes; most += g.r.bytes + g.r.align - 1; all.push_back(g);
			if ((uintptr_t)g.p % g.r.align) mc::fail("alignment", "%p is not aligned on %zu", g.p, g.r.align);
			if (fixed ? g.p < base || g.p + g.r.bytes > base + capacity : !mc::owned(g.p, g.r.bytes)) mc::fail("outside", "an allocation of %zu bytes is not inside memory the arena owns", g.r.bytes);
			for (size_t b = 0; b < g.r.bytes; b++) if (g.p[b] != 1 + t * 16 + i + 1) mc::fail("overlap", "byte %zu of allocation %d of thread %d was overwritten", b, i, t);
			}
	for (size_t x = 0; x < all.size(); x++)
		for (size_t y = x + 1; y < all.size(); y++)
			if (all[x].r.bytes && all[y].r.bytes && all[x].p < all[y].p + all[y].r.bytes && all[y].p < all[x].p + all[x].r.bytes) mc::fail("overlap", "two live allocations overlap");
	if (a->size() < sum || a->size() > most) mc::fail("bookkeeping", "%zu bytes handed out, size() says %zu", sum, a->size());
	if (a->capacity() < a->size() || (fixed && a->capacity() != capacity)) mc::fail("bookkeeping", "size() is %zu and capacity() %zu", a->size(), a->capacity());
	}
static void body(void *)
	{
	memset(made, 0, sizeof made);
	static std::unique_ptr<JASS::allocator> arena;
	if (fixed) { base = (uint8_t *)aligned_alloc(64, 1024); memset(base, 0xEE, 1024); base += 64; arena.reset(new JASS::allocator_memory(base, capacity)); }
	else arena.reset(new JASS::allocator_pool(block_size));
	std::vector<std::unique_ptr<JASS::thread>> ts;
	for (size_t t = 0; t < wants.size(); t++) ts.emplace_back(new JASS::thread(worker, arena.get(), (int)t));
	for (auto &t : ts) t->join();
	if (fixed && !must_fit) mc::fail("overcommitted", "requests larger than the arena were all granted");
	verify(arena.get());
	if (fixed) for (size_t b = 0; b < 64; b++) if (base[-1 - (long)b] != 0xEE || base[capacity + b] != 0xEE) mc::fail("outside", "memory outside the arena was written");
	// afterwards the arena still works, and a rewind gives everything back
	if (!fixed && mc::fail_malloc_at < 0)
		{
		uint8_t *p = (uint8_t *)arena->malloc(24, 8); memset(p, 99, 24);
		if (!mc::owned(p, 24)) mc::fail("outside", "an allocation after the threads finished is not inside memory the arena owns");
		got &g = results[4][made[4]++]; g.p = p; g.r = {24, 8}; memset(p, 1 + 64 + 1, 24); verify(arena.get());
		}
	arena->rewind();
	if (arena->size() != 0) mc::fail("bookkeeping", "size() is %zu after a rewind", arena->size());
	}
static void exited() { if (fixed ? must_fit : mc::fail_malloc_at < 0) mc::fail("refused", "an allocation that fits was refused"); }
static void explore(int bound, uint64_t most)
	{
	mc::on_exit = exited;
	mc::result r; mc::explore(body, nullptr, bound, most, r, vf::tick);
	vf::eval(r.schedules - 1); vf::step(r.transitions); vf::nontrivial(vf::described()); vf::sample(vf::described() + ": " + std::to_string(r.schedules) + " schedules" + (r.complete ? "" : " (stopped)"));
	if (getenv("MC_VERBOSE")) fprintf(stderr, "%s: %llu schedules, longest %llu %s\n", vf::described().c_str(), (unsigned long long)r.schedules, (unsigned long long)r.longest, r.complete ? "" : "INCOMPLETE");
	if (r.failed) vf::fail(r.kind, "%s: %s; schedule %s", vf::described().c_str(), r.message, r.schedule);
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	const uint64_t MOST = vf::q(4000, 1000000);
	std::vector<std::vector<std::vector<request>>> families;
	std::vector<request> R = {{1, 1}, {8, 8}, {24, 1}, {5, 4}, {16, 64}, {70, 1}, {0, 1}};
	for (size_t a = 0; a < R.size(); a++)
		for (size_t b = a; b < R.size(); b++)
			{
			families.push_back({{R[a]}, {R[b]}});
			if (T || (a + b) % 3 == 0) families.push_back({{R[a], R[b]}, {R[b]}});
			if (T) families.push_back({{R[a], R[b]}, {R[b], R[a]}});
			}
	for (auto &r : R) families.push_back({{r}, {R[1]}, {R[3]}});
	if (T) for (auto &r : R) families.push_back({{r, R[1]}, {R[4]}, {R[5]}});
	for (auto &f : families)
		for (size_t block : {16, 64, 4096})
			for (int mode : {0, 1})
				{
				size_t total = 0; for (auto &w : f) total += w.size();
				if (mode == 1 && total == 2) continue;						// every interleaving is affordable
				if (mode == 0 && total > 2 && !T) continue;
				if (!vf::mine()) continue;
				wants = f; fixed = false; block_size = block; mc::fail_malloc_at = -1;
				vf::describe("growable arena of %zu byte blocks, requests %s, %s", block, show().c_str(), mode ? "bounded preemptions" : "every interleaving");
				explore(mode ? vf::q(2, 3) : -1, MOST);
				}
	// the underlying allocator fails at each point
	for (auto &f : families)
		for (int at = 0; at < 5; at++)
			{
			size_t total = 0; for (auto &w : f) total += w.size();
			if (total > 2 && !T) continue;
			if (!vf::mine()) continue;
			wants = f; fixed = false; block_size = 16; mc::fail_malloc_at = at;			// calls of malloc(), not of operator new
			vf::describe("growable arena of 16 byte blocks, requests %s, memory allocation %d fails", show().c_str(), at);
			explore(1, MOST);
			mc::fail_malloc_at = -1;
			}
	// a fixed arena with exactly enough room, and with one byte too little
	for (auto &f : families)
		for (int shape : {0, 1, 2})
			{
			if (!vf::mine()) continue;
			wants = f; fixed = true; size_t need = 0, least = 0, total = 0; bool aligned = false;
			for (auto &w : f) for (auto &r : w) { need += r.bytes + r.align - 1; least += r.bytes; total++; if (r.align > 1) aligned = true; }
			capacity = shape == 0 ? need : shape == 1 ? least : least ? least - 1 : 0; must_fit = shape == 0 || (shape == 1 && !aligned);
			if (shape == 1 && aligned) continue;
			if (shape == 2 && least == 0) continue;
			vf::describe("fixed arena of %zu bytes, requests %s", capacity, show().c_str());
			explore(total <= 3 ? -1 : 2, MOST);
			}
	return vf::finish("two threads with one or two requests each, three with one: sizes 0 to 70, alignments 1 to 64, blocks of 16, 64 and 4096 bytes; every interleaving for two requests, at most 2 (3) preemptions for more; each of the first allocations failing; fixed arenas with exactly enough and too little room");
	}

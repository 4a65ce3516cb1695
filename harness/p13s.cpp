// P13 (one thread): every sequence of sizes and alignments.
#include "vf.h"
#include "allocator_pool.h"
#include "allocator_memory.h"
#include <memory>
#include <sys/wait.h>
struct request { size_t bytes, align; };
struct got { uint8_t *p; request r; uint8_t mark; };
static std::string show(const std::vector<request> &w) { std::string s; for (auto &r : w) s += std::to_string(r.bytes) + "@" + std::to_string(r.align) + " "; return s; }
static void check(JASS::allocator &a, std::vector<got> &all, const std::vector<request> &w, const char *what)
	{
	size_t sum = 0, most = 0;
	for (auto &g : all)
		{
		sum += g.r.bytes; most += g.r.bytes + g.r.align - 1;
		if ((uintptr_t)g.p % g.r.align) vf::fail("alignment", "%s, requests %s: %zu bytes at an address not aligned on %zu", what, show(w).c_str(), g.r.bytes, g.r.align);
		for (size_t b = 0; b < g.r.bytes; b++) if (g.p[b] != g.mark) { vf::fail("overlap", "%s, requests %s: an allocation was overwritten by a later one", what, show(w).c_str()); break; }
		}
	if (a.size() < sum || a.size() > most || a.capacity() < a.size()) vf::fail("bookkeeping", "%s, requests %s: %zu bytes handed out, size() %zu, capacity() %zu", what, show(w).c_str(), sum, a.size(), a.capacity());
	}
static void pool(size_t block, const std::vector<request> &w)
	{
	vf::eval(); vf::step(w.size());
	JASS::allocator_pool a(block); std::vector<got> all; uint8_t mark = 0;
	char what[60]; snprintf(what, sizeof what, "growable arena of %zu byte blocks", block);
	for (int round : {0, 1})
		{
		for (auto &r : w) { uint8_t *p = (uint8_t *)a.malloc(r.bytes, r.align); if (!p) { vf::fail("null", "%s, requests %s: an allocation failed", what, show(w).c_str()); return; } memset(p, ++mark, r.bytes); all.push_back({p, r, mark}); }
		check(a, all, w, what);
		a.rewind(); all.clear();
		if (a.size() != 0) vf::fail("bookkeeping", "%s, requests %s: size() is %zu after a rewind", what, show(w).c_str(), a.size());
		}
	}
static void arena(size_t capacity, size_t offset, const std::vector<request> &w)
	{
	vf::eval(); vf::step(w.size());
	uint8_t *memory = (uint8_t *)aligned_alloc(64, 1024); memset(memory, 0xEE, 1024); uint8_t *base = memory + 64 + offset;
	JASS::allocator_memory a(base, capacity); std::vector<got> all; uint8_t mark = 0; size_t at = 0;
	char what[60]; snprintf(what, sizeof what, "fixed arena of %zu bytes", capacity);
	for (auto &r : w)
		{
		size_t pad = ((uintptr_t)(base + at) % r.align) ? r.align - (uintptr_t)(base + at) % r.align : 0;
		if (at + pad + r.bytes > capacity)
			{
			// does not fit: must be refused (by ending the program or by returning nothing)
			pid_t pid = fork();
			if (pid == 0) { void *p = a.malloc(r.bytes, r.align); _exit(p == nullptr ? 1 : 77); }
			int st; waitpid(pid, &st, 0);
			if (WIFSIGNALED(st) || WEXITSTATUS(st) == 77) vf::fail("overcommitted", "%s, requests %s: %zu bytes were granted with %zu left", what, show(w).c_str(), r.bytes, capacity - at);
			break;
			}
		uint8_t *p = (uint8_t *)a.malloc(r.bytes, r.align);
		if (!p || p < base || p + r.bytes > base + capacity) { vf::fail("outside", "%s, requests %s: outside the arena", what, show(w).c_str()); break; }
		memset(p, ++mark, r.bytes); all.push_back({p, r, mark}); at += pad + r.bytes;
		}
	check(a, all, w, what);
	for (uint8_t *p = memory; p < memory + 1024; p++) if ((p < base || p >= base + capacity) && *p != 0xEE) { vf::fail("outside", "%s, requests %s: memory outside it was written", what, show(w).c_str()); break; }
	a.rewind();
	if (a.size() != 0 || a.capacity() != capacity) vf::fail("bookkeeping", "%s, requests %s: size() is %zu, capacity() %zu after a rewind", what, show(w).c_str(), a.size(), a.capacity());
	free(memory);
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	std::vector<request> R;
	for (size_t b : {0, 1, 3, 8, 16, 17, 64, 100}) for (size_t a : {1, 2, 8, 10, 64, 256}) R.push_back({b, a});
	for (size_t block : {1, 16, 64, 100, 4096})
		for (size_t i = 0; i < R.size(); i++)
			{
			if (!vf::mine()) continue;
			vf::describe("growable arena, blocks of %zu bytes, sequences starting with %zu@%zu", block, R[i].bytes, R[i].align); vf::nontrivial(vf::described()); vf::sample(vf::described());
			pool(block, {R[i]});
			for (auto &b : R) { pool(block, {R[i], b}); vf::tick(); for (auto &c : R) { pool(block, {R[i], b, c}); if (T) for (auto &d : R) pool(block, {R[i], b, c, d}); } }
			}
	for (size_t capacity : {0, 1, 16, 63, 64, 100, 200, 400})
		for (size_t offset : {0, 1, 7})
			for (size_t i = 0; i < R.size(); i++)
				{
				if (!vf::mine()) continue;
				vf::describe("fixed arena of %zu bytes at offset %zu, sequences starting with %zu@%zu", capacity, offset, R[i].bytes, R[i].align); vf::nontrivial(vf::described());
				arena(capacity, offset, {R[i]});
				for (auto &b : R) { vf::tick(); arena(capacity, offset, {R[i], b}); if (T) for (auto &c : R) arena(capacity, offset, {R[i], b, c}); }
				}
	return vf::finish("one thread: every sequence of up to 3 (4) requests of 8 sizes and 6 alignments from growable arenas of 5 block sizes, 2 (3) requests from fixed arenas of 8 capacities at 3 offsets");
	}

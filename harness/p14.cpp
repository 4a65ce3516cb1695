// P14: concurrent appends to a dynamic_array, every interleaving.
#include "vf.h"
#include "mc.h"
#include "threads.h"
#include "dynamic_array.h"
#include <memory>
struct configuration { int threads; int each[4]; size_t initial; double growth; size_t before; int after; };
static configuration cfg;
typedef JASS::dynamic_array<uint64_t> array;
static void worker(array *a, int t) { for (int i = 0; i < cfg.each[t]; i++) a->push_back(t * 1000 + i + 1); }
static void check(array &a, std::vector<uint64_t> &prefix, const char *when)
	{
	// what was appended: a fixed prefix, then any merge of the threads' sequences
	std::vector<uint64_t> seen; size_t total = prefix.size(); for (int t = 0; t < cfg.threads; t++) total += cfg.each[t];
	for (const auto &e : a) { seen.push_back(e); if (seen.size() > total + 10) mc::fail("lost", "%s: iteration gives more than the %zu elements appended", when, total); }
	std::string text; for (auto e : seen) text += std::to_string(e) + " ";
	if (seen.size() != total) mc::fail("lost", "%s: %zu elements appended, iteration gives %zu: %s", when, total, seen.size(), text.c_str());
	for (size_t i = 0; i < prefix.size(); i++) if (seen[i] != prefix[i]) mc::fail("lost", "%s: element %zu changed: %s", when, i, text.c_str());
	int next[4] = {0, 0, 0, 0};
	for (size_t i = prefix.size(); i < seen.size(); i++)
		{
		int t = seen[i] / 1000, v = seen[i] % 1000;
		if (t >= cfg.threads || v != next[t] + 1) mc::fail("lost", "%s: elements lost, repeated or out of a thread's order: %s", when, text.c_str());
		next[t]++;
		}
	for (size_t i = 0; i < total; i++) if (a[i] != seen[i]) mc::fail("index", "%s: element %zu by index differs from iteration: %s", when, i, text.c_str());
	if (a.serialise(nullptr, 0) != total) mc::fail("serialise", "%s: serialise reports %zu elements, not %zu", when, a.serialise(nullptr, 0), total);
	for (size_t room : {total, total + 3, total / 2, total ? total - 1 : 0, (size_t)1, (size_t)2, (size_t)3})
		{
		std::vector<uint64_t> into(std::max(total, room) + 32, 77777);
		if (!room) continue;
		if (a.serialise(into.data(), room) != total) mc::fail("serialise", "%s: serialise reports the wrong number", when);
		for (size_t i = 0; i < into.size(); i++)
			if (into[i] != (i < std::min(room, total) ? seen[i] : 77777)) mc::fail("serialise", "%s: serialise into %zu of %zu elements: element %zu is %llu", when, room, total, i, (unsigned long long)into[i]);
		}
	if (total && a.back() != seen.back()) mc::fail("back", "%s: back() is not the last element", when);
	}
// memory for the array whose operations are not scheduling points
class private_memory : public JASS::allocator
	{
	public:
		virtual bool operator==(const allocator &with) { return this == &with; }
		virtual bool operator!=(const allocator &with) { return this != &with; }
		virtual void *malloc(size_t bytes, size_t alignment = 16) { return ::malloc(bytes); }
		virtual void rewind(void) {}
	};
static bool real_pool;
static void body(void *)
	{
	std::unique_ptr<JASS::allocator> memory;
	if (real_pool) memory.reset(new JASS::allocator_pool(4096)); else memory.reset(new private_memory);
	JASS::allocator &pool = *memory;
	array a(pool, cfg.initial, cfg.growth);
	std::vector<uint64_t> prefix;
	for (size_t i = 0; i < cfg.before; i++) { prefix.push_back(900000 + i); a.push_back(900000 + i); }
	std::vector<std::unique_ptr<JASS::thread>> pool_of_threads;
	for (int t = 0; t < cfg.threads; t++) pool_of_threads.emplace_back(new JASS::thread(worker, &a, t));
	for (auto &t : pool_of_threads) t->join();
	check(a, prefix, "after the threads have finished");
	if (cfg.after)
		{
		// the array must still grow
		std::vector<uint64_t> now; for (const auto &e : a) now.push_back(e);
		for (int i = 0; i < cfg.after; i++) { now.push_back(800000 + i); a.push_back(800000 + i); }
		size_t i = 0; for (const auto &e : a) { if (i >= now.size() || e != now[i]) mc::fail("lost", "appending after the threads have finished loses elements (element %zu)", i); i++; }
		if (i != now.size()) mc::fail("lost", "appending after the threads have finished loses elements");
		}
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	std::vector<std::vector<int>> loads = {{1, 1}, {2, 1}, {2, 2}, {3, 1}, {3, 2}, {1, 1, 1}};
	if (T) for (auto l : std::vector<std::vector<int>>{{3, 3}, {2, 1, 1}, {4, 1}, {2, 2, 1}, {1, 1, 1, 1}, {4, 4}}) loads.push_back(l);
	for (auto &load : loads)
		for (size_t initial : {1, 2, 3})
			for (double growth : {1.0, 1.5, 2.0})
				for (size_t before : {0, 1, 2})
					for (int mode : {0, 1, 2})
						{
						int total = 0; for (int x : load) total += x;
						// mode 0: every interleaving of the array's own operations; 1 and 2: with the real pool's operations as well
						bool small = load.size() == 2 && total <= 3;
						if (mode == 1 && (!T && !(total == 2 && before < 2))) continue;
						if (mode == 2 && !T && (growth != 1.5 || before == 2)) continue;
						if (!vf::mine()) continue;
						cfg = configuration(); cfg.threads = load.size(); for (size_t i = 0; i < load.size(); i++) cfg.each[i] = load[i];
						cfg.initial = initial; cfg.growth = growth; cfg.before = before; cfg.after = 3; real_pool = mode > 0;
						std::string l; for (int x : load) l += (l.size() ? "+" : "") + std::to_string(x);
						int bound = mode < 2 ? -1 : small ? 3 : vf::q(2, 3);
						vf::describe("threads appending %s, initial size %zu, growth %.1f, %zu already there, %s", l.c_str(), initial, growth, before, mode == 0 ? "every interleaving" : mode == 1 ? "every interleaving, with those of the pool" : "bounded preemptions, with the pool");
						mc::result r; mc::explore(body, nullptr, bound, vf::q(6000, 2000000), r, vf::tick);
						vf::eval(r.schedules - 1); vf::step(r.transitions);
						vf::nontrivial(vf::described()); vf::sample(vf::described() + ": " + std::to_string(r.schedules) + " schedules" + (r.complete ? "" : " (stopped)"));
						if (getenv("MC_VERBOSE")) fprintf(stderr, "%s: %llu schedules, %llu blocked, longest %llu %s\n", vf::described().c_str(), (unsigned long long)r.schedules, (unsigned long long)r.blocked, (unsigned long long)r.longest, r.complete ? "" : "INCOMPLETE");
						if (r.failed) vf::fail(r.kind, "%s: %s; schedule %s", vf::described().c_str(), r.message, r.schedule);
						}
	return vf::finish("two threads appending up to 3+2 elements and three appending one each, from every initial size 1-3, growth 1-2 and fill 0-2: every interleaving of the array's atomic operations; with the pool's operations as scheduling points too, every interleaving of 1+1 and every schedule of at most 2 (3) preemptions otherwise (first 6000 schedules)");
	}

// P15 (threads): inserting into one dictionary, every interleaving.
#include "vf.h"
#include "mc.h"
#include "threads.h"
#include "allocator_pool.h"
#include "slice.h"
#include "binary_tree.h"
#include "hash_table.h"
#include <memory>
#include <map>
#include <set>
struct element { uint8_t hits[5]; element(JASS::allocator &) { memset(hits, 0, sizeof hits); } };
class private_memory : public JASS::allocator
	{
	public:
		virtual bool operator==(const allocator &with) { return this == &with; }
		virtual bool operator!=(const allocator &with) { return this != &with; }
		virtual void *malloc(size_t bytes, size_t alignment = 16) { return ::malloc(bytes ? bytes : 1); }
		virtual void rewind(void) {}
	};
typedef JASS::binary_tree<JASS::slice, element> tree;
typedef JASS::hash_table<JASS::slice, element, 8> table;
static std::vector<std::string> keys;						// the keys themselves
static std::vector<std::vector<int>> wants;				// the keys each thread uses, in order
static std::vector<int> before;
static bool real_pool, hashed;
static element *got[5][8];
static std::string show() { std::string s; for (auto &w : wants) { s += "["; for (int k : w) s += std::to_string(k) + " "; s.back() = ']'; } return s; }
// each call passes the key in memory of its own that does not outlive the call
template <typename D> static element *use(D &d, int k, int t)
	{
	char copy[32]; memcpy(copy, keys[k].data(), keys[k].size());
	JASS::slice s((void *)copy, keys[k].size());
	element &e = d[s];
	memset(copy, 0x5A, sizeof copy);
	e.hits[t]++;
	return &e;
	}
template <typename D> static void worker(D *d, int t) { int i = 0; for (int k : wants[t]) got[t][i++] = use(*d, k, t); }
template <typename D> static void verify(D &d, bool ordered, std::map<int, element *> &all)
	{
	std::map<std::string, element *> seen; std::string last; int direction = 0; size_t n = 0;
	for (const auto entry : d)
		{
		std::string k((char *)entry.first.address(), entry.first.size());
		if (++n > keys.size() + 5) mc::fail("iteration", "iteration does not end");
		if (seen.count(k)) mc::fail("twice", "key %s appears twice", vf::esc(k).c_str());
		seen[k] = (element *)&entry.second;
		if (ordered && n > 1)
			{
			bool less = last.size() != k.size() ? last.size() < k.size() : last < k;
			if (direction && direction != (less ? 1 : -1)) mc::fail("order", "the tree is not in key order at %s", vf::esc(k).c_str());
			direction = less ? 1 : -1;
			}
		last = k;
		}
	for (auto &a : all) { auto f = seen.find(keys[a.first]); if (f == seen.end()) mc::fail("lost", "key %s was inserted but iteration does not report it", vf::esc(keys[a.first]).c_str()); if (f->second != a.second) mc::fail("element", "iteration reports another element for key %s", vf::esc(keys[a.first]).c_str()); }
	if (seen.size() != all.size()) mc::fail("iteration", "%zu keys inserted, iteration reports %zu", all.size(), seen.size());
	for (auto &a : all)
		{
		int hits[5] = {0, 0, 0, 0, 0}; for (int k : before) if (k == a.first) hits[4]++;
		for (size_t t = 0; t < wants.size(); t++) for (int k : wants[t]) if (k == a.first) hits[t]++;
		for (int t = 0; t < 5; t++) if (a.second->hits[t] != hits[t]) mc::fail("element", "what thread %d did with the element of key %s was lost", t, vf::esc(keys[a.first]).c_str());
		}
	}
template <typename D> static void run(JASS::allocator &memory, bool ordered)
	{
	D *d = new (::malloc(sizeof(D))) D(memory);
	std::map<int, element *> all;
	for (int k : before) all[k] = use(*d, k, 4);
	std::vector<std::unique_ptr<JASS::thread>> ts;
	for (size_t t = 0; t < wants.size(); t++) ts.emplace_back(new JASS::thread(worker<D>, d, (int)t));
	for (auto &t : ts) t->join();
	for (size_t t = 0; t < wants.size(); t++)
		for (size_t i = 0; i < wants[t].size(); i++)
			{
			int k = wants[t][i]; element *e = got[t][i];
			if (all.count(k) && all[k] != e) mc::fail("element", "key %s gave two threads different elements", vf::esc(keys[k]).c_str());
			all[k] = e;
			}
	std::set<element *> distinct; for (auto &a : all) if (!distinct.insert(a.second).second) mc::fail("element", "two keys got the same element");
	verify(*d, ordered, all);
	// looking the keys up again changes nothing
	for (auto &a : all) { JASS::slice s((void *)keys[a.first].data(), keys[a.first].size()); if (&(*d)[s] != a.second) mc::fail("element", "looking key %s up afterwards gives another element", vf::esc(keys[a.first]).c_str()); }
	verify(*d, ordered, all);
	}
static void body(void *)
	{
	std::unique_ptr<JASS::allocator> memory;
	if (real_pool) memory.reset(new JASS::allocator_pool(4096)); else memory.reset(new private_memory);
	if (hashed) run<table>(*memory, false); else run<tree>(*memory, true);
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	const uint64_t MOST = vf::q(2500, 1000000);
	// keys that share a bucket of the table, and keys that do not
	std::vector<std::string> apart, same, lengths = {"", "a", "ba", std::string("a\0", 2)};
	apart = {"m", "f", "t", "k"};
	{ std::map<size_t, std::vector<std::string>> by; for (char a = 'a'; a <= 'z'; a++) for (char b = 'a'; b <= 'z'; b++) { std::string s = {a, b}; by[JASS::hash_pearson::hash<8>(JASS::slice((void *)s.data(), s.size()))].push_back(s); } for (auto &b : by) if (b.second.size() > same.size()) same = b.second; same.resize(std::min(same.size(), (size_t)4)); std::swap(same[0], same[1]); }
	std::vector<std::vector<std::vector<int>>> families;
	for (int a = 0; a < 2; a++) for (int b = 0; b < 3; b++) families.push_back({{a}, {b}});
	for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) families.push_back({{a, b}, {c}});
	for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) for (int d = 0; d < 3; d++) families.push_back({{a, b}, {c, d}});
	for (auto w : std::vector<std::vector<std::vector<int>>>{{{0}, {0}, {0}}, {{0}, {0}, {1}}, {{0}, {1}, {2}}, {{1}, {0}, {1}}}) families.push_back(w);
	if (T) for (auto w : std::vector<std::vector<std::vector<int>>>{{{0, 1}, {1}, {0}}, {{0, 1}, {1, 0}, {0}}, {{0, 1, 2}, {2, 1, 0}}, {{0, 1, 2}, {1, 2, 3}}, {{0}, {0}, {0}, {0}}, {{0, 1}, {0}, {1}, {2}}}) families.push_back(w);
	for (int structure = 0; structure < 4; structure++)
		for (auto &f : families)
			for (auto &prior : std::vector<std::vector<int>>{{}, {0}, {1, 2}})
				for (int mode : {0, 1})
					{
					size_t total = 0; for (auto &w : f) total += w.size();
					if (mode == 1 && !T && (structure == 3 || prior.size() == 2 || total == 4)) continue;
					if (!T && total == 4 && prior.size() == 1 && structure) continue;
					if (!vf::mine()) continue;
					hashed = structure == 1 || structure == 2; keys = structure == 1 ? same : structure == 3 ? lengths : apart; wants = f; before = prior; real_pool = mode;
					std::string p; for (int k : prior) p += std::to_string(k) + " ";
					vf::describe("%s, keys used %s, already there: %s%s", structure == 0 ? "tree" : structure == 1 ? "table, keys of one bucket" : structure == 2 ? "table, keys of several buckets" : "tree, keys of several lengths", show().c_str(), p.c_str(), mode ? "; the pool's operations interleaved too, bounded preemptions" : "; every interleaving");
					mc::result r; mc::explore(body, nullptr, mode ? vf::q(2, 3) : -1, MOST, r, vf::tick);
					vf::eval(r.schedules - 1); vf::step(r.transitions); vf::nontrivial(vf::described()); vf::sample(vf::described() + ": " + std::to_string(r.schedules) + " schedules" + (r.complete ? "" : " (stopped)"));
					if (getenv("MC_VERBOSE")) fprintf(stderr, "%s: %llu schedules, longest %llu %s\n", vf::described().c_str(), (unsigned long long)r.schedules, (unsigned long long)r.longest, r.complete ? "" : "INCOMPLETE");
					if (r.failed) vf::fail(r.kind, "%s: %s; schedule %s", vf::described().c_str(), r.message, r.schedule);
					}
	return vf::finish("two threads using up to 2+2 keys out of three and three threads one each (thorough: up to 3+3 and four threads), tree and hash table, keys of one bucket, several buckets and several lengths, 0 to 2 keys already there: every interleaving of the dictionary's atomic operations; with the pool's operations as scheduling points too, at most 2 (3) preemptions");
	}

// Does the explorer reach every outcome?  Litmus programs: the outcomes found with partial-order
// reduction must be those found by trying every schedule.
#include "vf.h"
#include "mc.h"
#include "threads.h"
#include <atomic>
#include <memory>
#include <set>
#include <mutex>
static uint64_t *out; static volatile uint64_t *count;
static int program;
static std::atomic<int> X[4]; static int R[4][4]; static std::mutex m; static int plain;
struct action { int what, var, arg; };		// 0 load into R, 1 store arg, 2 add, 3 cas(0->arg), 4 lock+add plain+unlock
static std::vector<std::vector<action>> P;
static void worker(int t)
	{
	int n = 0;
	for (auto &a : P[t])
		switch (a.what)
			{
			case 0: R[t][n++] = X[a.var].load(); break;
			case 1: X[a.var].store(a.arg); break;
			case 2: R[t][n++] = X[a.var].fetch_add(a.arg); break;
			case 3: { int e = 0; X[a.var].compare_exchange_strong(e, a.arg); R[t][n++] = e; } break;
			case 4: { std::lock_guard<std::mutex> g(m); R[t][n++] = plain; plain = plain * 3 + t + 1; } break;
			}
	}
static void body(void *)
	{
	std::vector<std::unique_ptr<JASS::thread>> ts;
	for (size_t t = 0; t < P.size(); t++) ts.emplace_back(new JASS::thread(worker, (int)t));
	for (auto &t : ts) t->join();
	uint64_t h = 7; for (auto &r : R) for (int v : r) h = h * 31 + v; for (auto &x : X) h = h * 31 + x.load(); h = h * 31 + plain;
	for (uint64_t i = 0; i < *count; i++) if (out[i] == h) return;
	out[(*count)++] = h;
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	out = (uint64_t *)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); count = out + 100000;
	std::vector<std::vector<std::vector<action>>> all;
	// every pair of two-action programs over two variables, and some of three threads
	std::vector<action> A = {{0, 0, 0}, {0, 1, 0}, {1, 0, 1}, {1, 1, 1}, {2, 0, 2}, {3, 0, 5}, {4, 0, 0}};
	for (auto &a : A) for (auto &b : A) for (auto &c : A) for (auto &d : A) all.push_back({{a, b}, {c, d}});
	for (auto &a : A) for (auto &b : A) for (auto &c : A) { all.push_back({{a, A[0]}, {b}, {c}}); }
	uint64_t full = 0, reduced = 0;
	for (auto &p : all)
		{
		if (!vf::mine()) continue;
		P = p; std::set<uint64_t> found[2];
		std::string s; for (auto &t : P) { s += "|"; for (auto &a : t) s += " " + std::to_string(a.what) + "." + std::to_string(a.var); }
		vf::describe("%s", s.c_str()); vf::nontrivial(s);
		for (int mode : {0, 1})
			{
			*count = 0; mc::result r; mc::explore(body, 0, mode ? 100 : -1, 1000000, r, vf::tick);
			if (r.failed) vf::fail("selftest", "%s %s", r.kind, r.message);
			(mode ? full : reduced) += r.schedules;
			found[mode].insert(out, out + *count);
			}
		if (found[0] != found[1]) vf::fail("selftest", "%s: %zu outcomes with reduction, %zu without", s.c_str(), found[0].size(), found[1].size());
		}
	fprintf(stderr, "full %llu reduced %llu\n", (unsigned long long)full, (unsigned long long)reduced);
	return vf::finish("selftest");
	}

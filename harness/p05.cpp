// P05: whatever a search object did before, a search answers as a new object with the same settings would.
#include "search.h"
#include <functional>
static collection C; static std::string dir, oracle, wrong; static size_t K, W; static int V;
// the settings an object has been given, as the calls that give them to a new object
struct settings
	{
	std::string budget = "all"; double relative = 100; size_t minimum = 0; bool ascii = false; int table = 0;
	std::string key() const { return budget + "/" + std::to_string(relative) + "/" + std::to_string(minimum) + (ascii ? "/ascii/" : "/query/") + std::to_string(table); }
	};
static std::unique_ptr<JASS_anytime_api> fresh()
	{
	auto a = std::make_unique<JASS_anytime_api>();
	a->set_top_k(K); if (W) a->set_accumulator_width(W);
	if (a->load_index(V, dir) != JASS_ERROR_OK) vf::fail("load", "could not load a good index");
	return a;
	}
static void budget(JASS_anytime_api &a, const std::string &b)
	{
	if (b == "all") a.set_postings_to_process(ALL);
	else if (b[0] == 'p') a.set_postings_to_process_proportion(atof(b.c_str() + 1));
	else a.set_postings_to_process(atoi(b.c_str()));
	}
static void table(JASS_anytime_api &a, int t) { a.load_oracle_scores(t == 0 ? "" : t == 1 ? oracle : wrong); }
struct operation { std::string name, query; std::function<void(JASS_anytime_api &, settings &)> change; };
static std::vector<operation> ops;
struct answer { std::string list; size_t postings; std::string id; };
static std::unordered_map<std::string, answer> memo;
static answer search(JASS_anytime_api &a, const std::string &q) { auto r = a.search(q); return {r.results_list, r.postings_processed, r.query_id}; }
static const answer &expected(const settings &s, const std::string &q)
	{
	std::string key = s.key() + "?" + q;
	auto at = memo.find(key);
	if (at != memo.end()) return at->second;
	auto a = fresh(); settings d;
	if (s.budget != d.budget) budget(*a, s.budget);
	if (s.relative != d.relative) a->set_postings_to_process_relative(s.relative);
	if (s.minimum) a->set_postings_to_process_minimum(s.minimum);
	if (s.ascii) a->use_ascii_parser();
	if (s.table) table(*a, s.table);
	vf::step();
	return memo[key] = search(*a, q);
	}
static std::vector<int> trail; static bool failed;
static void apply(JASS_anytime_api &a, settings &s, int op)
	{
	vf::step();
	trail.push_back(op);
	if (ops[op].change) { ops[op].change(a, s); return; }
	vf::eval();
	const answer &want = expected(s, ops[op].query);
	answer got = search(a, ops[op].query);
	if (got.list == want.list && got.postings == want.postings && got.id == want.id) return;
	if (failed) return;
	failed = true;
	std::string h; for (size_t i = trail.size() > 12 ? trail.size() - 12 : 0; i < trail.size(); i++) h += ops[trail[i]].name + "; ";
	vf::fail("history", "after %zu operations ending %s (k %zu, format %d, width %zu): got [%s] %zu postings; a new object with the same settings gives [%s] %zu postings", trail.size(), h.c_str(), K, V, W, flat(got.list).c_str(), got.postings, flat(want.list).c_str(), want.postings);
	}
static void setup(int which, int version, size_t k, size_t width)
	{
	if (!dir.empty()) drop_index(dir);
	memo.clear(); K = k; V = version; W = width;
	size_t n = which == 0 ? 6 : which == 1 ? 70 : 300;
	C = collection(n);
	for (size_t d = 0; d < n; d++)
		{
		C.terms["alpha"][d] = 1 + d % 3;
		if (d % 2 == 0) C.terms["beta"][d] = 4 + d % 5;
		if (d % 3 == 1) C.terms["gamma"][d] = 200;
		if (d % 5 == 2 || d == 0) C.terms["delta"][d] = 100 + (d * 7) % 60;
		if (d + 1 == n || d == 3) C.terms["Tail"][d] = 9;
		if (d < 2) C.terms["tail"][d] = 3;
		}
	dir = write_index(C, version, version == 1 ? CODEX::qmx : CODEX::elias_gamma_simd_vb);
	auto home = std::filesystem::current_path().string();
	oracle = home + "/oracle"; wrong = home + "/wrong";
	// the true k-th score of queries 1 and 2 (no budget) and scores no document reaches
	FILE *f = fopen(oracle.c_str(), "w"), *g = fopen(wrong.c_str(), "w");
	for (auto &[id, q] : std::vector<std::pair<std::string, bag>>{{"1", {{"alpha", 1}, {"beta", 1}}}, {"2", {{"beta", 1}}}})
		{
		model m(C, q); std::vector<uint32_t> sc; std::vector<size_t> every; for (size_t i = 0; i < m.segments.size(); i++) every.push_back(i);
		m.score(C, every, sc); auto top = model::top(sc, k);
		fprintf(f, "%s %u\n", id.c_str(), top.size() >= k ? top[k - 1].first : 1); fprintf(g, "%s 250\n", id.c_str());
		}
	fclose(f); fclose(g);
	ops.clear();
	for (const char *q : {"1 alpha beta", "2 beta", "3 gamma delta gamma", "4 Tail", "5 absent", "", "6 alpha beta gamma delta"}) ops.push_back({std::string("search(") + q + ")", q, nullptr});
	auto change = [](const std::string &name, std::function<void(JASS_anytime_api &, settings &)> f) { ops.push_back({name, "", f}); };
	change("budget 5", [](auto &a, auto &s) { s.budget = "5"; budget(a, s.budget); });
	change("no budget", [](auto &a, auto &s) { s.budget = "all"; budget(a, s.budget); });
	change("proportion 50", [](auto &a, auto &s) { s.budget = "p50"; budget(a, s.budget); });
	change("relative 50", [](auto &a, auto &s) { s.relative = 50; a.set_postings_to_process_relative(50); });
	change("relative 100", [](auto &a, auto &s) { s.relative = 100; a.set_postings_to_process_relative(100); });
	change("ascii parser", [](auto &a, auto &s) { s.ascii = true; a.use_ascii_parser(); });
	change("query parser", [](auto &a, auto &s) { s.ascii = false; a.use_query_parser(); });
	change("true scores", [](auto &a, auto &s) { s.table = 1; table(a, 1); });
	change("wrong scores", [](auto &a, auto &s) { s.table = 2; table(a, 2); });
	change("no scores", [](auto &a, auto &s) { s.table = 0; table(a, 0); });
	change("minimum 40", [](auto &a, auto &s) { s.minimum = 40; a.set_postings_to_process_minimum(40); });
	change("refused calls", [](auto &a, auto &) { if (a.load_index(V, dir) != JASS_ERROR_INDEX_ALREADY_LOADED || a.set_top_k(3) == JASS_ERROR_OK || a.set_accumulator_width(5) == JASS_ERROR_OK) vf::fail("refused", "a call that must be refused once an index is loaded was not"); });
	}
// every sequence of n operations occurs in this one (Lyndon word construction of the de Bruijn sequence)
static std::vector<int> de_bruijn(int k, int n)
	{
	std::vector<int> a(k * n, 0), seq;
	std::function<void(int, int)> db = [&](int t, int p)
		{
		if (t > n) { if (n % p == 0) for (int i = 1; i <= p; i++) seq.push_back(a[i]); return; }
		a[t] = a[t - p]; db(t + 1, p);
		for (int j = a[t - p] + 1; j < k; j++) { a[t] = j; db(t + 1, t); }
		};
	db(1, 1);
	for (int i = 0; i < n - 1; i++) seq.push_back(seq[i]);
	return seq;
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	const size_t depth = 2;
	std::string ready;
	std::vector<size_t> ks = {1, 2, 10, 1000}, widths = {0, 1, 2, 5};
	for (int which : {0, 1, 2})
		for (int version : {1, 2})
			for (size_t k : ks)
				for (size_t width : widths)
					{
					bool deep = T || (which < 2 && (k == 2 || k == 10) && width < 2);
					std::string cfg = "collection " + std::to_string(which) + ", format " + std::to_string(version) + ", k " + std::to_string(k) + ", width " + std::to_string(width);
					// one object taken through every window of operations
					for (int order : {2, 3, 4})
						{
						if (order == 4 && !deep) continue;
						if (!vf::mine()) continue;
						if (ready != cfg) { setup(which, version, k, width); ready = cfg; }
						vf::describe("one object through every sequence of %d operations, %s", order, cfg.c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
						failed = false; trail.clear(); settings s; auto a = fresh(); size_t n = 0;
						for (int op : de_bruijn(ops.size(), order)) { apply(*a, s, op); if (++n % 500 == 0) vf::tick(); }
						}
					// every short sequence from a new object
					for (size_t first = 0; first < 19; first++)
						{
						if (!vf::mine()) continue;
						if (ready != cfg) { setup(which, version, k, width); ready = cfg; }
						vf::describe("new objects, sequences starting with operation %zu, %s", first, cfg.c_str()); vf::nontrivial(vf::described());
						if (first >= ops.size()) continue;
						std::vector<int> seq = {(int)first};
						std::function<void(size_t)> go = [&](size_t left)
							{
							vf::tick();
							for (size_t q = 0; q < ops.size(); q++)
								{
								if (left > 1) { seq.push_back(q); go(left - 1); seq.pop_back(); continue; }
								if (ops[q].change) continue;
								failed = false; trail.clear(); settings s; auto a = fresh();
								for (int op : seq) apply(*a, s, op);
								apply(*a, s, q);
								}
							};
						go(T ? 2 : 1);
						}
					}
	return vf::finish("19 operations (7 queries, 12 setting changes); every window of 2, 3 (and for most configurations 4) operations on one long-lived object, every pair (thorough: triple) on a new object; 3 collections, 2 formats, 4 values of k, 4 accumulator widths");
	}

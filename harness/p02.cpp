// P02: a list of queries searched by several threads, every interleaving, compared with searching one by one.
#include "search.h"
#include "mc.h"
static collection C; static std::string dir; static std::unique_ptr<JASS_anytime_api> engine;
static std::vector<std::string> list, second; static size_t threads; static bool simple;
struct answer { std::string id, query, results; size_t postings; bool operator==(const answer &o) const { return id == o.id && query == o.query && results == o.results && postings == o.postings; } };
static std::map<std::string, answer> serial;					// query text -> what a search on its own gives
static std::string text(const answer &a) { return "id '" + a.id + "' query '" + a.query + "' postings " + std::to_string(a.postings) + " [" + flat(a.results) + "]"; }
static void once(const std::vector<std::string> &list, const char *when)
	{
	std::vector<JASS_anytime_thread_result> out;
	if (simple) { auto copy = list; out = engine->threaded_search(copy, threads); }
	else
		{
		std::vector<JASS_anytime_query> queries; for (auto &q : list) queries.push_back(q);
		if (engine->search(out, queries, threads) != JASS_ERROR_OK) mc::fail("error", "%s: searching reports an error", when);
		}
	if (out.size() != threads) mc::fail("answers", "%s: %zu result sets for %zu threads", when, out.size(), threads);
	std::map<std::string, int> answered; size_t n = 0;
	for (auto &o : out)
		for (auto &[id, r] : o)
			{
			answer got = {r.query_id, r.query, r.results_list, r.postings_processed}; n++;
			const answer *want = nullptr; std::string which;
			for (auto &q : list) if (serial[q].id == id) { want = &serial[q]; which = q; }
			if (!want) mc::fail("answers", "%s: an answer for query id '%s', which was not asked", when, id.c_str());
			if (answered[which]++) mc::fail("twice", "%s: query '%s' was answered twice", when, which.c_str());
			if (!(got == *want)) mc::fail("differs", "%s: query '%s' gives %s; on its own it gives %s", when, which.c_str(), text(got).c_str(), text(*want).c_str());
			}
	if (n != list.size()) { std::string missing; for (auto &q : list) if (!answered[q]) missing += "'" + q + "' "; mc::fail("unanswered", "%s: %zu queries, %zu answers; without an answer: %s", when, list.size(), n, missing.c_str()); }
	}
static void body(void *) { once(list, "first list"); if (second.size()) once(second, "second list"); }
static void build()
	{
	C = collection(9);
	for (uint32_t d = 0; d < 9; d++)
		{
		C.terms["alpha"][d] = 1 + d % 3 * 40;
		if (d % 2) C.terms["beta"][d] = 90 + d;
		if (d % 3 == 1) C.terms["gamma"][d] = 120;
		if (d > 5) C.terms["delta"][d] = 2 * d;
		}
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough(); const uint64_t MOST = vf::q(600, 300000);
	build();
	std::vector<std::string> Q = {"1 alpha beta", "2 gamma", "3:delta alpha alpha", "", "5 beta gamma alpha delta", "6 nosuchterm", "7"};
	if (!T) Q.resize(6);
	std::vector<std::vector<std::string>> lists;
	lists.push_back({});
	for (auto &a : Q) { lists.push_back({a}); for (auto &b : Q) { if (a != b && !(a == "7" && b == "") && !(b == "7" && a == "")) lists.push_back({a, b}); } }
	for (size_t a = 0; a < Q.size(); a++) for (size_t b = 0; b < Q.size(); b++) for (size_t c = 0; c < Q.size(); c++) if (a != b && b != c && a != c && (T || (a * 7 + b * 3 + c) % 5 == 0) && !((a == 6 || b == 6 || c == 6) && (a == 3 || b == 3 || c == 3))) lists.push_back({Q[a], Q[b], Q[c]});
	lists.push_back({Q[0], Q[1], Q[2], Q[4]}); lists.push_back({Q[4], Q[3], Q[0], Q[5]}); if (T) lists.push_back({Q[0], Q[1], Q[2], Q[3], Q[4]});
	std::ofstream("oracle.txt") << "1 90\n2 120\n3 30\n5 200\n";
	std::string oracle = std::filesystem::current_path().string() + "/oracle.txt";
	for (int version : {1, 2})
		{
		dir = write_index(C, version);
		for (int setting = 0; setting < 6; setting++)
			{
			if (version == 2 && setting && !T) continue;
			const char *names[] = {"no budget", "budget of 7 postings", "half of each query's postings", "oracle scores", "raw parser", "wide results"};
			auto fresh = [&]()
				{
				auto e = std::make_unique<JASS_anytime_api>();
				e->set_top_k(setting == 5 ? 20 : 3);
				if (e->load_index(version, dir) != JASS_ERROR_OK) vf::fail("load", "could not load a good index");
				if (setting == 1) e->set_postings_to_process(7); if (setting == 2) e->set_postings_to_process_relative(50); if (setting == 3) e->load_oracle_scores(oracle); if (setting == 4) e->use_ascii_parser();
				return e;
				};
			serial.clear();
			{ auto e = fresh(); for (auto &q : Q) { auto r = e->search(q); serial[q] = {r.query_id, r.query, r.results_list, r.postings_processed}; } }
			// one object for every case of this setting: each execution is a forked child, which starts from it as it is
			engine = fresh();
			for (auto &l : lists)
				for (size_t t : {1, 2, 3, 4})
					{
					if (t == 4 && (!T || l.size() > 3)) continue;
					if (t == 3 && !T && l.size() > 2 && setting) continue;
					if (setting && !T && (l.size() < 2 || l.size() == 3)) continue;
					if (!vf::mine()) continue;
					std::string what; for (auto &q : l) what += "'" + q + "' ";
					threads = t; list = l; simple = l.size() % 2; second.clear();
					if (l.size() == 2) { second = l; std::reverse(second.begin(), second.end()); if (t > 2 || (!T && (setting || version == 2))) second.clear(); }
					vf::describe("%zu threads, format %d, %s, queries %s%s", t, version, names[setting], what.c_str(), second.size() ? "then again reversed" : ""); 
					mc::result r; mc::explore(body, nullptr, t == 3 && !T ? 1 : second.size() && !T ? 2 : -1, t == 3 && !T ? 400 : MOST, r, vf::tick);
					vf::eval(r.schedules - 1); vf::step(r.transitions); vf::nontrivial(vf::described()); vf::sample(vf::described() + ": " + std::to_string(r.schedules) + " schedules" + (r.complete ? "" : " (stopped)"));
					if (getenv("MC_VERBOSE")) fprintf(stderr, "%s: %llu schedules, longest %llu %s\n", vf::described().c_str(), (unsigned long long)r.schedules, (unsigned long long)r.longest, r.complete ? "" : "INCOMPLETE");
					if (r.failed) vf::fail(r.kind, "%s: %s; schedule %s", vf::described().c_str(), r.message, r.schedule);
					}
			}
		// two queries with one id: both must be answered
		for (size_t t : {1, 2})
			{
			if (!vf::mine()) continue;
			engine = std::make_unique<JASS_anytime_api>(); engine->load_index(version, dir); threads = t; simple = false; second.clear();
			vf::describe("%zu threads, format %d, two queries with the same id", t, version); vf::nontrivial(vf::described());
			struct local { static void body(void *)
				{
				std::vector<JASS_anytime_query> q; q.push_back(std::string("1 alpha")); q.push_back(std::string("1 gamma")); std::vector<JASS_anytime_thread_result> out;
				engine->search(out, q, threads); size_t n = 0; for (auto &o : out) n += o.results.size();
				if (n != 2) mc::fail("duplicate-id", "two queries with the same id got %zu answers", n);
				} };
			mc::result r; mc::explore(local::body, nullptr, -1, MOST, r, vf::tick); vf::eval(r.schedules - 1);
			if (r.failed) vf::fail(r.kind, "%s: %s", vf::described().c_str(), r.message);
			}
		drop_index(dir);
		}
	return vf::finish("every list of up to 2 (3) queries out of 6 (7) kinds, some of 3 to 5, 1 to 3 (4) threads, six settings, both formats, one or two lists per object: every interleaving of the threads' synchronisation operations, every plain access checked for data races");
	}

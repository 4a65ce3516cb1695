// P25: failed loads and refused settings change nothing.
#include "search.h"
#include <functional>
static collection C; static std::string home; static int goodv[2];
static std::string good[3];							// a good index in each format
static std::string oracle;
static const char *FILES[] = {"CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin"};
// a copy of the good index of a format in which the files of a mask are damaged: 1 missing, 2 a directory of that name, 3 empty, 4 a dangling link
static std::string damaged(int version, int mask, int how)
	{
	std::string d = home + "/bad" + std::to_string(version) + "_" + std::to_string(mask) + "_" + std::to_string(how);
	std::filesystem::create_directory(d);
	for (int f = 0; f < 4; f++)
		{
		std::string to = d + "/" + FILES[f];
		if (!(mask >> f & 1)) std::filesystem::copy_file(good[version] + "/" + FILES[f], to);
		else if (how == 2) std::filesystem::create_directory(to);
		else if (how == 3) std::ofstream(to.c_str());
		else if (how == 4) std::filesystem::create_symlink("nowhere", to);
		}
	return d;
	}
// what the object should be
struct state { int loaded = 0; size_t k = 10, width = 0; size_t budget = ALL; int table = 0; bool ascii = false; std::string key() const { return std::to_string(loaded) + "/" + std::to_string(k) + "/" + std::to_string(width) + "/" + std::to_string(budget) + "/" + std::to_string(table) + (ascii ? "a" : "q"); } };
struct operation { std::string name; std::function<bool(JASS_anytime_api &, state &, std::string &)> run; };
static const std::vector<std::string> QUERIES = {"1 alpha beta", "gamma", "2 delta nothing alpha", "3 nothing", ""};
static std::string ask(JASS_anytime_api &a)
	{
	std::string o;
	for (auto &q : QUERIES) { auto r = a.search(q); o += "<" + r.query_id + "|" + r.query + "|" + std::to_string(r.postings_processed) + "|" + r.results_list + ">"; }
	for (size_t t : {1, 2})
		{
		std::vector<JASS_anytime_query> l; for (auto &q : QUERIES) if (q.size() > 2 && q[1] == ' ') l.push_back(q);
		std::vector<JASS_anytime_thread_result> out; auto e = a.search(out, l, t);
		o += e == JASS_ERROR_OK ? "ok" : "error";
		std::map<std::string, std::string> all; for (auto &x : out) for (auto &[id, r] : x) all[id] += r.results_list + "#" + std::to_string(r.postings_processed);
		for (auto &[id, r] : all) o += id + "=" + r;
		auto copy = QUERIES; copy.resize(1); auto ts = a.threaded_search(copy, t); std::string s; for (auto &x : ts) for (auto &[id, r] : x) s += r.results_list;
		o += "[" + s + "]";
		}
	return o;
	}
static std::map<std::string, std::string> memo;
static const std::string &expected(const state &s)
	{
	auto at = memo.find(s.key()); if (at != memo.end()) return at->second;
	JASS_anytime_api a;
	a.set_top_k(s.k); if (s.width) a.set_accumulator_width(s.width);
	if (s.loaded) { if (a.load_index(s.loaded, good[s.loaded]) != JASS_ERROR_OK) vf::fail("load", "a good index of format %d does not load", s.loaded); }
	if (s.budget != ALL) a.set_postings_to_process(s.budget);
	if (s.table) a.load_oracle_scores(s.table == 1 ? oracle : home + "/scoreless.txt"); if (s.ascii) a.use_ascii_parser();
	std::string r = ask(a);
	// and, independently of the engine: an answer has results exactly when an index is loaded
	if (!s.loaded && (r.find("Q0") != std::string::npos || r.find("ok") != std::string::npos)) vf::fail("unloaded", "searching without an index gives %s", flat(r).c_str());
	if (s.loaded && s.budget == ALL && (r.find("Q0") == std::string::npos || r.find("error") != std::string::npos)) vf::fail("load", "searching a good index gives %s", flat(r).c_str());
	return memo[s.key()] = r;
	}
static std::vector<operation> ops;
static bool check(JASS_anytime_api &a, const state &s, std::string &why)
	{
	if ((a.get_document_count() != 0) != (s.loaded != 0) || (s.loaded && a.get_document_count() != C.n)) { why = "get_document_count() is " + std::to_string(a.get_document_count()); return false; }
	if (a.get_top_k() != s.k) { why = "get_top_k() is " + std::to_string(a.get_top_k()) + ", not " + std::to_string(s.k); return false; }
	if (a.get_postings_to_process() != (uint32_t)s.budget) { why = "get_postings_to_process() changed"; return false; }
	std::string name; int32_t d = 77; auto e = a.get_encoding_scheme(name, d);
	if ((e == JASS_ERROR_OK) != (s.loaded != 0)) { why = "get_encoding_scheme() disagrees about an index being loaded"; return false; }
	if (!s.loaded && a.get_encoding_scheme_name() != "") { why = "get_encoding_scheme_name() gives a name without an index"; return false; }
	if (s.loaded && (a.get_encoding_scheme_name() != name || a.get_encoding_scheme_d() != d || name == "")) { why = "the encoding scheme's getters disagree"; return false; }
	std::string got = ask(a);
	if (got != expected(s)) { why = "searching gives [" + flat(got) + "] instead of [" + flat(expected(s)) + "]"; return false; }
	return true;
	}
static void sequence(const std::vector<int> &seq, bool every)
	{
	vf::eval();
	auto a = std::make_unique<JASS_anytime_api>(); state s; std::string why, trail;
	for (size_t i = 0; i < seq.size(); i++)
		{
		vf::step(); trail += ops[seq[i]].name + "; ";
		if (!ops[seq[i]].run(*a, s, why)) { vf::fail("report", "after %s%s", trail.c_str(), why.c_str()); return; }
		if ((every || i + 1 == seq.size()) && !check(*a, s, why)) { vf::fail("state", "after %s%s", trail.c_str(), why.c_str()); return; }
		}
	}
static void load_op(const std::string &name, int version, const std::string &dir, int gives)
	{
	ops.push_back({name, [=](JASS_anytime_api &a, state &s, std::string &why)
		{
		auto e = a.load_index(version, dir);
		bool ok = gives && !s.loaded;
		if ((e == JASS_ERROR_OK) != ok) { why = ok ? "the load reports an error" : "the load reports success"; return false; }
		if (ok) s.loaded = gives;
		return true;
		}});
	}
static void set_op(const std::string &name, std::function<JASS_ERROR(JASS_anytime_api &)> f, std::function<int(state &)> allowed, std::function<void(state &)> change)
	{
	ops.push_back({name, [=](JASS_anytime_api &a, state &s, std::string &why)
		{
		auto e = f(a); int ok = allowed(s);								// 1 must succeed, 0 must fail
		if ((e == JASS_ERROR_OK) != (ok == 1)) { why = ok ? "that reports an error" : "that reports success"; return false; }
		if (ok) change(s);
		return true;
		}});
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	home = std::filesystem::current_path().string();
	C = collection(9);
	for (uint32_t d = 0; d < 9; d++) { C.terms["alpha"][d] = 1 + d % 3 * 40; if (d % 2) C.terms["beta"][d] = 90 + d; if (d % 3 == 1) C.terms["gamma"][d] = 120; if (d > 5) C.terms["delta"][d] = 2 * d; }
	good[1] = write_index(C, 1); good[2] = write_index(C, 2);
	oracle = home + "/oracle.txt"; std::ofstream(oracle.c_str()) << "1 120\n2 90\n";
	std::ofstream((home + "/scoreless.txt").c_str()) << "1 120\n2\n3 7\n";
	auto before_load = [](state &s) { return s.loaded ? 0 : 1; };
	// every damage to every set of files, from every simple history
	for (int version : {1, 2})
		for (int how : {1, 2, 3, 4})
			for (int mask = 1; mask < 16; mask++)
				{
				if (!vf::mine()) continue;
				const char *hows[] = {"", "missing", "directories", "empty", "dangling links"};
				vf::describe("format %d, files of mask %d are %s", version, mask, hows[how]); vf::nontrivial(vf::described()); vf::sample(vf::described());
				std::string bad = damaged(version, mask, how);
				ops.clear();
				load_op("load damaged", version, bad, 0); load_op("load good format 1", 1, good[1], 1); load_op("load good format 2", 2, good[2], 2);
				set_op("set_top_k(3)", [](JASS_anytime_api &a) { return a.set_top_k(3); }, before_load, [](state &s) { s.k = 3; });
				for (int a = 0; a < 4; a++) { sequence({a}, true); for (int b = 0; b < 4; b++) { sequence({a, b}, false); for (int c = 0; c < 4; c++) { if (!T && how == 3 && mask % 3) continue; sequence({a, b, c}, false); if (T) for (int d = 0; d < 4; d++) sequence({a, b, c, d}, false); } } }
				std::filesystem::remove_all(bad);
				}
	// every sequence of operations
	ops.clear();
	load_op("load format 1", 1, good[1], 1); load_op("load format 2", 2, good[2], 2);
	load_op("load format 0", 0, good[1], 0); load_op("load format 3", 3, good[2], 0);
	load_op("load from nowhere", 1, home + "/nowhere", 0);
	std::string bad = vf::g().only == ~0ull || true ? damaged(2, 8, 1) : "";
	load_op("load without postings", 2, bad, 0);
	set_op("set_top_k(2)", [](JASS_anytime_api &a) { return a.set_top_k(2); }, before_load, [](state &s) { s.k = 2; });
	set_op("set_top_k(the most)", [](JASS_anytime_api &a) { return a.set_top_k(a.get_max_top_k()); }, before_load, [](state &s) { s.k = 1000; });
	set_op("set_top_k(one too many)", [](JASS_anytime_api &a) { return a.set_top_k((size_t)a.get_max_top_k() + 1); }, [](state &) { return 0; }, [](state &) {});
	set_op("set_top_k(2^32 + 2)", [](JASS_anytime_api &a) { return a.set_top_k((1ull << 32) + 2); }, [](state &) { return 0; }, [](state &) {});
	set_op("set_accumulator_width(3)", [](JASS_anytime_api &a) { return a.set_accumulator_width(3); }, before_load, [](state &s) { s.width = 3; });
	set_op("set_accumulator_width(33)", [](JASS_anytime_api &a) { return a.set_accumulator_width(33); }, [](state &) { return 0; }, [](state &) {});
	set_op("set_postings_to_process(5)", [](JASS_anytime_api &a) { return a.set_postings_to_process(5); }, [](state &) { return 1; }, [](state &s) { s.budget = 5; });
	set_op("set_postings_to_process_proportion(100/3)", [](JASS_anytime_api &a) { return a.set_postings_to_process_proportion(34); }, [](state &s) { return s.loaded ? 1 : 0; }, [](state &s) { s.budget = C.n * 34 / 100; });
	set_op("load_oracle_scores(good)", [](JASS_anytime_api &a) { return a.load_oracle_scores(oracle); }, [](state &) { return 1; }, [](state &s) { s.table = 1; });
	set_op("load_oracle_scores(a line without a score)", [](JASS_anytime_api &a) { return a.load_oracle_scores(home + "/scoreless.txt"); }, [](state &) { return 1; }, [](state &s) { s.table = 2; });
	set_op("use_ascii_parser()", [](JASS_anytime_api &a) { return a.use_ascii_parser(); }, [](state &) { return 1; }, [](state &s) { s.ascii = true; });
	const int N = ops.size();
	for (int a = 0; a < N; a++)
		for (int b = 0; b < N; b++)
			{
			if (!vf::mine()) continue;
			vf::describe("sequences starting %s, %s", ops[a].name.c_str(), ops[b].name.c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
			if (b == 0) sequence({a}, false);
			sequence({a, b}, false);
			for (int c = 0; c < N; c++) { sequence({a, b, c}, false); if (T) for (int d = 0; d < N; d++) sequence({a, b, c, d}, false); }
			}
	// more documents than an object can hold
	for (int version : {1, 2})
		for (int extra : {-1, 0, 1, 2, 500})
			{
			if (!vf::mine()) continue;
			size_t n = JASS::query::MAX_DOCUMENTS + extra;
			vf::describe("%zu documents, at most %zu allowed, format %d", n, (size_t)JASS::query::MAX_DOCUMENTS, version); vf::nontrivial(vf::described()); vf::eval();
			collection big(n); big.terms["alpha"][0] = 5; big.terms["alpha"][n - 1] = 7;
			std::string dir = write_index(big, version); JASS_anytime_api a; auto e = a.load_index(version, dir);
			if ((e == JASS_ERROR_OK) != (extra <= 0)) vf::fail("report", "loading %zu documents when %zu are allowed reports %d", n, (size_t)JASS::query::MAX_DOCUMENTS, (int)e);
			else if (e == JASS_ERROR_OK) { auto r = a.search("alpha"); if (r.results_list.find(big.keys[n - 1]) == std::string::npos || r.results_list.find(big.keys[0]) == std::string::npos) vf::fail("state", "%zu documents: searching gives %s", n, flat(r.results_list).c_str()); }
			else { state s; std::string why; if (a.load_index(1, good[1]) != JASS_ERROR_OK) vf::fail("state", "after a refused index a good one does not load"); s.loaded = 1; if (!check(a, s, why)) vf::fail("state", "after a refused index: %s", why.c_str()); }
			drop_index(dir);
			}
	return vf::finish("every non-empty set of the index's four files missing, replaced by directories or dangling links, or emptied, both formats, in every sequence of up to 3 (4) loads and settings; every sequence of 3 (4) out of 17 operations, good and refused; the object compared with a new one in the same state after each");
	}

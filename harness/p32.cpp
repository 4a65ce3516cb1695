// P32: the search program of a compiled index, and run files, against a reference ranking.
#include "vf.h"
#include <map>
#include <algorithm>
#include <exception>
#include <sstream>
#include "ascii.h"
#include "query_heap.h"
#include "string_cpp.h"
#include "channel_file.h"
#include "parser_query.h"
#include "allocator_pool.h"
#include "accumulator_2d.h"
#include "run_export.h"
#include "run_export_trec.h"
#define main compiled_main
#include "../compiled_index/JASS_compiled_index.cpp"
#undef main

// the "compiled" index: functions that do what generated ones do
static const int TERMS = 300;
static std::vector<std::pair<uint32_t, uint32_t>> list[TERMS];			// document from 1, impact
template <int N> static void method(JASS::query_heap &q) { for (auto &[d, i] : list[N]) q.add_rsv(d, (JASS::query::ACCUMULATOR_TYPE)i); }
typedef void (*method_t)(JASS::query_heap &);
template <int... I> static std::vector<method_t> all_methods(std::integer_sequence<int, I...>) { return {method<I>...}; }
static std::vector<method_t> methods = all_methods(std::make_integer_sequence<int, TERMS>());
#define X0 {nullptr, nullptr}
#define X5 X0, X0, X0, X0, X0
#define X50 X5, X5, X5, X5, X5, X5, X5, X5, X5, X5
JASS_ci_vocab dictionary[] = {X50, X50, X50, X50, X50, X50};
uint64_t dictionary_length;
std::vector<std::string> primary_key;

struct contents { std::vector<std::string> names; std::vector<std::map<uint32_t, uint32_t>> postings; size_t documents; };
// the order of postings within a list is by decreasing impact then document, as compiled from an impact-ordered index
static void install(const contents &x, int rotate)
	{
	primary_key.assign(1, "-"); for (size_t d = 1; d <= x.documents; d++) primary_key.push_back("key" + std::to_string(d * 7 % 1000003));
	dictionary_length = x.names.size();
	for (size_t t = 0; t < x.names.size(); t++)
		{
		size_t slot = (t + rotate) % x.names.size();
		dictionary[slot] = JASS_ci_vocab(x.names[t].c_str(), methods[t]);
		list[t].assign(x.postings[t].begin(), x.postings[t].end());
		std::stable_sort(list[t].begin(), list[t].end(), [](auto &a, auto &b) { return a.second > b.second; });
		}
	}
struct question { std::string text; uint64_t id; std::vector<std::string> terms; };
static std::string answer(const contents &x, const question &q)
	{
	std::map<uint32_t, uint64_t> sum; std::vector<std::string> terms = q.terms; std::sort(terms.begin(), terms.end()); terms.erase(std::unique(terms.begin(), terms.end()), terms.end());
	for (auto &t : terms) for (size_t i = 0; i < x.names.size(); i++) if (x.names[i] == t) for (auto &[d, v] : x.postings[i]) sum[d] += v;
	std::vector<std::pair<uint64_t, uint32_t>> best; for (auto &[d, s] : sum) best.push_back({s, d});
	std::sort(best.rbegin(), best.rend()); if (best.size() > 10) best.resize(10);
	std::string out; size_t rank = 0;
	for (auto &[s, d] : best) { rank++; out += std::to_string(q.id) + " Q0 " + primary_key[d] + " " + std::to_string(rank) + " " + std::to_string(s) + " JASSv2(ID:" + std::to_string(d) + "->" + std::to_string(s) + ")\n"; }
	return out;
	}
static std::string run(const std::string &input)
	{
	FILE *f = fopen("queries.txt", "wb"); if (!f || fwrite(input.data(), 1, input.size(), f) != input.size() || fclose(f)) abort();
	if (!freopen("queries.txt", "rb", stdin)) abort();
	std::ostringstream out; auto old = std::cout.rdbuf(out.rdbuf());
	char name[] = "JASS_compiled_index"; char *argv[] = {name, nullptr};
	int r = compiled_main(1, argv);
	std::cout.rdbuf(old);
	std::string s = out.str(); if (r) s += "exit " + std::to_string(r);
	return s;
	}
static void check(const contents &x, const std::vector<question> &qs, const std::string &ending, int rotate = 0)
	{
	install(x, rotate);
	std::string input; for (auto &q : qs) input += q.text + "\n";
	if (ending == "cut") input.pop_back(); else input += ending;
	vf::eval(qs.size()); vf::step(qs.size());
	std::string got = run(input);
	// a prompt before every query, and one when the input ends
	size_t at = 0;
	for (auto &q : qs)
		{
		if (got[at] == ']') at++;
		std::string want = answer(x, q);
		size_t end = got.find(']', at); if (end == std::string::npos) end = got.size();
		if (got.compare(at, end - at, want))
			{
			vf::fail("answer", "%zu documents, query '%s': answered '%s', should be '%s'", x.documents, vf::esc(q.text).c_str(), vf::esc(got.substr(at, std::min<size_t>(end - at, 300))).c_str(), vf::esc(want.substr(0, 300)).c_str());
			return;
			}
		at = end;
		}
	while (at < got.size() && (got[at] == ']' || got[at] == '\n')) at++;
	if (at < got.size()) vf::fail("after", "after the last query: '%s'", vf::esc(got.substr(at, 200)).c_str());
	}
static std::vector<question> questions(const std::string &a, const std::string &b)
	{
	auto digit = [](const std::string &s) { for (char c : s) if (!isdigit((unsigned char)c)) return false; return true; };
	std::vector<question> r;
	auto add = [&](std::vector<std::string> terms, const char *join)
		{
		std::string s; for (auto &t : terms) { if (s.size()) s += join; s += t; }
		if (terms.empty() || !digit(terms[0])) r.push_back({s, 0, terms});
		r.push_back({"17 " + s, 17, terms});
		r.push_back({" 4711\t" + s, 4711, terms});
		r.push_back({"10 " + s + " 10", 10, [&] { auto t = terms; t.push_back("10"); return t; }()});
		};
	add({}, " "); add({a}, " "); add({b}, " "); add({a, b}, " "); add({b, a}, " "); add({a, a}, " "); add({b, a, b, b}, "  "); add({a, "zzz", b}, " "); add({"zzz"}, " "); if (!digit(a)) add({a + "x"}, " "); add({"zz", b, "5"}, ", ");
	return r;
	}
struct hit { size_t document_id; std::string primary_key; uint32_t rsv; };
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	char home[] = "/tmp/p32XXXXXX"; if (!mkdtemp(home) || chdir(home)) abort();
#ifndef LARGE
	// every small collection
	const std::vector<std::pair<std::string, std::string>> NAMES = {{"a", "b"}, {"1", "10"}, {"on", "one"}, {"one", "on"}, {"x", "2"}};
#ifdef __SANITIZE_ADDRESS__
	const size_t most = vf::q(1, 2), words_most = vf::q(12, 60);
#else
	const size_t most = vf::q(4, 5), words_most = vf::q(60, TERMS);
#endif
	for (size_t D = 0; D <= most; D++)
		for (auto &[a, b] : NAMES)
			{
			if (D == 4 && !T && a != "on") continue;
			size_t total = 1; for (size_t i = 0; i < D * 2; i++) total *= 3;
			for (size_t chunk = 0; chunk < total; chunk += 81)
				{
				if (!vf::mine()) continue;
				vf::describe("collections of %zu documents over %s and %s, %zu on", D, a.c_str(), b.c_str(), chunk);
				for (size_t c = chunk; c < std::min(total, chunk + 81); c++)
					{
					contents x; x.names = {a, b}; x.postings.resize(2); x.documents = D; size_t v = c;
					for (size_t d = 1; d <= D; d++) for (int t = 0; t < 2; t++) { if (v % 3) x.postings[t][d] = v % 3; v /= 3; }
					if (c % 100 == 0) { vf::nontrivial(vf::described() + std::to_string(c)); vf::sample(vf::described()); }
					for (int t = 1; t >= 0; t--) if (x.postings[t].empty()) { x.names.erase(x.names.begin() + t); x.postings.erase(x.postings.begin() + t); }
					check(x, questions(a, b), c % 4 == 0 ? ".quit\n" : c % 4 == 1 ? "" : c % 4 == 2 ? "cut" : ".quit", c % 2);
					}
				}
			}
#endif
	// more documents, more ties
#ifdef LARGE
	for (size_t D : T ? std::vector<size_t>{5000, 65535, 65536, 100000, 390000} : std::vector<size_t>{5000, 70000})
#else
	for (size_t D : most < 3 ? std::vector<size_t>{10, 11, 1024, 2000} : std::vector<size_t>{9, 10, 11, 12, 100, 1000, 1022, 1023, 1024, 1025, 1026, 2000, 2048})
#endif
		for (int kind = 0; kind < 4; kind++)
			{
			if (!vf::mine()) continue;
			vf::describe("%zu documents of kind %d", D, kind); vf::nontrivial(vf::described());
			contents x; x.documents = D;
			for (int t = 0; t < 6; t++)
				{
				x.names.push_back(std::string("t") + char('a' + t)); x.postings.emplace_back();
				for (size_t d = 1; d <= D; d++)
					{
					uint32_t v = kind == 0 ? 1 + (d * (t + 3)) % 40 : kind == 1 ? (d % (t + 2) == 0 ? 1 : 0) : kind == 2 ? (d + 3 >= D || d < 3 ? 30 + t : d % 2) : (d % (t * 11 + 5) == 1 ? 1 + d % 7 : 0);
					if (v) x.postings[t][d] = v;
					}
				}
			std::vector<question> qs;
			for (int mask = 0; mask < 64; mask += D > 4000 && !T ? 9 : 1) { question q{"", (uint64_t)mask + 1, {}}; q.text = std::to_string(mask + 1); for (int t = 0; t < 6; t++) if (mask >> t & 1) { q.terms.push_back(x.names[t]); q.text += " " + x.names[t]; } qs.push_back(q); }
			check(x, qs, "");
			}
#ifndef LARGE
	// dictionaries of every size: each term, and terms between them
	for (size_t n = 0; n <= words_most; n++)
		{
		if (!vf::mine()) continue;
		vf::describe("a dictionary of %zu terms", n); vf::nontrivial(vf::described());
		contents x; x.documents = n + 1; std::vector<question> qs; std::vector<std::string> words = {"", "m"};
		for (int i = 0; words.size() < n + 3; i++) { std::string w; for (int v = i + 1; v; v /= 5) w += "bdeno"[v % 5]; words.push_back(w); }
		for (size_t i = 0; i < n; i++) { x.names.push_back(words[i + 2]); x.postings.push_back({{(uint32_t)i + 1, 3}, {(uint32_t)i + 2, 4}}); }
		for (size_t i = 0; i < n; i++) for (std::string w : {x.names[i], x.names[i] + "a", x.names[i] + "z", x.names[i].substr(0, x.names[i].size() - 1)}) if (w.size()) { qs.push_back({w, 0, {w}}); qs.push_back({w + " " + x.names[(i * 7 + 3) % n], 0, {w, x.names[(i * 7 + 3) % n]}}); }
		qs.push_back({"m", 0, {"m"}});
		check(x, qs, ".quit\n", (int)(n * 3 / 7));
		}
	// ways to write a line
	if (vf::mine())
		{
		vf::describe("lines");
		contents x; x.documents = 3; x.names = {"aa", "bb", "2"}; x.postings = {{{1, 5}, {2, 6}}, {{2, 7}, {3, 1}}, {{1, 9}, {3, 3}}};
		std::vector<question> qs;
		for (std::string gap : {" ", "\t", "  ", ",", "-", " . "}) for (std::string id : {"", "0", "1", "99", "4294967296", "18446744073709551615"}) for (std::string tail : {"", " ", "\r", ".", " 2"})
			{ question q{id + (id.size() ? " " : "") + "AA" + gap + "bb" + tail, id.size() ? strtoull(id.c_str(), nullptr, 10) : 0, {"aa", "bb"}}; if (tail == " 2") q.terms.push_back("2"); qs.push_back(q); }
		for (size_t n : {1000, 1022, 1023, 1024, 1025, 2047, 2048, 5000}) { question q{"5 " + std::string(n, 'q') + " aa", 5, {"aa"}}; if (n > 200) q.text = "5 " + [&] { std::string s; while (s.size() < n) s += "q "; return s; }() + "aa"; qs.push_back(q); }
		check(x, qs, ".quit\n"); check(x, qs, "");  check(x, qs, "cut");
		}
	// run files
	for (size_t n = 0; n <= 5; n++)
		for (int form = 0; form < 8; form++)
			{
			if (!vf::mine()) continue;
			vf::describe("run files of %zu results, form %d", n, form); vf::nontrivial(vf::described());
			size_t total = 1; for (size_t i = 0; i < n; i++) total *= 4;
			for (size_t c = 0; c < total; c++)
				for (std::string topic : {"1", "q-7"})
					{
					std::vector<hit> h; size_t v = c; const uint32_t S[] = {0, 1, 255, 70000}; const char *K[] = {"a", "clueweb-00 x", "", "9"};
					for (size_t i = 0; i < n; i++) { h.push_back({i * 3 + v % 4, K[(v + i) % 4], S[v % 4]}); v /= 4; }
					std::string want; for (size_t i = 0; i < n; i++) { auto &d = h[form & 1 ? n - 1 - i : i]; want += topic + " Q0 " + d.primary_key + " " + std::to_string(i + 1) + " " + std::to_string(d.rsv) + " name"; if (form & 2) want += "(ID:" + std::to_string(d.document_id) + "->" + std::to_string(d.rsv) + ")"; want += "\n"; }
					std::ostringstream out; vf::eval(); vf::step();
					if (form & 4) JASS::run_export(JASS::run_export::TREC, out, topic, h, "name", form & 2, form & 1); else JASS::run_export_trec(out, topic, h, std::string("name"), form & 2, form & 1);
					if (out.str() != want) vf::fail("run", "%zu results, form %d: '%s', should be '%s'", n, form, vf::esc(out.str()).c_str(), vf::esc(want).c_str());
					}
			}
#endif
	if (chdir("/")) abort(); unlink((std::string(home) + "/queries.txt").c_str()); rmdir(home);
	return vf::finish("every collection of up to 3 (5) documents over two terms of five pairs, of 4 over one pair, impacts 0 to 2, 44 queries each; up to 70000 (390000) documents in four patterns with every combination of six terms; dictionaries of 0 to 60 (300) terms with terms between them; lines of many forms; run files of every list of up to 5 results");
	}

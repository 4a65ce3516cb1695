// P29: an index written in other forms: the forward index, the integer lists and the source code have exactly the index's postings, the printing tools print
// them, and the same collection gives the same files.
#include "vf.h"
#include <errno.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <immintrin.h>
#include <filesystem>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include "index_manager_sequential.h"
#include "quantize.h"
#include "quantize_none.h"
#include "ranking_function_atire_bm25.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "serialise_ci.h"
#include "serialise_integers.h"
#include "serialise_forward_index.h"
#include "file.h"
#include "commandline.h"
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"
#include "compress_integer_variable_byte.h"
#define main human_main
namespace human {
#include "../tools/JASSv1_to_human.cpp"
}
#undef main
#define main bin_main
namespace bin {
#include "../tools/bin_to_human.cpp"
}
#undef main
typedef JASS::index_postings_impact::impact_type impact_type;
static const unsigned TOP = JASS::index_postings_impact::largest_impact;
struct text { std::vector<std::pair<std::string, unsigned>> tokens; std::string key; };
typedef std::map<uint32_t, unsigned> postings;		// document (from 1) -> impact
typedef std::vector<std::pair<std::string, postings>> listing;	// in the order the index hands them out
static std::string home;
static std::string slurp(const std::string &name) { std::string r; FILE *f = fopen(name.c_str(), "rb"); if (!f) return r; static char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static void spit(const std::string &name, const std::string &text) { FILE *f = fopen(name.c_str(), "wb"); if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) { perror("spit"); _exit(98); } }
static std::string say(const postings &p) { std::string s; for (auto &[d, i] : p) if (s.size() < 200) s += std::to_string(d) + ":" + std::to_string(i) + " "; return s; }
static void feed(JASS::index_manager_sequential &m, const std::vector<text> &docs)
	{
	for (auto &d : docs)
		{
		std::string key = d.key;
		m.begin_document(JASS::slice((void *)key.data(), key.size()));
		for (auto &[t, n] : d.tokens)
			{
			std::string copy = t; JASS::parser::token token; token.type = JASS::parser::token::alpha; token.lexeme = JASS::slice((void *)copy.data(), copy.size()); token.count = n;
			m.term(token);
			}
		m.end_document(d.tokens.size());
		}
	}
// what the index hands to every exporter
struct catcher : public JASS::index_manager::delegate
	{
	listing *terms; std::vector<std::string> *keys;
	catcher(size_t documents, listing *t, std::vector<std::string> *k) : delegate(documents), terms(t), keys(k) {}
	void operator()(const JASS::slice &term, const JASS::index_postings &, uint32_t df, uint32_t *ids, impact_type *tf) { postings p; for (uint32_t i = 0; i < df; i++) p[ids[i]] = tf[i]; terms->push_back({std::string((char *)term.address(), term.size()), p}); }
	void operator()(size_t, const JASS::slice &key) { keys->push_back(std::string((char *)key.address(), key.size())); }
	void finish(void) {}
	};
static std::map<std::string, postings> as_map(const listing &l) { std::map<std::string, postings> m; for (auto &[t, p] : l) m[t] = p; return m; }
static std::string differ(const std::map<std::string, postings> &got, const std::map<std::string, postings> &want)
	{
	for (auto &[t, p] : want) { auto i = got.find(t); if (i == got.end()) return "term '" + vf::esc(t) + "' is missing"; if (i->second != p) return "term '" + vf::esc(t) + "' has " + say(i->second) + ", should be " + say(p); }
	for (auto &[t, p] : got) if (!want.count(t)) return "term '" + vf::esc(t) + "' is not in the index";
	return "";
	}
// the integer lists: for each term, from its highest impact to its lowest, a count and the documents (from 0)
static std::string read_integers(const listing &want)
	{
	std::string f = slurp("postings.bin"), expect;
	auto put = [&](uint32_t x) { expect.append((char *)&x, 4); };
	for (auto &[t, p] : want)
		{
		std::map<unsigned, std::vector<uint32_t>> by; for (auto &[d, i] : p) by[i].push_back(d - 1);
		for (auto i = by.rbegin(); i != by.rend(); ++i) { put((uint32_t)i->second.size()); for (auto d : i->second) put(d); }
		}
	if (f == expect) return "";
	size_t at = 0; while (at < f.size() && at < expect.size() && f[at] == expect[at]) at++;
	return "the file has " + std::to_string(f.size() / 4) + " integers, should have " + std::to_string(expect.size() / 4) + ", and they first differ at the one numbered " + std::to_string(at / 4) + " from 0";
	}
static std::string read_forward(const std::map<std::string, postings> &want)
	{
	std::string f = slurp("JASS_forward.index"); std::map<std::string, postings> got; size_t at = 0; long before = 0;
	while (at < f.size())
		{
		size_t end = f.find('\n', at); if (end == std::string::npos) return "the last line does not end";
		std::string line = f.substr(at, end - at); at = end + 1;
		const std::string a = "<DOC><DOCNO>", b = "</DOCID>", c = "</DOC>";
		size_t j = line.find(b); if (line.compare(0, a.size(), a) || j == std::string::npos || line.size() < j + b.size() + c.size() || line.compare(line.size() - c.size(), c.size(), c)) return "a line is '" + vf::esc(line.substr(0, 100)) + "'";
		long id = atol(line.c_str() + a.size()); if (std::to_string(id) != line.substr(a.size(), j - a.size())) return "a line is '" + vf::esc(line.substr(0, 100)) + "'";
		if (id <= before) return "document " + std::to_string(id) + " comes after " + std::to_string(before); before = id;
		std::string body = line.substr(j + b.size(), line.size() - c.size() - j - b.size()); size_t k = 0;
		while (k < body.size())
			{
			size_t space = body.find(' ', k); if (space == std::string::npos) return "the line of document " + std::to_string(id) + " has '" + vf::esc(body.substr(k, 50)) + "'";
			std::string word = body.substr(k, space - k); k = space + 1;
			size_t colon = word.rfind(':'); if (colon == std::string::npos) return "the line of document " + std::to_string(id) + " has '" + vf::esc(word) + "'";
			auto &p = got[word.substr(0, colon)]; if (p.count(id)) return "the line of document " + std::to_string(id) + " has '" + vf::esc(word.substr(0, colon)) + "' twice";
			unsigned long v = strtoul(word.c_str() + colon + 1, 0, 10); if (std::to_string(v) != word.substr(colon + 1)) return "the line of document " + std::to_string(id) + " has '" + vf::esc(word) + "'";
			p[id] = v;
			}
		}
	return differ(got, want);
	}
// A C++ string literal starting at s[at] (a double quote); at ends after it
static bool literal(const std::string &s, size_t &at, std::string &out)
	{
	out.clear(); if (at >= s.size() || s[at] != '"') return false; at++;
	while (at < s.size() && s[at] != '"')
		{
		unsigned char c = s[at++];
		if (c == '\n') return false;
		if (c != '\\') { out += c; continue; }
		if (at >= s.size()) return false;
		c = s[at++]; const char *simple = "abfnrtv\\'\"?", *value = "\a\b\f\n\r\t\v\\'\"?"; const char *w;
		if (c >= '0' && c <= '7') { unsigned v = c - '0'; for (int i = 0; i < 2 && at < s.size() && s[at] >= '0' && s[at] <= '7'; i++) v = v * 8 + s[at++] - '0'; out += (char)v; }
		else if (c == 'x') { unsigned v = 0; size_t from = at; while (at < s.size() && isxdigit((unsigned char)s[at])) { char h[2] = {s[at++], 0}; v = v * 16 + strtoul(h, 0, 16); } if (at == from || v > 255) return false; out += (char)v; }
		else if ((w = strchr(simple, c))) out += value[w - simple];
		else return false;
		}
	if (at >= s.size()) return false;
	at++; return true;
	}
static bool identifier(const std::string &s) { if (s.empty() || isdigit((unsigned char)s[0])) return false; for (unsigned char c : s) if (!(isalnum(c) || c == '_' || c >= 0x80)) return false; return true; }
struct scanner
	{
	const std::string &s; size_t at = 0;
	scanner(const std::string &s) : s(s) {}
	bool lit(const char *t) { size_t n = strlen(t); skip(); if (s.compare(at, n, t)) return false; at += n; return true; }
	void skip() { for (;;) { while (at < s.size() && isspace((unsigned char)s[at])) at++; if (!s.compare(at, 2, "/*")) { at = std::min(s.find("*/", at), s.size() - 2) + 2; continue; } if (!s.compare(at, 2, "//")) while (at < s.size() && s[at] != '\n') at++; else return; } }
	bool line(const char *starts) { skip(); if (s.compare(at, strlen(starts), starts)) return false; while (at < s.size() && s[at] != '\n') at++; return true; }
	std::string name() { skip(); size_t b = at; while (at < s.size() && s[at] != '(' && s[at] != '}' && s[at] != ',' && !isspace((unsigned char)s[at])) at++; return s.substr(b, at - b); }
	bool number(unsigned long &v) { skip(); if (at >= s.size() || !isdigit((unsigned char)s[at])) return false; char *e; v = strtoul(s.c_str() + at, &e, 10); at = e - s.c_str(); return true; }
	bool end() { skip(); return at == s.size(); }
	};
static std::string read_source(const std::map<std::string, postings> &want, const std::vector<std::string> &keys)
	{
	std::string cpp = slurp("JASS_postings.cpp"), h = slurp("JASS_postings.h"), vocab = slurp("JASS_vocabulary.cpp"), primary = slurp("JASS_primary_keys.cpp");
	std::map<std::string, postings> functions; std::set<std::string> declared;
	scanner a(cpp); while (a.line("#include") || a.line("using namespace")) ;
	while (!a.end())
		{
		std::string n; if (!a.lit("void") || (n = a.name()).empty() || !identifier(n)) return "JASS_postings.cpp: no C++ function begins at '" + vf::esc(cpp.substr(a.at > 40 ? a.at - 40 : 0, 80)) + "'";
		if (functions.count(n)) return "JASS_postings.cpp defines " + n + " twice";
		auto &p = functions[n];
		if (!a.lit("(query_heap &q)") || !a.lit("{")) return "JASS_postings.cpp: " + n + " is not a function of a query_heap";
		while (a.lit("q.add_rsv(")) { unsigned long d, i; if (!a.number(d) || !a.lit(",") || !a.number(i) || !a.lit(")") || !a.lit(";")) return "JASS_postings.cpp: " + n + " has a bad call"; if (p.count(d)) return "JASS_postings.cpp: " + n + " adds document " + std::to_string(d) + " twice"; p[d] = i; }
		if (!a.lit("}")) return "JASS_postings.cpp: " + n + " does not end";
		}
	scanner b(h); while (b.line("#") || b.line("using namespace")) ;
	while (!b.end()) { std::string n; if (b.line("#")) continue; if (!b.lit("void") || (n = b.name()).empty() || !identifier(n) || !b.lit("(query_heap &)") || !b.lit(";")) return "JASS_postings.h: no declaration at '" + vf::esc(h.substr(b.at > 40 ? b.at - 40 : 0, 80)) + "'"; if (!declared.insert(n).second) return "JASS_postings.h declares " + n + " twice"; }
	for (auto &[n, p] : functions) if (!declared.count(n)) return "JASS_postings.h does not declare " + n;
	if (declared.size() != functions.size()) return "JASS_postings.h declares what JASS_postings.cpp does not define";
	scanner c(vocab); while (c.line("#include")) ;
	if (!c.lit("JASS_ci_vocab dictionary[] =") || !c.lit("{")) return "JASS_vocabulary.cpp has no dictionary";
	std::map<std::string, postings> got;
	while (c.lit("{"))
		{
		std::string t, n; c.skip();
		if (!literal(vocab, c.at, t)) return "JASS_vocabulary.cpp: no string literal at '" + vf::esc(vocab.substr(c.at > 20 ? c.at - 20 : 0, 60)) + "'";
		if (!c.lit(",") || !functions.count(n = c.name())) return "JASS_vocabulary.cpp: term '" + vf::esc(t) + "' has the function '" + n + "', which is not defined";
		if (!c.lit("}") || !c.lit(",")) return "JASS_vocabulary.cpp: the entry of '" + vf::esc(t) + "' does not end";
		if (got.count(t)) return "JASS_vocabulary.cpp: term '" + vf::esc(t) + "' occurs twice";
		got[t] = functions[n];
		}
	unsigned long n = 0; if (!c.lit("}") || !c.lit(";") || !c.lit("uint64_t dictionary_length =") || !c.number(n) || !c.lit(";") || !c.end()) return "JASS_vocabulary.cpp does not end as it should";
	if (n != want.size()) return "JASS_vocabulary.cpp: the length is " + std::to_string(n) + ", for " + std::to_string(want.size()) + " terms";
	std::string wrong = differ(got, want); if (wrong.size()) return "source code: " + wrong;
	if (functions.size() != want.size()) return "JASS_postings.cpp: two terms have the same function";
	scanner d(primary); while (d.line("#include")) ;
	if (!d.lit("std::vector<std::string> primary_key =") || !d.lit("{")) return "JASS_primary_keys.cpp has no list";
	std::vector<std::string> k; for (d.skip(); !d.lit("}"); d.skip()) { std::string t; if (!literal(primary, d.at, t) || !d.lit(",")) return "JASS_primary_keys.cpp: no string literal at '" + vf::esc(primary.substr(d.at > 20 ? d.at - 20 : 0, 60)) + "'"; k.push_back(t); if (k.size() > keys.size() + 5) break; }
	if (!d.lit(";") || !d.end()) return "JASS_primary_keys.cpp does not end as it should";
	if (k != keys) { for (size_t i = 0; i < keys.size() && i < k.size(); i++) if (k[i] != keys[i]) return "primary key " + std::to_string(i) + " is '" + vf::esc(k[i]) + "', should be '" + vf::esc(keys[i]) + "'"; return "there are " + std::to_string(k.size()) + " primary keys, should be " + std::to_string(keys.size()); }
	return "";
	}
// the generated source, compiled and run
static std::string compiled(const std::map<std::string, postings> &want, const std::vector<std::string> &keys)
	{
	spit("query_heap.h", "#pragma once\n#include <stddef.h>\n#include <stdio.h>\nnamespace JASS { class query_heap { public: void add_rsv(size_t d, size_t i) { printf(\"%zu %zu\\n\", d, i); } }; }\n");
	spit("JASS_vocabulary.h", "#pragma once\nstruct JASS_ci_vocab { const char *term; void (*method)(JASS::query_heap &); };\n");
	spit("driver.cpp", "#include <stdint.h>\n#include <string>\n#include <vector>\n#include \"query_heap.h\"\n#include \"JASS_vocabulary.h\"\nextern JASS_ci_vocab dictionary[]; extern uint64_t dictionary_length; extern std::vector<std::string> primary_key;\nint main() { JASS::query_heap q; for (uint64_t i = 0; i < dictionary_length; i++) { printf(\"T%s\\n\", dictionary[i].term); dictionary[i].method(q); } for (auto &k : primary_key) printf(\"K%zu %s\\n\", k.size(), k.c_str()); }\n");
	if (system("g++ -std=c++17 -w -O0 -o driver driver.cpp JASS_postings.cpp JASS_vocabulary.cpp JASS_primary_keys.cpp > compile.log 2>&1")) return "the generated source does not compile: " + slurp("compile.log").substr(0, 600);
	if (system("./driver > driver.out 2>&1")) return "the generated source does not run";
	std::string out = slurp("driver.out"); std::map<std::string, postings> got; std::string k, term; postings *p = nullptr; size_t at = 0;
	while (at < out.size() && out[at] != 'K') { size_t e = out.find('\n', at); std::string l = out.substr(at, e - at); at = e + 1; if (l[0] == 'T') p = &got[l.substr(1)]; else { unsigned d, i; if (!p || sscanf(l.c_str(), "%u %u", &d, &i) != 2) return "the generated source printed '" + vf::esc(l) + "'"; if (p->count(d)) return "the generated source adds a document twice"; (*p)[d] = i; } }
	std::string expect; for (auto &x : keys) expect += "K" + std::to_string(x.size()) + " " + x + "\n";
	if (out.substr(at) != expect) return "the generated source has the primary keys '" + vf::esc(out.substr(at, 300)) + "'";
	std::string wrong = differ(got, want); return wrong.size() ? "the compiled source: " + wrong : "";
	}
template <class C> static int program(std::vector<std::string> args, int (*entry)(int, C), std::string &out)
	{
	fflush(stdout); std::cout.flush();
	pid_t p = fork();
	if (!p)
		{
		alarm(20); if (!freopen("stdout.txt", "wb", stdout)) _exit(99);
		std::vector<char *> v; for (auto &a : args) v.push_back(&a[0]); v.push_back(nullptr);
		int r = 99; try { r = entry((int)args.size(), (C)v.data()); } catch (...) { r = 77; }
		std::cout.flush(); fflush(stdout); _exit(r);
		}
	int st; waitpid(p, &st, 0); out = slurp("stdout.txt"); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
	}
// the text of an index in the search format: terms and postings in any order
static std::string read_human(const std::string &out, const std::map<std::string, postings> &want, const std::vector<std::string> &keys, bool atire, bool dictionary)
	{
	size_t at = 0; std::string title = dictionary ? "\nDICTIONARY\n----------\n" : "\nPOSTINGS LISTS\n-------------\n";
	if (!atire) { if (out.compare(0, title.size(), title)) return "the output does not start with its title"; at = title.size(); }
	std::map<std::string, postings> got;
	for (size_t n = 0; n < want.size(); n++)
		{
		size_t e = out.find('\n', at); if (e == std::string::npos) return "only " + std::to_string(n) + " terms are printed";
		std::string l = out.substr(at, e - at); at = e + 1;
		if (dictionary) { if (got.count(l)) return "'" + vf::esc(l) + "' is printed twice"; if (want.count(l)) got[l] = want.at(l); else return "'" + vf::esc(l) + "' is printed"; continue; }
		size_t space = l.find(' '); if (space == std::string::npos) return "a line is '" + vf::esc(l.substr(0, 100)) + "'";
		std::string t = l.substr(0, space); if (got.count(t)) return "'" + vf::esc(t) + "' is printed twice";
		auto &p = got[t]; size_t k = space + 1;
		while (k < l.size()) { unsigned d, i; int used = 0; if (sscanf(l.c_str() + k, "<%u,%u>%n", &d, &i, &used) != 2 || used == 0) return "a line is '" + vf::esc(l.substr(0, 100)) + "'"; k += used; if (p.count(d + 1)) return "'" + vf::esc(t) + "' has a document twice"; p[d + 1] = i; }
		}
	std::string wrong = differ(got, want); if (wrong.size()) return wrong;
	std::string expect; if (!atire && !dictionary) { expect = "\nPRIMARY KEY LIST\n----------------\n"; for (size_t i = 1; i < keys.size(); i++) expect += keys[i] + "\n"; }
	if (out.substr(at) != expect) return "the output ends with '" + vf::esc(out.substr(at, 300)) + "'";
	return "";
	}
static const char *FILES[] = {"postings.bin", "JASS_forward.index", "JASS_postings.cpp", "JASS_postings.h", "JASS_vocabulary.cpp", "JASS_primary_keys.cpp"};
enum { COMPILE = 1, TOOLS = 2, AGAIN = 4 };
static void everything(const std::vector<text> &docs, int also, int route = 0)
	{
	std::string what = vf::described(); vf::eval();
	if (route) what += ", quantised";
	auto build = [&](listing &terms, std::vector<std::string> &keys, listing &after)
		{
		auto m = std::make_unique<JASS::index_manager_sequential>(); feed(*m, docs);
		auto ranker = std::make_shared<JASS::ranking_function_atire_bm25>(0.9, 0.4, m->get_document_length_vector());
		size_t n = m->get_highest_document_id(); std::vector<std::string> other;
		std::vector<std::unique_ptr<JASS::index_manager::delegate>> out;
		out.push_back(std::make_unique<catcher>(n, &terms, &keys)); out.push_back(std::make_unique<JASS::serialise_integers>(n)); out.push_back(std::make_unique<JASS::serialise_forward_index>(n)); out.push_back(std::make_unique<JASS::serialise_ci>(n));
		if (also & TOOLS) { out.push_back(std::make_unique<JASS::serialise_jass_v1>(n)); }
		out.push_back(std::make_unique<catcher>(n, &after, &other));
		if (route) { JASS::quantize<JASS::ranking_function_atire_bm25> q(n, ranker); m->iterate(q); q.serialise_index(*m, out); }
		else { JASS::quantize_none<JASS::ranking_function_atire_bm25> q(n, ranker); q.serialise_index(*m, out); }
		};
	listing terms, after; std::vector<std::string> keys; build(terms, keys, after); vf::step();
	if (terms != after) vf::fail("disturbed", "%s: exporting an index changes what is exported next", what.c_str());
	auto want = as_map(terms);
	if (want.size() != terms.size()) vf::fail("terms", "%s: a term is handed to the exporters twice", what.c_str());
	std::vector<std::string> expect_keys = {"-"}; for (auto &d : docs) expect_keys.push_back(d.key);
	if (keys != expect_keys) vf::fail("keys", "%s: the exporters are given the wrong primary keys", what.c_str());
	std::map<std::string, postings> model; for (size_t d = 0; d < docs.size(); d++) for (auto &[t, n] : docs[d].tokens) { unsigned &f = model[t][d + 1]; f = std::min(f + n, TOP); }
	if (!route) { std::string w = differ(want, model); if (w.size()) vf::fail("postings", "%s: what is exported: %s", what.c_str(), w.c_str()); }
	else { bool same = want.size() == model.size(); for (auto &[t, p] : model) { auto i = want.find(t); if (i == want.end() || i->second.size() != p.size()) { same = false; break; } for (auto &[d, f] : p) if (!i->second.count(d)) same = false; } if (!same) vf::fail("postings", "%s: a posting is not exported", what.c_str()); }
	std::string w;
	if ((w = read_integers(terms)).size()) vf::fail("integers", "%s: %s", what.c_str(), w.c_str());
	if ((w = read_forward(want)).size()) vf::fail("forward", "%s: %s", what.c_str(), w.c_str());
	if ((w = read_source(want, expect_keys)).size()) vf::fail("source", "%s: %s", what.c_str(), w.c_str());
	if (also & COMPILE) { if ((w = compiled(want, expect_keys)).size()) vf::fail("compiled", "%s: %s", what.c_str(), w.c_str()); }
	if (also & TOOLS)
		{
		std::string out, expect = "Using:postings.bin\n"; int r = program({"bin_to_human", "postings.bin"}, bin::bin_main, out);
		for (auto &[t, p] : terms) { std::map<unsigned, std::string> by; std::map<unsigned, unsigned> n; for (auto &[d, i] : p) { by[i] += std::to_string(d - 1) + " "; n[i]++; } for (auto i = by.rbegin(); i != by.rend(); ++i) expect += std::to_string(n[i->first]) + ":" + i->second + "\n"; }
		if (r || out != expect) vf::fail("bin_to_human", "%s: exit %d, prints '%s', should be '%s'", what.c_str(), r, vf::esc(out.substr(0, 400)).c_str(), vf::esc(expect.substr(0, 400)).c_str());
		for (int version : {1, 2})
			for (int codex = 0; codex < 6; codex++)
				{
				// written by the tool's own choice of codec, and by each codec in turn
				static const JASS::serialise_jass_v1::jass_v1_codex CODEX[] = {JASS::serialise_jass_v1::jass_v1_codex::elias_gamma_simd, JASS::serialise_jass_v1::jass_v1_codex::uncompressed, JASS::serialise_jass_v1::jass_v1_codex::qmx, JASS::serialise_jass_v1::jass_v1_codex::elias_gamma_simd_vb, JASS::serialise_jass_v1::jass_v1_codex::elias_delta_simd};
				if (codex == 5 && version == 2) continue;					// the default was written above, for version 1
				if (codex == 2 && version == 2) continue;					// see P06 v2-qmx-alignment
				if (codex < 5)
					{
					auto m = std::make_unique<JASS::index_manager_sequential>(); feed(*m, docs); size_t n = m->get_highest_document_id();
					auto ranker = std::make_shared<JASS::ranking_function_atire_bm25>(0.9, 0.4, m->get_document_length_vector());
					std::vector<std::unique_ptr<JASS::index_manager::delegate>> o;
					if (version == 1) o.push_back(std::make_unique<JASS::serialise_jass_v1>(n, CODEX[codex], codex == 2 ? 16 : 1)); else o.push_back(std::make_unique<JASS::serialise_jass_v2>(n, CODEX[codex]));
					if (route) { JASS::quantize<JASS::ranking_function_atire_bm25> q(n, ranker); m->iterate(q); q.serialise_index(*m, o); }
					else { JASS::quantize_none<JASS::ranking_function_atire_bm25> q(n, ranker); q.serialise_index(*m, o); }
					}
				for (int mode = 0; mode < 4; mode++)
					{
					if (mode > 1 && codex != 0) continue;
					std::vector<std::string> args = {"JASSv1_to_human"}; if (version == 2) args.push_back("-2"); if (mode & 1) args.push_back("-A"); if (mode & 2) args.push_back("-d");
					r = program(args, human::human_main, out); vf::step();
					w = r ? "exit " + std::to_string(r) + ", prints '" + vf::esc(out.substr(0, 200)) + "'" : read_human(out, want, expect_keys, mode & 1, mode & 2);
					if (w.size()) vf::fail("JASSv1_to_human", "%s, version %d, codec %d%s%s: %s", what.c_str(), version, codex, mode & 1 ? ", -A" : "", mode & 2 ? ", -d" : "", w.c_str());
					}
				}
		}
	if (also & AGAIN)
		{
		std::vector<std::string> first; for (auto f : FILES) { first.push_back(slurp(f)); unlink(f); }
		std::vector<void *> junk; for (int i = 0; i < 50; i++) { junk.push_back(malloc(100 + i * 37)); memset(junk.back(), 0x55, 100 + i * 37); }
		for (size_t i = 0; i < junk.size(); i += 2) { free(junk[i]); junk[i] = nullptr; }
		listing t2, a2; std::vector<std::string> k2; build(t2, k2, a2);
		for (size_t i = 0; i < 6; i++) if (slurp(FILES[i]) != first[i]) vf::fail("repeatable", "%s: %s differs the second time the collection is indexed", what.c_str(), FILES[i]);
		for (auto j : junk) free(j);
		}
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough(); home = std::filesystem::current_path().string() + "/p29." + std::to_string(getpid()); std::filesystem::create_directory(home); if (chdir(home.c_str())) abort();
	auto blank = [](size_t n) { std::vector<text> d(n); for (size_t i = 0; i < n; i++) d[i].key = "D" + std::to_string(i * i + 5); return d; };
	// every small collection: documents over three terms with frequencies 0 to 2
	for (size_t D = 0; D <= (size_t)vf::q(3, 4); D++)
		{
		size_t kinds = D <= 1 ? 27 : D == 2 ? (T ? 27 : 18) : D == 3 ? (T ? 27 : 8) : 8, total = 1; for (size_t i = 0; i < D; i++) total *= kinds;
		for (size_t c = 0; c < total; c += 27)
			{
			if (!vf::mine()) continue;
			for (size_t v = c; v < std::min(c + 27, total); v++)
				{
				if (!T && D == 3) { size_t i = v % kinds, j = v / kinds % kinds, k = v / kinds / kinds; if (!(i <= j && j <= k) && !(i >= j && j >= k)) continue; }
				vf::tick(); auto docs = blank(D); size_t x = v; std::string s;
				for (size_t d = 0; d < D; d++) { size_t k = x % kinds; x /= kinds; const char *names[] = {"a", "b1", "ccc"}; const bool two = kinds >= 18; s += " {"; for (int t = 0; t < 3; t++) { unsigned base = two && (kinds == 27 || t < 2) ? 3 : 2, n = k % base; k /= base; for (unsigned i = 0; i < n; i++) docs[d].tokens.push_back({names[t], 1}); if (n) s += std::string(" ") + names[t] + ":" + std::to_string(n); } s += " }"; }
				vf::describe("documents%s", s.c_str()); vf::nontrivial(s); if (v % 50 == 0) vf::sample(vf::described());
				everything(docs, v % 64 == 5 ? TOOLS | AGAIN : 0);
				}
			}
		}
	// larger collections
	for (size_t D : T ? std::vector<size_t>{1, 7, 8, 9, 64, 127, 128, 129, 255, 256, 257, 500} : std::vector<size_t>{8, 127, 129, 257, 500})
		for (int kind = 0; kind < 4; kind++)
			for (int route : {0, 1})
				{
				if (!vf::mine()) continue;
				const char *kinds[] = {"every step and start", "single documents and pairs", "many impacts", "a term of every document"};
				vf::describe("%zu documents, %s", D, kinds[kind]); vf::nontrivial(std::string(vf::described()) + (route ? " quantised" : "")); vf::sample(vf::described());
				auto docs = blank(D); size_t v = 0; auto put = [&](size_t d, size_t v, unsigned n) { docs[d].tokens.push_back({"t" + std::to_string(v), n}); };
				if (kind == 0) for (size_t step = 1; step <= D; step += 1 + step / 4) for (size_t start : {(size_t)0, step - 1}) { for (size_t d = start; d < D; d += step) put(d, v, 1 + (d / step) % 3); v++; }
				if (kind == 1) for (size_t d = 0; d < D; d += 1 + D / 40) { put(d, v++, 1); put(0, v, 2); if (d) put(d, v, 2); v++; }
				if (kind == 2) for (unsigned spread : {2u, 7u, 127u, 128u, 255u, 256u, 1000u, TOP}) { for (size_t d = 0; d < D; d++) put(d, v, 1 + (d * 37) % spread); v++; for (size_t d = 0; d < D; d++) put(d, v, TOP - (d * 31) % spread); v++; }
				if (kind == 3) for (size_t d = 0; d < D; d++) { put(d, 0, 1); put(d, d + 1, 1 + (unsigned)d); }
				everything(docs, TOOLS | AGAIN, route);
				}
	// terms and keys of every kind of byte
	for (int first = 1; first < 256; first += T ? 1 : 5)
		{
		if (!vf::mine()) continue;
		int last = std::min(first + (T ? 0 : 4), 255);
		vf::describe("terms and keys with the bytes %02x to %02x", first, last);
		std::vector<text> docs; bool compile = T;
		for (int c = first; c <= last; c++)
			{
			vf::nontrivial("byte " + std::to_string(c)); if (c >= 32 && c < 127 && strchr("\"\\?_#q", c)) compile = true;
			auto three = blank(3); std::string b(1, (char)c); three[0].key = b; three[1].key = "k" + b + "7" + b; three[2].key = b + b + b + "(";
			if (b != " " && b != ":" && b != "\n" && b != "<" ) { three[0].tokens.push_back({"x" + b + "y", 3}); three[1].tokens.push_back({b, 2}); three[2].tokens.push_back({b + "1", 2}); three[2].tokens.push_back({b, 1}); }
			three[0].tokens.push_back({"plain", 1});
			for (auto &d : three) docs.push_back(d);
			}
		everything(docs, compile && last >= 32 && first < 127 ? COMPILE : 0);
		}
	const std::vector<std::string> odd = {"_", "_5f", "5f", "__", "T_a", "T", "a_b", "ab", "a-b", "a.b", "##ing", "#", "_23", "23", std::string(255, 'w'), "\xC3\xA9", "\xE4\xB8\xAD", "int", "main", "\\", "\"", "\\\"", "??/", "%d", "A", "a"};
	for (size_t i = 0; i <= odd.size(); i++)
		{
		if (!vf::mine()) continue;
		vf::describe("odd terms without the one numbered %zu", i); vf::nontrivial(vf::described());
		auto docs = blank(4); for (size_t w = 0; w < odd.size(); w++) if (w != i) for (size_t d = 0; d < 4; d++) if ((w + d) % 3) docs[d].tokens.push_back({odd[w], 1 + (unsigned)(w + d) % 5});
		for (size_t d = 0; d < 4; d++) docs[d].key = odd[(i + d * 5) % odd.size()];
		everything(docs, T || i % 9 == 8 ? COMPILE | AGAIN : AGAIN);
		}
	if (chdir("/")) abort(); std::error_code e; std::filesystem::remove_all(home, e);
	return vf::finish("every collection of 0 to 2 (3) documents over three terms with frequencies 0 to 2 (the third of 0 to 1 in pairs, quick) and of 3 (4) with 0 to 1 (quick: documents in order of their terms, both ways); regular subsets of up to 500 documents with up to 1024 impacts, as they are and quantised; terms and keys with every byte; printed by both tools in both formats with every codec; generated source compiled for a few");
	}

// P21: the programs themselves: the indexer on a collection and the searcher on its index, against a reference index and reference search.
#include "search.h"
#include <sys/wait.h>
#include <string.h>
#include <vector>
#include <filesystem>
#include "timer.h"
#include "parser.h"
#include "version.h"
#include "quantize.h"
#include "commandline.h"
#include "stem_porter.h"
#include "parser_fasta.h"
#include "serialise_ci.h"
#include "quantize_none.h"
#include "instream_file.h"
#include "instream_memory.h"
#include "instream_deflate.h"
#include "compress_integer.h"
#include "serialise_integers.h"
#include "parser_unicoil_json.h"
#include "instream_document_trec.h"
#include "instream_document_fasta.h"
#include "serialise_forward_index.h"
#include "index_manager_sequential.h"
#include "ranking_function_atire_bm25.h"
#include "instream_directory_iterator.h"
#include "instream_document_unicoil_json.h"
#include "channel_file.h"
#include "channel_trec.h"
#include "JASS_anytime_query.h"
#include "JASS_anytime_stats.h"
#include "JASS_anytime_thread_result.h"
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"
#define main index_main
namespace indexer {
#include "../tools/JASS_index.cpp"
}
#undef main
#define main search_main
namespace searcher {
#include "../anytime/JASS_anytime.cpp"
}
#undef main
static const unsigned TOP = JASS::index_postings_impact::largest_impact;
static std::string home;
static std::string slurp(const std::string &name) { std::string r; FILE *f = fopen(name.c_str(), "rb"); if (!f) return r; static char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static void spit(const std::string &name, const std::string &text) { FILE *f = fopen(name.c_str(), "wb"); if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) { perror("spit"); _exit(98); } }
template <class F> static int program(std::vector<std::string> args, F entry, std::string &out)
	{
	fflush(stdout); std::cout.flush();
	pid_t p = fork();
	if (!p)
		{
		alarm(25); if (!freopen("stdout.txt", "wb", stdout)) _exit(99);
		std::vector<const char *> v; for (auto &a : args) v.push_back(a.c_str()); v.push_back(nullptr);
		int r = 99; try { r = entry((int)args.size(), v.data()); } catch (...) { r = 77; }
		std::cout.flush(); fflush(stdout); _exit(r);
		}
	int st; waitpid(p, &st, 0); out = slurp("stdout.txt"); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
	}
enum kind { TREC, FASTA, UNICOIL };
// a document: its key, its terms (with a weight, for uniCOIL) in order
struct doc { std::string key; std::vector<std::pair<std::string, unsigned>> terms; std::string dna; };
struct docset { kind format = TREC; std::vector<doc> docs; size_t k = 3; bool crlf = false, last_newline = true; };
static std::string render(const docset &s)
	{
	std::string o; const char *nl = s.crlf ? "\r\n" : "\n";
	for (size_t i = 0; i < s.docs.size(); i++)
		{
		auto &d = s.docs[i];
		if (s.format == TREC) { o += std::string("<DOC>") + nl + "<DOCNO>" + d.key + "</DOCNO>" + nl; size_t n = 0; for (auto &[t, c] : d.terms) { o += t; o += ++n % 7 ? " " : nl; } o += std::string(nl) + "</DOC>" + nl; }
		if (s.format == FASTA) { o += ">" + d.key; for (auto &[t, c] : d.terms) o += " " + t; o += nl; for (size_t at = 0; at < d.dna.size(); at += 10) o += d.dna.substr(at, 10) + nl; }
		if (s.format == UNICOIL) { o += "{\"id\": \"" + d.key + "\", \"vector\": {"; bool first = true; for (auto &[t, c] : d.terms) { o += (first ? "\"" : ", \"") + t + "\": " + std::to_string(c); first = false; } o += "}}\n"; }
		}
	if (!s.last_newline) while (o.size() && (o.back() == '\n' || o.back() == '\r')) o.pop_back();
	return o;
	}
static std::vector<std::string> words_of(const std::string &key) { std::vector<std::string> w; std::string t; for (char c : key) { c = tolower(c); bool d = isdigit((unsigned char)c); if (t.size() && d != (bool)isdigit((unsigned char)t[0])) { w.push_back(t); t.clear(); } t += c; } if (t.size()) w.push_back(t); return w; }
static std::string stemmed(const std::string &t) { if (t.size() <= 2 || isdigit((unsigned char)t[0])) return t; static JASS::stem_porter s; JASS::parser::token from, to; memcpy(from.buffer, t.data(), t.size()); from.buffer[t.size()] = 0; from.lexeme = JASS::slice((void *)from.buffer, t.size()); s.tostem(to, from); return std::string((char *)to.lexeme.address(), to.lexeme.size()); }
// what is to be in the index
static collection reference(const docset &s, bool atire, bool stem)
	{
	JASS::index_manager_sequential m; collection c(s.docs.size()); c.keys.clear();
	for (auto &d : s.docs)
		{
		std::string key = s.format == FASTA ? ">" + d.key : d.key; if (s.format == FASTA) for (auto &[t, n] : d.terms) key += " " + t;
		c.keys.push_back(key); m.begin_document(JASS::slice((void *)key.data(), key.size())); uint32_t length = 0;
		auto put = [&](const std::string &t, unsigned n) { std::string x = stem ? stemmed(t) : t; JASS::parser::token token; token.type = JASS::parser::token::alpha; token.lexeme = JASS::slice((void *)x.data(), x.size()); token.count = n; m.term(token); length++; };
		if (s.format != UNICOIL) for (auto &w : words_of(d.key)) put(w, 1);
		for (auto &[t, n] : d.terms) put(t, s.format == UNICOIL ? std::min(n, TOP) : 1);
		if (s.format == FASTA) for (size_t at = 0; at + s.k <= d.dna.size(); at++) { std::string x = d.dna.substr(at, s.k); for (auto &ch : x) ch = tolower(ch); put(x, 1); }
		m.end_document(length + (atire ? 1 : 0));
		}
	struct catcher : public JASS::index_manager::delegate
		{
		collection &into; catcher(collection &c) : delegate(c.n), into(c) {}
		void operator()(const JASS::slice &t, const JASS::index_postings &, uint32_t df, uint32_t *ids, JASS::index_postings_impact::impact_type *tf) { auto &p = into.terms[std::string((char *)t.address(), t.size())]; for (uint32_t i = 0; i < df; i++) p[ids[i] - 1] = tf[i]; }
		void operator()(size_t, const JASS::slice &) {} void finish(void) {}
		};
	std::vector<std::unique_ptr<JASS::index_manager::delegate>> o; o.push_back(std::make_unique<catcher>(c));
	auto ranker = std::make_shared<JASS::ranking_function_atire_bm25>(0.9, 0.4, m.get_document_length_vector());
	if (s.format == UNICOIL) { JASS::quantize_none<JASS::ranking_function_atire_bm25> q(c.n, ranker); q.serialise_index(m, o); }
	else { JASS::quantize<JASS::ranking_function_atire_bm25> q(c.n, ranker); m.iterate(q); q.serialise_index(m, o); }
	return c;
	}
static std::string say(const std::map<uint32_t, unsigned> &p) { std::string s; for (auto &[d, i] : p) if (s.size() < 200) s += std::to_string(d) + ":" + std::to_string(i) + " "; return s; }
template <class INDEX> static std::string index_is(const collection &want)
	{
	INDEX in; if (in.read_index(".") == 0) return "the index cannot be read";
	if (in.primary_keys() != want.keys || in.document_count() != want.n) { for (size_t i = 0; i < want.keys.size() && i < in.primary_keys().size(); i++) if (in.primary_keys()[i] != want.keys[i]) return "document " + std::to_string(i) + " has the key '" + vf::esc(in.primary_keys()[i]) + "', should be '" + want.keys[i] + "'"; return std::to_string(in.document_count()) + " documents are indexed, should be " + std::to_string(want.n); }
	std::string name; int32_t dness; auto codec = in.codex(name, dness);
	std::vector<JASS::deserialised_jass_v1::segment_header> segments(TOP + 8); alignas(64) static uint32_t ids[1 << 16]; size_t found = 0;
	for (auto &m : in)
		{
		std::string t((char *)m.term.address(), m.term.size()), probe = t; JASS::deserialised_jass_v1::metadata md; auto w = want.terms.find(t); found++;
		if (w == want.terms.end()) return "the index has the term '" + vf::esc(t) + "', which is not in the collection";
		if (!in.postings_details(md, JASS::query_term(JASS::slice((void *)probe.data(), probe.size())))) return "the term '" + vf::esc(t) + "' cannot be found";
		uint32_t smallest, largest; JASS::query::DOCID_TYPE df; size_t n = in.get_segment_list(segments.data(), md, 1, smallest, largest, df); std::map<uint32_t, unsigned> p;
		for (size_t i = 0; i < n; i++) { auto &h = segments[i]; codec->decode(ids, h.segment_frequency, in.postings() + h.offset, h.end - h.offset); uint32_t id = 0; for (size_t j = 0; j < h.segment_frequency; j++) { id += ids[j]; if (p.count(id)) return "a document is twice in '" + vf::esc(t) + "'"; p[id] = h.impact; } }
		if (p != w->second) return "the term '" + vf::esc(t) + "' has " + say(p) + ", should be " + say(w->second);
		}
	if (found != want.terms.size()) for (auto &[t, p] : want.terms) { std::string probe = t; JASS::deserialised_jass_v1::metadata md; if (!in.postings_details(md, JASS::query_term(JASS::slice((void *)probe.data(), probe.size())))) return "the index does not have the term '" + vf::esc(t) + "'"; }
	return "";
	}
static bool build(const docset &s, const std::vector<std::string> &options, const collection &want, bool v1, bool v2)
	{
	for (auto f : {"CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin"}) unlink(f);
	spit("docs", render(s)); vf::eval(); vf::tick();
	if (s.format == UNICOIL && system("gzip -f docs && mv docs.gz docs")) abort();		// the program reads that format compressed
	std::vector<std::string> args = {"JASS_index", "-q", "-f", "docs"}; args.insert(args.end(), options.begin(), options.end()); if (v1) args.push_back("-I1"); if (v2) args.push_back("-I2");
	std::string out, line; for (auto &a : args) line += " " + a; int r = program(args, indexer::index_main, out);
	if (r) { vf::fail("indexing", "%s,%s: exit %d, prints '%s'", vf::described().c_str(), line.c_str(), r, vf::esc(out.substr(0, 300)).c_str()); return false; }
	std::string w = v2 ? index_is<JASS::deserialised_jass_v2>(want) : index_is<JASS::deserialised_jass_v1>(want);
	if (w.size()) { vf::fail("index", "%s,%s: %s", vf::described().c_str(), line.c_str(), w.c_str()); return false; }
	if (out.find("Documents:" + std::to_string(s.docs.size()) + "\n") == std::string::npos) vf::fail("report", "%s,%s: the number of documents reported is not %zu: '%s'", vf::described().c_str(), line.c_str(), s.docs.size(), vf::esc(out.substr(0, 100)).c_str());
	return true;
	}
struct question { std::string id; std::vector<std::string> terms; };
struct settings { size_t k = 10, threads = 1; bool k_given = true; std::string budget, value; bool ascii = false; int topics = 0; int width = 0; };
static void search(const collection &c, int version, const std::vector<question> &list, const settings &s)
	{
	std::string text; vf::eval(); vf::tick();
	for (size_t i = 0; i < list.size(); i++)
		{
		std::string q; for (auto &t : list[i].terms) q += (q.size() ? " " : "") + t;
		if (s.topics == 0) text += list[i].id + " " + q + "\n";
		if (s.topics == 1) text += list[i].id + "\t" + q + " \r\n";
		if (s.topics == 2) { text += list[i].id + " " + q; if (i + 1 < list.size()) text += "\n"; }
		if (s.topics == 3) text += "<top>\n<num> Number: " + list[i].id + "\n<title> " + q + "\n\n<desc> Description:\nwords\n</top>\n";
		}
	spit("queries", text); unlink("ranking.txt"); unlink("JASSv2Stats.txt");
	std::vector<std::string> args = {"JASS_anytime", "-q", "queries"}; if (version == 2) args.push_back("-2"); if (s.ascii) args.push_back("-a"); if (s.k_given) { args.push_back("-k"); args.push_back(std::to_string(s.k)); }
	if (s.threads != 1) { args.push_back("-t"); args.push_back(std::to_string(s.threads)); } if (s.budget.size()) { args.push_back(s.budget); args.push_back(s.value); } if (s.width) { args.push_back("-w"); args.push_back(std::to_string(s.width)); }
	std::string out, line; for (auto &a : args) line += " " + a; int r = program(args, searcher::search_main, out); std::string what = vf::described() + "," + line + ", " + std::to_string(list.size()) + " queries written in style " + std::to_string(s.topics);
	if (r) return vf::fail("searching", "%s: exit %d, prints '%s'", what.c_str(), r, vf::esc(out.substr(0, 300)).c_str());
	// the lines of each query
	std::string ranking = slurp("ranking.txt"); std::map<std::string, std::string> got; std::string last; size_t at = 0;
	while (at < ranking.size())
		{
		size_t e = ranking.find('\n', at); if (e == std::string::npos) return vf::fail("ranking", "%s: the last line of the ranking does not end", what.c_str());
		std::string l = ranking.substr(at, e + 1 - at); at = e + 1; std::string id = l.substr(0, l.find(' '));
		if (id != last && got.count(id)) return vf::fail("ranking", "%s: the lines of query %s are not together", what.c_str(), id.c_str());
		got[id] += l; last = id;
		}
	std::string stats = slurp("JASSv2Stats.txt");
	size_t answered = 0;
	for (auto &q : list)
		{
		bag b; for (auto &t : q.terms) { std::string f = t; if (!s.ascii) for (auto &ch : f) ch = tolower(ch); bool seen = false; for (auto &x : b) if (x.first == f) { x.second++; seen = true; } if (!seen) b.push_back({f, 1}); }
		model m(c, b); size_t budget = ALL, postings = 0;
		if (s.budget == "-R") budget = strtoull(s.value.c_str(), 0, 10);
		if (s.budget == "-r") budget = (size_t)((double)c.n * (atof(s.value.c_str()) / 100.0));
		if (s.budget == "--Relative_RHO") budget = (size_t)((double)m.total * (atof(s.value.c_str()) / 100.0));
		auto want = m.answers(c, q.id, s.k, budget, postings); std::string mine = got.count(q.id) ? got[q.id] : "";
		if (!want.count(mine)) return vf::fail("ranking", "%s: query '%s' gives [%s], should give %s", what.c_str(), (q.id + " " + [&] { std::string x; for (auto &t : q.terms) x += t + " "; return x; }()).c_str(), flat(mine).c_str(), show(want).c_str());
		if (mine.size()) answered++;
		// ranks from one, scores not increasing
		size_t p = 0, rank = 0; long before = 1 << 30; while (p < mine.size()) { size_t e = mine.find('\n', p); std::string l = mine.substr(p, e - p); p = e + 1; size_t j = l.find(" JASSv2"), i = l.rfind(' ', j - 1), h = l.rfind(' ', i - 1); long score = atol(l.c_str() + i), no = atol(l.c_str() + h); if (no != (long)++rank || score > before) return vf::fail("ranking", "%s: query %s has the line '%s'", what.c_str(), q.id.c_str(), l.c_str()); before = score; }
		std::string entry = "<id>" + q.id + "</id>"; size_t f = stats.find(entry); if (f == std::string::npos || stats.find(entry, f + 1) != std::string::npos) return vf::fail("statistics", "%s: query %s is not once in the statistics", what.c_str(), q.id.c_str());
		size_t n = stats.find("<postings>", f); if (n == std::string::npos || strtoull(stats.c_str() + n + 10, 0, 10) != postings) return vf::fail("statistics", "%s: query %s is reported as having processed another number of postings than %zu", what.c_str(), q.id.c_str(), postings);
		vf::step();
		}
	if (answered != got.size()) vf::fail("ranking", "%s: there are results for %zu queries, should be %zu", what.c_str(), got.size(), answered);
	}
static std::string DNA(size_t v, size_t n) { std::string s; for (size_t i = 0; i < n; i++) { s += "ACGT"[v % 4]; v /= 4; } return s; }
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough(); home = std::filesystem::current_path().string() + "/p21." + std::to_string(getpid()); std::filesystem::create_directory(home); if (chdir(home.c_str())) abort();
	// every small collection
	for (size_t D = 1; D <= 3; D++)
		{
		size_t kinds = D == 1 ? 27 : 9, total = 1; for (size_t i = 0; i < D; i++) total *= kinds; if (D == 3 && !T) kinds = 4, total = 64;
		for (size_t from = 0; from < total; from += 9)
			{
			if (!vf::mine()) continue;
			for (size_t v = from; v < std::min(total, from + 9); v++)
				{
				docset s; size_t x = v; std::string text; const char *names[] = {"alpha", "bb", "c"};
				for (size_t d = 0; d < D; d++) { size_t k = x % kinds; x /= kinds; s.docs.push_back({"K" + std::to_string(d * 5), {}, ""}); text += " {"; for (int t = 0; t < (kinds == 27 ? 3 : 2); t++) { size_t base = kinds == 4 ? 2 : 3, n = k % base; k /= base; for (size_t i = 0; i < n; i++) s.docs.back().terms.push_back({names[t], 1}); if (n) text += std::string(" ") + names[t] + ":" + std::to_string(n); } text += " }"; }
				s.last_newline = v % 3; s.crlf = v % 4 == 1;
				vf::describe("documents%s", text.c_str()); vf::nontrivial(text); if (v % 20 == 0) vf::sample(vf::described());
				int version = 1 + (v + D) % 2; collection c = reference(s, v % 5 == 2, v % 7 == 3); std::vector<std::string> options; if (v % 5 == 2) options.push_back("-A"); if (v % 7 == 3) options.push_back("-tp"); if (v % 2) options.push_back("-dt");
				if (!build(s, options, c, version == 1, version == 2)) continue;
				std::vector<question> list; for (int mask = 1; mask < 16; mask++) { question q; q.id = std::to_string(mask * 3); for (int t = 0; t < 3; t++) if (mask >> t & 1) q.terms.push_back(names[t]); if (mask & 8) q.terms.push_back(mask & 1 ? "alpha" : "absent"); list.push_back(q); }
				list.push_back({"90", {"k"}}); list.push_back({"91", {"5"}});
				settings o; o.k = 1 + v % 3; o.threads = 1 + v % 4; o.topics = (v / 2) % 4; search(c, version, list, o);
				}
			}
		}
	// option by option, on one larger collection of each format
	auto larger = [](kind format, size_t D, int variety)
		{
		docset s; s.format = format; s.k = 3 + variety % 3;
		for (size_t d = 0; d < D; d++)
			{
			doc x; x.key = (variety % 2 ? "doc" : "") + std::to_string(d * 3 + 1);
			if (format == UNICOIL) { for (size_t t = 0; t < 12; t++) if ((d * 7 + t * t) % (t + 2) == 0) x.terms.push_back({t == 3 ? "##ing" : t == 4 ? "." : term_name(t), 1 + (unsigned)((d * 37 + t * 101) % (variety ? 90 : 1100))}); }
			else if (format == TREC) { for (size_t t = 0; t < 14; t++) for (size_t n = (d * 7 + t * t) % (t + 2); n < 3 && n < t + 1; n++) x.terms.push_back({t == 3 ? "running" : t == 5 ? "caresses" : t == 6 ? "1984" : t == 7 ? "ponies" : term_name(t), 1}); }
			else { x.terms.push_back({term_name(d % 4), 1}); x.dna = DNA(d * 2654435761u, 12 + d % 9) + DNA(d * 40503u + 77, 16); }
			s.docs.push_back(x);
			}
		return s;
		};
	for (kind format : {TREC, FASTA, UNICOIL})
		for (size_t D : T ? std::vector<size_t>{1, 2, 9, 64, 129, 257, 550} : std::vector<size_t>{1, 40, 300})
			for (int variety = 0; variety < 4; variety++)
				for (int version : {1, 2})
					{
					if (!vf::mine()) continue;
					const char *formats[] = {"TREC", "FASTA", "uniCOIL"}; vf::describe("%zu documents of format %s, variety %d, index format %d", D, formats[format], variety, version); vf::nontrivial(vf::described()); vf::sample(vf::described());
					docset s = larger(format, D, variety); bool atire = variety == 1, stem = variety == 2 && format == TREC; s.last_newline = variety != 3;
					collection c = reference(s, atire, stem); std::vector<std::string> options; if (atire) options.push_back("-A"); if (stem) options.push_back("-tp"); if (format == FASTA) { options.push_back("-IF"); options.push_back(std::to_string(s.k)); } if (format == UNICOIL) options.push_back("-djc"); else if (format == TREC && variety == 3) options.push_back("--document_TREC");
					if (c.terms.empty()) continue;					// an index without postings cannot be loaded
					if (!build(s, options, c, version == 1, version == 2)) continue;
					std::vector<std::string> terms; for (auto &[t, p] : c.terms) terms.push_back(t); std::vector<question> list; bool ascii = format == UNICOIL;
					for (size_t i = 0; i < 24; i++) { question q; q.id = std::to_string(i * 11 + 1); for (size_t j = 0; j <= i % 4; j++) q.terms.push_back(terms[(i * 13 + j * 29) % terms.size()]); if (i % 6 == 5) q.terms.push_back("notthere"); if (i % 8 == 7) q.terms.push_back(q.terms[0]); list.push_back(q); }
					settings o; o.ascii = ascii;
					for (size_t k : {1, 2, 10, 300}) { o.k = k; o.topics = (int)(k % 3); search(c, version, list, o); }
					o.k = 10; o.k_given = false; search(c, version, list, o); o.k_given = true;
					for (size_t threads : {2, 3, 7, 30}) { o.threads = threads; search(c, version, list, o); } o.threads = 1;
					if (!ascii) { o.topics = 3; search(c, version, list, o); o.topics = 0; o.ascii = true; search(c, version, list, o); o.ascii = false; for (auto &q : list) for (auto &t : q.terms) for (size_t i = 0; i < t.size(); i += 2) t[i] = toupper(t[i]); search(c, version, list, o); }
					for (auto value : {"1", "5", "37", "100000"}) { o.budget = "-R"; o.value = value; o.threads = 1 + strlen(value) % 2; search(c, version, list, o); }
					for (auto value : {"10", "50", "250"}) { o.budget = "-r"; o.value = value; search(c, version, list, o); }
					for (auto value : {"20", "100"}) { o.budget = "--Relative_RHO"; o.value = value; if (D == 40 || T) search(c, version, list, o); }
					o.budget = ""; for (int w : {1, 4, 9}) { o.width = w; search(c, version, list, o); }
					}
	// both index formats at once: refused, or at least one of them is good
	if (vf::mine())
		{
		vf::describe("both index formats"); vf::nontrivial(vf::described()); vf::eval();
		docset s = larger(TREC, 40, 1); collection c = reference(s, false, false); spit("docs", render(s)); std::string out;
		int r = program({"JASS_index", "-q", "-f", "docs", "-I1", "-I2"}, indexer::index_main, out);
		if (r == 0) { int good = program({""}, [&](int, const char **) { return index_is<JASS::deserialised_jass_v1>(c) == "" ? 0 : 1; }, out); if (good) good = program({""}, [&](int, const char **) { return index_is<JASS::deserialised_jass_v2>(c) == "" ? 0 : 1; }, out); if (good) vf::fail("both formats", "JASS_index -I1 -I2 succeeds, and neither index can be read back"); }
		else if (r >= 1000 || r == 77) vf::fail("both formats", "JASS_index -I1 -I2 ends with %d", r);
		}
	// uniCOIL in a compressed file and in a directory of them
	for (int how = 0; how < 3; how++)
		{
		if (!vf::mine()) continue;
		const char *hows[] = {"a gzip file", "a directory of one gzip file", "a directory of three gzip files"}; vf::describe("60 uniCOIL documents in %s", hows[how]); vf::nontrivial(vf::described()); vf::eval();
		docset s = larger(UNICOIL, 60, 1); std::error_code ec; std::filesystem::remove_all("docs", ec);
		size_t parts = how == 2 ? 3 : 1; if (how) std::filesystem::create_directory("docs");
		for (size_t p = 0; p < parts; p++) { docset part = s; part.docs.assign(s.docs.begin() + p * 60 / parts, s.docs.begin() + (p + 1) * 60 / parts); spit("part", render(part)); std::string to = how ? "docs/" + std::to_string(p) + ".gz" : "docs"; if (system(("gzip -c part > " + to).c_str())) abort(); }
		std::string out; int r = program({"JASS_index", "-q", "-f", "docs", "-djc", "-I1"}, indexer::index_main, out);
		if (r) { vf::fail("indexing", "%s: exit %d, prints '%s'", vf::described().c_str(), r, vf::esc(out.substr(0, 300)).c_str()); continue; }
		// the order of a directory's files is not specified: the documents are compared by their keys
		collection want = reference(s, false, false); std::map<std::string, std::map<std::string, unsigned>> by_key, got; for (auto &[t, p] : want.terms) for (auto &[d, i] : p) by_key[want.keys[d]][t] = i;
		JASS::deserialised_jass_v1 in; if (in.read_index(".") == 0) { vf::fail("index", "%s: the index cannot be read", vf::described().c_str()); continue; }
		std::string name; int32_t dness; auto codec = in.codex(name, dness); std::vector<JASS::deserialised_jass_v1::segment_header> segments(TOP + 8); alignas(64) static uint32_t ids[1 << 12];
		for (auto &m : in) { std::string t((char *)m.term.address(), m.term.size()), probe = t; JASS::deserialised_jass_v1::metadata md; in.postings_details(md, JASS::query_term(JASS::slice((void *)probe.data(), probe.size()))); uint32_t a, b; JASS::query::DOCID_TYPE df; size_t n = in.get_segment_list(segments.data(), md, 1, a, b, df); for (size_t i = 0; i < n; i++) { auto &h = segments[i]; codec->decode(ids, h.segment_frequency, in.postings() + h.offset, h.end - h.offset); uint32_t id = 0; for (size_t j = 0; j < h.segment_frequency; j++) { id += ids[j]; if (id < in.primary_keys().size()) got[in.primary_keys()[id]][t] = h.impact; } } }
		std::set<std::string> keys(in.primary_keys().begin(), in.primary_keys().end());
		if (got != by_key || in.document_count() != 60 || keys.size() != 60) vf::fail("index", "%s: %zu documents with %zu keys, %zu with terms (should be 60, 60 and %zu), or their terms differ", vf::described().c_str(), in.document_count(), keys.size(), got.size(), by_key.size());
		}
	if (chdir("/")) abort(); std::error_code e; std::filesystem::remove_all(home, e);
	return vf::finish("every collection of 1 to 3 documents over 2 or 3 terms (frequencies 0 to 2; 0 to 1 for 3 documents, quick), each with 17 queries; collections of 1 to 300 (550) documents in three formats, four varieties (with -A, -tp), both index formats, each searched with 1 to 30 threads, five depths, four ways of writing queries, both parsers, ten budgets and four widths; compressed files and directories");
	}

// P06: indexing, writing and reading back.
#include "search.h"
#include <sys/wait.h>
#include "index_manager_sequential.h"
#include "quantize_none.h"
#include "ranking_function_atire_bm25.h"
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"
#include "compress_integer_all.h"
typedef std::map<std::string, std::map<uint32_t, unsigned>> content;		// term -> document (from 0) -> frequency
struct text { std::vector<std::pair<std::string, unsigned>> tokens; std::string key; };		// what is given to the indexer, in order
static const unsigned TOP = JASS::index_postings_impact::largest_impact;
static content meaning(const std::vector<text> &docs)
	{
	content c;
	for (uint32_t d = 0; d < docs.size(); d++) for (auto &[t, n] : docs[d].tokens) { unsigned &f = c[t][d]; f = std::min(f + n, TOP); }
	return c;
	}
static void feed(JASS::index_manager_sequential &m, const std::vector<text> &docs)
	{
	for (auto &d : docs)
		{
		std::string key = d.key;
		m.begin_document(JASS::slice((void *)key.data(), key.size()));
		std::fill(key.begin(), key.end(), '#');
		for (auto &[t, n] : d.tokens)
			{
			std::string copy = t; JASS::parser::token token; token.type = JASS::parser::token::alpha; token.lexeme = JASS::slice((void *)copy.data(), copy.size()); token.count = n;
			m.term(token);
			std::fill(copy.begin(), copy.end(), '#');
			}
		m.end_document(d.tokens.size());
		}
	}
template <typename INDEX> static std::string compare(const std::string &dir, const std::vector<text> &docs, const content &want, const std::vector<std::string> &absent)
	{
	INDEX in; char b[300];
	if (in.read_index(dir) == 0) return "the index cannot be read back";
	if (in.document_count() != docs.size()) { snprintf(b, sizeof b, "%zu documents indexed, %zu read back", docs.size(), in.document_count()); return b; }
	if (in.primary_keys().size() != docs.size()) { snprintf(b, sizeof b, "%zu documents indexed, %zu primary keys read back", docs.size(), in.primary_keys().size()); return b; }
	for (size_t d = 0; d < docs.size(); d++) if (in.primary_keys()[d] != docs[d].key) return "document " + std::to_string(d) + " has primary key '" + in.primary_keys()[d] + "', not '" + docs[d].key + "'";
	std::map<std::string, int> vocabulary;
	for (auto &m : in) vocabulary[std::string((char *)m.term.address(), m.term.size())]++;
	for (auto &[t, n] : vocabulary) { if (!want.count(t)) return "the vocabulary has '" + vf::esc(t) + "', which was not indexed"; if (n != 1) return "the vocabulary has '" + vf::esc(t) + "' " + std::to_string(n) + " times"; }
	std::string name; int32_t dness; auto codec = in.codex(name, dness);
	std::vector<JASS::deserialised_jass_v1::segment_header> segments(TOP + 8);
	alignas(64) static uint32_t ids[1 << 16];
	for (auto &[t, postings] : want)
		{
		std::string probe = t;
		JASS::deserialised_jass_v1::metadata md;
		if (!in.postings_details(md, JASS::query_term(JASS::slice((void *)probe.data(), probe.size())))) return "term '" + vf::esc(t) + "' is reported as absent";
		for (size_t qf : {1, 3})
			{
			uint32_t smallest, largest; JASS::query::DOCID_TYPE df;
			size_t n = in.get_segment_list(segments.data(), md, qf, smallest, largest, df);
			std::map<uint32_t, unsigned> got; unsigned lo = ~0u, hi = 0; std::map<unsigned, int> impacts;
			for (size_t s = 0; s < n; s++)
				{
				auto &h = segments[s];
				if (h.impact % qf || impacts[h.impact]++) { snprintf(b, sizeof b, "term '%s' has two segments of impact %u", vf::esc(t).c_str(), h.impact); return b; }
				if (h.segment_frequency == 0 || h.segment_frequency > docs.size()) { snprintf(b, sizeof b, "term '%s' has a segment of %u documents out of %zu", vf::esc(t).c_str(), (unsigned)h.segment_frequency, docs.size()); return b; }
				// the decoder needs alignment that only some codecs' segments have
				codec->decode(ids, h.segment_frequency, in.postings() + h.offset, h.end - h.offset);
				uint32_t id = 0; lo = std::min(lo, h.impact); hi = std::max(hi, h.impact);
				for (size_t i = 0; i < h.segment_frequency; i++)
					{
					id += ids[i];
					if (got.count(id)) { snprintf(b, sizeof b, "term '%s': document %u occurs twice", vf::esc(t).c_str(), id); return b; }
					got[id] = h.impact / qf;
					}
				}
			if (got != postings)
				{
				std::string g, w; for (auto &[d, f] : got) if (g.size() < 200) g += std::to_string(d) + ":" + std::to_string(f) + " "; for (auto &[d, f] : postings) if (w.size() < 200) w += std::to_string(d) + ":" + std::to_string(f) + " ";
				return "term '" + vf::esc(t) + "' read back as " + g + "instead of " + w;
				}
			if (smallest != lo || largest != hi || df != postings.size()) { snprintf(b, sizeof b, "term '%s': reported smallest %u largest %u documents %u; they are %u %u %zu", vf::esc(t).c_str(), smallest, largest, (unsigned)df, lo, hi, postings.size()); return b; }
			vf::step();
			}
		}
	for (auto &t : absent)
		{
		if (want.count(t)) continue;
		JASS::deserialised_jass_v1::metadata md; std::string probe = t;
		if (in.postings_details(md, JASS::query_term(JASS::slice((void *)probe.data(), probe.size())))) return "term '" + vf::esc(t) + "', which was never indexed, is reported as present";
		}
	return "";
	}
static std::string home;
static const char *CODEX_NAMES[] = {"elias_gamma_simd", "uncompressed", "qmx", "elias_gamma_simd_vb", "elias_delta_simd"};
// one manager, written in every format with every codec
static void everything(const std::vector<text> &docs, const std::vector<std::string> &absent, bool all_codecs, bool large = false)
	{
	content want = meaning(docs);
	auto manager = std::make_unique<JASS::index_manager_sequential>();
	feed(*manager, docs);
	std::string what = vf::described();
	if (manager->get_highest_document_id() != docs.size()) vf::fail("documents", "%s: %zu documents, the index says %u", what.c_str(), docs.size(), (unsigned)manager->get_highest_document_id());
	auto &lengths = manager->get_document_length_vector();
	for (size_t d = 0; d < docs.size(); d++) if (lengths.size() != docs.size() + 1 || lengths[d + 1] != docs[d].tokens.size()) { vf::fail("lengths", "%s: the document lengths are wrong at document %zu", what.c_str(), d); break; }
	auto ranker = std::make_shared<JASS::ranking_function_atire_bm25>(0.9, 0.4, lengths);
	std::string dir = home + "/i"; std::filesystem::create_directory(dir); if (chdir(dir.c_str())) abort();
	for (int version : {1, 2})
		for (int codex = 0; codex < 5; codex++)
			for (int alignment : {1, 4, 16})
				{
				if (!all_codecs && codex > 2 && !vf::thorough()) continue;
				if (version == 2 && alignment != 1) continue;
				if (codex == 2 ? alignment != 16 && version == 1 : !all_codecs && alignment != 1) continue;
				if (codex == 2 && version == 2) continue;					// see v2-qmx-alignment
				for (int route : {0, 1})
					{
					if (route == 1 && codex) continue;
					vf::eval();
					{
					std::vector<std::unique_ptr<JASS::index_manager::delegate>> out;
					if (version == 1) out.push_back(std::make_unique<JASS::serialise_jass_v1>(docs.size(), CODICES[codex], alignment)); else out.push_back(std::make_unique<JASS::serialise_jass_v2>(docs.size(), CODICES[codex], alignment));
					if (route == 0) { manager->iterate(*out[0]); out[0]->finish(); }
					else { JASS::quantize_none<JASS::ranking_function_atire_bm25> q(docs.size(), ranker); manager->iterate(q); q.serialise_index(*manager, out); }
					}
					std::string wrong = version == 1 ? compare<JASS::deserialised_jass_v1>(".", docs, want, absent) : compare<JASS::deserialised_jass_v2>("", docs, want, absent);
					if (wrong.size()) vf::fail("content", "%s, format %d, codec %s, alignment %d%s: %s", what.c_str(), version, CODEX_NAMES[codex], alignment, route ? ", through quantize_none" : "", wrong.c_str());
					}
				}
	if (chdir(home.c_str())) abort();
	}
static std::vector<std::string> neighbours(const content &c)
	{
	std::vector<std::string> a = {"", "a", "zzzzzzzzzz", "0", "\xFF\xFF", "-"};
	for (auto &[t, p] : c) { if (a.size() > 3000) break; a.push_back(t + "a"); a.push_back(t + "0"); if (t.size() > 1) { a.push_back(t.substr(0, t.size() - 1)); a.push_back(t.substr(1)); } std::string u = t; u.back()++; a.push_back(u); u.back() -= 2; a.push_back(u); u = t; u[0]++; a.push_back(u); }
	for (auto &t : a) { size_t z = t.find('\0'); if (z != std::string::npos) t.resize(z); }
	return a;
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough(); home = std::filesystem::current_path().string();
	auto blank = [](size_t n) { std::vector<text> d(n); for (size_t i = 0; i < n; i++) d[i].key = "D" + std::to_string(i * i + 5); return d; };
	// every frequency vector over a small alphabet: one term for each
	for (size_t D = 1; D <= (size_t)vf::q(6, 7); D++)
		for (int style : {0, 1, 2})
			{
			if (!vf::mine()) continue;
			size_t base = D <= 4 ? 5 : D <= 5 ? 4 : 3, total = 1; for (size_t i = 0; i < D; i++) total *= base;
			const char *styles[] = {"one occurrence at a time, term by term", "one occurrence at a time, round by round", "counted occurrences, the largest impact among them"};
			vf::describe("every frequency vector of %zu documents over %zu frequencies, %s", D, base, styles[style]); vf::nontrivial(vf::described()); vf::sample(vf::described());
			auto docs = blank(D); const unsigned counts[] = {0, 1, 3, TOP, TOP - 1};
			std::vector<std::vector<unsigned>> tf(total, std::vector<unsigned>(D)); for (size_t v = 1; v < total; v++) { size_t c = v; for (size_t d = 0; d < D; d++) { tf[v][d] = c % base; c /= base; } }
			for (size_t d = 0; d < D; d++)
				{
				if (style == 0) { for (size_t v = 1; v < total; v++) for (unsigned i = 0; i < tf[v][d]; i++) docs[d].tokens.push_back({term_name(v), 1}); }
				else if (style == 1) { for (unsigned round = 1; round < base; round++) for (size_t v = total - 1; v > 0; v--) if (tf[v][d] >= round) docs[d].tokens.push_back({term_name(v), 1}); }
				else for (size_t v = 1; v < total; v++) if (tf[v][d]) docs[d].tokens.push_back({term_name(v), counts[tf[v][d]]});
				}
			everything(docs, neighbours(meaning(docs)), true);
			}
	// document numbers across the widths of the encodings, every regular subset
	for (size_t D : T ? std::vector<size_t>{64, 127, 128, 129, 130, 255, 256, 257, 512, 1000, 1024, 16383, 16384, 16385, 20000} : std::vector<size_t>{64, 127, 128, 129, 257, 1000, 16385})
		for (int kind = 0; kind < 5; kind++)
			{
			if (D > 10000 && kind == 3 && !T) continue;
			if (!vf::mine()) continue;
			const char *kinds[] = {"every step and start", "single documents and pairs", "runs", "many impacts", "first and last"};
			vf::describe("%zu documents, %s", D, kinds[kind]); vf::nontrivial(vf::described()); vf::sample(vf::described());
			auto docs = blank(D); size_t v = 0; size_t limit = D > 10000 ? 40 : D > 500 ? 120 : 400;
			auto put = [&](size_t d, size_t v, unsigned n) { docs[d].tokens.push_back({term_name(v), n}); };
			if (kind == 0) { for (size_t step = 1; step <= D && v < limit; step += 1 + step / 8) for (size_t start : {(size_t)0, step / 2, step - 1}) { for (size_t d = start; d < D; d += step) put(d, v, 1 + (d / step) % 3); v++; } }
			if (kind == 1) { for (size_t d = 0; d < D; d += 1 + D / limit) { put(d, v++, 1); put(0, v, 2); if (d) put(d, v, 2); v++; put(d, v, 7); if (d != D - 1) put(D - 1, v, 7); v++; } }
			if (kind == 2) { for (size_t l = 1; l <= D && v < limit; l += 1 + l / 4) for (size_t at : {(size_t)0, (D - l) / 2, D - l}) { for (size_t d = at; d < at + l; d++) put(d, v, 4); v++; } }
			if (kind == 3) { for (unsigned spread : {2u, 7u, 127u, 128u, 255u, 256u, 1000u, TOP}) { for (size_t d = 0; d < D; d++) put(d, v, 1 + (d * 37) % spread); v++; for (size_t d = 0; d < D; d++) put(d, v, TOP - (d * 31) % spread); v++; for (size_t d = 0; d < D; d++) if (d % 3) put(d, v, 1 + std::min(spread, TOP - 1) * (d & 1)); v++; } }
			if (kind == 4) { put(0, 0, 1); put(D - 1, 1, 1); put(0, 2, TOP); if (D > 1) put(D - 1, 2, 1); put(D / 2, 3, 5); }
			everything(docs, neighbours(meaning(docs)), D < 1000 || T, true);
			}
	// vocabularies: prefixes, lengths, digits, bytes above 127, one term
	std::vector<std::string> words = {"a", "ab", "abc", "b", "ba", "0", "00", "10", "9", "z", "\xC3\xA9", "\xC3\xA9" "a", "\xE4\xB8\xAD", std::string(200, 'x'), std::string(199, 'x') + "y", std::string(255, 'w'), "A", "~"};
	for (size_t drop = 0; drop <= words.size(); drop++)
		for (int only : {0, 1})
			{
			if (drop == words.size() && only) continue;
			if (!vf::mine()) continue;
			vf::describe(only ? "a vocabulary of one term (%zu)" : "a vocabulary without term %zu", drop); vf::nontrivial(vf::described()); vf::sample(vf::described());
			auto docs = blank(5);
			for (size_t d = 0; d < 5; d++) { docs[d].key = std::string(d * 40, 'K') + words[(d + drop) % words.size()] + " key " + std::to_string(d); for (size_t w = 0; w < words.size(); w++) if ((only ? w == drop : w != drop) && (w * 3 + d) % 4) docs[d].tokens.push_back({words[w], 1 + (unsigned)(w + d) % 3}); }
			auto absent = neighbours(meaning(docs)); for (auto &w : words) absent.push_back(w);
			everything(docs, absent, false);
			}
	// documents without any term, first, last and in between
	for (unsigned mask = 0; mask < 15; mask++)
		{
		if (!vf::mine()) continue;
		vf::describe("documents of mask %u are empty", mask); vf::nontrivial(vf::described());
		auto docs = blank(4); for (size_t d = 0; d < 4; d++) if (!(mask >> d & 1)) { docs[d].tokens.push_back({"x", 1}); docs[d].tokens.push_back({"y" + std::to_string(d), 1}); docs[d].tokens.push_back({"x", 1}); }
		everything(docs, {"y", "y4", "w"}, false);
		}
	// format 2 does not align its segments, which the QMX decoder needs
	if (vf::mine())
		{
		vf::describe("format 2 with QMX"); vf::nontrivial(vf::described()); vf::eval();
		auto docs = blank(600); for (size_t d = 0; d < 600; d++) docs[d].tokens.push_back({d % 3 ? "a" : "bb", 1 + (unsigned)(d % 2)});
		content want = meaning(docs); auto manager = std::make_unique<JASS::index_manager_sequential>(); feed(*manager, docs);
		std::filesystem::create_directory(home + "/q"); if (chdir((home + "/q").c_str())) abort();
		{ JASS::serialise_jass_v2 out(600, CODEX::qmx, 16); manager->iterate(out); out.finish(); }
		fflush(0); pid_t p = fork();
		if (p == 0) { signal(SIGSEGV, SIG_DFL); std::string wrong = compare<JASS::deserialised_jass_v2>(".", docs, want, {}); if (wrong.size()) fprintf(stderr, "%s\n", wrong.c_str()); _exit(wrong.size() ? 1 : 0); }
		int st; waitpid(p, &st, 0);
		if (st) vf::fail("v2-qmx-alignment", "600 documents written in format 2 with QMX and an alignment of 16 cannot be read back (%s %d)", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
		if (chdir(home.c_str())) abort();
		}
	return vf::finish("every frequency vector of 1 to 6 (7) documents over 3 to 5 frequencies in three orders of occurrence; regular subsets of 64 to 16385 (20000) documents with up to 1024 impacts; vocabularies of 1 to 18 terms with shared prefixes, long and non-ASCII terms; empty documents; formats 1 and 2, five codecs, three alignments");
	}

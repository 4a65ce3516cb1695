// P07: quantisation and the ranking scores it is made from.
#include "vf.h"
#include <math.h>
#include <map>
#include <memory>
#include "quantize.h"
#include "quantize_none.h"
#include "ranking_function_atire_bm25.h"
#include "ranking_function_none.h"
#include "ranking_function.h"
#include "index_manager_sequential.h"
typedef JASS::ranking_function_atire_bm25 BM25;
typedef JASS::ranking_function_none NONE;
typedef JASS::index_postings_impact::impact_type impact_type;
static const unsigned LOW = JASS::index_postings_impact::smallest_impact, HIGH = JASS::index_postings_impact::largest_impact;
struct collection { std::vector<uint32_t> lengths; std::vector<std::map<uint32_t, unsigned>> terms; double k1 = 0.9, b = 0.4; };		// documents numbered from 1; term -> document -> frequency
static std::string show(const collection &c)
	{
	std::string s = "lengths"; char x[40]; snprintf(x, sizeof x, " (k1 %g, b %g)", c.k1, c.b);
	for (size_t i = 0; i < c.lengths.size() && i < 12; i++) s += " " + std::to_string(c.lengths[i]); if (c.lengths.size() > 12) s += "...";
	s += x; s += ", terms";
	for (size_t t = 0; t < c.terms.size() && t < 8; t++) { s += " {"; size_t n = 0; for (auto &p : c.terms[t]) if (n++ < 8) s += std::to_string(p.first) + ":" + std::to_string(p.second) + " "; s += c.terms[t].size() > 8 ? "...}" : "}"; }
	return s;
	}
static double bm25(const collection &c, size_t term, uint32_t doc, unsigned tf)
	{
	double sum = 0; for (auto l : c.lengths) sum += l;
	double mean = sum / c.lengths.size();
	double idf = log((double)c.lengths.size() / (double)c.terms[term].size());
	return idf * ((c.k1 + 1) * tf) / (tf + c.k1 * (1 - c.b + c.b * (c.lengths[doc - 1] / mean)));
	}
static bool near(double a, double b) { return fabs(a - b) <= 1e-5 * std::max(fabs(a), fabs(b)) + 1e-12; }
struct catcher : public JASS::index_manager::delegate
	{
	std::map<std::string, std::map<uint32_t, unsigned>> got; std::vector<std::pair<size_t, std::string>> keys; int finished = 0; bool repeated = false;
	catcher(size_t documents) : delegate(documents) {}
	void operator()(const JASS::slice &term, const JASS::index_postings &, uint32_t df, uint32_t *ids, impact_type *tf) { auto &m = got[std::string((char *)term.address(), term.size())]; if (!m.empty()) repeated = true; for (uint32_t i = 0; i < df; i++) { if (m.count(ids[i])) repeated = true; m[ids[i]] = tf[i]; } }
	void operator()(size_t id, const JASS::slice &key) { keys.push_back({id, std::string((char *)key.address(), key.size())}); }
	void finish(void) { finished++; }
	};
// an index that hands out the postings of a collection
struct source : public JASS::index_manager
	{
	const collection &c; JASS::allocator_pool pool{1 << 16};
	source(const collection &c) : c(c) { std::vector<uint32_t> l{0}; l.insert(l.end(), c.lengths.begin(), c.lengths.end()); set_document_length_vector(l); }
	template <class F> void each(F f) { for (size_t t = 0; t < c.terms.size(); t++) { JASS::index_postings postings(pool); std::string name = "t" + std::to_string(t); std::vector<uint32_t> ids; std::vector<impact_type> tfs; for (auto &p : c.terms[t]) { ids.push_back(p.first); tfs.push_back((impact_type)p.second); } f(JASS::slice((void *)name.data(), name.size()), postings, (uint32_t)ids.size(), ids.data(), tfs.data()); } }
	void iterate(delegate &d) { each([&](const JASS::slice &t, const JASS::index_postings &p, uint32_t df, uint32_t *ids, impact_type *tfs) { d(t, p, df, ids, tfs); }); for (size_t i = 0; i <= c.lengths.size(); i++) { std::string k = "key" + std::to_string(i); d(i, JASS::slice((void *)k.data(), k.size())); } }
	void iterate(quantizing_delegate &q, delegate &d) { each([&](const JASS::slice &t, const JASS::index_postings &p, uint32_t df, uint32_t *ids, impact_type *tfs) { q(d, t, p, df, ids, tfs); }); for (size_t i = 0; i <= c.lengths.size(); i++) { std::string k = "key" + std::to_string(i); q(d, i, JASS::slice((void *)k.data(), k.size())); } }
	};
struct scored { double score; unsigned impact; size_t term; uint32_t doc; };
// what quantisation must do, given each posting's score
static void judge(const collection &c, const catcher &out, const std::vector<std::vector<double>> &scores, const char *which, bool quantised)
	{
	std::vector<scored> all; bool shape = out.got.size() == c.terms.size() && !out.repeated;
	for (size_t t = 0; t < c.terms.size() && shape; t++)
		{
		auto i = out.got.find("t" + std::to_string(t)); if (i == out.got.end() || i->second.size() != c.terms[t].size()) { shape = false; break; }
		size_t n = 0; for (auto &p : c.terms[t]) { auto j = i->second.find(p.first); if (j == i->second.end()) { shape = false; break; } all.push_back({scores[t][n++], j->second, t, p.first}); }
		}
	if (!shape) { vf::fail("postings", "%s of %s: the postings of a term are lost, repeated or changed", which, show(c).c_str()); return; }
	if (out.keys.size() != c.lengths.size() + 1) vf::fail("postings", "%s of %s: %zu primary keys of %zu", which, show(c).c_str(), out.keys.size(), c.lengths.size() + 1);
	else for (size_t i = 0; i < out.keys.size(); i++) if (out.keys[i].first != i || out.keys[i].second != "key" + std::to_string(i)) { vf::fail("postings", "%s of %s: primary key %zu is wrong", which, show(c).c_str(), i); break; }
	if (out.finished != 1) vf::fail("postings", "%s of %s: finish() called %d times", which, show(c).c_str(), out.finished);
	if (all.empty()) return;
	if (!quantised) { for (auto &s : all) if (s.impact != c.terms[s.term].at(s.doc)) { vf::fail("unquantised", "%s of %s: frequency %u came out as %u", which, show(c).c_str(), c.terms[s.term].at(s.doc), s.impact); return; } return; }
	std::stable_sort(all.begin(), all.end(), [](const scored &a, const scored &b) { return a.score < b.score; });
	double least = all.front().score, most = all.back().score; bool one = near(least, most);
	for (size_t i = 0; i < all.size(); i++)
		{
		auto &s = all[i]; char what[200]; const char *key = nullptr; *what = 0;
		if (s.impact < LOW || s.impact > HIGH) key = "range";
		else if (!one && s.score == least && s.impact != LOW) key = "smallest";
		else if (!one && s.score == most && s.impact != HIGH) key = "largest";
		else if (!one && fabs((s.score - least) / (most - least) * (HIGH - LOW) + LOW - s.impact) > 1.01) key = "uniform";
		else if (i && !near(all[i - 1].score, s.score) && all[i - 1].impact > s.impact) key = "monotone";
		if (key) { vf::fail(key, "%s of %s: term %zu in document %u has score %.9g (of %.9g to %.9g) and impact %u", which, show(c).c_str(), s.term, s.doc, s.score, least, most, s.impact); return; }
		}
	}
template <class RANKER, class QUANTIZER> static void one(const collection &c, std::shared_ptr<RANKER> ranker, const char *which, bool ranked)
	{
	vf::eval(); vf::step(c.terms.size());
	source index(c); size_t N = c.lengths.size();
	JASS::ranking_function<RANKER> rank(ranker);
	std::vector<std::vector<double>> scores; double least = 1e300, most = -1e300; size_t postings = 0;
	for (size_t t = 0; t < c.terms.size(); t++)
		{
		scores.push_back({});
		for (auto &p : c.terms[t])
			{
			double want = ranked ? bm25(c, t, p.first, p.second) : p.second, got = rank.rank(p.first, (uint32_t)c.terms[t].size(), (uint32_t)N, (impact_type)p.second);
			if (!near(want, got)) { vf::fail("score", "%s of %s: term %zu in document %u scores %.9g, should be %.9g", which, show(c).c_str(), t, p.first, got, want); return; }
			scores[t].push_back(want); least = std::min(least, want); most = std::max(most, want); postings++;
			}
		}
	QUANTIZER q(N, ranker); bool quantised = !std::is_base_of<JASS::quantize_none<RANKER>, QUANTIZER>::value;
	if (quantised)
		{
		index.iterate(q);
		double a, b; q.get_bounds(a, b);
		if (postings && most > 0 && (!near(a, least) || !near(b, most))) vf::fail("bounds", "%s of %s: scores said to be from %.9g to %.9g, are from %.9g to %.9g", which, show(c).c_str(), a, b, least, most);
		}
	std::vector<std::unique_ptr<JASS::index_manager::delegate>> writers; catcher *w[2] = {new catcher(N), new catcher(N)};
	writers.emplace_back(w[0]); writers.emplace_back(w[1]);
	q.serialise_index(index, writers);
	for (auto *x : w) judge(c, *x, scores, which, quantised);
	}
static void every(const collection &c)
	{
	std::vector<uint32_t> l{0}; l.insert(l.end(), c.lengths.begin(), c.lengths.end());
	auto ranker = std::make_shared<BM25>(c.k1, c.b, l); auto none = std::make_shared<NONE>();
	one<BM25, JASS::quantize<BM25>>(c, ranker, "BM25, quantised", true);
	one<BM25, JASS::quantize_none<BM25>>(c, ranker, "BM25, not quantised", true);
	one<NONE, JASS::quantize<NONE>>(c, none, "frequencies, quantised", false);
	}
// the real index manager in between
static void through_manager(const std::vector<std::vector<std::pair<std::string, unsigned>>> &docs, const char *what)
	{
	vf::eval(); vf::describe("the index manager, %s", what); vf::nontrivial(vf::described());
	collection c; JASS::index_manager_sequential m; std::map<std::string, std::map<uint32_t, unsigned>> terms; uint32_t d = 0;
	for (auto &doc : docs)
		{
		d++; std::string key = "k" + std::to_string(d); m.begin_document(JASS::slice((void *)key.data(), key.size())); uint32_t length = 0;
		for (auto &[t, n] : doc) { std::string copy = t; JASS::parser::token token; token.type = JASS::parser::token::alpha; token.lexeme = JASS::slice((void *)copy.data(), copy.size()); token.count = (impact_type)n; m.term(token); terms[t][d] += n; length += n; }
		m.end_document(length); c.lengths.push_back(length);
		}
	std::vector<std::string> names; for (auto &[t, p] : terms) { names.push_back(t); c.terms.push_back(p); for (auto &x : c.terms.back()) x.second = std::min(x.second, HIGH); }
	auto ranker = std::make_shared<BM25>(c.k1, c.b, m.get_document_length_vector());
	JASS::quantize<BM25> q(m.get_highest_document_id(), ranker); m.iterate(q);
	std::vector<std::unique_ptr<JASS::index_manager::delegate>> writers; catcher *w = new catcher(docs.size()); writers.emplace_back(w); q.serialise_index(m, writers);
	catcher named(docs.size()); for (size_t t = 0; t < names.size(); t++) if (w->got.count(names[t])) named.got["t" + std::to_string(t)] = w->got[names[t]];
	for (size_t i = 0; i <= docs.size(); i++) named.keys.push_back({i, "key" + std::to_string(i)}); named.finished = w->finished; named.repeated = w->repeated;
	std::vector<std::vector<double>> scores; for (size_t t = 0; t < c.terms.size(); t++) { scores.push_back({}); for (auto &p : c.terms[t]) scores[t].push_back(bm25(c, t, p.first, p.second)); }
	if (w->got.size() != names.size()) vf::fail("postings", "index manager: %zu terms of %zu", w->got.size(), names.size());
	judge(c, named, scores, "index manager", true);
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	std::vector<uint32_t> L = {1, 2, 10, 1000};
	std::vector<unsigned> F = {0, 1, 2, 7};
	// every frequency matrix of a few documents and terms, every choice of lengths
	for (uint32_t N = 1; N <= 3; N++)
		for (uint32_t terms = 1; terms <= (N == 3 ? 2u : 3u); terms++)
			{
			uint64_t lengths = 1; for (uint32_t i = 0; i < N; i++) lengths *= L.size();
			for (uint64_t l = 0; l < lengths; l++)
				{
				if (!vf::mine()) continue;
				collection c; uint64_t x = l; for (uint32_t i = 0; i < N; i++, x /= L.size()) c.lengths.push_back(L[x % L.size()]);
				vf::describe("every frequency matrix of %u documents and %u terms, %s", N, terms, show(c).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
				uint64_t cells = 1; for (uint32_t i = 0; i < N * terms; i++) cells *= F.size();
				for (uint64_t m = 0; m < cells; m++)
					{
					if (m % 256 == 0) vf::tick();
					c.terms.clear(); uint64_t y = m;
					for (uint32_t t = 0; t < terms; t++) { std::map<uint32_t, unsigned> p; for (uint32_t d = 1; d <= N; d++, y /= F.size()) if (F[y % F.size()]) p[d] = F[y % F.size()]; if (!p.empty()) c.terms.push_back(p); }
					if (c.terms.empty()) continue;
					every(c);
					}
				}
			}
	// one term's every pair of frequencies up to the largest, in otherwise plain collections
	for (unsigned step : T ? std::vector<unsigned>{1} : std::vector<unsigned>{3})
		for (unsigned a = 1; a <= HIGH; a += step)
			{
			if (!vf::mine()) continue;
			vf::describe("frequency %u against every other", a); vf::nontrivial(vf::described());
			for (unsigned b = 1; b <= HIGH; b += step * 7)
				{
				if (b % 64 < 7) vf::tick();
				collection c; c.lengths = {100, 300, 50, 2000}; c.terms = {{{1, a}, {2, b}}, {{3, 1}, {4, a}, {1, b}}, {{1, 1}, {2, 1}, {3, 1}, {4, 1}}};
				one<BM25, JASS::quantize<BM25>>(c, std::make_shared<BM25>(c.k1, c.b, *std::make_unique<std::vector<uint32_t>>(std::vector<uint32_t>{0, 100, 300, 50, 2000})), "BM25, quantised", true);
				one<NONE, JASS::quantize<NONE>>(c, std::make_shared<NONE>(), "frequencies, quantised", false);
				}
			}
	// larger collections, other parameters
	for (uint32_t N : {5, 10, 100, 1000})
		for (double k1 : {0.5, 0.9, 1.2, 2.0})
			for (double b : {0.0, 0.4, 0.75, 1.0})
				{
				if (!vf::mine()) continue;
				vf::describe("%u documents, k1 %g, b %g", N, k1, b); vf::nontrivial(vf::described());
				for (uint32_t spread : {1, 3, 50, 4000})
					for (uint32_t terms : {1, 2, 20})
						{
						vf::tick();
						collection c; c.k1 = k1; c.b = b;
						for (uint32_t d = 0; d < N; d++) c.lengths.push_back(1 + d * 7919 % spread);
						for (uint32_t t = 0; t < terms; t++) { std::map<uint32_t, unsigned> p; for (uint32_t d = 1; d <= N; d++) if (d % (t + 1) == t % 3 || t == 0) p[d] = 1 + (d * (t + 3)) % (spread < 1000 ? spread + 2 : 1024); if (!p.empty()) c.terms.push_back(p); }
						every(c);
						}
				}
	if (vf::mine()) through_manager({{{"a", 1}, {"b", 2}}, {{"b", 1}, {"c", 3}}, {{"a", 2}}}, "three documents");
	if (vf::mine()) through_manager({{{"a", 1}}}, "one document");
	if (vf::mine()) through_manager({{}, {{"a", 5}}, {}, {{"a", 1}, {"z", 1}}}, "empty documents between");
	if (vf::mine()) { std::vector<std::vector<std::pair<std::string, unsigned>>> d; for (unsigned i = 0; i < 300; i++) { d.push_back({}); for (unsigned t = 0; t < 30; t++) if (i % (t + 1) == 0) d.back().push_back({"t" + std::to_string(t), 1 + (i * t) % 9}); } through_manager(d, "300 documents, 30 terms"); }
	return vf::finish("every frequency matrix (0 1 2 7) of up to 3 documents and 3 terms with every choice of 4 lengths, ranked by BM25 and by frequency, quantised and not; every pair of frequencies up to the largest impact (step 3, 21; 1, 7); collections of up to 1000 documents with 16 parameter pairs; the real index manager");
	}

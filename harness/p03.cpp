// P03: a postings budget scores exactly the longest affordable prefix of the query's segments.
#include "search.h"
static std::unique_ptr<JASS_anytime_api> api;
static collection C; static std::string where; static size_t K;
static void open(int version, size_t k, size_t width = 0)
	{
	std::string dir = write_index(C, version, version == 1 ? CODICES[k % 5] : CODEX::elias_gamma_simd_vb);
	api.reset(new JASS_anytime_api); K = k;
	api->set_top_k(k); if (width) api->set_accumulator_width(width);
	if (api->load_index(version, dir) != JASS_ERROR_OK) vf::fail("load", "could not load a good index");
	drop_index(dir);
	}
static void ask(const model &m, const std::string &text, size_t budget, const std::string &how, size_t slack = 0)
	{
	vf::eval(); vf::step(m.segments.size() + 1);
	auto got = api->search(text);
	size_t first = 0; std::set<std::string> want;
	for (size_t b = budget > slack ? budget - slack : 0; ; b++)
		{
		size_t p; auto w = m.answers(C, "1", K, b, p);
		if (w.count(got.results_list) && got.postings_processed == p) return;
		if (b == budget || b == ALL) { want = w; first = p; break; }
		}
	vf::fail("budget", "%s: query [%s] k %zu, %s (budget %zu of %zu postings): processed %zu, got [%s]; expected %zu, %s", where.c_str(), text.c_str(), K, how.c_str(), budget, m.total, got.postings_processed, flat(got.results_list).c_str(), first, show(want).c_str());
	}
static void every_budget(const std::string &text, const bag &q, bool ways)
	{
	model m(C, q);
	for (size_t b = 0; b <= m.total + 1; b++) { api->set_postings_to_process(b); ask(m, text, b, "set_postings_to_process"); }
	api->set_postings_to_process(ALL); ask(m, text, ALL, "no budget");
	if (!ways) return;
	// as a proportion of the documents of the collection
	for (double p : {0.0, 1.0, 10.0, 25.0, 33.0, 50.0, 75.0, 99.0, 100.0, 150.0, 200.0, 300.0, 1000.0})
		{
		api->set_postings_to_process_proportion(p);
		size_t b = (size_t)((double)C.n * p / 100.0);
		ask(m, text, b, "proportion " + std::to_string(p));
		}
	api->set_postings_to_process(ALL);
	// as a proportion of the postings of the query (rounding either way is accepted)
	for (double p : {0.0, 1.0, 10.0, 25.0, 33.0, 50.0, 66.0, 75.0, 90.0, 99.0, 101.0, 200.0})
		{
		api->set_postings_to_process_relative(p);
		size_t b = (size_t)((double)m.total * p / 100.0 + 1e-9);
		ask(m, text, b, "relative " + std::to_string(p), 0);
		}
	api->set_postings_to_process_relative(100);
	ask(m, text, ALL, "back to no budget");
	// an absolute budget and then relative ones leave the absolute budget as it was
	api->set_postings_to_process(m.total / 2); api->set_postings_to_process_relative(25); ask(m, text, (size_t)((double)m.total * 0.25 + 1e-9), "relative 25 over an absolute budget");
	api->set_postings_to_process_relative(100); ask(m, text, m.total / 2, "the absolute budget again");
	// a minimum on its own changes nothing
	api->set_postings_to_process_minimum(m.total); ask(m, text, m.total / 2, "a minimum");
	api->set_postings_to_process_proportion_minimum(100); ask(m, text, m.total / 2, "a minimum proportion");
	api->set_postings_to_process_minimum(0);
	api->set_postings_to_process(ALL);
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	struct family { size_t n; std::vector<unsigned> alphabet; unsigned arity; };
	std::vector<family> families = {{2, {0, 1, 2, 3, 254, 255}, 2}, {3, {0, 1, 2, 3}, 2}, {3, {0, 1, 200, 900}, 2}, {4, {0, 1, 2}, 2}, {5, {0, 1}, 2}, {2, {0, 1, 2}, 3}, {3, {0, 1}, 3}};
	if (T) for (family f : std::vector<family>{{4, {0, 1, 2, 3}, 2}, {5, {0, 1, 2}, 2}, {3, {0, 1, 2}, 3}, {6, {0, 1}, 2}, {4, {0, 1}, 3}}) families.push_back(f);
	size_t fi = 0;
	for (auto &f : families)
		{
		size_t columns = 1; for (size_t i = 0; i < f.n; i++) columns *= f.alphabet.size();
		collection c(f.n); fi++;
		for (size_t v = 0; v < columns; v++)
			{
			size_t x = v;
			for (size_t d = 0; d < f.n; d++, x /= f.alphabet.size()) if (f.alphabet[x % f.alphabet.size()]) c.terms[term_name(v)][d] = f.alphabet[x % f.alphabet.size()];
			}
		for (size_t k : {1, 2, 10})
			for (int version : {1, 2})
				{
				bool ready = false;
				for (size_t a = 0; a < columns; a += 2)
					{
					if (!vf::mine()) continue;
					if (!ready) { C = c; open(version, k); ready = true; }
					char w[200]; snprintf(w, sizeof w, "every budget: collections of %zu documents, %u terms, alphabet %zu, k %zu, format %d, columns %zu..", f.n, f.arity, fi, k, version, a); where = w; vf::describe("%s", w); vf::nontrivial(where);
					for (size_t x = a; x < std::min(a + 2, columns); x++)
						{
						every_budget("1 " + term_name(x), {{term_name(x), 1}}, true);
						for (size_t y = x + 1; y < columns; y++)
							{
							vf::tick();
							if (f.arity == 2) every_budget("1 " + term_name(x) + " " + term_name(y) + (y % 5 == 0 ? " " + term_name(x) : ""), {{term_name(x), y % 5 == 0 ? 2u : 1u}, {term_name(y), 1}}, y % 7 == 0);
							else for (size_t z = y + 1; z < columns; z++) every_budget("1 " + term_name(x) + " " + term_name(y) + " " + term_name(z), {{term_name(x), 1}, {term_name(y), 1}, {term_name(z), 1}}, z % 7 == 0);
							}
						}
					}
				}
		}
	// larger lists: budgets around every segment boundary
	for (size_t n : {20, 64, 100, 130, 257, 600})
		for (int version : {1, 2})
			for (size_t k : {1, 5, 50, 1000})
				for (size_t shape = 0; shape < 4; shape++)
					{
					if (!vf::mine()) continue;
					char w[200]; snprintf(w, sizeof w, "budgets at segment boundaries, %zu documents, format %d, k %zu, shape %zu", n, version, k, shape); where = w; vf::describe("%s", w); vf::nontrivial(where); vf::sample(where);
					C = collection(n); bag q; std::string text = "1";
					for (size_t t = 0; t < 4; t++)
						{
						std::string name = term_name(t, 'b'); q.push_back({name, 1}); text += " " + name;
						for (size_t d = 0; d < n; d++)
							{
							unsigned i = 0;
							switch (shape)
								{
								case 0: i = (d * (t + 3)) % 11; break;
								case 1: i = d % (t + 2) == 0 ? 10 * (t + 1) : 0; break;
								case 2: i = (d * 2654435761u >> (5 + t)) % 40 + (t == 2) * 300; break;
								case 3: i = d < (t + 1) * n / 5 ? 5 + d % 3 : 0; break;
								}
							if (i) C.terms[name][d] = i;
							}
						}
					open(version, k);
					model m(C, q); size_t sum = 0; std::set<size_t> at = {0, 1, m.total, m.total + 1};
					for (auto &s : m.segments) { sum += s.freq; at.insert({sum ? sum - 1 : 0, sum, sum + 1}); }
					// where tied segments would give too many possible answers, take budgets that do not cut a tie
					for (size_t b : at)
						{
						size_t p; size_t take = m.within(b, p);
						if (take && take < m.segments.size() && m.segments[take].impact == m.segments[take - 1].impact && m.segments[take].freq == m.segments[take - 1].freq)
							{
							size_t s = take; while (s && m.segments[s - 1].impact == m.segments[take].impact && m.segments[s - 1].freq == m.segments[take].freq) s--;
							size_t e = take; while (e < m.segments.size() && m.segments[e].impact == m.segments[take].impact && m.segments[e].freq == m.segments[take].freq) e++;
							if (e - s > 8) continue;
							}
						api->set_postings_to_process(b); ask(m, text, b, "set_postings_to_process"); vf::tick();
						}
					}
	return vf::finish("every budget from 0 past the total for every collection of up to 5 documents and 2 terms (3 documents, 3 terms); every segment boundary for patterned collections up to 600 documents");
	}

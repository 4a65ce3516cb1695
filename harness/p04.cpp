// P04: telling searches the score of the k-th document never loses a top-k document.
#include "search.h"
static std::unique_ptr<JASS_anytime_api> api;
static collection C; static std::string where; static size_t K;
static void rows(const std::string &text, std::vector<std::pair<uint32_t, uint32_t>> &out, bool &good)
	{
	std::istringstream in(text); std::string id, q0, key, tail; unsigned rank, score; good = true; size_t at = 0;
	while (in >> id >> q0 >> key >> rank >> score >> tail)
		{
		size_t d = 0; while (d < C.n && C.keys[d] != key) d++;
		good = good && d < C.n && rank == ++at;
		out.push_back({score, (uint32_t)d});
		}
	}
struct question { std::string id, text; bag q; unsigned oracle; bool listed; };
static void ask_all(std::vector<question> &list, int version, bool after)
	{
	std::string file = "oracle.txt";
	{ std::ofstream o(file); for (auto &x : list) if (x.listed) o << x.id << " " << x.oracle << "\n"; }
	std::string dir = write_index(C, version, version == 1 ? CODICES[K % 5] : CODEX::elias_gamma_simd_vb);
	api.reset(new JASS_anytime_api);
	api->set_top_k(K);
	if (!after && api->load_oracle_scores(file) != JASS_ERROR_OK) vf::fail("oracle", "could not load a good oracle file");
	if (api->load_index(version, dir) != JASS_ERROR_OK) vf::fail("load", "could not load a good index");
	if (after && api->load_oracle_scores(file) != JASS_ERROR_OK) vf::fail("oracle", "could not load a good oracle file");
	drop_index(dir); unlink(file.c_str());
	for (auto &x : list)
		{
		model m(C, x.q); vf::eval(); vf::step(m.segments.size() + 1);
		std::vector<size_t> all; for (size_t s = 0; s < m.segments.size(); s++) all.push_back(s);
		std::vector<uint32_t> full; m.score(C, all, full);
		auto best = model::top(full, K);
		uint32_t kth = best.size() == K && K ? best.back().first : 0;
		for (int minimum = 0; minimum < 2; minimum++)
			{
			api->set_postings_to_process_minimum(minimum ? m.total : 0);
			auto got = api->search(x.id + " " + x.text);
			std::vector<std::pair<uint32_t, uint32_t>> r; bool good; rows(got.results_list, r, good);
			auto bad = [&](const char *what) { vf::fail("oracle:" + std::string(what), "%s: query [%s %s] k %zu, true k-th score %u, score supplied %u%s, minimum %d: %s: got [%s], the top k is [%s]", where.c_str(), x.id.c_str(), x.text.c_str(), K, kth, x.oracle, x.listed ? "" : " (not listed)", minimum, what, flat(got.results_list).c_str(), flat(model::format(C, x.id, best)).c_str()); };
			if (!good) { bad("malformed"); continue; }
			std::set<uint32_t> seen; bool dup = false; for (auto &[s, d] : r) dup |= !seen.insert(d).second;
			if (dup) { bad("duplicate"); continue; }
			unsigned given = x.listed ? x.oracle : 0;
			if (given > 1 && given == kth)
				{
				bool ok = r.size() == K;
				for (auto &[s, d] : r) if (full[d] < kth) ok = false;
				if (!ok) { bad("not a top-k set"); continue; }
				}
			else if (given <= 1 || given > kth)
				{ if (got.results_list != model::format(C, x.id, best)) { bad("differs from a search without an oracle"); continue; } }
			for (auto &[s, d] : r) if (s > full[d]) bad("score too large");
			for (size_t i = 1; i < r.size(); i++) if (!(r[i] < r[i - 1])) { bad("not in order"); break; }
			}
		}
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	struct family { size_t n; std::vector<unsigned> alphabet; unsigned arity; };
	std::vector<family> families = {{3, {0, 1, 2, 3}, 2}, {2, {0, 1, 2, 100, 254, 255}, 2}, {4, {0, 1, 2}, 2}, {3, {0, 1, 300, 900}, 2}, {3, {0, 2, 127, 128}, 2}, {5, {0, 2}, 2}, {3, {0, 2}, 3}, {2, {0, 1, 2}, 3}};
	if (T) for (family f : std::vector<family>{{4, {0, 1, 2, 3}, 2}, {5, {0, 1, 2}, 2}, {3, {0, 1, 2}, 3}, {4, {0, 2}, 3}, {6, {0, 2}, 2}}) families.push_back(f);
	size_t fi = 0;
	for (auto &f : families)
		{
		size_t columns = 1; for (size_t i = 0; i < f.n; i++) columns *= f.alphabet.size();
		collection c(f.n); fi++;
		for (size_t v = 0; v < columns; v++)
			{
			size_t x = v;
			for (size_t d = 0; d < f.n; d++, x /= f.alphabet.size()) if (f.alphabet[x % f.alphabet.size()]) c.terms[term_name(v)][d] = f.alphabet[x % f.alphabet.size()];
			}
		for (size_t k = 1; k <= f.n + 1; k++)
			for (size_t a = 0; a < columns; a += 8)
				{
				if (!vf::mine()) continue;
				C = c; K = k;
				char w[200]; snprintf(w, sizeof w, "every score up to past the true one: collections of %zu documents, %u terms, alphabet %zu, k %zu, columns %zu..", f.n, f.arity, fi, k, a); where = w; vf::describe("%s", w); vf::nontrivial(where); vf::sample(where);
				std::vector<question> list; size_t id = 0;
				auto add = [&](const std::string &text, const bag &q)
					{
					model m(C, q);
					std::vector<size_t> all; for (size_t s = 0; s < m.segments.size(); s++) all.push_back(s);
					std::vector<uint32_t> full; m.score(C, all, full);
					auto best = model::top(full, K);
					uint32_t kth = best.size() == K ? best.back().first : 0;
					std::set<unsigned> scores = {0, 1, kth, kth + 1, kth + 2, 254, 255, 256, 257, 300, 1000, 4294967295u};
					for (auto &[s, d] : best) scores.insert({s, s + 1});
					for (unsigned s : scores) if (s <= 1 || s >= kth) list.push_back({"q" + std::to_string(id++), text, q, s, true});
					list.push_back({"q" + std::to_string(id++), text, q, 0, false});
					};
				for (size_t x = a; x < std::min(a + 8, columns); x++)
					{
					add(term_name(x), {{term_name(x), 1}});
					for (size_t y = x + 1; y < columns; y++)
						if (f.arity == 2) add(term_name(x) + " " + term_name(y), {{term_name(x), 1}, {term_name(y), 1}});
						else for (size_t z = y + 1; z < columns; z++) add(term_name(x) + " " + term_name(y) + " " + term_name(z), {{term_name(x), 1}, {term_name(y), 1}, {term_name(z), 1}});
					}
				ask_all(list, 1 + (a / 8) % 2, (a / 16) % 2); vf::tick();
				}
		}
	for (size_t n : {20, 100, 300, 1000})
		for (size_t k : {1, 3, 10, 99, 300, 999, 1000})
			for (size_t shape = 0; shape < 4; shape++)
				{
				if (!vf::mine()) continue;
				char w[200]; snprintf(w, sizeof w, "larger collections, %zu documents, k %zu, shape %zu", n, k, shape); where = w; vf::describe("%s", w); vf::nontrivial(where);
				C = collection(n); K = k; bag q; std::string text;
				for (size_t t = 0; t < 4; t++)
					{
					std::string name = term_name(t, 'b'); q.push_back({name, 1}); text += " " + name;
					for (size_t d = 0; d < n; d++)
						{
						unsigned i = shape == 0 ? (d * (t + 3)) % 11 : shape == 1 ? (d % (t + 2) == 0 ? 10 * (t + 1) : 0) : shape == 2 ? (d * 2654435761u >> (5 + t)) % 40 + (t == 2) * 300 : d < (t + 1) * n / 5 ? 5 + d % 3 : 0;
						if (i) C.terms[name][d] = i;
						}
					}
				model m(C, q); std::vector<size_t> all; for (size_t s = 0; s < m.segments.size(); s++) all.push_back(s);
				std::vector<uint32_t> full; m.score(C, all, full); auto best = model::top(full, K); uint32_t kth = best.size() == K ? best.back().first : 0;
				std::vector<question> list; size_t id = 0;
				for (unsigned s : std::set<unsigned>{0, 1, kth, kth + 1, kth + 5, best.size() ? best[0].first : 1, best.size() ? best[0].first + 1 : 1, 255, 256, 300}) if (s <= 1 || s >= kth) list.push_back({"q" + std::to_string(id++), text, q, s, true});
				for (int version : {1, 2}) ask_all(list, version, version == 1);
				}
	return vf::finish("every supplied score in {0, 1, each score of the top k and its successor, beyond the accumulators' range} for every collection of up to 5 documents and 2 terms (3 documents, 3 terms), every k; patterned collections up to 1000 documents");
	}

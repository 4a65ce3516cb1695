// P01: an unbudgeted search gives exactly the top k, for every small collection and a family of larger ones.
#include "search.h"

static std::unique_ptr<JASS_anytime_api> api;
static collection C; static std::string where; static size_t K;
static void open(int version, CODEX codex, size_t k, size_t width, int align = -1)
	{
	if (version == 2 && codex == CODEX::qmx) codex = CODEX::elias_gamma_simd_vb;		// the second format does not align segments, as that codec needs (see P06)
	std::string dir = write_index(C, version, codex, align);
	api.reset(new JASS_anytime_api); K = k;
	api->set_top_k(k);
	if (width) api->set_accumulator_width(width);
	auto e = api->load_index(version, dir);
	if (e != JASS_ERROR_OK) vf::fail("load", "loading a good index (format %d, codec %c, k %zu, width %zu) gave error %d", version, (char)codex, k, width, (int)e);
	drop_index(dir);
	}
static void ask(const std::string &text, const bag &q, const char *id = "1")
	{
	vf::eval(); 
	model m(C, q); vf::step(m.segments.size() + 1);
	size_t postings; auto want = m.answers(C, id, K, ALL, postings);
	auto got = api->search(text);
	if (!want.count(got.results_list))
		vf::fail("ranking", "%s: query [%s] k %zu of %zu documents: got [%s] expected %s", where.c_str(), text.c_str(), K, C.n, flat(got.results_list).c_str(), show(want).c_str());
	else if (got.postings_processed != postings || got.query_id != id)
		vf::fail("report", "%s: query [%s]: %zu postings processed of %zu, id [%s]", where.c_str(), text.c_str(), got.postings_processed, postings, got.query_id.c_str());
	}

int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	// ---- every collection of n documents and two (or three) terms over an alphabet of impacts
	struct family { size_t n, arity; std::vector<unsigned> alphabet; };
	std::vector<family> families = {
		{1, 2, {0, 1, 2, 3, 100, 127, 128, 200, 254, 255}}, {2, 2, {0, 1, 2, 3, 100, 127, 128, 155, 200, 254, 255}}, {3, 2, {0, 1, 2, 127, 128, 255}}, {4, 2, {0, 1, 2, 3}},
		{3, 2, {0, 1, 256, 500, 1023}}, {2, 2, {0, 1, 2, 254, 255, 256, 257, 510, 511, 512, 1022, 1023}}, {3, 3, {0, 1, 2}}, {2, 3, {0, 1, 84, 85, 86, 255}}, {5, 2, {0, 1, 2}}};
	if (T) for (family f : std::vector<family>{{4, 2, {0, 1, 2, 127, 255}}, {5, 2, {0, 1, 2, 3}}, {6, 2, {0, 1, 2}}, {3, 3, {0, 1, 2, 85}}, {4, 3, {0, 1, 2}}, {9, 2, {0, 1}}}) families.push_back(f);
	size_t fi = 0;
	for (auto &f : families)
		{
		size_t columns = 1; for (size_t i = 0; i < f.n; i++) columns *= f.alphabet.size();
		collection c(f.n); std::vector<std::string> names; fi++;
		for (size_t v = 0; v < columns; v++)
			{
			names.push_back(term_name(v)); size_t x = v;
			for (size_t d = 0; d < f.n; d++, x /= f.alphabet.size()) if (f.alphabet[x % f.alphabet.size()]) c.terms[names[v]][d] = f.alphabet[x % f.alphabet.size()];
			}
		for (size_t k = 1; k <= f.n + 1; k++)
			for (int version : {1, 2})
				{
				if (version == 2 && k % 2 == 0 && !T) continue;
				bool ready = false;
				for (size_t a = 0; a < columns; a += 4)
					{
					if (!vf::mine()) continue;
					if (!ready) { C = c; open(version, CODICES[(fi + k) % 5], k, (fi + k) % 4); ready = true; }
					char w[200]; snprintf(w, sizeof w, "all collections of %zu documents, %zu terms, alphabet %zu, k %zu, format %d, columns %zu..", f.n, f.arity, fi, k, version, a);
					where = w; vf::describe("%s", w); vf::nontrivial(where);
					for (size_t x = a; x < std::min(a + 4, columns); x++)
						{
						ask("1 " + names[x], {{names[x], 1}});
						ask("1 " + names[x] + " " + names[x], {{names[x], 2}});
						for (size_t y = x + 1; y < columns; y++)
							{
							if (f.arity == 2)
								{
								ask("1 " + names[x] + " " + names[y], {{names[x], 1}, {names[y], 1}});
								if (y % 3 == 0) ask("1 " + names[y] + " " + names[x] + " " + names[y], {{names[y], 2}, {names[x], 1}});
								}
							else
								for (size_t z = y + 1; z < columns; z++)
									ask("1 " + names[x] + " " + names[y] + " " + names[z], {{names[x], 1}, {names[y], 1}, {names[z], 1}});
							vf::tick();
							}
						}
					}
				}
		}
	// ---- larger collections around block and page boundaries
	std::vector<size_t> sizes = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2050};
	if (T) for (size_t n : {4095, 4096, 4097, 10000, 16385, 65535, 65536, 65537, 70000}) sizes.push_back(n);
	for (size_t n : sizes)
		for (size_t ci = 0; ci < 5; ci++)
			for (int version : {1, 2})
				for (size_t width : {0, 1, 3, 5, 8, 12})
					{
					size_t which = n + ci * 3 + version + width;
					if (version == 2 && CODICES[ci] == CODEX::qmx) continue;
					if (!T && n > 20 && which % 3) continue;
					if (!vf::mine()) continue;
					char w[200]; snprintf(w, sizeof w, "%zu documents, codec %c, format %d, width %zu", n, (char)CODICES[ci], version, width); where = w; vf::describe("%s", w); vf::nontrivial(where);
					C = collection(n);
					std::vector<std::string> names; size_t t = 0;
					auto term = [&](auto f) { std::string name = term_name(t++, 'b'); bool any = false; for (size_t d = 0; d < n; d++) if (unsigned i = f(d)) { C.terms[name][d] = i; any = true; } if (any) names.push_back(name); };
					term([&](size_t d) { return 1; });											// everything, one impact
					term([&](size_t d) { return d % 7 + 1; });
					term([&](size_t d) { return d % 2 ? 3 : 0; });
					term([&](size_t d) { return d == n - 1 ? 9 : 0; });					// last document only
					term([&](size_t d) { return d == 0 ? 9 : 0; });
					term([&](size_t d) { return d % 16 == 15 ? 20 : d % 16 == 0 ? 21 : 0; });
					term([&](size_t d) { return (d * 2654435761u >> 7) % 60 + 1; });	// many segments
					term([&](size_t d) { return d >= n / 2 ? 5 : 0; });
					term([&](size_t d) { return (n - d) % 50 + 1; });						// impacts falling with the document number
					term([&](size_t d) { return d < n - 1 ? 2 : 0; });
					term([&](size_t d) { return d % 33 == 5 ? 255 : 0; });
					for (size_t k : std::vector<size_t>{1, 2, 10, n - 1, n, n + 1, 1000})
						{
						if (k > 1000 || k == 0) continue;
						open(version, CODICES[ci], k, width); vf::tick();
						for (size_t a = 0; a < names.size(); a++)
							{
							ask("1 " + names[a], {{names[a], 1}});
							for (size_t b = a + 1; b < names.size(); b++) ask("1 " + names[a] + " " + names[b], {{names[a], 1}, {names[b], 1}});
							}
						bag everything; std::string text = "1";
						for (auto &x : names) { everything.push_back({x, 1}); text += " " + x; }
						ask(text, everything);
						vf::sample(where + " k " + std::to_string(k) + " " + text);
						}
					}
	// ---- every postings list length, so every tail of every vectorised loop
	for (size_t ci = 0; ci < 5; ci++)
		for (size_t stride : {1, 2, 5, 129})
			{
			if (!vf::mine()) continue;
			char w[200]; snprintf(w, sizeof w, "lists of every length, every %zu documents, codec %c", stride, (char)CODICES[ci]); where = w; vf::describe("%s", w); vf::nontrivial(where);
			size_t longest = T ? 600 : 300;
			C = collection(longest * stride + 1); 
			for (size_t l = 1; l <= longest; l++) for (size_t i = 0; i < l; i++) C.terms[term_name(l)][i * stride] = 1 + (i + l) % 2;
			for (size_t k : {3, 1000})
				{
				open(1 + ci % 2, CODICES[ci], k, 0);
				for (size_t l = 1; l <= longest; l++) { ask("1 " + term_name(l), {{term_name(l), 1}}); vf::tick(); }
				}
			}
	// ---- many query terms, and the text of the query
	for (size_t terms : {2, 3, 10, 100, 128, 200, 254, 255, 256, 257, 300, 500, 1000})
		for (unsigned impact : {1u, 2u, 50u})
			for (size_t k : {1, 3})
			{
			if (!vf::mine()) continue;
			char w[200]; snprintf(w, sizeof w, "%zu query terms of impact %u", terms, impact); where = w; vf::describe("%s", w); vf::nontrivial(where);
			C = collection(4); bag q; std::string text = "1";
			for (size_t t = 0; t < terms; t++)
				{
				std::string name = term_name(t, 'm');
				for (size_t d = 0; d < 4; d++) if ((t + d) % 4 != 0) C.terms[name][d] = impact + (t == 3 && d == 2) + d % 2;
				q.push_back({name, 1}); text += " " + name;
				}
			open(1 + terms % 2, CODICES[terms % 5], k, 0);
			if (terms > 255 && (uint64_t)terms * (impact + 1) > 255)
				{
				// cannot be told apart in the accumulators' range: only that nothing wraps around and each document of a term is ranked
				auto got = api->search(text); vf::eval();
				std::istringstream in(got.results_list); std::string id, q0, key, rest; unsigned rank, score, last = 256; size_t rows = 0;
				while (in >> id >> q0 >> key >> rank >> score >> rest)
					{ rows++; if (score > last || score == 0 || rank != rows) vf::fail("ranking", "%s: not in order: %s", where.c_str(), flat(got.results_list).c_str()); last = score; }
				std::vector<uint64_t> full(4); for (auto &[t, f] : q) for (auto &[d, i] : C.terms[t]) full[d] += i;
				if (rows != std::min<size_t>(k, 4)) vf::fail("manyterms", "%s: %zu rows", where.c_str(), rows);
				}
			else ask(text, q);
			}
	for (int version : {1, 2})
		for (size_t k : {1, 2, 3})
			{
			if (!vf::mine()) continue;
			where = "text of the query"; vf::describe("text of the query, format %d k %zu", version, k); vf::nontrivial(vf::described());
			C = collection(3); C.terms["cat"] = {{0, 1}, {1, 2}}; C.terms["dog"] = {{1, 1}, {2, 4}}; C.terms["7"] = {{0, 3}}; C.terms["elephant"] = {{2, 1}};
			open(version, CODICES[k], k, 0);
			ask("cat", {{"cat", 1}}, ""); ask("dog", {{"dog", 1}}, ""); ask("7", {{"7", 1}}, "");
			ask("q7 cat dog", {{"cat", 1}, {"dog", 1}}, "q7"); ask("q7:cat dog", {{"cat", 1}, {"dog", 1}}, "q7"); ask("q7\tcat\tdog", {{"cat", 1}, {"dog", 1}}, "q7");
			ask("q7 : \t cat dog", {{"cat", 1}, {"dog", 1}}, "q7"); ask("q7  CAT  dOg  ", {{"cat", 1}, {"dog", 1}}, "q7"); ask("q7 cat,dog.7", {{"cat", 1}, {"dog", 1}, {"7", 1}}, "q7");
			ask("q7 cats", {{"cats", 1}}, "q7"); ask("q7 ca", {{"ca", 1}}, "q7"); ask("q7 zzz cat aaa", {{"zzz", 1}, {"cat", 1}, {"aaa", 1}}, "q7"); ask("q7 zzz", {{"zzz", 1}}, "q7");
			ask("q7 -", {}, "q7"); ask("q7 7 7 7", {{"7", 3}}, "q7"); ask("q7 cat7", {{"cat", 1}, {"7", 1}}, "q7"); ask("q7 ", {}, "q7"); ask("q7 :", {}, "q7"); ask(" cat", {{"cat", 1}}, "");
			ask("cat dog cat dog elephant elephantine", {{"dog", 2}, {"cat", 1}, {"elephant", 1}, {"elephantine", 1}}, "cat");
			auto r = api->search(""); vf::eval();
			if (r.results_list != "") vf::fail("empty", "an empty query gave [%s]", flat(r.results_list).c_str());
			}
	return vf::finish("every collection of up to 5 documents and 2 terms (3 terms up to 3 documents) over alphabets of impacts, every k; patterned collections up to 2050 documents (70000 thorough), 5 codecs, 2 formats, 6 widths");
	}

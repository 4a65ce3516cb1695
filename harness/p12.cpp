// P12: every query processor against the ranking computed from plain sums.
#include "vf.h"
#include "query.h"
// the compile-time choices query.h documents, made here after its defaults
#ifdef VF_ACCUMULATORS
	#undef ACCUMULATOR_STRATEGY_2D
	#if VF_ACCUMULATORS == 8
		#define ACCUMULATOR_COUNTER_8
	#elif VF_ACCUMULATORS == 4
		#define ACCUMULATOR_COUNTER_4
	#elif VF_ACCUMULATORS == 108
		#define ACCUMULATOR_COUNTER_INTERLEAVED_8
	#elif VF_ACCUMULATORS == 118
		#define ACCUMULATOR_COUNTER_INTERLEAVED_8_1
	#elif VF_ACCUMULATORS == 104
		#define ACCUMULATOR_COUNTER_INTERLEAVED_4
	#endif
#endif
#ifdef VF_SORT
	#undef JASS_TOPK_SORT
	#if VF_SORT == 1
		#define CPP_TOPK_SORT
	#elif VF_SORT == 2
		#define CPP_SORT
	#elif VF_SORT == 3
		#define AVX512_SORT
	#endif
#endif
#include "query_heap.h"
#include "query_heap_clean.h"
#include "query_bucket.h"
#include "query_maxblock.h"
#include "query_maxblock_heap.h"
#include <map>
#include <memory>
#include <type_traits>
typedef JASS::query Q;
struct add { uint32_t doc; uint32_t score; };
typedef std::vector<add> contributions;
struct row { uint64_t doc, score; std::string key; bool operator==(const row &o) const { return doc == o.doc && score == o.score && key == o.key; } };
static std::vector<std::string> keys;
static std::string show(const std::vector<row> &w) { std::string s; for (auto &r : w) s += "<" + std::to_string(r.doc) + "," + std::to_string(r.score) + ">"; return s.empty() ? "nothing" : s; }
static std::string show(const contributions &w) { std::string s; size_t n = 0; for (auto &r : w) { if (n++ == 40) { s += "..."; break; } s += std::to_string(r.doc) + "+" + std::to_string(r.score) + " "; } return s; }
template <class P> struct kind { static constexpr const char *name = "?"; static constexpr bool exact = true; };
template <> struct kind<JASS::query_heap> { static constexpr const char *name = "query_heap"; static constexpr bool exact = true; };
template <> struct kind<JASS::query_heap_clean> { static constexpr const char *name = "query_heap_clean"; static constexpr bool exact = true; };
template <> struct kind<JASS::query_maxblock_heap> { static constexpr const char *name = "query_maxblock_heap"; static constexpr bool exact = true; };
template <> struct kind<JASS::query_maxblock> { static constexpr const char *name = "query_maxblock"; static constexpr bool exact = false; };
template <> struct kind<JASS::query_bucket> { static constexpr const char *name = "query_bucket"; static constexpr bool exact = false; };
template <class P> static std::vector<row> forwards(P &p, size_t limit) { std::vector<row> r; auto e = p.end(); for (auto i = p.begin(); i != e && r.size() <= limit; ++i) { auto x = *i; r.push_back({x.document_id, x.rsv, x.primary_key}); } return r; }
template <class P> static std::vector<row> backwards(P &p, size_t limit) { std::vector<row> r; auto b = p.rbegin(); auto e = p.rend(); for (; b != e && r.size() <= limit; ++b) { auto x = *b; r.push_back({x.document_id, x.rsv, x.primary_key}); } return r; }
static std::vector<row> reference(const contributions &c, size_t k)
	{
	std::map<uint32_t, uint64_t> sums; for (auto &a : c) sums[a.doc] += a.score;
	std::vector<row> r; for (auto &s : sums) if (s.second) r.push_back({s.first, s.second, keys[s.first]});
	std::sort(r.begin(), r.end(), [](const row &a, const row &b) { return a.score != b.score ? a.score > b.score : a.doc > b.doc; });
	if (r.size() > k) r.resize(k);
	return r;
	}
struct shape { uint32_t documents, k, width; };
template <class P> static void one(P &p, const shape &s, const contributions &c, const char *what)
	{
	vf::eval(); vf::step(c.size());
	p.rewind(0, 1, 255);
	for (auto &a : c) p.add_rsv(a.doc, a.score);
	std::string name = kind<P>::name;
	auto want = reference(c, s.k);
	auto down = backwards(p, s.documents), up = forwards(p, s.documents);
	auto again = backwards(p, s.documents), again_up = forwards(p, s.documents);
	std::string where = std::string(kind<P>::name) + ", " + std::to_string(s.documents) + " documents, top " + std::to_string(s.k) + ", width " + std::to_string(s.width) + ", " + what + ": " + show(c);
	if (down != again || up != again_up) vf::fail(name + ":iteration", "%s: iterating a second time gives %s instead of %s", where.c_str(), show(again).c_str(), show(down).c_str());
	auto flipped = up; std::reverse(flipped.begin(), flipped.end());
	if (down != flipped) vf::fail(name + ":iteration", "%s: forwards gives %s but backwards %s", where.c_str(), show(up).c_str(), show(down).c_str());
	if (down != want)
		vf::fail(name + ":ranking", "%s: best first gives %s, should be %s", where.c_str(), show(down).c_str(), show(want).c_str());
	// what holds whatever the order: as many documents as there should be, each once with its own key and score
	auto every = reference(c, keys.size()); std::map<uint64_t, row> sums; for (auto &r : every) sums[r.doc] = r;
	size_t deepest = 0; { std::map<uint64_t, size_t> depth, sum; for (auto &a : c) deepest = std::max(deepest, ++depth[sum[a.doc] += a.score]); }
	bool right = down.size() == want.size();
	for (auto &r : down) { auto i = sums.find(r.doc); if (i == sums.end() || !(i->second == r)) right = false; else sums.erase(i); }
	if (!right) vf::fail(name + (deepest > 255 ? ":contents of a bucket of more than 255" : ":contents"), "%s: gives %s, which are not %zu documents with their own scores", where.c_str(), show(down).c_str(), want.size());
	}
// n-th word over an alphabet
static contributions word(uint64_t n, size_t length, const std::vector<add> &alphabet) { contributions c; for (size_t i = 0; i < length; i++) { c.push_back(alphabet[n % alphabet.size()]); n /= alphabet.size(); } return c; }
static uint64_t power(uint64_t b, size_t e) { uint64_t r = 1; while (e--) r *= b; return r; }
template <class P> static void all(void)
	{
#if defined(VF_SORT) || defined(VF_ACCUMULATORS) || defined(ACCUMULATOR_64s)
	const size_t less = 1;
#else
	const size_t less = 0;
#endif
	const bool T = vf::thorough();
	const char *name = kind<P>::name;
	std::vector<std::vector<uint32_t>> ids = {{0, 1, 2, 3}, {0, 127, 128, 599}, {5, 6, 300, 301}};
	// every short sequence of contributions
	for (size_t placement = 0; placement < ids.size(); placement++)
		for (uint32_t width : T ? std::vector<uint32_t>{0, 1, 3, 7} : std::vector<uint32_t>{0, 7})
			for (uint32_t k : {1, 2, 3, 4, 5, 9})
				{
				if (!vf::mine()) continue;
				vf::describe("%s, every sequence over documents %u %u %u %u, width %u, top %u", name, ids[placement][0], ids[placement][1], ids[placement][2], ids[placement][3], width, k);
				vf::nontrivial(vf::described()); vf::sample(vf::described());
				std::unique_ptr<P> p(new P); p->init(keys, 600, k, width); shape s{600, k, width};
				std::vector<add> wide; for (auto d : ids[placement]) for (uint32_t x : {1, 2, 3}) wide.push_back({d, x});
				std::vector<add> narrow; for (auto d : ids[placement]) for (uint32_t x : {1, 2}) narrow.push_back({d, x});
				for (size_t length = 0; length <= (T ? 5u : 3u); length++) for (uint64_t n = 0; n < power(12, length); n++) { one(*p, s, word(n, length, wide), "one query"); if (n % 4096 == 0) vf::tick(); }
				for (size_t length = 4; length <= (T ? 6u : 5u) - less; length++) for (uint64_t n = 0; n < power(8, length); n++) { one(*p, s, word(n, length, narrow), "one query"); if (n % 4096 == 0) vf::tick(); }
				}
	// re-initialised between queries (the same object, another k and number of documents)
	if (vf::mine())
		{
		vf::describe("%s, initialised again between queries", name); vf::nontrivial(vf::described());
		std::unique_ptr<P> p(new P);
		std::vector<shape> shapes; for (uint32_t d : {4, 130, 600}) for (uint32_t k : {1, 3, 7}) for (uint32_t w : {0, 7}) shapes.push_back({d, k, w});
		for (auto &a : shapes) for (auto &b : shapes)
			{
			vf::tick();
			for (uint64_t n = 0; n < (T ? 8 : 3); n++)
				{
				contributions first, second;
				for (uint32_t i = 0; i < a.documents; i++) first.push_back({i, (uint32_t)((i * (n + 1)) % 5 + 1)});
				for (uint32_t i = 0; i < b.documents; i++) if ((i + n) % 3) second.push_back({b.documents - 1 - i, (uint32_t)((i * (n + 3)) % 4 + 1)});
				p->init(keys, a.documents, a.k, a.width); one(*p, a, first, "first query"); p->init(keys, b.documents, b.k, b.width); one(*p, b, second, "after initialising again");
				}
			}
		}
	// every permutation of distinct scores, then a second round of additions
	for (uint32_t k : {1, 2, 3, 4, 6, 7})
		{
		if (!vf::mine()) continue;
		vf::describe("%s, every order of %u documents, top %u", name, T ? 8 : 7, k); vf::nontrivial(vf::described());
		std::unique_ptr<P> p(new P); p->init(keys, 600, k, 2);  shape s{600, k, 2};
		std::vector<uint32_t> order; for (uint32_t i = 0; i < (T ? 8u : 7u); i++) order.push_back(i);
		do
			{
			contributions c; for (auto d : order) c.push_back({d, 10 + d / 2});
			one(*p, s, c, "one query");
			for (uint32_t bump : {1, 5}) { auto e = c; for (size_t i = 0; i < 3; i++) e.push_back({order[i * 2], bump}); one(*p, s, e, "raised"); }
			}
		while (std::next_permutation(order.begin(), order.end()));
		}
	// many documents: ties, page boundaries, large k, scores up to the largest
	for (uint32_t documents : {1, 2, 31, 32, 33, 255, 256, 257, 600})
		for (uint32_t k : {1, 2, 10, 31, 32, 64, 255, 256, 257, 599, 600})
			{
			if (less && !T && (documents % 100 == 32 || documents == 255 || documents == 256 || documents == 2 || !(k == 1 || k == 10 || k == 256 || k == 600))) continue;
			if (!vf::mine()) continue;
			vf::describe("%s, %u documents, top %u", name, documents, k); vf::nontrivial(vf::described());
			for (uint32_t width : {0, 1, 7})
				{
				std::unique_ptr<P> p(new P); p->init(keys, documents, k, width); shape s{documents, k, width};
				for (uint32_t modulus : {1, 2, 7, 100})
					for (int pattern = 0; pattern < 4; pattern++)
						{
						vf::tick();
						contributions c;
						for (uint32_t i = 0; i < documents; i++)
							{
							uint32_t d = pattern & 1 ? documents - 1 - i : i, x = (d * 37 + 11) % modulus + 1;
							if (pattern & 2) { if (x > 1) c.push_back({d, x - 1}); } else c.push_back({d, x});
							}
						if (pattern & 2) for (uint32_t i = 0; i < documents; i++) c.push_back({i, 1});
						one(*p, s, c, "many documents");
						for (auto &a : c) a.score = std::min<uint32_t>(a.score * 2, 127);
						one(*p, s, c, "large scores");
						for (auto &a : c) a.score = 100; for (uint32_t i = 0; i < documents; i += 3) c.push_back({i, i % 56}); c.erase(std::remove_if(c.begin(), c.end(), [](const add &a) { return a.score == 0; }), c.end());
						if (!(pattern & 2)) one(*p, s, c, "scores up to the largest");
						}
				}
			}
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	for (int i = 0; i < 1001; i++) keys.push_back("key" + std::to_string(i));
	all<JASS::query_heap>();
	all<JASS::query_heap_clean>();
	all<JASS::query_maxblock_heap>();
#if !defined(VF_SORT) && !defined(ACCUMULATOR_POINTER_BEAP)
	all<JASS::query_maxblock>();
	all<JASS::query_bucket>();
#endif
	return vf::finish("five query processors: every sequence of up to 4 (5) contributions of 3 scores and 5 (6) of 2 scores to 4 documents, in 3 placements, 4 page widths, 6 values of k, one query after another on the same object; all orders of 7 (8) documents; families of up to 600 documents");
	}

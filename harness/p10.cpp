// P10: heap, beap, top_k_heap and the partial sorts against plain sorted containers.
#include "vf.h"
#include "heap.h"
#include "beap.h"
#include "top_k_heap.h"
#include "top_k_qsort.h"
#include "pointer_box.h"
#include <set>
#include <memory>
#include <sstream>
#ifdef __AVX512F__
	#include "sort512_uint64_t.h"
#endif
template <class T> static std::string show(const std::vector<T> &v) { std::ostringstream s; size_t n = 0; for (auto &x : v) { if (n++ == 60) { s << "..."; break; } s << x << " "; } return s.str(); }
static uint64_t power(uint64_t b, size_t e) { uint64_t r = 1; while (e--) r *= b; return r; }
// ---- heap
template <class T> static bool is_min_heap(const std::vector<T> &a, size_t size) { for (size_t i = 1; i < size; i++) if (a[i] < a[(i - 1) / 2]) return false; return true; }
template <class T> static bool same(std::vector<T> a, std::vector<T> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
// from start, apply operations (number coded): replace the smallest, promote an element, look for one
static void heap_case(const std::vector<int> &start, const std::vector<std::pair<int, int>> &ops)
	{
	vf::eval(); vf::step(ops.size() + 1);
	size_t n = start.size(); std::vector<int> a(start), model(start); a.push_back(-77); 			// a sentinel after the end
	JASS::heap<int> h(a.data(), n); h.make_heap();
	auto trouble = [&](const char *what) { vf::fail(std::string("heap:") + what, "heap of %s: wrong after %zu operations (first %d %d): %s", show(start).c_str(), ops.size(), ops.empty() ? 0 : ops[0].first, ops.empty() ? 0 : ops[0].second, show(a).c_str()); };
	auto check = [&](void)
		{
		std::vector<int> now(a.begin(), a.begin() + n);
		if (a[n] != -77) { trouble("outside"); return false; }
		if (!is_min_heap(now, n)) { trouble("order"); return false; }
		if (!same(now, model)) { trouble("contents"); return false; }
		for (int x = -1; x < 9; x++)
			{
			int64_t at = h.find(x); bool in = std::find(model.begin(), model.end(), x) != model.end();
			if (in ? (at < 0 || at >= (int64_t)n || a[at] != x) : at != -1) { trouble("find"); return false; }
			}
		return true;
		};
	if (!check()) return;
	for (auto &o : ops)
		{
		if (o.first == 0)
			{
			auto least = std::min_element(model.begin(), model.end());
			*least = o.second; h.push_back(o.second);
			}
		else
			{
			// raise the element that now stands at a place
			size_t at = (o.first - 1) % n; int was = a[at], to = was + o.second;
			h.promote(to, at); *std::find(model.begin(), model.end(), was) = to;
			}
		if (!check()) return;
		}
	}
// the way the search engine uses it: keep the k best of a stream
static void heap_stream(size_t k, const std::vector<int> &stream)
	{
	vf::eval(); vf::step(stream.size());
	std::vector<int> a(stream.begin(), stream.begin() + k), rest(stream.begin() + k, stream.end());
	JASS::heap<int> h(a.data(), 0); h.set_top_k(k); h.make_heap();
	for (int x : rest) if (x > a[0]) h.push_back(x);
	std::vector<int> want(stream); std::sort(want.begin(), want.end(), std::greater<int>()); want.resize(k);
	if (!same(a, want)) vf::fail("heap:best", "heap: the best %zu of %s came out as %s", k, show(stream).c_str(), show(a).c_str());
	}
// ---- beap
static bool beap_order(const std::vector<int> &a, size_t n)
	{
	size_t row = 0, start = 0;
	for (size_t i = 0; i < n; i++)
		{
		if (i > start + row) { start += row + 1; row++; }
		size_t left = i + row + 1, right = left + 1;
		if ((left < n && a[left] < a[i]) || (right < n && a[right] < a[i])) return false;
		}
	return true;
	}
static void beap_case(const std::vector<int> &start, const std::vector<std::pair<int, int>> &ops, bool later_k)
	{
	vf::eval(); vf::step(ops.size() + 1);
	size_t n = start.size(); std::vector<int> a(start), model(start); a.push_back(-77);
	JASS::beap<int> b(a.data(), later_k ? 1 : n); if (later_k) b.set_top_k(n);
	b.make_beap();
	std::string done;
	auto trouble = [&](const char *what, int x) { vf::fail(std::string("beap:") + what, "beap of %s: wrong (%d) after %s: %s", show(start).c_str(), x, done.c_str(), show(a).c_str()); };
	auto check = [&](void)
		{
		std::vector<int> now(a.begin(), a.begin() + n);
		if (a[n] != -77) { trouble("outside", 0); return false; }
		if (!beap_order(now, n) || !b.isbeap()) { trouble("order", 0); return false; }
		if (!same(now, model)) { trouble("contents", 0); return false; }
		int low = *std::min_element(model.begin(), model.end()), high = *std::max_element(model.begin(), model.end());
		for (int x = low - 2; x <= high + 2; x++)
			{
			bool in = std::find(model.begin(), model.end(), x) != model.end();
			int64_t at = b.find(x);
			if (in ? (at < 0 || at >= (int64_t)n || a[at] != x) : at != -1) { trouble("find", x); return false; }
			}
		return true;
		};
	if (!check()) return;
	for (auto &o : ops)
		{
		done += "(" + std::to_string(o.first) + " " + std::to_string(o.second) + ")";
		if (o.first == 0)
			{
			auto least = std::min_element(model.begin(), model.end()); if (o.second < *least) continue;
			*least = o.second; int64_t at = b.replace_smallest_with(o.second);
			if (at < 0 || at >= (int64_t)n || a[at] != o.second) return trouble("place", o.second);
			}
		else if (o.first == 1)
			{
			// replace the i-th smallest value by another (perhaps the same, perhaps past others)
			std::vector<int> s(model); std::sort(s.begin(), s.end()); int was = s[(unsigned)(o.second >> 4) % n], to = was + (o.second & 15) - 8;
			*std::find(model.begin(), model.end(), was) = to;
			int64_t at = b.replace(was, to);
			if (at < 0 || at >= (int64_t)n || a[at] != to) return trouble("place", to);
			}
		else
			{
			// replace something that is not there
			int absent = *std::max_element(model.begin(), model.end()) + 1 + o.second; if (o.first == 3) absent = *std::min_element(model.begin(), model.end()) - 1 - o.second;
			std::vector<int> before(a);
			if (b.replace(absent, 3) != -1 || b.replace_with_larger(absent, 99) != -1 || b.replace_with_smaller(absent, -99) != -1 || a != before) return trouble("absent", absent);
			}
		if (!check()) return;
		}
	}
// ---- top_k_heap
struct thing { int value; bool operator<(const thing &o) const { return value < o.value; } bool operator>(const thing &o) const { return value > o.value; } bool operator==(const thing &o) const { return value == o.value; } };
static JASS::allocator_pool *pool;
// operations: 0..: push of that value; -1 look at the front; -2 sort
static void top_case(size_t k, const std::vector<int> &ops)
	{
	vf::eval(); vf::step(ops.size());
	JASS::top_k_heap<int> h(k, *pool); std::vector<int> model;
	auto trouble = [&](const char *what, size_t i, int x) { std::vector<int> now(h.begin(), h.end()); vf::fail(std::string("top_k_heap:") + what, "top_k_heap of %zu, operations %s (-1 front, -2 sort): at operation %zu %s gives %d; holds %s, should hold %s", k, show(ops).c_str(), i, what, x, show(now).c_str(), show(model).c_str()); };
	for (size_t i = 0; i < ops.size(); i++)
		{
		if (ops[i] >= 0)
			{
			h.push_back(ops[i]); model.push_back(ops[i]); std::sort(model.begin(), model.end(), std::greater<int>()); if (model.size() > k) model.resize(k);
			}
		else if (ops[i] == -1) { if (model.empty()) continue; int f = h.front(); if (f != model.back()) return trouble("front", i, f); }
		else { h.sort(); if (std::vector<int>(h.begin(), h.end()) != model) return trouble("sort", i, 0); }
		std::vector<int> now(h.begin(), h.end());
		if (!same(now, model) || h.size() != model.size() || h.capacity() != k) return trouble("contents", i, (int)h.size());
		}
	h.sort();
	if (std::vector<int>(h.begin(), h.end()) != model) trouble("sort", ops.size(), 0);
	}
// pointers to values that grow while they are in the heap.  op: (0, i) push element i; (1, i) raise element i; (2, 0) sort; (3, 0) front
static void promote_case(size_t k, const std::vector<std::pair<int, int>> &ops)
	{
	vf::eval(); vf::step(ops.size());
	static int values[8]; for (int i = 0; i < 8; i++) values[i] = 10 * (i + 1);
	JASS::top_k_heap<JASS::pointer_box<int>> h(k, *pool);
	std::vector<int> in; 		// elements in the heap, by number
	std::string done; bool pushed[8] = {};
	auto better = [&](int a, int b) { return values[a] != values[b] ? values[a] > values[b] : a > b; };
	auto trouble = [&](const char *what) { std::string now; for (auto &p : h) now += std::to_string(*p) + " "; std::string want; for (int i : in) want += std::to_string(values[i]) + " "; vf::fail(std::string("top_k_heap:promote ") + what, "top_k_heap of %zu pointers after %s: %s: holds %s, should hold %s", k, done.c_str(), what, now.c_str(), want.c_str()); };
	for (auto &o : ops)
		{
		if (o.first == 0) { if (pushed[o.second]) continue; pushed[o.second] = true; done += "push " + std::to_string(values[o.second]) + ", "; h.push_back(&values[o.second]); in.push_back(o.second); }
		else if (o.first == 1)
			{
			if (std::find(in.begin(), in.end(), o.second) == in.end()) continue;
			done += "raise " + std::to_string(values[o.second]) + " by 25, "; values[o.second] += 25; h.promote(&values[o.second]);
			}
		else if (o.first == 2) { done += "sort, "; h.sort(); }
		std::sort(in.begin(), in.end(), better); if (in.size() > k) in.resize(k);
		if (o.first == 3) { if (in.empty()) continue; done += "front, "; auto f = h.front(); if (f.pointer() != &values[in.back()]) return trouble("front"); }
		std::vector<int> now; for (auto &p : h) now.push_back((int)(p.pointer() - values));
		if (o.first == 2 && now != in) return trouble("sort");
		if (!same(now, in)) return trouble("contents");
		}
	done += "sort"; h.sort(); std::vector<int> now; for (auto &p : h) now.push_back((int)(p.pointer() - values));
	if (now != in) trouble("sort");
	}
// ---- partial sort
template <class T> static void sort_case(const std::vector<T> &v, size_t k)
	{
	vf::eval();
	std::unique_ptr<T[]> a(new T[v.size() ? v.size() : 1]); std::copy(v.begin(), v.end(), a.get());
	JASS::top_k_qsort::sort(a.get(), v.size(), k);
	std::vector<T> got(a.get(), a.get() + v.size()), want(v); std::sort(want.begin(), want.end());
	size_t top = std::min(k, v.size());
	if (!std::equal(want.begin(), want.begin() + top, got.begin())) vf::fail("partial sort:front", "partial sort of %zu elements %s, first %zu: %s", v.size(), show(v).c_str(), k, show(got).c_str());
	if (!same(got, want)) vf::fail("partial sort:permutation", "partial sort of %zu elements %s, first %zu: not a permutation: %s", v.size(), show(v).c_str(), k, show(got).c_str());
	}
template <class T> static void full_case(const std::vector<T> &v)
	{
	vf::eval();
	std::vector<T> want(v); std::sort(want.begin(), want.end());
	{ std::unique_ptr<T[]> a(new T[v.size() ? v.size() : 1]); std::copy(v.begin(), v.end(), a.get()); JASS::top_k_qsort::sort(a.get(), v.size()); if (!std::equal(want.begin(), want.end(), a.get())) vf::fail("sort", "sort of %zu elements %s", v.size(), show(v).c_str()); }
#ifdef __AVX512F__
	std::unique_ptr<uint64_t[]> a(new uint64_t[v.size() ? v.size() : 1]); std::copy(v.begin(), v.end(), a.get());
	Sort512_uint64_t::Sort(a.get(), v.size());
	if (!std::equal(want.begin(), want.end(), a.get())) vf::fail("Sort512", "AVX512 sort of %zu elements %s: %s", v.size(), show(v).c_str(), show(std::vector<uint64_t>(a.get(), a.get() + v.size())).c_str());
#endif
	}
static std::vector<std::vector<uint64_t>> patterns(size_t n)
	{
	std::vector<std::vector<uint64_t>> r;
	for (uint64_t modulus : {1, 2, 3, 5, 17, 100000})
		for (uint64_t m : {1, 7, 31, 1009})
			{
			std::vector<uint64_t> v; for (size_t i = 0; i < n; i++) v.push_back((i * m + 3) % modulus);
			r.push_back(v); std::reverse(v.begin(), v.end()); r.push_back(v);
			std::vector<uint64_t> organ; for (size_t i = 0; i < n; i++) organ.push_back(std::min(i, n - i) % modulus); r.push_back(organ);
			std::vector<uint64_t> wide; for (size_t i = 0; i < n; i++) wide.push_back((((i * m) % modulus) << 40) | (n - i)); r.push_back(wide);
			std::vector<uint64_t> big; for (size_t i = 0; i < n; i++) big.push_back(0x7FFFFFFFFFFFFFFFull - (i * m) % modulus); r.push_back(big);
			}
	return r;
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	JASS::allocator_pool the_pool(1 << 20); pool = &the_pool;
	// heap: every array of up to 7 values of 0..3, and operations
	for (size_t n = 1; n <= (T ? 8u : 7u); n++)
		for (int first = 0; first < 4; first++)
			{
			if (!vf::mine()) continue;
			vf::describe("heap: every array of %zu small values starting with %d, every 1 and 2 operations", n, first); vf::nontrivial(vf::described()); vf::sample(vf::described());
			std::vector<std::pair<int, int>> ops; for (int x = 0; x < 6; x++) ops.push_back({0, x}); for (int at = 1; at <= (int)n; at++) for (int up : {0, 1, 3}) ops.push_back({at, up});
			for (uint64_t w = 0; w < power(4, n - 1); w++)
				{
				std::vector<int> v{first}; for (uint64_t x = w; v.size() < n; x /= 4) v.push_back(x % 4);
				heap_case(v, {}); vf::tick();
				for (auto &o : ops) { heap_case(v, {o}); if (n <= (T ? 6u : 5u)) for (auto &p : ops) heap_case(v, {o, p}); }
				}
			}
	// heap and top_k_heap: the best k of every stream
	for (size_t length = 1; length <= (T ? 8u : 7u); length++)
		for (int first = 0; first < 5; first++)
			{
			if (!vf::mine()) continue;
			vf::describe("best k of every stream of %zu values of 0 to 4 starting with %d", length, first); vf::nontrivial(vf::described());
			for (uint64_t w = 0; w < power(5, length - 1); w++)
				{
				std::vector<int> v{first}; for (uint64_t x = w; v.size() < length; x /= 5) v.push_back(x % 5);
				if (w % 512 == 0) { vf::tick(); pool->rewind(); }
				for (size_t k = 1; k <= length; k++) heap_stream(k, v);
				for (size_t k = 1; k <= length + 1; k++) top_case(k, v);
				}
			}
	// top_k_heap: every sequence of pushes, looks and sorts
	for (size_t k = 1; k <= 4; k++)
		for (int first = -2; first < 4; first++)
			{
			if (!vf::mine()) continue;
			vf::describe("top_k_heap of %zu: every sequence of operations starting with %d", k, first); vf::nontrivial(vf::described()); vf::sample(vf::described());
			for (size_t length = 1; length <= (T ? 8u : 7u); length++)
				for (uint64_t w = 0; w < power(6, length - 1); w++)
					{
					std::vector<int> v{first}; for (uint64_t x = w; v.size() < length; x /= 6) v.push_back((int)(x % 6) - 2);
					if (w % 512 == 0) { vf::tick(); pool->rewind(); }
					top_case(k, v);
					}
			}
	for (size_t k = 1; k <= 4; k++)
		for (int first = 0; first < 10; first++)
			{
			if (!vf::mine()) continue;
			vf::describe("top_k_heap of %zu pointers: every sequence of operations starting with number %d", k, first); vf::nontrivial(vf::described());
			std::vector<std::pair<int, int>> ops; for (int i : {2, 0, 3, 1}) ops.push_back({0, i}); for (int i : {2, 0, 3, 1}) ops.push_back({1, i}); ops.push_back({2, 0}); ops.push_back({3, 0});
			for (size_t length = 1; length <= (T ? 7u : 6u); length++)
				for (uint64_t w = 0; w < power(10, length - 1); w++)
					{
					std::vector<std::pair<int, int>> v{ops[first]}; for (uint64_t x = w; v.size() < length; x /= 10) v.push_back(ops[x % 10]);
					if (w % 512 == 0) { vf::tick(); pool->rewind(); }
					promote_case(k, v);
					}
			}
	// beap
	for (size_t n = 1; n <= (T ? 15u : 12u); n++)
		for (int spread : {0, 1, 2, 3})
			for (bool later : {false, true})
				{
				if (!vf::mine()) continue;
				vf::describe("beap of %zu, values %d apart%s: every 1, 2 (and 3) operations", n, spread, later ? ", size set later" : ""); vf::nontrivial(vf::described());
				std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back((int)((i * 5) % n) * (spread == 3 ? 1 : spread) / (spread == 3 ? 2 : 1));
				std::vector<std::pair<int, int>> ops; for (int x = 0; x < 14; x += 2) ops.push_back({0, x}); for (int i = 0; i < (int)n; i++) for (int d : {0, 5, 7, 8, 9, 11, 15}) ops.push_back({1, i << 4 | d}); for (int x : {0, 5}) { ops.push_back({2, x}); ops.push_back({3, x}); }
				beap_case(v, {}, later);
				for (auto &a : ops) { beap_case(v, {a}, later); vf::tick(); for (auto &b : ops) { beap_case(v, {a, b}, later); if (n <= (T ? 7u : 4u)) for (auto &c : ops) beap_case(v, {a, b, c}, later); } }
				}
	// partial sort: every array of small values, every k
	for (size_t n = 0; n <= (T ? 9u : 8u); n++)
		{
		if (!vf::mine()) continue;
		vf::describe("partial sort: every array of %zu values of 0 to 3, every k", n); vf::nontrivial(vf::described());
		for (uint64_t w = 0; w < power(4, n); w++)
			{
			std::vector<int> v; for (uint64_t x = w; v.size() < n; x /= 4) v.push_back(x % 4);
			if (w % 256 == 0) vf::tick();
			for (size_t k = 0; k <= n + 1; k++) sort_case(v, k);
			full_case(std::vector<uint64_t>(v.begin(), v.end()));
			}
		}
	for (size_t n = 1; n <= (T ? 10u : 9u); n++)
		{
		if (!vf::mine()) continue;
		vf::describe("partial sort: every permutation of %zu values, every k", n); vf::nontrivial(vf::described());
		std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back((int)i);
		size_t count = 0;
		do { for (size_t k : {(size_t)1, n / 2, n - 1, n}) sort_case(v, k); if (count++ % 256 == 0) vf::tick(); full_case(std::vector<uint64_t>(v.begin(), v.end())); } while (std::next_permutation(v.begin(), v.end()));
		}
	std::vector<size_t> sizes; for (size_t n = 10; n <= (T ? 700u : 300u); n++) sizes.push_back(n); for (size_t n : {383, 384, 385, 511, 512, 513, 1000, 1024, 2049, 5000}) sizes.push_back(n);
	for (size_t n : sizes)
		{
		if (!vf::mine()) continue;
		vf::describe("partial sort: patterns of %zu values", n); vf::nontrivial(vf::described());
		for (auto &v : patterns(n))
			{
			vf::tick(); full_case(v);
			for (size_t k : {(size_t)0, (size_t)1, (size_t)2, (size_t)7, n / 3, n / 2, n - 1, n, n + 1}) sort_case(v, k);
			}
		}
	return vf::finish("heap: all arrays of up to 7 (8) values of 4, 1 or 2 operations; all streams of up to 7 (8) values of 5, every k; top_k_heap: all sequences of up to 7 (8) pushes, looks and sorts and 6 (7) with raised pointers, k to 4; beap: sizes to 12 (15), 1, 2 (3) operations; partial sort: all arrays of up to 8 (9) values of 4, all permutations of 9 (10), patterns up to 5000");
	}

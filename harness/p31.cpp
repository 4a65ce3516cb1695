// P31: arithmetic, ordering, vector, checksum and statistics primitives against their definitions.
#include "vf.h"
#include <math.h>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <vector>
#include <sstream>
#include <algorithm>
#include "asserts.h"
#include "simd.h"
#include "maths.h"
#include "slice.h"
#include "reverse.h"
#include "checksum.h"
#include "statistics.h"
#include "pointer_box.h"
#include "hash_pearson.h"
#include "string_cpp.h"
#include "allocator_pool.h"
#include "allocator_memory.h"
using namespace JASS;
typedef unsigned __int128 wide;
static unsigned bits(uint64_t x) { unsigned n = 0; while (x) { n++; x >>= 1; } return n; }
template <class T> static void logs(T x)
	{
	if (x && maths::floor_log2(x) != (T)(bits(x) - 1)) vf::fail("floor_log2", "floor_log2(%llu) of %zu bits is %llu, should be %u", (unsigned long long)x, sizeof(T) * 8, (unsigned long long)maths::floor_log2(x), bits(x) - 1);
	if (maths::ceiling_log2(x) != (T)bits(x)) vf::fail("ceiling_log2", "%llu of %zu bits needs %u bits, ceiling_log2 says %llu", (unsigned long long)x, sizeof(T) * 8, bits(x), (unsigned long long)maths::ceiling_log2(x));
	vf::eval(2);
	}
static void first_bit(uint64_t x)
	{
	auto want = [](uint64_t v) { unsigned n = 0; if (!v) return 0u; while (!(v >> n & 1)) n++; return n; };
	if (maths::find_first_set_bit((uint32_t)x) != want((uint32_t)x)) vf::fail("first32", "the first bit of the 32-bit %08x is %u, should be %u", (uint32_t)x, maths::find_first_set_bit((uint32_t)x), want((uint32_t)x));
	if (maths::find_first_set_bit((uint64_t)x) != want(x)) vf::fail("first64", "the first bit of the 64-bit %016llx is %u, should be %u", (unsigned long long)x, maths::find_first_set_bit((uint64_t)x), want(x));
	vf::eval(2);
	}
template <class T> static void root(T n)
	{
	T r = maths::sqrt_compiletime(n);
	if ((wide)r * r > n || (wide)(r + 1) * ((wide)r + 1) <= n) vf::fail("sqrt", "the integer square root of %llu (%zu bits) is given as %llu", (unsigned long long)n, sizeof(T) * 8, (unsigned long long)r);
	vf::eval();
	}
struct tagged { int v, tag; bool operator>=(const tagged &o) const { return v >= o.v; } bool operator<=(const tagged &o) const { return v <= o.v; } bool operator>(const tagged &o) const { return v > o.v; } bool operator<(const tagged &o) const { return v < o.v; } };
static std::string blob(const std::string &s) { return vf::hex(s.data(), s.size()); }
static long double t_upper(long double t, unsigned nu)		// the chance that Student's t with nu degrees of freedom is above t (t >= 0), by Simpson's rule in the angle
	{
	// t = sqrt(nu) tan(a): the density becomes c cos(a)^(nu-1)
	long double a = atanl(t / sqrtl(nu)), pi = acosl(-1.0L); const int N = 4000;
	auto area = [&](long double lo, long double hi) { long double s = 0, h = (hi - lo) / N; for (int i = 0; i <= N; i++) s += (i == 0 || i == N ? 1 : i & 1 ? 4 : 2) * powl(cosl(lo + i * h), nu - 1); return s * h / 3; };
	return area(a, pi / 2) / (2 * area(0, pi / 2));
	}
static bool near(double got, long double want, long double within) { return fabsl(got - want) <= within; }
static std::vector<double> ranks(const std::vector<double> &v) { std::vector<double> r; for (double x : v) { double less = 0, same = 0; for (double y : v) { if (y < x) less++; if (y == x) same++; } r.push_back(less + (same + 1) / 2); } return r; }
static long double correlation(const std::vector<double> &x, const std::vector<double> &y)
	{
	long double mx = 0, my = 0, sx = 0, sy = 0, sxy = 0; size_t n = x.size(); for (size_t i = 0; i < n; i++) { mx += x[i]; my += y[i]; } mx /= n; my /= n;
	for (size_t i = 0; i < n; i++) { sx += (x[i] - mx) * (x[i] - mx); sy += (y[i] - my) * (y[i] - my); sxy += (x[i] - mx) * (y[i] - my); }
	return sx == 0 || sy == 0 ? NAN : sxy / sqrtl(sx * sy);
	}
static std::string show(const std::vector<double> &v) { std::string s; char b[32]; for (double x : v) { snprintf(b, 32, "%g ", x); s += b; } return s; }
static uint16_t fletcher(const std::string &s) { unsigned a = 0, b = 0; for (unsigned char c : s) { a = (a + c) % 255; b = (b + a) % 255; } return b << 8 | a; }
static void check_sum(const std::string &s, bool file)
	{
	uint16_t want = fletcher(s); vf::eval(3);
	if (checksum::fletcher_16(s.data(), s.size()) != want) vf::fail("checksum:memory", "%s", blob(s).c_str());
	if (checksum::fletcher_16(s) != want) vf::fail("checksum:string", "%s", blob(s).c_str());
	std::istringstream in(s); auto before = in.flags();
	if (checksum::fletcher_16(in) != want) vf::fail("checksum:stream", "%s", blob(s).c_str());
	if (in.flags() != before) vf::fail("checksum:flags", "the stream's flags are changed");
	if (file) { char n[] = "/tmp/p31XXXXXX"; int fd = mkstemp(n); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort(); close(fd); uint16_t got = checksum::fletcher_16_file(n); unlink(n); if (got != want) vf::fail("checksum:file", "%zu bytes", s.size()); }
	}
template <class T> static void vectors(const char *name)
	{
	const size_t N = 300; static T array[N + 64], copy[N + 64]; const size_t step[] = {0, 1, 2, 3, 7, 16, 17};
	for (size_t s : step) for (size_t start : {0, 1, 5, 150, 185})
		for (int way = 0; way < 3; way++)
			{
			if (s == 0 && way != 1) continue;
			alignas(64) uint32_t index[16], value[16], out[16];
			for (int i = 0; i < 16; i++) { index[i] = start + (way == 2 ? 15 - i : i) * s; if (way == 1) index[i] = (start + (i * 11 % 16) * (s ? s : 1)) % N; value[i] = 0x01020304u * (i + 1) + (i % 3 ? 0xFFFF00FFu : 0); if (index[i] >= N) index[i] %= N; }
			std::set<uint32_t> distinct(index, index + 16);
			for (size_t i = 0; i < N + 64; i++) array[i] = (T)(i * 2654435761u >> 3);
			memcpy(copy, array, sizeof array); vf::eval(2); vf::step(2);
			_mm256_storeu_si256((__m256i *)out, simd::gather(array, _mm256_loadu_si256((__m256i *)index)));
			for (int i = 0; i < 8; i++) if (out[i] != array[index[i]]) vf::fail("gather", "%s, 8 at once: element %d (index %u) is %u, should be %u", name, i, index[i], out[i], (unsigned)array[index[i]]);
			if (memcmp(copy, array, sizeof array)) vf::fail("gather", "%s: the array is changed", name);
#ifdef __AVX512F__
			_mm512_storeu_si512(out, simd::gather(array, _mm512_loadu_si512(index)));
			for (int i = 0; i < 16; i++) if (out[i] != array[index[i]]) vf::fail("gather", "%s, 16 at once: element %d (index %u) is %u, should be %u", name, i, index[i], out[i], (unsigned)array[index[i]]);
#endif
			if (distinct.size() != 16) continue;
			for (int count : {4, 8, 16})
				{
				memcpy(array, copy, sizeof array); static T want[N + 64]; memcpy(want, copy, sizeof copy); for (int i = 0; i < count; i++) want[index[i]] = (T)value[i];
				if (count == 4) simd::scatter(array, _mm_loadu_si128((__m128i *)index), _mm_loadu_si128((__m128i *)value));
				if (count == 8) simd::scatter(array, _mm256_loadu_si256((__m256i *)index), _mm256_loadu_si256((__m256i *)value));
#ifdef __AVX512F__
				if (count == 16) simd::scatter(array, _mm512_loadu_si512(index), _mm512_loadu_si512(value));
#else
				if (count == 16) continue;
#endif
				vf::eval(); vf::step();
				for (size_t i = 0; i < N + 64; i++) if (array[i] != want[i]) { vf::fail("scatter", "%s, %d at once, from %u by %zu: element %zu is %u, should be %u", name, count, index[0], s, i, (unsigned)array[i], (unsigned)want[i]); break; }
				}
			}
	}
static void sums(const std::vector<uint32_t> &v)			// at least 16 integers
	{
	alignas(64) uint32_t out[16]; uint32_t want[16], t = 0; for (int i = 0; i < 16; i++) want[i] = t += v[i];
	vf::eval(); vf::step();
	_mm256_storeu_si256((__m256i *)out, simd::cumulative_sum(_mm256_loadu_si256((__m256i *)v.data())));
	if (memcmp(out, want, 32)) vf::fail("cumulative8", "of %s", vf::hex(v.data(), 32).c_str());
#ifdef __AVX512F__
	_mm512_storeu_si512(out, simd::cumulative_sum(_mm512_loadu_si512(v.data())));
	if (memcmp(out, want, 64)) vf::fail("cumulative16", "of %s", vf::hex(v.data(), 64).c_str());
	_mm512_storeu_si512(out, simd::popcount(_mm512_loadu_si512(v.data())));
	for (int i = 0; i < 16; i++) if (out[i] != (uint32_t)__builtin_popcount(v[i])) vf::fail("popcount", "of %08x is %u", v[i], out[i]);
#endif
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv); const bool T = vf::thorough();
	// logarithms, first bits, roots
	for (uint64_t block = 0; block < (T ? 4096 : 256); block++)
		{
		if (!vf::mine()) continue;
		vf::describe("integers from %llu million", (unsigned long long)block); vf::nontrivial("block " + std::to_string(block)); vf::sample(vf::described());
		for (uint64_t i = block << 20; i < (block + 1) << 20; i += T ? 1 : 1 + (block > 31) * 16)
			{
			logs((uint32_t)i); logs(i); logs(i << 17 | 5); first_bit(i); first_bit(i << 31); first_bit(~i); if (i < 256) logs((uint8_t)i); if (i < 65536) logs((uint16_t)i);
			}
		vf::tick();
		}
	for (unsigned b = 0; b < 64; b++)
		{
		if (!vf::mine()) continue;
		vf::describe("around 2^%u", b); vf::nontrivial(vf::described());
		for (int d = -300; d <= 300; d++) { uint64_t x = (1ull << b) + d; logs(x); if (b < 32) logs((uint32_t)x); first_bit(x); root(x); if (b < 32 && x < (1ull << 32)) root((uint32_t)x); if (x < 1ull << 31) root((int)x); }
		for (unsigned c = 0; c <= b; c++) { uint64_t x = 1ull << b | 1ull << c; first_bit(x); logs(x); first_bit(~0ull << c & (~0ull >> (63 - b))); first_bit((~0ull << b) | 1ull << c); }
		for (uint64_t r = 1ull << (b / 2), k = 0; k < 3000; k++) for (int d = -1; d <= 1; d++) { wide w = (wide)(r + k) * (r + k); if (w < ((wide)1 << 64) - 2) root((uint64_t)w + d); }
		}
	if (vf::mine())
		{
		vf::describe("roots and extremes"); vf::nontrivial(vf::described());
		for (uint32_t i = 0; i < 2000000; i++) { root(i); } vf::tick();
		for (int c = 0; c < 64; c++)
			{
			tagged v[3]; for (int i = 0; i < 3; i++) v[i] = {c >> (2 * i) & 3, i}; vf::eval(4);
			auto best = [&](int n, int sign) { int w = 0; for (int i = 1; i < n; i++) if (v[i].v * sign > v[w].v * sign) w = i; return &v[w]; };
			if (&maths::maximum(v[0], v[1]) != best(2, 1)) vf::fail("maximum", "of %d and %d", v[0].v, v[1].v);
			if (&maths::minimum(v[0], v[1]) != best(2, -1)) vf::fail("minimum", "of %d and %d", v[0].v, v[1].v);
			if (&maths::maximum(v[0], v[1], v[2]) != best(3, 1)) vf::fail("maximum", "of %d, %d and %d", v[0].v, v[1].v, v[2].v);
			if (&maths::minimum(v[0], v[1], v[2]) != best(3, -1)) vf::fail("minimum", "of %d, %d and %d", v[0].v, v[1].v, v[2].v);
			}
		}
	// byte strings: order and equality, hashes, checksums
	std::vector<std::string> strings = {""}; const std::string letters("\x00\x01 a\x7F\x80\xFF", 7);
	for (size_t from = 0, length = 1; length <= (size_t)vf::q(3, 4); length++) { size_t to = strings.size(); for (; from < to; from++) for (char c : letters) strings.push_back(strings[from] + c); }
	for (size_t n : {7, 8, 9, 15, 16, 17, 31, 33, 64, 255, 256, 300}) for (char c : {'a', '\x00', '\xFF'}) { strings.push_back(std::string(n, 'a')); strings.back().back() = c; strings.push_back(std::string(n, 'a')); strings.back()[0] = c; }
	for (size_t chunk = 0; chunk < strings.size(); chunk += 8)
		{
		if (!vf::mine()) continue;
		vf::describe("order of strings from number %zu", chunk); vf::nontrivial(vf::described());
		for (size_t i = chunk; i < std::min(chunk + 8, strings.size()); i++)
			for (auto &b : strings)
				{
				auto &a = strings[i]; std::string spare = b; slice x((void *)a.data(), a.size()), y((void *)spare.data(), spare.size()); vf::eval(4);
				int lexical = a < b ? -1 : a > b ? 1 : 0; if (lexical) { size_t n = std::min(a.size(), b.size()); int c = memcmp(a.data(), b.data(), n); lexical = c ? c : a.size() < b.size() ? -1 : 1; }
				int order = a.size() != b.size() ? (a.size() < b.size() ? -1 : 1) : memcmp(a.data(), b.data(), a.size());
				if ((x < y) != (order < 0)) vf::fail("slice<", "%s and %s", blob(a).c_str(), blob(b).c_str());
				if ((x > y) != (order > 0)) vf::fail("slice>", "%s and %s", blob(a).c_str(), blob(b).c_str());
				if ((x == y) != (a == b)) vf::fail("slice==", "%s and %s", blob(a).c_str(), blob(b).c_str());
				if (slice::strict_weak_order_less_than(x, y) != (lexical < 0)) vf::fail("slice order", "%s and %s", blob(a).c_str(), blob(b).c_str());
				if (a == b && (hash_pearson::hash<8>(x) != hash_pearson::hash<8>(y) || hash_pearson::hash<16>(x) != hash_pearson::hash<16>(y) || hash_pearson::hash<24>(x) != hash_pearson::hash<24>(y) || hash_pearson::hash<32>(x) != hash_pearson::hash<32>(y))) vf::fail("hash", "two copies of %s differ", blob(a).c_str());
				}
		}
	for (int way = 0; way < 2; way++)
		{
		if (!vf::mine()) continue;
		vf::describe("copies of strings in %s", way ? "a fixed block" : "a pool"); vf::nontrivial(vf::described());
		static char block[4000000]; allocator_pool pool(4096); allocator_memory fixed(block, sizeof block); allocator &m = way ? (allocator &)fixed : (allocator &)pool;
		std::vector<std::pair<slice, std::string>> kept;
		for (auto &s : strings)
			{
			char *b = (char *)s.data(), *e = b + s.size(); const std::string c = s.c_str(); vf::eval(6);
			std::vector<slice> made = {slice(m, (void *)b, (void *)e), slice(m, (const char *)b, (const char *)e), slice(m, (const unsigned char *)b, (const unsigned char *)e), slice(m, slice(b, s.size()))};
			for (int k : {1, 2}) if (((char *)made[k].address())[s.size()]) vf::fail("slice copy", "no NUL after %s", blob(s).c_str());
			for (auto &x : made) kept.push_back({x, s});
			slice z(m, s.c_str()), u(m, (const unsigned char *)s.c_str()), room(m, s.size()); kept.push_back({z, c}); kept.push_back({u, c}); if (((char *)z.address())[c.size()] || ((char *)u.address())[c.size()]) vf::fail("slice copy", "no NUL after %s", blob(c).c_str());
			if (room.size() != s.size()) vf::fail("slice room", "%zu bytes asked for, %zu given", s.size(), room.size());
			if (s.size()) memcpy(room.address(), s.data(), s.size());
			kept.push_back({room, s}); if (slice(s.c_str()).size() != c.size()) vf::fail("slice text", "%s", blob(s).c_str());
			slice r = room; r.resize(s.size() / 2); if (r.size() != s.size() / 2 || r.address() != room.address()) vf::fail("slice resize", "%s", blob(s).c_str());
			for (size_t i = 0; i < s.size(); i++) if (room[i] != (uint8_t)s[i]) vf::fail("slice[]", "%s", blob(s).c_str());
			}
		for (auto &[x, s] : kept) if (x.size() != s.size() || (s.size() && memcmp(x.address(), s.data(), s.size()))) { vf::fail("slice copy", "%s", blob(s).c_str()); break; }
		}
	if (vf::mine())
		{
		vf::describe("hashes"); vf::nontrivial(vf::described());
		std::vector<std::string> more = strings; for (int a = 0; a < 256; a++) { more.push_back(std::string(1, (char)a)); for (int b = 0; b < 256; b++) more.push_back(std::string(1, (char)a) + (char)b); }
		for (auto &s : more)
			{
			size_t h8 = hash_pearson::hash<8>(s.data(), s.size()), h16 = hash_pearson::hash<16>(s.data(), s.size()), h24 = hash_pearson::hash<24>(s.data(), s.size()), h32 = hash_pearson::hash<32>(s.data(), s.size()); vf::eval(8);
			if (h8 > 0xFF || h16 > 0xFFFF || h24 > 0xFFFFFF || h32 > 0xFFFFFFFF) vf::fail("hash range", "%s: %zx %zx %zx %zx", blob(s).c_str(), h8, h16, h24, h32);
			slice x((void *)s.data(), s.size()); if (hash_pearson::hash<8>(x) != h8 || hash_pearson::hash<16>(x) != h16 || hash_pearson::hash<24>(x) != h24 || hash_pearson::hash<32>(x) != h32) vf::fail("hash slice", "%s", blob(s).c_str());
			// a different byte anywhere gives a different hash
			if (s.size() && s.size() <= 3) { std::set<size_t> seen8, seen16, seen24, seen32; for (size_t at = 0; at < s.size(); at++) { seen8.clear(); seen16.clear(); seen24.clear(); seen32.clear(); for (int c = 0; c < 256; c += s.size() > 1 ? 51 : 1) { auto t = s; t[at] = (char)c; seen8.insert(hash_pearson::hash<8>(t.data(), t.size())); seen16.insert(hash_pearson::hash<16>(t.data(), t.size())); seen24.insert(hash_pearson::hash<24>(t.data(), t.size())); seen32.insert(hash_pearson::hash<32>(t.data(), t.size())); } size_t want = s.size() > 1 ? 6 : 256; if (seen8.size() != want || seen16.size() != want || seen24.size() != want || seen32.size() != want) vf::fail("hash collision", "strings that differ from %s in byte %zu only", blob(s).c_str(), at); } }
			}
		}
	for (size_t chunk = 0; chunk < strings.size(); chunk += 64)
		{
		if (!vf::mine()) continue;
		vf::describe("checksums of strings from number %zu", chunk); vf::nontrivial(vf::described());
		for (size_t i = chunk; i < std::min(chunk + 64, strings.size()); i++) check_sum(strings[i], i % 7 == 0);
		}
	for (size_t n : {254, 255, 256, 257, 511, 5801, 5802, 65535, 65536, 70000})
		{
		if (!vf::mine()) continue;
		vf::describe("checksums of %zu bytes", n); vf::nontrivial(vf::described());
		for (int c = 0; c < 256; c += n > 1000 ? 5 : 1) check_sum(std::string(n, (char)c), c % 51 == 0);
		std::string s; for (size_t i = 0; i < n; i++) s += (char)(i * 31 + i / 256); check_sum(s, true); for (int c = 0; c < 256; c++) check_sum(std::string(1, (char)c) + std::string(1, (char)(255 - c)), false);
		}
	// reversal, pooled strings, boxes
	if (vf::mine())
		{
		vf::describe("reversal and boxes"); vf::nontrivial(vf::described());
		for (size_t n = 0; n < 12; n++) { std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back((int)i * 7); std::list<int> l(v.begin(), v.end()); std::deque<int> d(v.begin(), v.end()); std::map<int, int> mp; for (int x : v) mp[x] = 1; std::vector<int> a, b, c, e, want(v.rbegin(), v.rend()); for (int x : reverse(v)) a.push_back(x); for (int x : reverse(l)) b.push_back(x); for (int x : reverse(d)) c.push_back(x); for (auto &x : reverse(mp)) e.push_back(x.first); vf::eval(4); if (a != want || b != want || c != want || e != want) vf::fail("reverse", "%zu elements", n); }
		int v[6]; for (int c = 0; c < 729 * 8; c++) { int x = c; for (int &i : v) { i = x % 3; x /= 3; } for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { pointer_box<int> a(&v[i]), b(&v[j]); auto k = [&](int i) { return std::make_pair(v[i], i); }; vf::eval(6); if ((a < b) != (k(i) < k(j)) || (a > b) != (k(i) > k(j)) || (a <= b) != (k(i) <= k(j)) || (a >= b) != (k(i) >= k(j)) || (a == b) != (i == j) || (a != b) != (i != j) || (a.compare(b) < 0) != (k(i) < k(j)) || (a.compare(b) > 0) != (k(i) > k(j))) vf::fail("pointer_box", "elements %d and %d of %d %d %d %d %d %d", i, j, v[0], v[1], v[2], v[3], v[4], v[5]); } }
		}
	for (int c = 0; c < 8; c++)
		{
		if (!vf::mine()) continue;
		vf::describe("strings in a pool, first operation %d", c); vf::nontrivial(vf::described());
		for (int seq = 0; seq < 8 * 8 * 8 * 8; seq++)
			{
			allocator_pool pool(1024); allocator_cpp<char> al(pool); JASS::string s(al), other("other", al); std::string m, mo = "other"; int x = seq * 8 + c;
			for (int k = 0; k < 5; k++, x /= 8)
				{
				switch (x % 8) { case 0: s += "ab"; m += "ab"; break; case 1: s.append(200, 'x'); m.append(200, 'x'); break; case 2: s.resize(s.size() / 2); m.resize(m.size() / 2); break; case 3: s.insert(0, "q"); m.insert(0, "q"); break; case 4: s.clear(); m.clear(); break; case 5: other = s; mo = m; break; case 6: std::swap(s, other); std::swap(m, mo); break; case 7: s.reserve(s.size() + 40); s += other; m += mo; break; }
				vf::eval(); vf::step();
				if (s.size() != m.size() || memcmp(s.data(), m.data(), m.size()) || s.c_str()[m.size()] || memcmp(other.data(), mo.data(), mo.size()) || other.size() != mo.size()) { vf::fail("pool string", "sequence %d, step %d: '%s', should be '%s'", seq, k, vf::esc(std::string(s.c_str())).c_str(), vf::esc(m).c_str()); break; }
				}
			}
		}
	// vectors of integers
	if (vf::mine()) { vf::describe("gather and scatter"); vf::nontrivial(vf::described()); vectors<uint8_t>("8-bit"); vectors<uint16_t>("16-bit"); vectors<uint32_t>("32-bit"); }
	for (uint32_t part = 0; part < 16; part++)
		{
		if (!vf::mine()) continue;
		vf::describe("running sums, part %u", part); vf::nontrivial(vf::described());
		for (uint32_t c = part << 12; c < (part + 1) << 12; c++) for (uint32_t unit : {1u, 0x10001u, 0x80000000u, 0xFFFFFFFFu}) { std::vector<uint32_t> v(16); for (int i = 0; i < 16; i++) v[i] = c >> i & 1 ? unit + i * (unit & 1) : 0; sums(v); }
		for (size_t n = part; n <= 300; n += 16)
			{
			std::vector<uint32_t> v(n + 64), want; uint32_t t = 0; for (size_t i = 0; i < v.size(); i++) v[i] = (uint32_t)(i * 2654435761u) >> (n % 32); for (size_t i = 0; i < n; i++) want.push_back(t += v[i]);
			auto a = v; simd::cumulative_sum_256(a.data(), n); vf::eval(); vf::step(); if (memcmp(a.data(), want.data(), n * 4)) vf::fail("cumulative_sum_256", "%zu integers", n);
#ifdef __AVX512F__
			a = v; simd::cumulative_sum_512(a.data(), n); if (memcmp(a.data(), want.data(), n * 4)) vf::fail("cumulative_sum_512", "%zu integers", n);
#endif
			}
		}
	// statistics
	const size_t most = vf::q(4, 5);
	for (size_t n = 1; n <= most; n++)
		{
		size_t total = 1; for (size_t i = 0; i < n; i++) total *= 4;
		for (size_t chunk = 0; chunk < total; chunk += 16)
			{
			if (!vf::mine()) continue;
			vf::describe("pairs of %zu samples from %zu", n, chunk); vf::nontrivial(vf::described());
			const double V[] = {0, 1, 2.5, -4};
			for (size_t c = chunk; c < std::min(total, chunk + 16); c++)
				{
				std::vector<double> x, y(n); for (size_t i = 0, v = c; i < n; i++, v /= 4) x.push_back(V[v % 4]);
				std::vector<double> r; statistics::value_to_fractional_rank(r, x); vf::eval(); if (r != ranks(x)) vf::fail("ranks", "of %s: %s", show(x).c_str(), show(r).c_str());
				for (size_t e = 0; e < total; e++)
					{
					for (size_t i = 0, v = e; i < n; i++, v /= 4) y[i] = V[v % 4];
					long double p = correlation(x, y), s = correlation(ranks(x), ranks(y)); vf::eval(4);
					if (!isnan((double)p) && !near(statistics::pearson_correlation(x, y), p, 1e-9)) vf::fail("pearson", "of %s and %s: %g, should be %Lg", show(x).c_str(), show(y).c_str(), statistics::pearson_correlation(x, y), p);
					if (!isnan((double)s) && !near(statistics::spearman_correlation(x, y), s, 1e-9)) vf::fail("spearman", "of %s and %s: %g, should be %Lg", show(x).c_str(), show(y).c_str(), statistics::spearman_correlation(x, y), s);
					long double mean = 0, var = 0; for (size_t i = 0; i < n; i++) mean += x[i] - y[i]; mean /= n; for (size_t i = 0; i < n; i++) var += (x[i] - y[i] - mean) * (x[i] - y[i] - mean);
					if (n > 1 && var > 1e-12)
						{
						static std::map<std::pair<long double, size_t>, long double> known; long double t = fabsl(mean / sqrtl(var / (n - 1) / n)); auto at = known.find({t, n}); if (at == known.end()) at = known.emplace(std::make_pair(t, n), t_upper(t, n - 1)).first;
						double one = statistics::ttest_paired(x, y, statistics::ONE_TAILED), two = statistics::ttest_paired(x, y, statistics::TWO_TAILED);
						if (!near(one, at->second, 1e-7) || !near(two, 2 * at->second, 1e-7)) vf::fail("ttest", "%s and %s: p is %.9g and %.9g, should be %.9Lg and %.9Lg", show(x).c_str(), show(y).c_str(), one, two, at->second, 2 * at->second);
						}
					}
				}
			}
		}
	for (size_t n : {6, 7, 10, 11, 12, 13, 30, 31, 100, 101, 999, 1000, 1001, 1002, 1500, 3000})
		{
		if (!vf::mine()) continue;
		vf::describe("paired tests of %zu samples", n); vf::nontrivial(vf::described());
		for (double shift : {0.0, 0.001, 0.02, 0.1, 0.5, 1.0, 3.0, -0.02, -1.0})
			{
			std::vector<double> x, y; long double mean = 0, var = 0; for (size_t i = 0; i < n; i++) { x.push_back((i * 37 % 101) / 101.0 + shift * 10 / sqrt(n)); y.push_back((i * 59 % 103) / 103.0); mean += x[i] - y[i]; } mean /= n; for (size_t i = 0; i < n; i++) var += (x[i] - y[i] - mean) * (x[i] - y[i] - mean);
			long double want = t_upper(fabsl(mean / sqrtl(var / (n - 1) / n)), n - 1); vf::eval(2);
			double one = statistics::ttest_paired(x, y, statistics::ONE_TAILED), two = statistics::ttest_paired(x, y, statistics::TWO_TAILED);
			if (!near(one, want, 3e-7) || !near(two, 2 * want, 6e-7)) vf::fail("ttest", "%zu samples, shifted by %g: p is %.9g and %.9g, should be %.9Lg and %.9Lg", n, shift, one, two, want, 2 * want);
			std::vector<double> r; statistics::value_to_fractional_rank(r, x); if (n < 500 && r != ranks(x)) vf::fail("ranks", "of %zu samples", n);
			if (!near(statistics::pearson_correlation(x, y), correlation(x, y), 1e-7)) vf::fail("pearson", "%zu samples", n);
			}
		}
	return vf::finish(T ? "all 32-bit integers and 64-bit ones around powers and with two bits; strings of up to 4 of 7 bytes in pairs; all pairs of up to 5 samples of 4 values" : "integers to 2^25 (every 17th to 2^28), 64-bit ones around powers and with two bits; strings of up to 3 of 7 bytes in pairs; every choice of 16 lanes; all pairs of up to 4 samples of 4 values, up to 3000 samples");
	}

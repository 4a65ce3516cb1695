// P08: every integer codec decodes exactly what it encoded, over exhaustively enumerated families of sequences.
#include "vf.h"
#include "codec_list.h"

static uint8_t *enc, *src2; static uint32_t *dec;
static const size_t MAXN = 20000, ENC = MAXN * 16 + 8192;

static void one(const seq &s)
	{
	vf::eval(); 
	const size_t n = s.size();
	memset(enc, 0xA5, n * 4 + 64);
	size_t got = C->encode(enc, ENC, s.data(), n);
	if (got == 0)
		{
		uint64_t lim = limit_of();
		for (uint32_t v : s)
			if (v >= lim) { vf::step(); return; }			// refused, as documented
		vf::fail("refused:" + CN, "%s refused %zu integers all within its domain: %s", CN.c_str(), n, vf::hex(s.data(), n * 4).c_str());
		return;
		}
	vf::step(n);
	if (got > ENC) { vf::fail("size:" + CN, "reported %zu bytes", got); return; }
	memset(src2, 0x5A, got + 256);
	memcpy(src2, enc, got);
	uint32_t guard = 0xDEADBEEF;
	std::fill(dec, dec + n + 16, guard);
	C->decode(dec, n, src2, got);
	if (memcmp(dec, s.data(), n * 4))
		{
		size_t i = 0; while (dec[i] == s[i]) i++;
		std::string d;
		for (size_t k = i > 3 ? i - 3 : 0; k < n && k < i + 6; k++) d += " " + std::to_string(s[k]) + "->" + std::to_string(dec[k]);
		vf::fail("differs:" + CN, "%s: %zu integers, first difference at %zu:%s", CN.c_str(), n, i, d.c_str());
		}
	}


static void tiny(unsigned lo, unsigned hi, unsigned len, unsigned first)		// every sequence of len over a 6-letter alphabet
	{
	uint32_t a[] = {1, 2, wide(lo), (uint32_t)(wide(lo) + 1ull), wide(hi), 0};
	const int letters = no_zero() ? 5 : 6;
	if (no_zero()) for (auto &x : a) if (x == 0) x = 1;
	if (limit_of() < (1ull << 32)) for (auto &x : a) if (x >= limit_of()) x = limit_of() - 1;
	seq s(len);
	size_t total = 1; for (unsigned i = 0; i < len; i++) total *= letters;
	for (size_t v = 0; v < total; v++)
		{
		size_t x = v; for (unsigned i = 0; i < len; i++) { s[i] = a[x % letters]; x /= letters; }
		if (s[0] != a[first % letters]) continue;
		one(s);
		}
	}

int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	auto all = codec_names();
	enc = (uint8_t *)aligned_alloc(64, ENC + 8192); src2 = (uint8_t *)aligned_alloc(64, ENC + 8192); dec = (uint32_t *)aligned_alloc(64, (MAXN + 4096) * 4);
	// bit widths that straddle the codecs' selector boundaries
	const std::vector<unsigned> W = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 25, 26, 27, 28, 29, 30, 31, 32};
	const bool T = vf::thorough();
	for (size_t ci = 0; ci < all.size(); ci++)
		{
		CN = all[ci];
		std::unique_ptr<JASS::compress_integer> mine;
		auto get = [&] { if (!mine) mine = make_codec(ci); C = mine.get(); };
		const bool slow = has("Optimal") || has("slow") || has("Relative") || has("Carry");
		// 1. one width, every length
		for (unsigned w : W)
			{
			if (!vf::mine()) continue;
			get(); vf::describe("%s: runs of %u-bit values, every length", CN.c_str(), w); vf::nontrivial(vf::described());
			for (size_t n = 1; n <= (T ? 2100 : 530); n++) { seq s(n, cap(wide(w))); one(s); }
			for (size_t n : {1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383, 16384, 16385}) { seq s(n, cap(wide(w))); one(s); }
			}
		// 2. two adjacent runs (i of one width, then j of another)
		const std::vector<size_t> J = {1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 15, 16, 17, 18, 24, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257};
		const std::vector<unsigned> W2 = T ? W : std::vector<unsigned>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 20, 21, 24, 27, 28, 29, 32};
		for (unsigned a : W2)
			{
			if (!vf::mine()) continue;
			get(); vf::describe("%s: i values of %u bits then j of another width", CN.c_str(), a); vf::nontrivial(vf::described());
			for (unsigned b : W2) if (a != b)
				for (size_t i : J)
					for (size_t j : J)
						{
						if (!T && slow && (i > 66 || j > 66)) continue;
						seq s(i + j, cap(wide(a))); for (size_t k = i; k < i + j; k++) s[k] = cap(wide(b));
						one(s);
						}
			vf::tick();
			}
		// 3. one exceptional value at every position
		for (size_t n : (T ? std::vector<size_t>{17, 33, 61, 65, 120, 129, 240, 241, 256, 257, 260, 512, 513, 600} : std::vector<size_t>{17, 61, 129, 257, 260}))
			{
			if (!vf::mine()) continue;
			get(); vf::describe("%s: one exceptional value at each position of %zu", CN.c_str(), n); vf::nontrivial(vf::described());
			for (unsigned a : {0u, 1u, 2u, 3u, 4u, 5u, 7u, 8u, 9u, 14u, 16u})
				for (unsigned b : {1u, 2u, 3u, 4u, 5u, 7u, 8u, 9u, 10u, 12u, 15u, 16u, 17u, 21u, 22u, 28u, 32u}) if (b > a)
					for (size_t p = 0; p < n; p++)
						{ seq s(n, cap(wide(a))); s[p] = cap(wide(b)); one(s); }
			}
		// 4. every short sequence over a boundary alphabet
		for (unsigned len = 1; len <= (T ? 7u : 5u); len++)
			for (unsigned k = 0; k < 6; k++)
				{
				if (!vf::mine()) continue;
				get(); vf::describe("%s: all sequences of length %u over boundary alphabets starting with letter %u", CN.c_str(), len, k); vf::nontrivial(vf::described());
				static const unsigned pairs[][2] = {{2, 28}, {3, 8}, {4, 7}, {5, 14}, {9, 16}, {7, 21}, {8, 32}, {14, 28}, {16, 24}, {15, 31}, {1, 32}};
				for (auto &p : pairs) tiny(p[0], p[1], len, k);
				}
		// 5. periodic and counter-like patterns, every length: all period-p patterns over two widths
		for (unsigned p = 1; p <= (T ? 8u : 6u); p++)
			{
			if (!vf::mine()) continue;
			get(); vf::describe("%s: all period-%u patterns over two widths", CN.c_str(), p); vf::nontrivial(vf::described());
			static const unsigned pairs[][2] = {{1, 2}, {2, 3}, {3, 5}, {4, 8}, {7, 8}, {8, 9}, {10, 14}, {12, 16}, {14, 28}, {16, 17}, {1, 28}, {20, 30}, {31, 32}};
			for (auto &w : pairs)
				for (unsigned m = 1; m + 1 < (1u << p); m++)
					for (size_t n : {(size_t)19, (size_t)35, (size_t)64, (size_t)127, (size_t)130, (size_t)259, (size_t)511, (size_t)517})
						{ if (slow && !T && n > 300) continue; seq s(n); for (size_t k = 0; k < n; k++) s[k] = cap(m >> (k % p) & 1 ? wide(w[1]) : wide(w[0])); one(s); }
			}
		// 6. sawtooth and value-density: consecutive integers, so that every value of a range is coded
		for (unsigned base : {0u, 1u, 60u, 120u, 250u, 1000u, 16380u, 65530u, 1u << 20, (1u << 21) - 50, (1u << 24) - 50, (1u << 28) - 200, 0x7FFFFFA0u, 0xFFFFFF00u})
			{
			if (!vf::mine()) continue;
			get(); vf::describe("%s: consecutive values from %u", CN.c_str(), base); vf::nontrivial(vf::described());
			for (size_t n : {1, 2, 3, 4, 5, 7, 15, 16, 17, 31, 33, 63, 65, 100, 127, 129, 200, 250})
				for (unsigned off = 0; off < 6; off++)
					{ seq s(n); for (size_t k = 0; k < n; k++) { uint64_t v = (uint64_t)base + k + off; s[k] = cap(v > 0xFFFFFFFF ? 0xFFFFFFFF : v); } one(s); }
			}
		// 7. values outside the domain are refused, or coded faithfully
		if (limit_of() < (1ull << 32))
			{
			if (!vf::mine()) continue;
			get(); vf::describe("%s: out-of-range values", CN.c_str());
			for (uint32_t big : {0x10000000u, 0x10000001u, 0x20000000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu})
				for (size_t n : {1, 2, 5, 28, 29, 60, 130})
					for (size_t p = 0; p < n; p++)
						for (uint32_t fill : {1u, 3u, 200u}) { seq s(n, fill); s[p] = big; one(s); }
			}
		}
	// delta coding
	for (size_t gap = 1; gap < 64; gap++)
		{
		if (!vf::mine()) continue;
		vf::describe("dn_encode/dn_decode distance %zu", gap); vf::nontrivial(vf::described());
		for (size_t n = gap; n <= gap * 2 + 70; n++)
			for (unsigned kind = 0; kind < 4; kind++)
				{
				vf::eval();
				seq s(n), e(n + 4, 7), d(n + 4, 9), f;
				for (size_t k = 0; k < n; k++) s[k] = kind == 0 ? k + 1 : kind == 1 ? (k * 2654435761u) : kind == 2 ? 0xFFFFFFFFu - k : k * k * 3 + 5;
				size_t r = JASS::compress_integer::dn_encode(e.data(), s.data(), n, gap);
				bool ok = r == n && e[n] == 7 && e[n + 3] == 7;
				for (size_t k = 0; k < n; k++) ok = ok && e[k] == (k < gap ? s[k] : s[k] - s[k - gap]);
				r = JASS::compress_integer::dn_decode(d.data(), e.data(), n, gap);
				ok = ok && r == n && memcmp(d.data(), s.data(), n * 4) == 0 && d[n] == 9;
				f = e; JASS::compress_integer::dn_decode(f.data(), f.data(), n, gap);
				ok = ok && memcmp(f.data(), s.data(), n * 4) == 0;
				f = s; JASS::compress_integer::dn_encode(f.data(), f.data(), n, gap);
				ok = ok && memcmp(f.data(), e.data(), n * 4) == 0;
				if (!ok) vf::fail("dn", "distance %zu, %zu integers", gap, n);
				}
		}
	for (size_t n = 0; n <= 300; n++)
		{
		if (!vf::mine()) continue;
		vf::describe("d1_encode/d1_decode, %zu integers", n); vf::nontrivial(vf::described());
		for (unsigned kind = 0; kind < 4; kind++)
			{
			seq s(n + 1), e(n + 4, 7), d(n + 4, 9), f;
			for (size_t k = 0; k < n; k++) s[k] = kind == 0 ? k + 1 : kind == 1 ? (k * 2654435761u) : kind == 2 ? 0xFFFFFFFFu - k : k * k * 3 + 5;
			size_t r = JASS::compress_integer::d1_encode(e.data(), s.data(), n);
			bool ok = r == n && e[n] == 7;
			for (size_t k = 0; k < n; k++) ok = ok && e[k] == (k ? s[k] - s[k - 1] : s[k]);
			r = JASS::compress_integer::d1_decode(d.data(), e.data(), n);
			ok = ok && r == n && memcmp(d.data(), s.data(), n * 4) == 0 && d[n] == 9;
			f = e; JASS::compress_integer::d1_decode(f.data(), f.data(), n); ok = ok && memcmp(f.data(), s.data(), n * 4) == 0;
			f = s; JASS::compress_integer::d1_encode(f.data(), f.data(), n); ok = ok && memcmp(f.data(), e.data(), n * 4) == 0;
			if (!ok) vf::fail("d1", "%zu integers", n);
			}
		}
	return vf::finish("28 codecs; runs of every bit width and length; every pair of adjacent runs; one exception at every position; all sequences to length 5 (7 thorough) over boundary alphabets; all short periodic patterns; delta coding at every distance 1..63");
	}

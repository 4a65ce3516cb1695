// P27: bit strings as finite sets of positions, bit streams as sequences of bits.
#include "vf.h"
#include <limits>
#include <set>
#include <memory>
#include <functional>
#include "bitstring.h"
#include "bitstream.h"
using JASS::bitstring; using JASS::bitstream;
struct model { std::vector<char> b; };
static void compare(bitstring &s, const model &m, const std::string &how, const char *which)
	{
	size_t n = m.b.size(), count = 0; std::vector<size_t> at;
	if (s.size() != n) { vf::fail("size", "%s: %s has %zu bits, should have %zu", how.c_str(), which, s.size(), n); return; }
	for (size_t i = 0; i < n; i++) { if (m.b[i]) { count++; at.push_back(i); } if (s.getbit(i) != (bool)m.b[i]) { vf::fail("bit", "%s: bit %zu of %s is wrong", how.c_str(), i, which); return; } }
	for (size_t i : {n, n + 1, n + 63, n + 64, n + 200, ~(size_t)0}) if (s.getbit(i)) vf::fail("outside", "%s: bit %zu of %s, which has %zu, is set", how.c_str(), i, which, n);
	if (s.popcount() != count) vf::fail("popcount", "%s: %s counts %zu bits, should be %zu", how.c_str(), which, s.popcount(), count);
	if (n) for (size_t i = 1; i <= count + 2; i++) { size_t want = i <= count ? at[i - 1] : (std::numeric_limits<size_t>::max)(), got = s.index(i); if (got != want) { vf::fail("index", "%s: member %zu of %s is at %zu, should be %zu", how.c_str(), i, which, got, want); break; } if (i > 8 && i + 8 < count && i % 7) continue; }
	if (n)
		{
		size_t length; uint8_t *p = s.serialise(length);
		if (length * 8 < n) vf::fail("serialise", "%s: %s is serialised into %zu bytes", how.c_str(), which, length);
		else for (size_t i = 0; i < length * 8; i++) if (((p[i / 8] >> (i % 8)) & 1) != (i < n ? m.b[i] : 0)) { vf::fail("serialise", "%s: bit %zu of the serialised %s is wrong", how.c_str(), i, which); break; }
		}
	}
struct op { int kind; size_t n; };		// 0 resize x, 1 set, 2 unset, 3 one, 4 zero, 5-8 or xor and and_not into a, 9 into x itself (or), 10 into y itself (and_not), 11 swap
static const char *name[] = {"resize", "set", "unset", "one", "zero", "or", "xor", "and", "and not", "or into itself", "and not into the other", "swap", "swap with the answer"};
static void combine(const model &x, const model &y, model &a, int kind) { size_t n = std::max(x.b.size(), y.b.size()); model r; r.b.resize(n); for (size_t i = 0; i < n; i++) { bool p = i < x.b.size() && x.b[i], q = i < y.b.size() && y.b[i]; r.b[i] = kind == 5 ? p || q : kind == 6 ? p != q : kind == 7 ? p && q : p && !q; } a = r; }
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	std::vector<op> ops;
	for (size_t n : {0, 1, 63, 64, 65, 130, 200}) ops.push_back({0, n});
	for (size_t n : {0, 5, 63, 64, 129}) ops.push_back({1, n});
	for (size_t n : {0, 64}) ops.push_back({2, n});
	for (int k = 3; k <= 12; k++) ops.push_back({k, 0});
	// every sequence of operations on three bit strings
	const size_t depth = T ? 5 : 4;
	for (size_t f = 0; f < ops.size(); f++)
		for (size_t g = 0; g < ops.size(); g++)
			{
			if (!vf::mine()) continue;
			vf::describe("every sequence of operations from %s %zu, %s %zu", name[ops[f].kind], ops[f].n, name[ops[g].kind], ops[g].n); vf::nontrivial(vf::described()); vf::sample(vf::described());
			std::vector<size_t> path{f, g};
			std::function<void(bool)> go = [&](bool check)
				{
				if (path.size() < depth) { for (size_t i = 0; i < ops.size(); i++) { path.push_back(i); go(true); path.pop_back(); } return; }
				vf::eval(); vf::tick();
				auto x = std::make_unique<bitstring>(), y = std::make_unique<bitstring>(), a = std::make_unique<bitstring>(); model mx, my, ma; std::string how;
				x->resize(70); mx.b.resize(70); y->resize(10); my.b.resize(10); y->setbit(3); my.b[3] = 1; x->setbit(69); mx.b[69] = 1;
				for (auto i : path)
					{
					auto &o = ops[i]; vf::step();
					how += std::string(how.empty() ? "" : ", ") + name[o.kind] + (o.kind < 3 ? " " + std::to_string(o.n) : "");
					switch (o.kind)
						{
						case 0: x->resize(o.n); mx.b.resize(o.n); break;
						case 1: x->setbit(o.n); if (o.n < mx.b.size()) mx.b[o.n] = 1; break;
						case 2: x->unsetbit(o.n); if (o.n < mx.b.size()) mx.b[o.n] = 0; break;
						case 3: x->one(); for (auto &c : mx.b) c = 1; break;
						case 4: x->zero(); for (auto &c : mx.b) c = 0; break;
						case 5: x->bit_or(*a, *y); combine(mx, my, ma, 5); break;
						case 6: x->bit_xor(*a, *y); combine(mx, my, ma, 6); break;
						case 7: x->bit_and(*a, *y); combine(mx, my, ma, 7); break;
						case 8: x->bit_and_not(*a, *y); combine(mx, my, ma, 8); break;
						case 9: x->bit_or(*x, *y); combine(mx, my, mx, 5); break;
						case 10: x->bit_and_not(*y, *y); combine(mx, my, my, 8); break;
						case 11: x.swap(y); std::swap(mx, my); break;
						case 12: x.swap(a); std::swap(mx, ma); break;
						}
					if (o.kind >= 5 && o.kind <= 10) { size_t n = std::max(mx.b.size(), my.b.size()); mx.b.resize(n); my.b.resize(n); if (o.kind <= 8) ma.b.resize(n); }
					}
				// states before the last operation are compared in the sequences that end there (all are, by depth)
				compare(*x, mx, how, "x"); compare(*y, my, how, "y"); compare(*a, ma, how, "the answer");
				};
			go(true);
			}
	// the same for shorter sequences, so that every state on the way is compared
	for (size_t f = 0; f < ops.size(); f++)
		{
		if (!vf::mine()) continue;
		vf::describe("every length around a word, %s", name[ops[f].kind]);
		for (size_t n = 0; n <= 300; n++)
			{
			vf::eval(); vf::tick(); bitstring s; model m; s.resize(n); m.b.resize(n); std::string how = "length " + std::to_string(n);
			if (n) { s.one(); for (auto &c : m.b) c = 1; compare(s, m, how + ", one", "it"); s.zero(); for (auto &c : m.b) c = 0; compare(s, m, how + ", zero", "it"); }
			for (size_t i = f; i < n; i += 1 + f * 3) { s.setbit(i); m.b[i] = 1; } compare(s, m, how + ", set", "it");
			s.resize(n / 2); m.b.resize(n / 2); compare(s, m, how + ", halved", "it"); s.resize(n + f); m.b.resize(n + f); compare(s, m, how + ", grown again", "it");
			}
		}
	// counting bits of words
	if (vf::mine())
		{
		vf::describe("popcount of words"); vf::nontrivial(vf::described());
		for (uint32_t v = 0; v < 65536; v++)
			{
			vf::eval(); size_t c = __builtin_popcount(v);
			if (v < 256 && bitstring::popcount((uint8_t)v) != c) vf::fail("popcount8", "%u", v);
			if (bitstring::popcount((uint16_t)v) != c) vf::fail("popcount16", "%u", v);
			for (uint32_t o : {0u, 1u, 0x8000u, 0xFFFFu, 0x5555u, 0xAAAAu, 0xF0F0u}) { uint32_t w = v << 16 | o, u = o << 16 | v; if (bitstring::popcount(w) != (size_t)__builtin_popcount(w) || bitstring::popcount(u) != (size_t)__builtin_popcount(u)) vf::fail("popcount32", "%u %u", v, o);
				uint64_t q = (uint64_t)w << 32 | u, r = (uint64_t)u << 32 | o; if (bitstring::popcount(q) != (size_t)__builtin_popcountll(q) || bitstring::popcount(r) != (size_t)__builtin_popcountll(r)) vf::fail("popcount64", "%lu", (unsigned long)q); }
			}
		}
	// bit streams: every way of writing, into every size of buffer
	struct written { std::vector<char> bits; std::vector<std::pair<uint64_t, size_t>> pushes; };
	auto stream = [&](const std::vector<std::pair<uint64_t, size_t>> &pushes, size_t buffer, int style)
		{
		vf::eval(); vf::step(pushes.size());
		std::vector<char> bits; for (auto &[v, n] : pushes) for (size_t i = n; i-- > 0;) bits.push_back(v >> i & 1);
		uint8_t *p = (uint8_t *)malloc(buffer + 1); memset(p, 0xA5, buffer + 1);
		bitstream out; out.rewind(p, buffer);
		for (auto &[v, n] : pushes)
			if (style == 0) out.push_bits(v, n);
			else for (size_t i = n; i-- > 0;) { if (v >> i & 1) out.push_one(); else { size_t z = 1; if (style == 2) while (i > 0 && !(v >> (i - 1) & 1)) { i--; z++; } if (style == 2) out.push_zeros(z); else out.push_zero(); } }
		uint64_t used = out.eof(); bool fits = (bits.size() + 31) / 32 * 4 <= buffer / 4 * 4;
		std::string how = std::to_string(bits.size()) + " bits in " + std::to_string(pushes.size()) + " pieces into " + std::to_string(buffer) + " bytes";
		if (p[buffer] != 0xA5) vf::fail("stream overrun", "%s: wrote past the buffer", how.c_str());
		for (size_t i = buffer / 4 * 4; i < buffer; i++) if (p[i] != 0xA5 && !fits) vf::fail("stream overrun", "%s", how.c_str());
		if (fits ? used != (bits.size() + 7) / 8 : used != 0) { vf::fail(fits ? "stream length" : "stream full", "%s: reported %lu bytes", how.c_str(), (unsigned long)used); free(p); return; }
		if (fits)
			{
			bitstream in; in.rewind(p, buffer); size_t at = 0;
			for (auto &[v, n] : pushes) { uint64_t want = n == 64 ? v : v & ((1ull << n) - 1), got = in.get_bits(n); if (got != want) { vf::fail("stream bits", "%s: bits %zu to %zu read as %lx, were %lx", how.c_str(), at, at + n, (unsigned long)got, (unsigned long)want); break; } at += n; }
			bitstream one; one.rewind(p, buffer); for (size_t i = 0; i < bits.size(); i++) if (one.get_bit() != bits[i]) { vf::fail("stream bits", "%s: bit %zu", how.c_str(), i); break; }
			}
		free(p);
		};
	for (size_t total = 0; total <= 14; total++)
		{
		if (!vf::mine()) continue;
		vf::describe("every string of %zu bits", total); vf::nontrivial(vf::described());
		for (uint64_t v = 0; v < 1ull << total; v++) { vf::tick(); for (int style = 0; style < 3; style++) for (size_t buffer : {0, 3, 4, 8}) { stream({{v, total}}, buffer, style); if (total > 3) stream({{v >> 3, total - 3}, {v, 3}}, buffer, style); } }
		}
	for (size_t a = 0; a <= 64; a++)
		{
		if (!vf::mine()) continue;
		vf::describe("pieces of %zu bits and others", a); vf::nontrivial(vf::described());
		for (size_t b = 0; b <= 64; b += T ? 1 : 3)
			for (size_t c : {0, 1, 31, 32, 33, 64})
				for (uint64_t v : {0ull, ~0ull, 0x0123456789ABCDEFull, 0x8000000000000001ull})
					{ vf::tick(); for (size_t buffer : {0, 1, 4, 7, 8, 11, 12, 16, 20, 24, 28}) for (int style = 0; style < 3; style++) stream({{v, a}, {v >> 1, b}, {~v, c}}, buffer, style); }
		}
	for (size_t n = 0; n <= 600; n++)
		{
		if (n % 8 == 0 && !vf::mine()) { n += 7; continue; }
		vf::describe("%zu bits one at a time", n); if (n % 8 == 0) vf::nontrivial(vf::described());
		std::vector<std::pair<uint64_t, size_t>> p; for (size_t i = 0; i < n; i++) p.push_back({i * i / 3 & 1, 1});
		size_t need = (n + 31) / 32 * 4; for (long buffer = std::max(0L, (long)need - 9); buffer <= (long)need + 9; buffer++) stream(p, buffer, n % 3);
		}
	return vf::finish("every sequence of 4 (5) of 24 operations on three bit strings from 0 to 200 bits; every length to 300; every 16-bit word and combinations; every string of up to 14 bits, every pair of piece lengths to 64 with a third, 600 lengths, at every buffer size around the one needed");
	}

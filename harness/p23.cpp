// P23: general purpose compressors round trip, and report a buffer that is too small.
#include "vf.h"
#include <functional>
#include <memory>
#include "compress_general_zlib.h"
#include "compress_general_zstd.h"
using JASS::compress_general;
static const int KINDS = 2;
static std::unique_ptr<compress_general> make(int kind) { if (kind == 0) return std::make_unique<JASS::compress_general_zlib>(); return std::make_unique<JASS::compress_general_zstd>(); }
static const char *kind_name[] = {"zlib", "zstd"};
static const size_t GUARD = 64;
struct guarded
	{
	std::vector<uint8_t> all; size_t size;
	explicit guarded(size_t n) : all(n + 2 * GUARD, 0xA5), size(n) {}
	uint8_t *data() { return all.data() + GUARD; }
	bool intact() const { for (size_t i = 0; i < GUARD; i++) if (all[i] != 0xA5 || all[GUARD + size + i] != 0xA5) return false; return true; }
	};
static std::string compress(compress_general &c, int kind, const std::string &text, size_t buffer, const std::string &how, bool *failed)
	{
	guarded out(buffer); std::string copy = text;
	size_t n = c.encode(out.data(), buffer, copy.data(), copy.size()); vf::step();
	if (!out.intact()) vf::fail(std::string("overrun:") + kind_name[kind], "%s: compressing %zu bytes into %zu wrote outside the buffer", how.c_str(), text.size(), buffer);
	if (copy != text) vf::fail(std::string("source:") + kind_name[kind], "%s: compressing changed its input", how.c_str());
	*failed = n == 0;
	if (n > buffer) { vf::fail(std::string("length:") + kind_name[kind], "%s: compressing into %zu bytes reports %zu", how.c_str(), buffer, n); *failed = true; return ""; }
	return std::string((char *)out.data(), n);
	}
static void decompress(compress_general &c, int kind, const std::string &packed, const std::string &text, size_t buffer, const std::string &how)
	{
	guarded out(buffer); std::string copy = packed;
	size_t n = c.decode(out.data(), buffer, copy.data(), copy.size()); vf::step();
	if (!out.intact()) vf::fail(std::string("overrun:") + kind_name[kind], "%s: decompressing %zu bytes into %zu wrote outside the buffer", how.c_str(), text.size(), buffer);
	if (copy != packed) vf::fail(std::string("source:") + kind_name[kind], "%s: decompressing changed its input", how.c_str());
	if (buffer < text.size()) { if (n) vf::fail(std::string("short:") + kind_name[kind], "%s: decompressing %zu bytes into %zu reports %zu instead of failure", how.c_str(), text.size(), buffer, n); }
	else if (n != text.size() || memcmp(out.data(), text.data(), n)) vf::fail(std::string("roundtrip:") + kind_name[kind], "%s: decompressing gives %zu bytes%s, should give back the %zu compressed", how.c_str(), n, n == text.size() ? " that differ" : "", text.size());
	}
static std::string shape(int kind, size_t n)
	{
	std::string s(n, 'a'); uint32_t x = 12345;
	for (size_t i = 0; i < n; i++)
		switch (kind)
			{
			case 0: break;
			case 1: s[i] = (char)i; break;
			case 2: x = x * 1664525 + 1013904223; s[i] = (char)(x >> 24); break;
			case 3: s[i] = "the quick brown fox "[i % 20]; break;
			case 4: s[i] = 0; break;
			case 5: x = x * 1664525 + 1013904223; s[i] = (i / 1000) % 2 ? (char)(x >> 24) : (char)(i % 7); break;
			}
	return s;
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	// every string over a small alphabet, every output buffer size, every size to decompress into
	const char letters[] = {0, 'a', (char)0xFF};
	const size_t L = T ? 7 : 5;
	for (int kind = 0; kind < KINDS; kind++)
		for (size_t n = 0; n <= L; n++)
			{
			size_t total = 1; for (size_t i = 0; i < n; i++) total *= 3;
			for (size_t part = 0; part < total; part += 27)
				{
				if (!vf::mine()) continue;
				vf::describe("%s: strings of %zu characters numbered %zu to %zu, in every buffer size", kind_name[kind], n, part, std::min(total, part + 27) - 1); vf::nontrivial(vf::described()); vf::sample(vf::described());
				auto c = make(kind);
				for (size_t id = part; id < std::min(total, part + 27); id++)
					{
					std::string text; for (size_t i = 0, v = id; i < n; i++, v /= 3) text += letters[v % 3];
					vf::eval();
					bool failed; std::string how = "string " + std::to_string(id) + " of length " + std::to_string(n);
					std::string packed = compress(*c, kind, text, 256, how, &failed);
					if (failed) { vf::fail(std::string("refused:") + kind_name[kind], "%s: refused, with a buffer of 256 bytes", how.c_str()); continue; }
					for (size_t size = 0; size <= n + 12; size++) decompress(*c, kind, packed, text, size, how);
					for (size_t size = 0; size <= packed.size() + 8; size++)
						{
						std::string p = compress(*c, kind, text, size, how + " into " + std::to_string(size), &failed);
						if (failed) { if (size >= packed.size()) vf::fail(std::string("refused:") + kind_name[kind], "%s: refused with %zu bytes though it compresses to %zu", how.c_str(), size, packed.size()); }
						else decompress(*c, kind, p, text, n, how + " into " + std::to_string(size));
						}
					vf::tick();
					}
				}
			}
	// longer strings of several shapes, around the sizes of the compressors' blocks and windows
	std::vector<size_t> lengths;
	for (size_t n = 6; n < (T ? 600 : 200); n += T ? 1 : 7) lengths.push_back(n);
	for (size_t n : {255, 256, 257, 258, 259, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073, 262144, 300000}) lengths.push_back(n);
	if (T) for (size_t n : {1000, 1023, 1024, 1025, 16383, 16384, 16385, 20000, 100000, 262143, 262145, 524288, 524289, 1048576, 1048577, 3000000}) lengths.push_back(n);
	for (int kind = 0; kind < KINDS; kind++)
		for (int s = 0; s < 6; s++)
			for (auto n : lengths)
				{
				if (!vf::mine()) continue;
				vf::describe("%s: a string of %zu bytes of shape %d", kind_name[kind], n, s); vf::nontrivial(vf::described()); vf::sample(vf::described());
				vf::eval(); vf::tick();
				auto c = make(kind); std::string text = shape(s, n), how = vf::described(); bool failed;
				std::string packed = compress(*c, kind, text, n + n / 100 + 1000, how, &failed);
				if (failed) { vf::fail(std::string("refused:") + kind_name[kind], "%s: refused", how.c_str()); continue; }
				std::vector<size_t> sizes = n < 1000 ? std::vector<size_t>{} : std::vector<size_t>{0, 1, n / 2, n - 2, n - 1, n, n + 1, n + 100};
				if (n < 1000) for (size_t i = 0; i <= n + 4; i += (i + 6 < n && n > 100 ? 5 : 1)) sizes.push_back(i);
				for (auto size : sizes) decompress(*c, kind, packed, text, size, how);
				sizes.clear(); size_t p = packed.size();
				if (p < 400) for (size_t i = 0; i <= p + 4; i++) sizes.push_back(i);
				else sizes = {0, 1, 10, p / 2, p - 9, p - 5, p - 4, p - 3, p - 2, p - 1, p, p + 1, p + 2, p + 3, p + 5, p + 100};
				for (auto size : sizes)
					{
					std::string q = compress(*c, kind, text, size, how + " into " + std::to_string(size), &failed); vf::tick();
					if (failed) { if (size >= p) vf::fail(std::string("refused:") + kind_name[kind], "%s: refused with %zu bytes though it compresses to %zu", how.c_str(), size, p); }
					else decompress(*c, kind, q, text, n, how + " into " + std::to_string(size));
					}
				}
	// every sequence of operations on one compressor: each gives what a new compressor gives
	const std::string a = shape(3, 300), b = shape(2, 500), e = "";
	const size_t depth = T ? 5 : 4;
	for (int kind = 0; kind < KINDS; kind++)
		{
		bool failed; auto fresh = make(kind);
		const std::string pa = compress(*fresh, kind, a, 4000, "a", &failed), pb = compress(*fresh, kind, b, 4000, "b", &failed), pe = compress(*fresh, kind, e, 4000, "empty", &failed);
		const int OPS = 9; static const char *names[OPS] = {"compress A", "compress A into too little", "compress B", "compress B into too little", "compress nothing", "decompress A", "decompress A into too little", "decompress B", "decompress half of B"};
		for (int f = 0; f < OPS; f++)
			for (int g = 0; g < OPS; g++)
				{
				if (!vf::mine()) continue;
				vf::describe("%s: every sequence of operations from %s, %s", kind_name[kind], names[f], names[g]); vf::nontrivial(vf::described()); vf::sample(vf::described());
				std::vector<int> path{f, g};
				std::function<void()> go = [&]()
					{
					if (path.size() < depth) { for (int i = 0; i < OPS; i++) { path.push_back(i); go(); path.pop_back(); } return; }
					vf::eval(); vf::tick();
					auto c = make(kind); std::string how;
					for (auto i : path)
						{
						how += std::string(how.empty() ? "" : ", ") + names[i];
						auto pack = [&](const std::string &text, size_t size, bool fits) { bool failed; std::string p = compress(*c, kind, text, size, how, &failed); if (!fits && !failed) vf::fail(std::string("short:") + kind_name[kind], "%s: compressed into %zu bytes", how.c_str(), size); if (fits && failed) vf::fail(std::string("refused:") + kind_name[kind], "%s: refused", how.c_str()); if (!failed) { auto d = make(kind); decompress(*d, kind, p, text, text.size(), how); } };
						switch (i)
							{
							case 0: pack(a, 4000, true); break;
							case 1: pack(a, 10, false); break;
							case 2: pack(b, 4000, true); break;
							case 3: pack(b, 200, false); break;
							case 4: pack(e, 4000, true); break;
							case 5: decompress(*c, kind, pa, a, a.size(), how); break;
							case 6: decompress(*c, kind, pa, a, a.size() - 1, how); break;
							case 7: decompress(*c, kind, pb, b, b.size() + 3, how); break;
							case 8: { guarded out(b.size()); std::string half = pb.substr(0, pb.size() / 2); size_t n = c->decode(out.data(), b.size(), half.data(), half.size()); vf::step(); if (n) vf::fail(std::string("truncated:") + kind_name[kind], "%s: half of the compressed bytes decompress, to %zu bytes", how.c_str(), n); if (!out.intact()) vf::fail(std::string("overrun:") + kind_name[kind], "%s: wrote outside the buffer", how.c_str()); break; }
							}
						}
					};
				go();
				}
		}
	std::string bounds = ("every string of up to " + std::to_string(L) + " characters over 3 with every buffer size on both sides, " + std::to_string(lengths.size()) + " lengths of 6 shapes with buffer sizes around the exact one, every sequence of " + std::to_string(depth) + " of 9 operations on one compressor; zlib and zstd"); return vf::finish(bounds.c_str());
	}

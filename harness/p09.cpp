// P09: encoders respect the output buffer they are given: every buffer size from nothing to ample, for
// an enumerated family of sequences.
#include "vf.h"
#include "codec_list.h"
static const size_t AMPLE = 1 << 20, CANARY = 8192;
static uint8_t *buf, *src2; static uint32_t *dec;

static size_t ample(const seq &s, std::vector<uint8_t> &out)
	{
	memset(buf, 0xA5, s.size() * 8 + 4096);
	size_t got = C->encode(buf, AMPLE, s.data(), s.size());
	if (got && got < AMPLE) out.assign(buf, buf + got);
	return got;
	}
static bool check(const seq &s, size_t capacity, size_t need)
	{
	vf::eval();
	memset(buf, 0xC3, capacity + CANARY);
	size_t got = C->encode(buf, capacity, s.data(), s.size());
	vf::step();
	for (size_t i = 0; i < CANARY; i++)
		if (buf[capacity + i] != 0xC3)
			{ vf::fail("overrun:" + CN, "%s: %zu integers (%zu bytes when encoded) into %zu bytes wrote at byte %zu of the buffer", CN.c_str(), s.size(), need, capacity, capacity + i); return false; }
	if (got > capacity)
		{ vf::fail("size:" + CN, "%s: %zu integers into %zu bytes reported %zu bytes", CN.c_str(), s.size(), capacity, got); return false; }
	if (got)
		{
		memset(src2, 0x5A, got + 256); memcpy(src2, buf, got);
		C->decode(dec, s.size(), src2, got);
		if (memcmp(dec, s.data(), s.size() * 4))
			{ vf::fail("wrong:" + CN, "%s: %zu integers into %zu bytes (of the %zu needed) reported %zu bytes that decode to something else", CN.c_str(), s.size(), capacity, need, got); return false; }
		}
	else if (capacity >= need + 4096)			// the slack every caller in the tree gives
		{ vf::fail("refused:" + CN, "%s: %zu integers needing %zu bytes refused a buffer of %zu", CN.c_str(), s.size(), need, capacity); return false; }
	return true;
	}

int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	buf = (uint8_t *)aligned_alloc(64, AMPLE + CANARY); src2 = (uint8_t *)aligned_alloc(64, AMPLE + CANARY); dec = (uint32_t *)aligned_alloc(64, AMPLE);
	auto all = codec_names();
	const bool T = vf::thorough();
	std::vector<size_t> lengths = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 27, 28, 29, 31, 32, 33, 59, 60, 61, 64, 65, 100, 127, 128, 129, 180, 239, 240, 241, 256, 257, 300};
	if (T) for (size_t n : {18, 20, 23, 24, 40, 48, 63, 80, 96, 130, 160, 255, 258, 270, 320, 400, 511, 512, 513, 600, 1024, 1100}) lengths.push_back(n);
	for (size_t ci = 0; ci < all.size(); ci++)
		{
		CN = all[ci];
		std::unique_ptr<JASS::compress_integer> mine;
		for (size_t n : lengths)
			for (unsigned kind = 0; kind < 8; kind++)
				{
				if (!vf::mine()) continue;
				if (!mine) mine = make_codec(ci);
				C = mine.get();
				vf::describe("%s: %zu integers, kind %u, into every buffer size", CN.c_str(), n, kind); vf::nontrivial(vf::described());
				for (unsigned w : {1u, 2u, 3u, 5u, 8u, 10u, 14u, 17u, 21u, 28u, 32u})
					{
					seq s(n);
					for (size_t k = 0; k < n; k++)
						{
						unsigned b = w;
						switch (kind)
							{
							case 0: break;								// one width
							case 1: b = k & 1 ? w : 1; break;		// alternating
							case 2: b = k + 1 == n ? w : 2; break;	// wide at the end
							case 3: b = k == 0 ? w : 1; break;		// wide at the start
							case 4: b = k >= n / 2 ? w : 1; break;	// two halves
							case 5: b = k < n / 2 ? w : 4; break;
							case 6: b = (k * 7 + 3) % w + 1; break;	// all widths
							case 7: b = k % 17 == 16 ? w : 1; break;
							}
						s[k] = cap(wide(b));
						}
					std::vector<uint8_t> whole;
					size_t need = ample(s, whole);
					if (need == 0) continue;
					bool ok = true;
					for (size_t c = 0; c <= need + 130 && ok; c += (T || need < 400 || c < 72 || c + 150 > need) ? 1 : 5) ok = check(s, c, need);
					ok = true;
					for (size_t c : {need + 200, need + 512, need + 1024, need + 4096, need + 5000}) if (ok) ok = check(s, c, need);
					}
				}
		}
	return vf::finish("28 codecs; every buffer size from 0 to 130 bytes more than needed, and larger ones");
	}

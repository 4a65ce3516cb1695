// The codecs under test, by name, and the domain each documents.
#pragma once
#include <array>
#include <memory>
#include <string>
#include <vector>
#include "compress_integer_all.h"
#include "compress_integer_nybble_8.h"
#include "compress_integer_lyck_16.h"
typedef std::vector<uint32_t> seq;
static std::string CN;				// name of the current codec
static JASS::compress_integer *C;	// the current codec

static std::vector<std::string> codec_names(bool extra = true)
	{
	std::vector<std::string> r;
	for (size_t i = 0; i < JASS::compress_integer_all::compressors_size; i++)
		{
		std::array<bool, JASS::compress_integer_all::compressors_size> o = {};
		o[i] = true;
		r.push_back(JASS::compress_integer_all::name(o));
		}
	if (extra) { r.push_back("Nybble-8"); r.push_back("Lyck-16"); }
	return r;
	}
static std::unique_ptr<JASS::compress_integer> make_codec(size_t i)
	{
	if (i == JASS::compress_integer_all::compressors_size) return std::make_unique<JASS::compress_integer_nybble_8>();
	if (i == JASS::compress_integer_all::compressors_size + 1) return std::make_unique<JASS::compress_integer_lyck_16>();
	std::array<bool, JASS::compress_integer_all::compressors_size> o = {};
	o[i] = true;
	return JASS::compress_integer_all::compressor(o);
	}
static bool has(const char *s) { return CN.find(s) != std::string::npos; }
// The Elias family codes positive integers, and so do the 8b packers (they have selectors for "a run
// of 1s"); the 28-bit word packers need only code values below 2^28; Nybble-8 and Lyck-16 code values
// of 8 and 16 bits; every other codec codes all 32-bit integers.
static bool no_zero() { return has("Elias") || has("-8b"); }
static uint64_t limit_of()
	{
	if (has("Simple-9") || has("Simple-16") || has("Carryover-12") || has("Carry-8b") || has("Relative-10")) return 1ull << 28;
	return has("Nybble") ? 256 : has("Lyck") ? 65536 : 1ull << 32;
	}
static uint32_t wide(unsigned bits) { return bits >= 32 ? 0xFFFFFFFFu : (uint32_t)((1ull << bits) - 1); }
static uint32_t cap(uint32_t v) { if (v == 0 && no_zero()) v = 1; if (v >= limit_of()) v = limit_of() - 1; return v; }

// P19: character classes, normal forms and UTF-8 against the Unicode database shipped with the source.
#include "vf.h"
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <memory>
#include <functional>
#include "unicode.h"
#include "ascii.h"
using JASS::unicode; using JASS::ascii;
static const uint32_t LAST = 0x10FFFF;
static std::string data_directory() { const char *r = getenv("VF_REPO"); return std::string(r ? r : "/repo") + "/external/Unicode"; }
#ifndef UNICODE_DATA
#define UNICODE_DATA data_directory() +
#endif
struct database
	{
	std::vector<std::string> category; std::map<uint32_t, std::vector<uint32_t>> decomposition, fold; std::map<std::string, std::set<uint32_t>> property;
	static std::vector<std::string> split(const std::string &s, char c) { std::vector<std::string> r; std::string x; for (char k : s) if (k == c) r.push_back(x), x = ""; else x += k; r.push_back(x); return r; }
	static std::vector<uint32_t> codes(const std::string &s) { std::istringstream in(s); std::vector<uint32_t> r; std::string w; while (in >> w) r.push_back((uint32_t)std::stoul(w, nullptr, 16)); return r; }
	static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
	database()
		{
		category.resize(LAST + 1, "Cn"); std::string line; uint32_t first = 0;
		std::ifstream data(UNICODE_DATA "/UnicodeData.txt");
		while (std::getline(data, line))
			{
			auto f = split(line, ';'); if (f.size() < 6) continue;
			uint32_t c = (uint32_t)std::stoul(f[0], nullptr, 16);
			if (f[1].find(", First>") != std::string::npos) first = c;
			for (uint32_t i = f[1].find(", Last>") != std::string::npos ? first : c; i <= c; i++) category[i] = f[2];
			std::string d = f[5]; if (!d.empty() && d[0] == '<') d = d.substr(d.find('>') + 1);
			auto list = codes(d); if (!list.empty()) decomposition[c] = list;
			}
		std::ifstream folding(UNICODE_DATA "/CaseFolding.txt");
		while (std::getline(folding, line)) { if (line.empty() || line[0] == '#') continue; auto f = split(line, ';'); if (f.size() < 3) continue; std::string kind = trim(f[1]); if (kind == "C" || kind == "F") fold[(uint32_t)std::stoul(f[0], nullptr, 16)] = codes(f[2]); }
		std::ifstream props(UNICODE_DATA "/PropList.txt");
		while (std::getline(props, line))
			{
			if (line.empty() || line[0] == '#') continue;
			auto f = split(line.substr(0, line.find('#')), ';'); if (f.size() < 2) continue;
			size_t dots = f[0].find(".."); uint32_t a = (uint32_t)std::stoul(f[0], nullptr, 16), b = dots == std::string::npos ? a : (uint32_t)std::stoul(f[0].substr(dots + 2), nullptr, 16);
			for (uint32_t i = a; i <= b; i++) property[trim(f[1])].insert(i);
			}
		}
	bool has(const char *p, uint32_t c) { return property[p].count(c) != 0; }
	bool in(uint32_t c, const char *list) const { std::string l = list; size_t at = 0; while (at < l.size()) { size_t n = l[at + 1] == ' ' || at + 1 >= l.size() ? 1 : 2; if (category[c].compare(0, n, l, at, n) == 0) return true; at += n; while (at < l.size() && l[at] == ' ') at++; } return false; }
	bool upper(uint32_t c) { return in(c, "Lu") || has("Other_Uppercase", c); }
	bool lower(uint32_t c) { return in(c, "Ll") || has("Other_Lowercase", c); }
	bool alpha(uint32_t c) { return in(c, "Lu Ll Lt Lm Lo Nl") || has("Other_Alphabetic", c) || has("Other_Uppercase", c) || has("Other_Lowercase", c); }
	bool alnum(uint32_t c) { return alpha(c) || in(c, "Nd Nl No"); }
	void normal(uint32_t c, std::vector<uint32_t> &into)
		{
		auto d = decomposition.find(c);
		if (d != decomposition.end()) { for (auto x : d->second) normal(x, into); return; }
		auto f = fold.find(c); std::vector<uint32_t> one{c};
		for (auto x : f == fold.end() ? one : f->second) if (alnum(x) || x == 0x20) into.push_back(x);
		}
	};
static bool xmlstart(uint32_t c) { static const uint32_t r[][2] = {{':', ':'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF}, {0x370, 0x37D}, {0x37F, 0x1FFF}, {0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF}, {0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF}}; for (auto &x : r) if (c >= x[0] && c <= x[1]) return true; return false; }
static bool xmlname(uint32_t c) { return xmlstart(c) || c == '-' || c == '.' || (c >= '0' && c <= '9') || c == 0xB7 || (c >= 0x300 && c <= 0x36F) || (c >= 0x203F && c <= 0x2040); }
static bool reference(const uint8_t *s, size_t n, uint32_t &c, size_t &used, bool &surrogate)		// the well-formed sequence at the start of s
	{
	surrogate = false; if (n == 0) return false;
	uint32_t b = s[0], least; size_t need;
	if (b < 0x80) { c = b; used = 1; return true; }
	if (b >= 0xC0 && b < 0xE0) need = 2, c = b & 0x1F, least = 0x80; else if (b >= 0xE0 && b < 0xF0) need = 3, c = b & 0x0F, least = 0x800; else if (b >= 0xF0 && b < 0xF8) need = 4, c = b & 7, least = 0x10000; else return false;
	if (n < need) return false;
	for (size_t i = 1; i < need; i++) { if ((s[i] & 0xC0) != 0x80) return false; c = c * 64 + (s[i] & 0x3F); }
	used = need; surrogate = c >= 0xD800 && c < 0xE000;
	return c >= least && c <= LAST;
	}
static void decode(const uint8_t *bytes, size_t n)
	{
	// the bytes end where the buffer ends: one more would be outside
	static std::map<size_t, std::unique_ptr<uint8_t []>> exact; auto &mem = exact[n]; if (!mem) mem = std::make_unique<uint8_t []>(n);
	memcpy(mem.get(), bytes, n); uint32_t c = 0; size_t used = 99, want_used = 0; bool surrogate;
	bool good = reference(bytes, n, c, want_used, surrogate);
	uint32_t got = unicode::utf8_to_codepoint(mem.get(), mem.get() + n, used);
	size_t valid = unicode::isutf8(mem.get(), mem.get() + n);
	vf::eval();
	char text[20] = ""; for (size_t i = 0; i < n; i++) snprintf(text + 2 * i, 4, "%02X", bytes[i]);
	if (valid != used) vf::fail("isutf8", "bytes %s: the sequence is said to be %zu bytes long, decoding takes %zu", text, valid, used);
	if (surrogate) return;
	if (good ? used != want_used || got != c : used != 0) vf::fail(good ? "wellformed" : "malformed", "bytes %s: decoded as %X from %zu bytes, should be %s", text, got, used, good ? "accepted" : "refused");
	if (!good && got != unicode::replacement_character) vf::fail("replacement", "bytes %s: malformed, but decoded as %X", text, got);
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	database db;
	struct cls { const char *name; int (*got)(uint32_t); std::function<bool(uint32_t)> want; };
	std::vector<cls> classes = {
		{"isalpha", unicode::isalpha, [&](uint32_t c) { return db.alpha(c); }}, {"isalnum", unicode::isalnum, [&](uint32_t c) { return db.alnum(c); }}, {"isupper", unicode::isupper, [&](uint32_t c) { return db.upper(c); }}, {"islower", unicode::islower, [&](uint32_t c) { return db.lower(c); }},
		{"iscntrl", unicode::iscntrl, [&](uint32_t c) { return db.in(c, "Cc"); }}, {"isdigit", unicode::isdigit, [&](uint32_t c) { return db.in(c, "Nd Nl No"); }}, {"isgraph", unicode::isgraph, [&](uint32_t c) { return db.in(c, "L M N P S Zs"); }}, {"ispunct", unicode::ispunct, [&](uint32_t c) { return db.in(c, "P"); }},
		{"isspace", unicode::isspace, [&](uint32_t c) { return db.in(c, "Zs Zl Zp") || (c >= 9 && c <= 13) || c == 0x20 || c == 0x85; }}, {"isuspace", unicode::isuspace, [&](uint32_t c) { return db.in(c, "Zs"); }}, {"isxdigit", unicode::isxdigit, [&](uint32_t c) { return db.has("Hex_Digit", c) || db.has("ASCII_Hex_Digit", c); }},
		{"ismark", unicode::ismark, [&](uint32_t c) { return db.in(c, "M"); }}, {"issymbol", unicode::issymbol, [&](uint32_t c) { return db.in(c, "S"); }}, {"isxmlnamestartchar", unicode::isxmlnamestartchar, xmlstart}, {"isxmlnamechar", unicode::isxmlnamechar, xmlname}};
	for (auto &k : classes)
		{
		if (!vf::mine()) continue;
		vf::describe("%s of every code point", k.name); vf::nontrivial(vf::described()); vf::sample(vf::described()); size_t in = 0;
		for (uint32_t c = 0; c <= LAST; c++)
			{
			vf::eval(); bool want = k.want(c), got = k.got(c) != 0; in += want;
			if (got == want) continue;
			if (got && !strcmp(k.name, "ispunct") && (db.has("Dash", c) || db.has("Terminal_Punctuation", c))) continue;	// dashes and terminators that are not of category P: either
			vf::fail(k.name, "%s of %04X is %d, should be %d", k.name, c, got, want);
			}
		if (!in) vf::fail("database", "no code point is %s", k.name);
		}
	// normal forms
	for (uint32_t block = 0; block <= LAST; block += 0x4000)
		{
		if (!vf::mine()) continue;
		vf::describe("the normal form of code points %X to %X", block, block + 0x3FFF); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (uint32_t c = block; c < block + 0x4000 && c <= LAST; c++)
			{
			std::vector<uint32_t> want, got, other{7}; db.normal(c, want); vf::eval();
			while (!want.empty() && want.front() == 0x20) want.erase(want.begin());
			while (!want.empty() && want.back() == 0x20) want.pop_back();
			for (const uint32_t *p = unicode::tocasefold(c); *p; p++) got.push_back(*p);
			if (got != want) { std::string g, w; char t[12]; for (auto x : got) snprintf(t, 12, " %X", x), g += t; for (auto x : want) snprintf(t, 12, " %X", x), w += t; vf::fail("normal", "%04X is normalised to%s, should be%s", c, g.c_str(), w.c_str()); }
			unicode::tocasefold(other, c); if (other.size() != want.size() + 1 || other[0] != 7) vf::fail("append", "%04X: normalising onto the end of a list gives %zu elements", c, other.size());
			if (got.size() > unicode::max_casefold_expansion_factor) vf::fail("expansion", "%04X is normalised to %zu characters, more than the stated %zu", c, got.size(), (size_t)unicode::max_casefold_expansion_factor);
			}
		vf::tick();
		}
	// encoding and decoding every code point, into buffers of every size
	for (uint32_t block = 0; block <= LAST; block += 0x8000)
		{
		if (!vf::mine()) continue;
		vf::describe("UTF-8 of code points %X to %X", block, block + 0x7FFF); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (uint32_t c = block; c < block + 0x8000 && c <= LAST; c++)
			{
			size_t want = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; vf::eval();
			if (unicode::utf8_bytes(c) != want) vf::fail("utf8_bytes", "%X is said to take %zu bytes, not %zu", c, unicode::utf8_bytes(c), want);
			for (size_t room = 0; room <= 5; room++)
				{
				uint8_t mem[8]; memset(mem, 0xEE, 8);
				size_t n = unicode::codepoint_to_utf8(mem + 1, mem + 1 + room, c);
				if (n != (room >= want ? want : 0)) vf::fail("encode", "%X into %zu bytes: reports %zu", c, room, n);
				for (size_t i = 0; i < 8; i++) if ((i < 1 || i > n) && mem[i] != 0xEE) vf::fail("overrun", "%X into %zu bytes: wrote outside", c, room);
				if (n && !(c >= 0xD800 && c < 0xE000)) { size_t used; uint32_t back = unicode::utf8_to_codepoint(mem + 1, mem + 1 + room, used); if (back != c || used != n || unicode::utf8_bytes((const void *)(mem + 1)) != n) vf::fail("roundtrip", "%X is encoded in %zu bytes, which decode to %X from %zu", c, n, back, used); }
				}
			}
		vf::tick();
		}
	// every sequence of bytes: up to three of every value, four with every lead and boundary continuations
	for (int lead = 0; lead < 256; lead++)
		{
		if (!vf::mine()) continue;
		vf::describe("byte sequences starting %02X", lead); vf::nontrivial(vf::described()); vf::sample(vf::described());
		uint8_t b[5] = {(uint8_t)lead};
		if (lead == 0) decode(b, 0);
		decode(b, 1);
		for (int x = 0; x < 256; x++) { b[1] = (uint8_t)x; decode(b, 2); for (int y = 0; y < 256; y++) { b[2] = (uint8_t)y; decode(b, 3); } }
		std::vector<int> edge; for (int i = 0; i < 256; i++) if (T || i % 16 == 0 || i % 16 == 15 || (i >= 0x7E && i <= 0x92) || (i >= 0xBC && i <= 0xC4)) edge.push_back(i);
		for (auto x : edge) for (auto y : edge) for (auto z : edge) { if (T && lead >= 0xC0 && lead < 0xF0 && z % 16 > 1) continue; if (lead < 0xC0 && z % 16 > 1) continue; b[1] = (uint8_t)x; b[2] = (uint8_t)y; b[3] = (uint8_t)z; decode(b, 4); b[4] = 0x80; decode(b, 5); }
		vf::tick();
		}
	// the ASCII classes
	if (vf::mine())
		{
		vf::describe("the ASCII classes of every byte"); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (int c = 0; c < 256; c++)
			{
			bool up = c >= 'A' && c <= 'Z', low = c >= 'a' && c <= 'z', dig = c >= '0' && c <= '9', ctl = c < 32 || c == 127, asc = c < 128, graph = asc && c > 32 && c != 127; int l = up ? c + 32 : c; uint8_t u = (uint8_t)c; vf::eval();
			struct { const char *n; int g; bool w; } all[] = {{"isascii", ascii::isascii(u), asc}, {"isalnum", ascii::isalnum(u), up || low || dig}, {"isalpha", ascii::isalpha(u), up || low}, {"iscntrl", ascii::iscntrl(u), ctl}, {"isdigit", ascii::isdigit(u), dig}, {"isgraph", ascii::isgraph(u), graph}, {"islower", ascii::islower(u), low}, {"isupper", ascii::isupper(u), up}, {"ispunct", ascii::ispunct(u), graph && !(up || low || dig)}, {"isspace", ascii::isspace(u), c == ' ' || (c >= 9 && c <= 13)}, {"isxdigit", ascii::isxdigit(u), dig || (l >= 'a' && l <= 'f')}, {"isDNAbase", ascii::isDNAbase(u), l == 'a' || l == 'c' || l == 'g' || l == 't'}, {"isvowel", ascii::isvowel(u), strchr("aeiou", l) && c}, {"isvowely", ascii::isvowely(u), strchr("aeiouy", l) && c}};
			for (auto &k : all) if ((k.g != 0) != k.w) vf::fail("ascii", "%s of byte %02X is %d, should be %d", k.n, c, k.g != 0, k.w);
			if (asc && (ascii::isprint(u) != 0) != !ctl) vf::fail("ascii", "isprint of byte %02X is wrong", c);
			if (ascii::tolower(u) != (up ? c + 32 : c) || ascii::toupper(u) != (low ? c - 32 : c)) vf::fail("ascii", "the case of byte %02X is changed to %02X and %02X", c, ascii::tolower(u), ascii::toupper(u));
			}
		}
	return vf::finish("all 1114112 code points in 15 classes, their normal forms and UTF-8 in buffers of 0 to 5 bytes; all byte sequences of up to 3 bytes, 4 bytes with boundary continuation bytes (thorough: nearly all); all 256 bytes in the ASCII classes");
	}

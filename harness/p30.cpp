// P30: the tokenisers of special formats (k-mers of FASTA sequences, weighted terms of uniCOIL JSON) against references, on every small document, ending exactly where the allocation ends.
#include "vf.h"
#include <map>
#include <memory>
#include <functional>
#include "index_postings_impact.h"
#include "parser.h"
#include "parser_fasta.h"
#include "parser_unicoil_json.h"
using JASS::parser; using JASS::document; using JASS::slice;
typedef parser::token token;
struct tok { int type; std::string text; size_t count; bool operator!=(const tok &o) const { return type != o.type || text != o.text || count != o.count; } };
static const size_t MOST = token::max_token_length, LARGEST = JASS::index_postings_impact::largest_impact;
static std::string show(const std::string &s) { std::string r; char t[8]; for (unsigned char c : s) if (c >= 32 && c < 127 && c != '\\') r += (char)c; else if (c == '\n') r += "\\n"; else snprintf(t, 8, "\\x%02X", c), r += t; return r.size() > 200 ? r.substr(0, 200) + "..." : r; }
static std::string show(const std::vector<tok> &v) { std::string r; for (auto &t : v) { r += "(" + show(t.text) + "," + std::to_string(t.type) + "," + std::to_string(t.count) + ")"; if (r.size() > 400) { r += "..."; break; } } return r; }
static void check(const char *what, parser &p, const std::string &text, const std::vector<tok> &want)
	{
	vf::eval();
	auto mem = std::make_unique<uint8_t []>(text.size()); memcpy(mem.get(), text.data(), text.size());
	static document doc; doc.contents = slice(mem.get(), text.size());
	p.set_document(doc);
	std::vector<tok> got;
	for (;;)
		{
		const auto &t = p.get_next_token(); vf::step();
		if (t.type == token::eof) break;
		if (t.get().size() > MOST) { vf::fail(what, "'%s': a token of %zu bytes", show(text).c_str(), t.get().size()); return; }
		got.push_back({(int)t.type, std::string((const char *)t.get().address(), t.get().size()), t.count});
		if (got.size() > want.size() + 3) break;
		}
	bool same = got.size() == want.size(); for (size_t i = 0; same && i < got.size(); i++) if (got[i] != want[i]) same = false;
	if (!same) { vf::fail(what, "'%s' gives %s, should be %s", show(text).c_str(), show(got).c_str(), show(want).c_str()); return; }
	for (int i = 0; i < 2; i++) if (p.get_next_token().type != token::eof) { vf::fail(what, "'%s': a token after the end", show(text).c_str()); return; }
	}
static void fasta(const std::string &text, size_t k)
	{
	std::vector<tok> want; size_t nl = text.find('\n'); std::string head = text.substr(0, nl);
	{ static auto the = std::make_unique<parser>(); static document d; d.contents = slice((void *)head.data(), head.size()); the->set_document(d); for (;;) { const auto &t = the->get_next_token(); if (t.type == token::eof) break; want.push_back({(int)t.type, std::string((const char *)t.get().address(), t.get().size()), t.count}); } }
	if (nl != std::string::npos)
		{
		std::string run; auto flush = [&]() { for (size_t i = 0; i + k <= run.size(); i++) want.push_back({token::alpha, run.substr(i, std::min(k, MOST)), 1}); run.clear(); };
		for (char c : text.substr(nl)) { if (strchr("acgtACGT", c) && c) run += (char)tolower(c); else if (!(c == ' ' || (c >= 9 && c <= 13))) flush(); }
		flush();
		}
	static std::map<size_t, std::unique_ptr<JASS::parser_fasta>> parsers; auto &p = parsers[k]; if (!p) p = std::make_unique<JASS::parser_fasta>(k);
	char what[40]; snprintf(what, 40, "fasta %zu", std::min(k, (size_t)8)); check(what, *p, text, want);
	}
static void unicoil(const std::string &text)
	{
	std::vector<tok> want; size_t at = 0, n = text.size();
	for (;;)
		{
		while (at < n && text[at] != '"') at++;
		if (at >= n) break;
		at++; std::string term;
		while (at < n && text[at] != '"') { if (text[at] == '\\' && at + 1 < n) term += text[at++]; term += text[at++]; }
		while (at < n && !isdigit((unsigned char)text[at])) at++;
		size_t value = 0; while (at < n && isdigit((unsigned char)text[at])) { value = std::min((size_t)10000000, value * 10 + (text[at] - '0')); at++; }
		if (value) want.push_back({token::alpha, term.substr(0, MOST), std::min(value, LARGEST)});
		}
	static JASS::parser_unicoil_json p; check("unicoil", p, text, want);
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	std::cout.setstate(std::ios::failbit);			// weights that are too large are reported there
	static const std::vector<std::string> bases = {"A", "c", "G", "\n", " ", "N", "x"};
	const size_t depth = T ? 9 : 7;
	for (auto &f : bases) for (auto &g : bases)
		{
		if (!vf::mine()) continue;
		vf::describe("every sequence starting '%s%s'", show(f).c_str(), show(g).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
		std::function<void(std::string, size_t)> go = [&](std::string s, size_t n) { for (size_t k = 1; k <= 4; k++) fasta(s, k); if (n < depth) for (auto &l : bases) go(s + l, n + 1); };
		go(">h1\n" + f + g, 2); if (&f == &g) go(">|" + f + "\n", 0 + 2); vf::tick();
		}
	static const std::vector<std::string> heads = {">", ">NR_118889.1", ">a b c|", "> <b", "><", "><!--", "><!-- x", "><?p", "><![CDATA[", ">x <y z=\"", ">1", ">\xC3\xA9", ">\xFF", ">a\r", ""};
	static const std::vector<std::string> tails = {"", "\n", "\nA", "\nAC", "\nACGTACGT", "\nACGTACGT\n", "\nACNGT ACG\n\nTT\n", "\n>A", "\nNNNN", "\nAC-->GT?>AC]]>\"AA", "\nACGUacgu"};
	for (auto &h : heads)
		{
		if (!vf::mine()) continue;
		vf::describe("header '%s'", show(h).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (auto &t : tails) for (size_t k = 1; k <= 5; k++) fasta(h + t, k);
		vf::tick();
		}
	for (size_t k : {5, 16, 31, 32, 1023, 1024, 1025, 3000})
		{
		if (!vf::mine()) continue;
		vf::describe("k-mers of %zu", k); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (size_t n : {k - 1, k, k + 1, k + 7})
			for (size_t gap = 0; gap <= n; gap += 1 + n / 50)
				for (const char *with : {"\n", "N", "", " N ", "\nN", "N\n"})
					{ std::string s; for (size_t i = 0; i < n; i++) { if (i == gap) s += with; s += "ACGT"[(i * i + i / 3) % 4]; } fasta(">h\n" + s, k); fasta(">h\n" + s + "\n", k); }
		vf::tick();
		}
	static const std::vector<std::string> pieces = {"\"", "a", "\\", ":", " 0", "1", "5", ", ", "}}", "\xC3\xA9", "\n", "-"};
	for (auto &f : pieces) for (auto &g : pieces)
		{
		if (!vf::mine()) continue;
		vf::describe("every vector starting '%s%s'", show(f).c_str(), show(g).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
		std::function<void(std::string, size_t)> go = [&](std::string s, size_t n) { unicoil(s); if (n < (T ? 6u : 5u)) for (auto &l : pieces) go(s + l, n + 1); };
		go(f + g, 2); vf::tick();
		}
	static const std::vector<std::string> terms = {"the", "##ing", "\\\"", "\\\\", "a b", "\xE2\x82\xAC", "", "7", "{", std::string(1022, 't'), std::string(1023, 't') + "\\n", std::string(1030, 'u')};
	static const std::vector<std::string> weights = {"0", "1", "94", "255", "256", "1023", "1024", "1025", "65535", "65536", "65537", "70000", "131072", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "007", "5.9"};
	for (auto &t : terms)
		{
		if (!vf::mine()) continue;
		vf::describe("weights of '%s'", show(t).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (auto &u : terms) for (auto &a : weights) for (auto &b : weights) { unicoil("\"" + t + "\": " + a + ", \"" + u + "\": " + b); unicoil("\"" + t + "\": " + a + ", \"" + u + "\": " + b + "}}"); }
		vf::tick();
		}
	if (vf::mine())
		{
		vf::describe("long vectors"); vf::nontrivial(vf::described());
		std::string zeros, all; for (int i = 0; i < 300000; i++) zeros += "\"z\": 0, "; for (int i = 0; i < 5000; i++) all += "\"t" + std::to_string(i) + "\": " + std::to_string(i % 1030) + ", ";
		unicoil(zeros); unicoil(zeros + "\"x\": 3"); unicoil(all);
		}
	std::string bounds = "every sequence of up to " + std::to_string(depth) + " of 7 characters with k of 1 to 4; 15 headers with 11 sequences; k up to 3000; every vector of up to " + std::string(T ? "6" : "5") + " of 12 pieces; 12 terms and 19 weights in pairs";
	return vf::finish(bounds.c_str());
	}

// P17: the tokeniser against a reference, on every small document, ending exactly where the allocation ends.
#include "vf.h"
#include <memory>
#include <functional>
#include "parser.h"
#include "unicode.h"
using JASS::parser; using JASS::unicode; using JASS::document; using JASS::slice;
typedef parser::token token;
struct tok { int type; std::string text; bool any_text; };
static const size_t MOST = token::max_token_length;
struct ref
	{
	const uint8_t *s; size_t n; std::vector<tok> out; bool malformed = false;		// malformed: markup that is not finished; what follows is not compared
	size_t decode(size_t at, uint32_t &c) const { size_t used; c = unicode::utf8_to_codepoint(s + at, s + n, used); return used; }
	static void utf8(std::string &into, bool &full, uint32_t c)
		{
		uint8_t b[8]; size_t k = unicode::codepoint_to_utf8(b, b + 8, c);
		if (into.size() + k > MOST) full = true;
		if (!full) into.append((char *)b, k);
		}
	size_t find(const char *what, size_t from) { std::string all((const char *)s, n); size_t r = all.find(what, from); if (r == std::string::npos) malformed = true; return r; }
	void emit(int type, const std::string &text, bool any = false) { out.push_back({type, text.substr(0, MOST), any}); }
	std::string between(size_t a, size_t b) { return std::string((const char *)s + a, b - a); }
	void run()
		{
		size_t at = 0; uint32_t c;
		while (at < n && !malformed)
			{
			size_t used = decode(at, c);
			if (used && unicode::isspace(c)) { at += used; continue; }
			if (used && (unicode::isalpha(c) || unicode::isdigit(c)))
				{
				bool word = unicode::isalpha(c), full = false; std::string text;
				while (used && (word ? unicode::isalpha(c) : unicode::isdigit(c)))
					{
					for (const uint32_t *f = unicode::tocasefold(c); *f; f++) utf8(text, full, *f);
					at += used; if (at >= n) break;
					used = decode(at, c);
					}
				emit(word ? token::alpha : token::numeric, text);
				continue;
				}
			if (s[at] != '<') { if (s[at] < 0x80) emit(token::other, between(at, at + 1)), at++; else emit(token::other, "", true), at += used ? used : 1; continue; }
			uint32_t next = 0, after = 0; size_t nu = decode(at + 1, next); size_t k;
			if (nu && unicode::isxmlnamestartchar(next))
				{
				size_t from = at + 1, to = from + nu, u;
				while (to < n && (u = decode(to, c)) && unicode::isxmlnamechar(c)) to += u;
				k = to; while (k < n && s[k] != '>') { if (s[k] == '"' || s[k] == '\'') { uint8_t q = s[k++]; while (k < n && s[k] != q) k++; } k++; }
				if (k >= n) { malformed = true; return; }
				emit(s[k - 1] == '/' ? token::xml_empty_tag : token::xml_start_tag, between(from, to)); at = k + 1;
				}
			else if (nu && next == '/')
				{
				size_t u = at + 2 < n ? decode(at + 2, after) : 0;
				if (u && unicode::isxmlnamestartchar(after)) { if ((k = find(">", at + 2)) == std::string::npos) return; emit(token::xml_end_tag, between(at + 2, k)); at = k + 1; }
				else emit(token::other, "<"), at++;
				}
			else if (nu && next == '?') { if ((k = find("?>", at + 2)) == std::string::npos) return; emit(token::xml_processing_instruction, between(at + 2, k)); at = k + 2; }
			else if (nu && next == '!')
				{
				std::string rest = between(at + 2, n);
				if (rest.compare(0, 2, "--") == 0) { if ((k = find("-->", at + 4)) == std::string::npos) return; emit(token::xml_comment, between(at + 4, k)); at = k + 3; }
				else if (!rest.empty() && rest[0] >= 'A' && rest[0] <= 'Z') { if ((k = find(">", at + 2)) == std::string::npos) return; emit(token::xml_definition, between(at + 2, k)); at = k + 1; }
				else if (rest.compare(0, 7, "[CDATA[") == 0) { if ((k = find("]]>", at + 9)) == std::string::npos) return; emit(token::xml_cdata, between(at + 9, k)); at = k + 3; }
				else if (!rest.empty() && rest[0] == '[') { if ((k = find("[", at + 3)) == std::string::npos || n - at < 8) { malformed = true; return; } emit(token::xml_conditional, between(at + 3, k)); at = k + 1; }
				else emit(token::other, "!"), at += 2;			// as the existing unit test has it ("<![t]>" is five tokens)
				}
			else emit(token::other, "<"), at++;
			}
		}
	};
static std::string show(const std::string &s) { std::string r; char t[8]; for (unsigned char c : s) if (c >= 32 && c < 127 && c != '\\') r += (char)c; else snprintf(t, 8, "\\x%02X", c), r += t; return r.size() > 200 ? r.substr(0, 200) + "..." : r; }
static parser *the_parser;
static void check(const std::string &text)
	{
	// the document ends where its memory ends
	static std::vector<std::unique_ptr<uint8_t []>> exact(64); std::unique_ptr<uint8_t []> big; uint8_t *mem;
	if (text.size() < 64) { auto &m = exact[text.size()]; if (!m) m = std::make_unique<uint8_t []>(text.size()); mem = m.get(); } else { big = std::make_unique<uint8_t []>(text.size()); mem = big.get(); }
	memcpy(mem, text.data(), text.size());
	vf::eval();
	ref r; r.s = mem; r.n = text.size(); r.run();
	static document doc; doc.contents = slice(mem, text.size());
	parser &p = *the_parser; p.set_document(doc);
	for (size_t i = 0; ; i++)
		{
		const auto &t = p.get_next_token(); vf::step();
		if (t.type == token::eof)
			{
			if (!r.malformed && i != r.out.size()) vf::fail("missing", "'%s': %zu tokens, should be %zu (the next is '%s')", show(text).c_str(), i, r.out.size(), show(r.out[i].text).c_str());
			for (int k = 0; k < 2; k++) if (p.get_next_token().type != token::eof) vf::fail("eof", "'%s': there are tokens after the end of input", show(text).c_str());
			break;
			}
		if (i > text.size()) { vf::fail("endless", "'%s': more tokens than bytes", show(text).c_str()); break; }
		const uint8_t *a = (const uint8_t *)t.get().address(); size_t k = t.get().size();
		if (k > MOST || (k && (a < t.buffer || a + k > t.buffer + MOST))) { vf::fail("token", "'%s': token %zu is %zu bytes and outside its buffer", show(text).c_str(), i, k); break; }
		if (i < r.out.size())
			{
			std::string got((const char *)a, k); auto &w = r.out[i];
			if (t.type != w.type) { vf::fail("type", "'%s': token %zu ('%s') is of type %d, should be '%s' of type %d", show(text).c_str(), i, show(got).c_str(), (int)t.type, show(w.text).c_str(), w.type); break; }
			if (!w.any_text && got != w.text) { vf::fail("text", "'%s': token %zu is '%s' (%zu bytes), should be '%s' (%zu bytes)", show(text).c_str(), i, show(got).c_str(), got.size(), show(w.text).c_str(), w.text.size()); break; }
			}
		else if (!r.malformed) { vf::fail("extra", "'%s': there is a token '%s' after the last", show(text).c_str(), show(std::string((const char *)a, k)).c_str()); break; }
		}
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	auto owned = std::make_unique<parser>(); the_parser = owned.get();
	// every document over a small alphabet
	static const std::vector<std::string> letters = {"a", "Z", "1", " ", "<", ">", "/", "!", "-", "\"", "?", "[", "]", "\xC3\x89", "\xE2\x80\x83", "\xFF", "\xC3", "\xC2\xBD"};
	const size_t depth = T ? 6 : 5;
	for (size_t f = 0; f < letters.size(); f++)
		for (size_t g = 0; g < letters.size(); g++)
			{
			if (!vf::mine()) continue;
			vf::describe("every document starting '%s%s'", show(letters[f]).c_str(), show(letters[g]).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
			if (f == 0 && g == 0) { check(""); for (auto &l : letters) check(l); }
			std::function<void(std::string, size_t)> go = [&](std::string s, size_t n) { check(s); if (n < depth) for (auto &l : letters) go(s + l, n + 1); };
			go(letters[f] + letters[g], 2); vf::tick();
			}
	// every code point: alone, in words, in numbers, in names
	for (uint32_t block = 0; block <= 0x10FFFF; block += T ? 0x1000 : 0x2000)
		{
		if (!vf::mine()) continue;
		vf::describe("code points from %X in context", block); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (uint32_t c = block; c < block + (T ? 0x1000 : 0x2000) && c <= 0x10FFFF; c++)
			{
			uint8_t b[4]; std::string u((char *)b, unicode::codepoint_to_utf8(b, b + 4, c)); if (u.empty()) continue;
			if (u.size() != (c < 0x80 ? 1u : c < 0x800 ? 2u : c < 0x10000 ? 3u : 4u)) vf::fail("encode", "%X", c);
			u.assign((char *)b, u.size());
			// planes without assigned characters are looked at more coarsely in the quick tier
			if (!T && c >= 0x20000 && c % 16) continue;
			check(u); check("aB" + u + "Cd"); check("12" + u + "34"); check("<x" + u + ">y"); check(u + "a" + u + "1" + u);
			if (c < 0x3000 || T) { check("<" + u + ">" + u); check(" " + u + " " + u + u); check("\xC3\x89" + u + "e"); check("</" + u + " >"); check(u.substr(0, u.size() - 1)); check("a" + u.substr(0, u.size() - 1)); check("<" + u.substr(0, u.size() - 1)); check("<a" + u.substr(0, u.size() - 1)); }
			}
		vf::tick();
		}
	// the inside of each kind of markup: every short sequence of the characters that end, quote or nest there
	struct inside { const char *open, *letters; size_t most; };
	static const std::vector<inside> insides = {{"<a ", "\"'>/ x=", 6}, {"<a", "\"'>/ <", 6}, {"</a", "\"'> <a", 6}, {"<!--", "->! x<", 7}, {"<!D", "[]>\"'<", 6}, {"<![CDATA[", "]>[ x<", 7}, {"<?a", "?> x\"<", 6}, {"<!", "->[D ", 6}};
	for (auto &i : insides)
		for (size_t f = 0; i.letters[f]; f++)
			for (size_t g = 0; i.letters[g]; g++)
				{
				if (!vf::mine()) continue;
				vf::describe("every sequence inside %s that starts with %c%c", i.open, i.letters[f], i.letters[g]); vf::nontrivial(vf::described());
				const size_t depth = i.most + (T ? 1 : 0);
				std::function<void(std::string, size_t)> go = [&](std::string s, size_t n) { check(s); check(s + ">end"); if (n < depth) for (const char *l = i.letters; *l; l++) go(s + *l, n + 1); };
				go(std::string("b") + i.open + i.letters[f] + i.letters[g], 2);
				}
	// sequences of well-formed markup and text, and every prefix of them
	static const std::vector<std::string> pieces = {"<DOC>", "</DOC>", "<a href=\"x>y\">", "<a b='\">'/>", "<br/>", "<br />", "<!-- a > b -- c -->", "<!---->", "<!-->-->", "<!DOCTYPE html>", "<![CDATA[a < b ]] > c]]>", "<![CDATA[]]>", "<![INCLUDE[", "]]>", "<?xml version=\"1.0\"?>", "<??>", "word", "Word2", "3.14", " \t\r\n", "<", "<!", "</", "< a", "<1>", "a<b", "&amp;", "<:x-1.y _z>", "\xC3\x89t\xC3\xA9", "\xE2\x85\xA7", "<\xC3\x89>", "<!a>", "</ a>", "<a\n b\n>", "--", "\xF0\x9D\x94\x98x"};
	for (size_t f = 0; f < pieces.size(); f++)
		{
		if (!vf::mine()) continue;
		vf::describe("markup starting '%s'", show(pieces[f]).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (size_t cut = 0; cut <= pieces[f].size(); cut++) check(pieces[f].substr(0, cut));
		for (auto &g : pieces)
			{
			std::string two = pieces[f] + g; for (size_t cut = pieces[f].size(); cut <= two.size(); cut++) check(two.substr(0, cut));
			for (auto &h : pieces) { check(two + h); if (T) { for (size_t cut = two.size(); cut < two.size() + h.size(); cut++) check((two + h).substr(0, cut)); for (auto &i : pieces) check(two + h + i); } }
			}
		vf::tick();
		}
	// tokens around the greatest length, of characters of every length
	static const std::vector<std::string> units = {"a", "7", "\xC3\xA9", "\xC3\x89", "\xE1\xBA\x9E", "\xE3\x81\x82", "\xF0\x90\x90\x80", "\xEF\xB7\xBA", "\xD9\xA3", "\xC2\xBD", "\xF0\x9D\x9F\x98"};
	for (auto &u : units)
		{
		if (!vf::mine()) continue;
		vf::describe("over-long tokens of '%s'", show(u).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (size_t bytes = MOST - 14; bytes <= MOST + 14; bytes++)
			for (auto &v : units)
				for (auto &w : units)
					{
					std::string s; while (s.size() + u.size() <= bytes) s += u; s += v; s += w;
					check(s); if (&v == &w) { check(" " + s + " x"); check("<" + s + ">x"); check("</" + s + ">x"); check("<!--" + s + "-->x"); check("<![CDATA[" + s + "]]>x"); check("<?" + s + "?>x"); check("<!A" + s + ">x"); check("<![A" + s + "[x"); check("<a b=\"" + s + "\">x"); check(s + s + s); }
					}
		vf::tick();
		}
	std::string bounds = "every document of up to " + std::to_string(depth) + " of 18 characters (some malformed UTF-8); the inside of eight kinds of markup with up to " + std::to_string(T ? 7 : 6) + " of 6 to 8 characters; code points in up to 13 contexts; every sequence of " + std::string(T ? "4" : "3") + " of 36 pieces of markup and text, with truncations; tokens around the greatest length of 11 kinds of characters";
	return vf::finish(bounds.c_str());
	}

// P18: query tokenisation against a reference and against the document tokeniser, on every small query.
#include "vf.h"
#include <map>
#include <memory>
#include <functional>
#include "parser.h"
#include "parser_query.h"
#include "allocator_pool.h"
using JASS::parser; using JASS::parser_query; using JASS::unicode; using JASS::query_term_list; using JASS::document; using JASS::slice;
struct order { bool operator()(const std::string &a, const std::string &b) const { return a.size() != b.size() ? a.size() < b.size() : memcmp(a.data(), b.data(), a.size()) < 0; } };
typedef std::map<std::string, size_t, order> bag;
static const size_t MOST = parser::token::max_token_length;
static std::string show(const std::string &s) { std::string r; char t[8]; for (unsigned char c : s) if (c >= 32 && c < 127 && c != '\\') r += (char)c; else snprintf(t, 8, "\\x%02X", c), r += t; return r.size() > 200 ? r.substr(0, 200) + "..." : r; }
static std::string show(const bag &b) { std::string r; for (auto &x : b) { r += "(" + show(x.first) + "," + std::to_string(x.second) + ")"; if (r.size() > 300) break; } return r; }

static bag reference(const std::string &text)
	{
	bag out; const uint8_t *at = (const uint8_t *)text.data(), *end = at + text.size(); size_t used;
	while (at < end)
		{
		uint32_t c = unicode::utf8_to_codepoint(at, end, used);
		bool word = used && unicode::isalpha(c), number = used && unicode::isdigit(c);
		if (!word && !number) { at += used ? used : 1; continue; }
		std::string got; bool full = false;
		for (;;)
			{
			for (const uint32_t *f = unicode::tocasefold(c); *f; f++)
				{ uint8_t b[8]; size_t k = unicode::codepoint_to_utf8(b, b + 8, *f); if (got.size() + k > MOST) full = true; if (!full) got.append((char *)b, k); }
			at += used; if (at >= end) break;
			c = unicode::utf8_to_codepoint(at, end, used);
			if (!used || !(word ? unicode::isalpha(c) : unicode::isdigit(c))) break;
			}
		out[got]++;
		}
	return out;
	}
static bag by_document(const std::string &text)
	{
	static auto the = std::make_unique<parser>(); static document doc;
	doc.contents = slice((void *)text.data(), text.size()); the->set_document(doc);
	bag out;
	for (;;) { const auto &t = the->get_next_token(); if (t.type == parser::token::eof) break; if (t.type == parser::token::alpha || t.type == parser::token::numeric) out[std::string((const char *)t.get().address(), t.get().size())]++; }
	return out;
	}
static bag reference_raw(const std::string &text)
	{
	bag out; std::string now;
	for (char c : text + " ") if (c == ' ' || (c >= 9 && c <= 13)) { if (!now.empty()) out[now]++; now.clear(); } else now += c;
	return out;
	}
static JASS::allocator_pool memory(1 << 20);
static parser_query the_parser(memory);
static bag collect(query_term_list &l, const std::string &text, const char *mode)
	{
	bag out; std::string last; bool first = true;
	for (auto &t : l)
		{
		std::string s((const char *)t.token().address(), t.token().size());
		if (((const char *)t.token().address())[t.token().size()] != 0) vf::fail("terminator", "%s '%s': '%s' is not followed by NUL", mode, show(text).c_str(), show(s).c_str());
		if (!first && !order()(last, s)) vf::fail("order", "%s '%s': '%s' before '%s'", mode, show(text).c_str(), show(last).c_str(), show(s).c_str());
		out[s] += t.frequency(); last = s; first = false; vf::step();
		}
	return out;
	}
static void check(const std::string &text, bool markup = false)
	{
	vf::eval();
	bag want = reference(text);
	static unsigned uses = 0; if (uses++ % 256 == 0) memory.rewind();
	{
	query_term_list l; the_parser.parse(l, text);
	bag got = collect(l, text, "query");
	if (got != want) vf::fail("query", "'%s' gives %s, should be %s", show(text).c_str(), show(got).c_str(), show(want).c_str());
	}
	if (!markup)
		{
		bag got = by_document(text);
		if (got != want) vf::fail("document", "'%s' as a document gives %s, as a query %s", show(text).c_str(), show(got).c_str(), show(want).c_str());
		// each term is a query for itself
		for (auto &w : want) { query_term_list l; the_parser.parse(l, w.first); bag again = collect(l, w.first, "term"); if (again != bag{{w.first, 1}} && !w.first.empty()) { bag r = reference(w.first); if (again != r) vf::fail("term", "'%s' as a query gives %s", show(w.first).c_str(), show(again).c_str()); } }
		}
	if (text.find('\0') == std::string::npos)
		{
		query_term_list l; the_parser.parse(l, text, parser_query::raw);
		bag got = collect(l, text, "raw"), raw = reference_raw(text);
		if (got != raw) vf::fail("raw", "'%s' gives %s, should be %s", show(text).c_str(), show(got).c_str(), show(raw).c_str());
		}
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
#ifdef JASS_VERIFY_MAX_QUERY_TERMS
	static const std::vector<std::string> letters = {"a", "B", "1", "2", " ", "-", "\n", "\xC3\x89", "\xE2\x80\x83", "\xC2\xBD", "\xEF\xB7\xBA", "\xFF", "\xC3", "\xE2\x80", "\xF0\x9D\x94\x98", std::string(1, '\0')};
	const size_t depth = T ? 6 : 5;
	for (auto &f : letters)
		for (auto &g : letters)
			{
			if (!vf::mine()) continue;
			vf::describe("every query starting '%s%s'", show(f).c_str(), show(g).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
			if (&f == &letters[0] && &g == &letters[0]) { check(""); for (auto &l : letters) check(l); }
			std::function<void(std::string, size_t)> go = [&](std::string s, size_t n) { check(s); if (n < depth) for (auto &l : letters) go(s + l, n + 1); };
			go(f + g, 2); vf::tick();
			}
	for (uint32_t block = 0; block <= 0x10FFFF; block += 0x1000)
		{
		if (!vf::mine()) continue;
		vf::describe("code points from %X in context", block); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (uint32_t c = block; c < block + 0x1000 && c <= 0x10FFFF; c++)
			{
			uint8_t b[4]; std::string u((char *)b, unicode::codepoint_to_utf8(b, b + 4, c)); if (u.empty()) continue;
			bool m = c == '<';
			check(u, m); check("aB" + u + "Cd " + u, m); check("12" + u + "34" + u, m); if (T) { check(u + u + u, m); check(u.substr(0, u.size() - 1) + "b", m); check("\xC3\x89" + u + "e" + u, m); }
			}
		vf::tick();
		}
	// every sequence of words: order and counts
	static const std::vector<std::string> words = {"a", "b", "A", "ab", "ba", "aa", "1", "10", "9", "\xC3\xA9", "abc", "z"};
	for (auto &f : words)
		{
		if (!vf::mine()) continue;
		vf::describe("words starting '%s'", show(f).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
		std::function<void(std::string, size_t)> go = [&](std::string s, size_t n) { check(s); if (n < (T ? 6u : 5u)) for (auto &l : words) go(s + " " + l, n + 1); };
		go(f, 1); vf::tick();
		}
	// markup is text in a query
	static const std::vector<std::string> marks = {"<", ">", "/", "a", "B", "1", " ", "!", "\"", "&amp;"};
	if (vf::mine())
		{
		vf::describe("markup in queries"); vf::nontrivial(vf::described());
		std::function<void(std::string, size_t)> go = [&](std::string s, size_t n) { check(s, true); if (n < 5) for (auto &l : marks) go(s + l, n + 1); };
		go("", 0); vf::tick();
		}
	// over-long words
	static const std::vector<std::string> units = {"a", "7", "\xC3\xA9", "\xC3\x89", "\xE1\xBA\x9E", "\xE3\x81\x82", "\xF0\x90\x90\x80", "\xEF\xB7\xBA", "\xD9\xA3", "\xC2\xBD", "\xF0\x9D\x9F\x98"};
	for (auto &u : units)
		{
		if (!vf::mine()) continue;
		vf::describe("over-long words of '%s'", show(u).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (size_t bytes = MOST - 14; bytes <= MOST + 14; bytes++)
			for (auto &v : units)
				for (auto &w : units)
					{ std::string s; while (s.size() + u.size() <= bytes) s += u; s += v; s += w; check(s); check("x " + s + " x"); }
		vf::tick();
		}
	// terms of one parse stay as they are during later ones
	if (vf::mine())
		{
		vf::describe("successive parses without rewinding"); vf::nontrivial(vf::described());
		for (auto &a : words) for (auto &b : words) for (auto &c : words)
			{
			memory.rewind(); std::string q1 = a + " " + b + " " + a, q2 = b + "-" + c;
			query_term_list one, two; the_parser.parse(one, q1); the_parser.parse(two, q2, parser_query::raw);
			{ query_term_list x; the_parser.parse(x, c + c + c + " " + a); }
			vf::eval();
			if (collect(one, q1, "first") != reference(q1)) vf::fail("later", "the terms of '%s' changed", show(q1).c_str());
			if (collect(two, q2, "second") != reference_raw(q2)) vf::fail("later", "the terms of '%s' changed", show(q2).c_str());
			}
		vf::tick();
		}
#else
	// as many terms as a query can have
	for (size_t n : {1000, 65534, 65535})
		for (int kind = 0; kind < 4; kind++)
			{
			if (!vf::mine()) continue;
			vf::describe("%zu terms (kind %d)", n, kind); vf::nontrivial(vf::described()); vf::sample(vf::described());
			std::string q; for (size_t i = 0; i < n; i++) { if (kind == 0) q += "a"; else if (kind == 1) q += std::to_string(i); else if (kind == 2) q += std::to_string(i * 7919 % 65537); else q += std::string(1 + i % 3, (char)('a' + i % 26)); q += ' '; }
			vf::eval(); memory.rewind();
			auto l = std::make_unique<query_term_list>(); the_parser.parse(*l, q);
			bag got = collect(*l, q, "query"), want = reference(q);
			if (got != want) vf::fail("query", "%zu terms (kind %d): wrong", n, kind);
			memory.rewind();
			auto r = std::make_unique<query_term_list>(); the_parser.parse(*r, q, parser_query::raw);
			if (collect(*r, q, "raw") != want) vf::fail("raw", "%zu terms (kind %d): wrong", n, kind);
			vf::tick();
			}
	const size_t depth = 0;
#endif
	std::string bounds = "every query of up to " + std::to_string(depth) + " of 16 characters (some malformed UTF-8); code points in " + std::string(T ? "6" : "3") + " contexts; every sequence of up to " + std::string(T ? "6" : "5") + " of 12 words; markup; words around the greatest length; up to 65535 terms";
	return vf::finish(bounds.c_str());
	}

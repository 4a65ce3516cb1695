// P22: the Porter stemmer against the published algorithm (Program 14(3), 1980).
#include "vf.h"
#include <string>
#include <functional>
#include "stem_porter.h"
typedef std::string S;
namespace ref
	{
	static bool cons(const S &w, size_t i) { char c = w[i]; if (strchr("aeiou", c)) return false; if (c == 'y') return i == 0 || !cons(w, i - 1); return true; }
	static size_t m(const S &w) { size_t n = 0; for (size_t i = 1; i < w.size(); i++) if (cons(w, i) && !cons(w, i - 1)) n++; return n; }
	static bool v(const S &w) { for (size_t i = 0; i < w.size(); i++) if (!cons(w, i)) return true; return false; }
	static bool strict;			// is the yy of "byy", a vowel and a consonant, a double consonant?  The paper can be read either way
	static bool d(const S &w) { if (strict && !w.empty() && w.back() == 'y') return false; size_t n = w.size(); return n >= 2 && w[n - 1] == w[n - 2] && cons(w, n - 1); }
	static bool o(const S &w) { size_t n = w.size(); return n >= 3 && cons(w, n - 3) && !cons(w, n - 2) && cons(w, n - 1) && !strchr("wxy", w[n - 1]); }
	static bool ends(const S &w, const char *s, S &stem) { size_t l = strlen(s); if (w.size() < l || w.compare(w.size() - l, l, s)) return false; stem = w.substr(0, w.size() - l); return true; }
	struct rule { const char *from, *to; };
	static const rule step2[] = {{"ational", "ate"}, {"tional", "tion"}, {"enci", "ence"}, {"anci", "ance"}, {"izer", "ize"}, {"abli", "able"}, {"alli", "al"}, {"entli", "ent"}, {"eli", "e"}, {"ousli", "ous"}, {"ization", "ize"}, {"ation", "ate"}, {"ator", "ate"}, {"alism", "al"}, {"iveness", "ive"}, {"fulness", "ful"}, {"ousness", "ous"}, {"aliti", "al"}, {"iviti", "ive"}, {"biliti", "ble"}};
	static const rule step3[] = {{"icate", "ic"}, {"ative", ""}, {"alize", "al"}, {"iciti", "ic"}, {"ical", "ic"}, {"ful", ""}, {"ness", ""}};
	static const rule step4[] = {{"al", ""}, {"ance", ""}, {"ence", ""}, {"er", ""}, {"ic", ""}, {"able", ""}, {"ible", ""}, {"ant", ""}, {"ement", ""}, {"ment", ""}, {"ent", ""}, {"ion", ""}, {"ou", ""}, {"ism", ""}, {"ate", ""}, {"iti", ""}, {"ous", ""}, {"ive", ""}, {"ize", ""}};
	// only the longest matching suffix of a step is tried
	template <size_t N> static void apply(S &w, const rule (&rules)[N], size_t more)
		{
		const rule *best = nullptr; S stem, x; for (auto &r : rules) if (ends(w, r.from, x) && (!best || strlen(r.from) > strlen(best->from))) { best = &r; stem = x; }
		if (best && m(stem) > more && (strcmp(best->from, "ion") || (!stem.empty() && strchr("st", stem.back())))) w = stem + best->to;
		}
	static S porter(S w)
		{
		S x; size_t n;
		if (ends(w, "sses", x)) w = x + "ss"; else if (ends(w, "ies", x)) w = x + "i"; else if (ends(w, "ss", x)) {} else if (ends(w, "s", x)) w = x;
		bool more = false;
		if (ends(w, "eed", x)) { if (m(x) > 0) w = x + "ee"; } else if (ends(w, "ed", x)) { if (v(x)) { w = x; more = true; } } else if (ends(w, "ing", x)) { if (v(x)) { w = x; more = true; } }
		if (more) { if (ends(w, "at", x) || ends(w, "bl", x) || ends(w, "iz", x)) w += "e"; else if (d(w) && !strchr("lsz", w.back())) w.pop_back(); else if (m(w) == 1 && o(w)) w += "e"; }
		if (ends(w, "y", x) && v(x)) w = x + "i";
		apply(w, step2, 0); apply(w, step3, 0); apply(w, step4, 1);
		if (ends(w, "e", x)) { n = m(x); if (n > 1 || (n == 1 && !o(x))) w = x; }
		if (m(w) > 1 && d(w) && w.back() == 'l') w.pop_back();
		return w;
		}
	}
static JASS::stem_porter *stemmer;
static void word(const S &w)
	{
	vf::eval();
	static char out[2048]; out[w.size() + 1] = 'Z';
	size_t n = stemmer->tostem(out, w.data(), w.size());
	bool bad = out[w.size() + 1] != 'Z' || n > w.size() || strlen(out) != n;
	if (bad) { vf::fail("bounds", "%s: length %zu, stem %s", w.c_str(), n, out); return; }
	if (w.size() <= 2 && S(out) == w) return;			// the paper does not say what to do with one and two letter words; Porter's own program leaves them
	ref::strict = true; S want = ref::porter(w);
	if (want != out && w.find("yy") != S::npos) { ref::strict = false; want = ref::porter(w); }
	if (want != out) vf::fail("stem", "%s is stemmed to %s, should be %s", w.c_str(), out, want.c_str());
	}
static void all(const S &letters, size_t length, std::function<void(const S &)> f) { S w(length, letters[0]); std::vector<size_t> i(length); for (;;) { f(w); size_t k = 0; while (k < length && ++i[k] == letters.size()) { i[k] = 0; w[k] = letters[0]; k++; } if (k == length) return; w[k] = letters[i[k]]; } }
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough(); stemmer = new JASS::stem_porter;
	const S az = "abcdefghijklmnopqrstuvwxyz", few = "aeybtlsw";
	// every word of a few letters
	for (char c : az)
		for (char d : az)
			{
			if (!vf::mine()) continue;
			vf::describe("every word of up to %d letters that ends in %c%c", T ? 6 : 5, c, d); vf::nontrivial(vf::described());
			S end = S(1, c) + d; word(S(1, d)); word(end);
			for (size_t n = 1; n <= (T ? 4u : 3u); n++) { vf::tick(); all(az, n, [&](const S &w) { word(w + end); }); }
			}
	// every stem over a few letters with every suffix and every pair of suffixes that the algorithm knows
	std::vector<S> suffix{"", "s", "sses", "ies", "ss", "eed", "ed", "ing", "at", "bl", "iz", "y", "e", "ll", "at" "ed", "bl" "ing", "iz" "ing", "logi", "bli", "ly", "li", "tic", "sion", "tion", "lle"};
	for (auto &r : ref::step2) { suffix.push_back(r.from); if (*r.to) suffix.push_back(r.to); } for (auto &r : ref::step3) suffix.push_back(r.from); for (auto &r : ref::step4) suffix.push_back(r.from);
	std::sort(suffix.begin(), suffix.end()); suffix.erase(std::unique(suffix.begin(), suffix.end()), suffix.end());
	for (auto &s : suffix)
		{
		if (!vf::mine()) continue;
		vf::describe("every stem with \"%s\" and another suffix", s.c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (auto &t : suffix)
			{
			vf::tick();
			if (s.empty() && t.empty()) continue;
			for (size_t n = 0; n <= (T ? 6u : t.empty() || s.empty() ? 5u : 4u); n++) if (n == 0) word(s + t); else all(few, n, [&](const S &w) { word(w + s + t); });
			}
		}
	// long words, the same place for the word and its stem, words in tokens
	if (vf::mine())
		{
		vf::describe("long words"); vf::nontrivial(vf::described());
		for (size_t n : {100, 254, 255, 256, 1000}) for (auto &p : {S("y"), S("a"), S("b"), S("ab"), S("tion"), S("ing"), S("ya")}) for (auto &s : suffix) { S w; while (w.size() < n) w += p; word(w + s); }
		for (auto &s : suffix)
			{
			S w = "relat" + s; char b[64]; strcpy(b, w.c_str()); size_t n = stemmer->tostem(b, b, w.size()); vf::eval();
			if (S(b, n) != ref::porter(w)) vf::fail("in place", "%s stemmed in place is %s", w.c_str(), b);
			JASS::parser::token from, to; from.lexeme = JASS::slice((void *)w.data(), w.size()); n = stemmer->tostem(to, from);
			if (S((char *)to.lexeme.address(), to.lexeme.size()) != ref::porter(w) || n != to.lexeme.size()) vf::fail("token", "%s in a token is %s", w.c_str(), S((char *)to.lexeme.address(), to.lexeme.size()).c_str());
			}
		}
	return vf::finish("every word of up to 5 (6) letters; every stem of up to 4 (6) letters of 8 with every pair of 70 suffixes; words of up to 1000 letters");
	}

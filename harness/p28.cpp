// P28: command line parsing: every argument list over a set of options, against a reference.
#include "vf.h"
#include <functional>
#include <cmath>
#include <optional>
#include <limits>
#include "commandline.h"
using JASS::commandline;
enum kind { BOOL, I16, I32, I64, U16, U32, U64, FLOAT, DOUBLE, STRING };
struct option { std::string s, l; kind k; };
struct values
	{
	bool b1 = false, b2 = false; short i16 = -7; int i32 = -7; long long i64 = -7; unsigned short u16 = 7; unsigned u32 = 7; unsigned long long u64 = 7; float f = 0.25f; double d = 0.25; std::string s = "default"; int near = -7; std::string t = "default";
	bool operator==(const values &w) const { return b1 == w.b1 && b2 == w.b2 && i16 == w.i16 && i32 == w.i32 && i64 == w.i64 && u16 == w.u16 && u32 == w.u32 && u64 == w.u64 && f == w.f && d == w.d && s == w.s && near == w.near && t == w.t; }
	std::string show() const { char m[500]; snprintf(m, sizeof(m), "%d %d %d %d %lld %u %u %llu %g %g '%s' %d '%s'", b1, b2, i16, i32, i64, u16, u32, u64, f, d, s.c_str(), near, t.c_str()); return m; }
	};
static const std::vector<option> options = {{"-b", "--boolean", BOOL}, {"-c", "--choose", BOOL}, {"-i2", "--int16", I16}, {"-i", "--integer", I32}, {"-I", "--Integer64", I64}, {"-u2", "--u16", U16}, {"-u", "--unsigned", U32}, {"-U", "--Unsigned64", U64}, {"-f", "--float", FLOAT}, {"-d", "--double", DOUBLE}, {"-s", "--string", STRING}, {"-n", "--integer_near", I32}, {"-st", "--string_two", STRING}};
// the value a text stands for: an integer with an optional sign, decimal or hexadecimal
static bool integer(const std::string &t, __int128 &v)
	{
	size_t at = 0; bool minus = false; v = 0;
	if (at < t.size() && (t[at] == '-' || t[at] == '+')) minus = t[at++] == '-';
	int base = 10; if (t.size() > at + 2 && t[at] == '0' && (t[at + 1] == 'x' || t[at + 1] == 'X')) { base = 16; at += 2; }
	if (at >= t.size()) return false;
	for (; at < t.size(); at++) { int d = t[at] >= '0' && t[at] <= '9' ? t[at] - '0' : t[at] >= 'a' && t[at] <= 'f' ? t[at] - 'a' + 10 : t[at] >= 'A' && t[at] <= 'F' ? t[at] - 'A' + 10 : 99; if (d >= base) return false; v = v * base + d; if (v > ((__int128)1 << 100)) v = (__int128)1 << 100; }
	if (minus) v = -v;
	return true;
	}
static bool real(const std::string &t, long double &v)
	{
	size_t at = 0; bool minus = false; v = 0; long double scale = 1; bool digits = false;
	__int128 hex; if ((t.find("0x") == 0 || t.find("-0x") == 0) && integer(t, hex)) { v = hex; return true; }
	if (at < t.size() && (t[at] == '-' || t[at] == '+')) minus = t[at++] == '-';
	for (; at < t.size() && isdigit((unsigned char)t[at]); at++) v = v * 10 + (t[at] - '0'), digits = true;
	if (at < t.size() && t[at] == '.') for (at++; at < t.size() && isdigit((unsigned char)t[at]); at++) v += (t[at] - '0') * (scale /= 10), digits = true;
	if (digits && at < t.size() && t[at] == 'e') { int e = 0; bool me = false; size_t p = at + 1; if (p < t.size() && (t[p] == '-' || t[p] == '+')) me = t[p++] == '-'; if (p < t.size()) { bool all = true; for (size_t q = p; q < t.size(); q++) { if (!isdigit((unsigned char)t[q])) all = false; else e = e * 10 + t[q] - '0'; } if (all) { v *= powl(10, me ? -e : e); at = t.size(); } } }
	if (!digits || at != t.size()) return false;
	if (minus) v = -v;
	return true;
	}
template <typename T> static bool fits(__int128 v, T &into) { if (v < (__int128)(std::numeric_limits<T>::min)() || v > (__int128)(std::numeric_limits<T>::max)()) return false; into = (T)v; return true; }
static bool assign(const option &o, size_t which, const std::string &text, values &v)
	{
	__int128 n; long double r;
	switch (o.k)
		{
		case I16: return integer(text, n) && fits(n, v.i16);
		case I32: return integer(text, n) && fits(n, which == 11 ? v.near : v.i32);
		case I64: return integer(text, n) && fits(n, v.i64);
		case U16: return integer(text, n) && fits(n, v.u16);
		case U32: return integer(text, n) && fits(n, v.u32);
		case U64: return integer(text, n) && fits(n, v.u64);
		case FLOAT: if (!real(text, r) || fabsl(r) > (std::numeric_limits<float>::max)()) return false; v.f = (float)(double)r; return true;
		case DOUBLE: if (!real(text, r) || fabsl(r) > (std::numeric_limits<double>::max)()) return false; v.d = (double)r; return true;
		case STRING: (which == 12 ? v.t : v.s) = text; return true;
		default: return false;
		}
	}
// the reference: each argument is the longest option name it starts with, then its value, joined or in the next argument
static bool reference(const std::vector<std::string> &args, values &v, std::vector<std::string> &bad)
	{
	for (size_t i = 0; i < args.size(); i++)
		{
		const std::string &a = args[i]; size_t best = 0, which = 0;
		for (size_t o = 0; o < options.size(); o++)
			for (auto &name : {options[o].s, options[o].l})
				if (a.compare(0, name.size(), name) == 0 && name.size() > best && (options[o].k != BOOL || a == name)) best = name.size(), which = o;
		if (!best) { bad.push_back(a); continue; }
		const option &o = options[which];
		if (o.k == BOOL) { (which == 0 ? v.b1 : v.b2) = true; continue; }
		if (a.size() > best) { if (!assign(o, which, a.substr(best), v)) bad.push_back(a.substr(best)); }
		else if (i + 1 == args.size()) bad.push_back("");
		else if (!assign(o, which, args[++i], v)) bad.push_back(args[i]);
		}
	return bad.empty();
	}
static void check(const std::vector<std::string> &args)
	{
	values got, want; std::vector<std::string> bad;
	auto all = std::make_tuple(commandline::note("\nNOTE"),
		commandline::parameter("-b", "--boolean", "x", got.b1), commandline::parameter("-c", "--choose", "x", got.b2), commandline::parameter("-i2", "--int16", "x", got.i16), commandline::parameter("-i", "--integer", "x", got.i32),
		commandline::note(""), commandline::parameter("-I", "--Integer64", "x", got.i64), commandline::parameter("-u2", "--u16", "x", got.u16), commandline::parameter("-u", "--unsigned", "x", got.u32), commandline::parameter("-U", "--Unsigned64", "x", got.u64),
		commandline::parameter("-f", "--float", "x", got.f), commandline::parameter("-d", "--double", "x", got.d), commandline::parameter("-s", "--string", "x", got.s), commandline::parameter("-n", "--integer_near", "x", got.near), commandline::parameter("-st", "--string_two", "x", got.t));
	// the list ends where argc says: what is beyond it is not readable
	std::vector<std::vector<char>> text; const char **argv = new const char *[args.size() + 1]; static const char program[] = "program"; argv[0] = program; std::string how;
	text.reserve(args.size());
	for (size_t i = 0; i < args.size(); i++) { text.emplace_back(args[i].begin(), args[i].end()); text.back().push_back(0); text.back().shrink_to_fit(); argv[i + 1] = text.back().data(); how += (i ? " " : "") + args[i]; }
	std::string error = "before"; bool ok, expect = reference(args, want, bad);
	vf::eval(); vf::step(args.size());
	try { ok = commandline::parse((int)args.size() + 1, argv, all, error); }
	catch (...) { vf::fail("throws", "'%s': parsing throws", how.c_str()); delete [] argv; return; }
	delete [] argv;
	if (ok != expect) { vf::fail(expect ? "refused" : "accepted", "'%s' is %s, should be %s (%s)", how.c_str(), ok ? "accepted" : "refused", expect ? "accepted" : "refused", error.c_str()); return; }
	if (ok != error.empty()) vf::fail("message", "'%s' is %s with message '%s'", how.c_str(), ok ? "accepted" : "refused", error.c_str());
	for (auto &b : bad) if (error.find(b) == std::string::npos) vf::fail("unnamed", "'%s': the problem with '%s' is not named in '%s'", how.c_str(), b.c_str(), error.c_str());
	if (!(got == want)) vf::fail("values", "'%s' sets %s, should set %s", how.c_str(), got.show().c_str(), want.show().c_str());
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	// one option, every way of writing it, every value
	std::vector<std::string> texts = {"0", "1", "-1", "+3", "7", "42", "-42", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551615", "99999999999999999999999", "-99999999999999999999999", "0x1F", "0xffff", "0x10000", "-0x8000", "0xffffffffffffffff", "0x10000000000000000", "12abc", "abc", "-", "1.5", "-1.5", ".5", "0.0", "-0.25", "1e3", "1e39", "-1e39", "1e309", "1e-10", "5.", "1e", "a b", "-b", "--boolean", "-i", "x-y", "0x", "_min", "=5", "3-1"};
	for (auto &o : options)
		for (auto &name : {o.s, o.l})
			{
			if (!vf::mine()) continue;
			vf::describe("%s with every value, joined and separated, alone and between other options", name.c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
			check({name});
			for (auto &t : texts)
				for (auto &before : std::vector<std::vector<std::string>>{{}, {"-b"}, {"--string", "text"}, {"-i", "5"}, {"nonsense"}})
					for (auto &after : std::vector<std::vector<std::string>>{{}, {"-c"}, {"-u9"}, {"--double"}, {"-q"}})
						for (int joined = 0; joined < 2; joined++)
							{
							std::vector<std::string> a = before;
							if (joined) a.push_back(name + t); else a.push_back(name), a.push_back(t);
							a.insert(a.end(), after.begin(), after.end()); check(a);
							}
			if (o.k == STRING) { check({name, ""}); check({name, "", "-b"}); }
			vf::tick();
			}
	// every list of arguments up to a length
	std::vector<std::string> words = {"-b", "--boolean", "-c", "-bx", "-i", "-i5", "-i2", "-i27", "--integer", "--integer-8", "--integer_near", "--integer_near3", "-u", "-u4", "-s", "-stext", "-st", "--string_two", "--string", "-d2.5", "-d", "5", "0", "-3", "text", "", "-", "--", "--boo", "-U18446744073709551615", "-f-0.5", "--int169"};
	const size_t depth = T ? 5 : 4;
	for (size_t f = 0; f < words.size(); f++)
		for (size_t g = 0; g < words.size(); g++)
			{
			if (!vf::mine()) continue;
			vf::describe("every list of arguments starting '%s' '%s'", words[f].c_str(), words[g].c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
			std::vector<std::string> path{words[f], words[g]};
			if (f == 0 && g == 0) { check({}); for (auto &w : words) check({w}); }
			std::function<void()> go = [&]() { check(path); if (path.size() < depth) for (auto &w : words) { path.push_back(w); go(); path.pop_back(); } else vf::tick(); };
			go();
			}
	std::string bounds = "13 options of 10 types (some names starting with others), both names, 57 values joined and separated in 25 contexts; every list of up to " + std::to_string(depth) + " arguments over 32 words";
	return vf::finish(bounds.c_str());
	}

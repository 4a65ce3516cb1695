// P15 (one thread): every short sequence of keys, and every key of some families.
#include "vf.h"
#include "allocator_pool.h"
#include "slice.h"
#include "binary_tree.h"
#include "hash_table.h"
#include <map>
struct element { long value; element(JASS::allocator &) : value(0) {} };
static std::ostream &operator<<(std::ostream &o, const element &e) { return o << e.value; }
static bool shorter(const std::string &a, const std::string &b) { if (a.size() != b.size()) return a.size() < b.size(); return memcmp(a.data(), b.data(), a.size()) < 0; }
template <typename D> static void check(D &d, bool ordered, std::map<std::string, std::pair<long, element *>> &model, const std::vector<std::string> &history, const char *what)
	{
	auto text = [&]() { std::string s; for (size_t i = 0; i < history.size() && i < 12; i++) s += vf::esc(history[i]) + " "; return s; };
	std::map<std::string, int> seen; std::string last; int direction = 0; size_t n = 0;
	for (const auto entry : d)
		{
		std::string k((char *)entry.first.address(), entry.first.size());
		auto m = model.find(k);
		if (m == model.end()) { vf::fail("iteration", "%s after keys %s: iteration reports %s, which was never inserted", what, text().c_str(), vf::esc(k).c_str()); return; }
		if (seen[k]++) { vf::fail("twice", "%s after keys %s: iteration reports %s twice", what, text().c_str(), vf::esc(k).c_str()); return; }
		if (m->second.second != &entry.second || m->second.first != entry.second.value) { vf::fail("element", "%s after keys %s: iteration reports another element for %s", what, text().c_str(), vf::esc(k).c_str()); return; }
		if (ordered && n) { bool less = shorter(last, k); if (direction && direction != (less ? 1 : -1)) { vf::fail("order", "%s after keys %s: not in key order at %s", what, text().c_str(), vf::esc(k).c_str()); return; } direction = less ? 1 : -1; }
		last = k; n++;
		}
	if (n != model.size()) vf::fail("lost", "%s after keys %s: %zu keys inserted, iteration reports %zu", what, text().c_str(), model.size(), n);
	}
template <typename D> static void sequence(const std::vector<std::string> &keys, bool ordered, const char *what, bool every, size_t block)
	{
	vf::eval();
	JASS::allocator_pool pool(block); D d(pool); std::map<std::string, std::pair<long, element *>> model; long next = 1;
	if (every) { std::vector<std::string> none; check(d, ordered, model, none, what); }
	for (size_t i = 0; i < keys.size(); i++)
		{
		std::string copy = keys[i];
		element &e = d[JASS::slice((void *)copy.data(), copy.size())];
		std::fill(copy.begin(), copy.end(), 'Z');
		auto m = model.find(keys[i]);
		if (m == model.end()) { for (auto &x : model) if (keys.size() < 50 && x.second.second == &e) vf::fail("element", "%s: keys %s and %s share an element", what, vf::esc(x.first).c_str(), vf::esc(keys[i]).c_str()); if (e.value) vf::fail("element", "%s: a new key's element is not new", what); e.value = next; model[keys[i]] = {next++, &e}; }
		else if (m->second.second != &e || e.value != m->second.first) { vf::fail("element", "%s: key %s (number %zu) gives another element than before", what, vf::esc(keys[i]).c_str(), i); return; }
		vf::step();
		if (every && i + 1 < keys.size()) { std::vector<std::string> h(keys.begin(), keys.begin() + i + 1); check(d, ordered, model, h, what); }
		}
	check(d, ordered, model, keys, what);
	}
static void one(const std::vector<std::string> &k, int structure, bool every = true)
	{
	if (structure == 0) sequence<JASS::binary_tree<JASS::slice, element>>(k, true, "tree", every, 4096);
	else if (structure == 1) sequence<JASS::hash_table<JASS::slice, element, 8>>(k, false, "table of 8 bits", every, 4096);
	else if (structure == 2) sequence<JASS::hash_table<JASS::slice, element, 16>>(k, false, "table of 16 bits", every, 65536 * 9);
	else sequence<JASS::hash_table<JASS::slice, element, 24>>(k, false, "table of 24 bits", every, 1 << 20);
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	std::vector<std::string> small = {"", "a", "b", "aa", "ab", std::string("a\0", 2), "\x80", "\xFFz"};
	// keys of one bucket
	std::vector<std::string> same; { std::map<size_t, std::vector<std::string>> by; for (char a = 'a'; a <= 'z'; a++) for (char b = 'a'; b <= 'z'; b++) { std::string s = {a, b}; by[JASS::hash_pearson::hash<8>(JASS::slice((void *)s.data(), 2))].push_back(s); } for (auto &b : by) if (b.second.size() > same.size()) same = b.second; }
	const int DEPTH = vf::q(5, 6);
	for (int structure : {0, 1})
		for (auto *set : {&small, &same})
			for (size_t first = 0; first < set->size(); first++)
				for (size_t second = 0; second < set->size(); second++)
					{
					if (!vf::mine()) continue;
					vf::describe("%s, every sequence of %d keys starting %s %s", structure ? "table" : "tree", DEPTH, vf::esc((*set)[first]).c_str(), vf::esc((*set)[second]).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
					size_t B = set->size(), total = 1; for (int i = 2; i < DEPTH; i++) total *= B;
					for (size_t code = 0; code < total; code++)
						{
						std::vector<std::string> k = {(*set)[first], (*set)[second]}; size_t c = code; for (int i = 2; i < DEPTH; i++) { k.push_back((*set)[c % B]); c /= B; }
						one(k, structure, false);
						}
					one({(*set)[first], (*set)[second]}, structure, true);
					one({(*set)[first]}, structure, true);
					one({(*set)[first], (*set)[second]}, 2, true);
					}
	// every string over a small alphabet up to a length, in several orders, twice over
	std::string bytes("\0a\x7F\x80\xFF", 5);
	for (int structure : {0, 1, 2, 3})
		for (int order : {0, 1, 2, 3})
			{
			if (!vf::mine()) continue;
			vf::describe("structure %d, every string of up to %d bytes, order %d", structure, vf::q(5, 6), order); vf::nontrivial(vf::described()); vf::sample(vf::described());
			std::vector<std::string> k = {""}; for (size_t from = 0, l = 0; l < (size_t)vf::q(5, 6); l++) { size_t end = k.size(); for (size_t i = from; i < end; i++) for (char c : bytes) k.push_back(k[i] + c); from = end; }
			if (structure == 0 && order < 2) k.resize(800);							// a tree of sorted keys is a list
			if (order == 1) std::reverse(k.begin(), k.end());
			if (order >= 2) for (size_t i = 0, x = 1; i + 1 < k.size(); i++) { x = x * 6364136223846793005ull + order; std::swap(k[i], k[i + (x >> 33) % (k.size() - i)]); }
			size_t n = k.size(); for (size_t i = 0; i < n; i++) k.push_back(k[(i * 7 + 3) % n]);
			one(k, structure, false);
			}
	// every length
	for (int structure : {0, 1, 2, 3})
		{
		if (!vf::mine()) continue;
		vf::describe("structure %d, every length up to 600", structure); vf::nontrivial(vf::described());
		std::vector<std::string> k; for (int l = 0; l <= 600; l++) for (char c : {'a', 'b'}) { k.push_back(std::string(l, 'x')); if (l) { k.push_back(std::string(l - 1, 'x') + c); k.push_back(c + std::string(l - 1, 'x')); } }
		one(k, structure, false);
		}
	// the text form lists every key with its element
	for (int structure : {0, 1})
		{
		if (!vf::mine()) continue;
		vf::describe("text form, structure %d", structure); vf::nontrivial(vf::described());
		for (size_t code = 0; code < 8 * 8 * 8 * 8; code++)
			{
			vf::eval();
			JASS::allocator_pool pool(4096); JASS::binary_tree<JASS::slice, element> t(pool); JASS::hash_table<JASS::slice, element, 8> h(pool); std::map<std::string, long> model; size_t c = code; std::ostringstream out;
			std::vector<std::string> k = {"p", "q", "rr", "s", "tt", "u", "v", "ww"};
			for (int i = 0; i < 4; i++, c /= 8) { std::string &s = k[c % 8]; element &e = structure ? h[JASS::slice((void *)s.data(), s.size())] : t[JASS::slice((void *)s.data(), s.size())]; e.value = i + 10; model[s] = i + 10; }
			if (structure) out << h; else out << t;
			std::multimap<std::string, int> lines; std::string line; std::istringstream in(out.str()); size_t n = 0;
			while (std::getline(in, line)) { size_t at = line.find_first_not_of(' '); std::string body = at == std::string::npos ? "" : line.substr(at); n++; size_t arrow = body.find("->"); if (arrow == std::string::npos || !model.count(body.substr(0, arrow)) || std::to_string(model[body.substr(0, arrow)]) != body.substr(arrow + 2)) { vf::fail("text", "the text form has the line '%s'", line.c_str()); break; } lines.insert({body.substr(0, arrow), 1}); }
			for (auto &m : model) if (lines.count(m.first) != 1) vf::fail("text", "key %s appears %zu times in the text form", m.first.c_str(), lines.count(m.first));
			if (n != model.size()) vf::fail("text", "the text form has %zu lines for %zu keys", n, model.size());
			}
		}
	return vf::finish("every sequence of 5 (6) keys out of 8 (lengths 0-2, NUL and high bytes) and out of a bucket's, tree and tables of 8, 16 and 24 bits; every string of up to 5 (6) bytes over 5 byte values in four orders; every length up to 600; iteration compared with a reference map after every step");
	}

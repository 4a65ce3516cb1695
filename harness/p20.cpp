// P20: evaluation measures against their definitions.
#include "vf.h"
#include <math.h>
#include <sys/wait.h>
#include <map>
#include <set>
#include <functional>
#define main eval_main
#include "../tools/JASS_eval.cpp"
#undef main
#include "evaluate_relevant_returned.h"
typedef std::vector<std::string> names;
typedef std::map<std::string, double> grades;			// document -> judgement (or price)
static const size_t ALL = (std::numeric_limits<size_t>::max)();
static bool near(double a, double b, double e = 1e-9) { return a == b || fabs(a - b) <= e * std::max(1.0, std::max(fabs(a), fabs(b))); }
static std::string show(const grades &g) { std::string s; char x[64]; for (auto &[d, v] : g) { snprintf(x, sizeof x, "%s%s:%g", s.empty() ? "" : " ", d.c_str(), v); s += x; } return s; }
static std::string show(const names &n) { std::string s; for (auto &d : n) s += (s.empty() ? "" : " ") + d; return s; }
// the definitions
namespace ref
	{
	static bool rel(const grades &j, const std::string &d) { auto i = j.find(d); return i != j.end() && i->second != 0; }
	static names top(const names &r, size_t depth) { return names(r.begin(), r.begin() + std::min(depth, r.size())); }
	static double found(const grades &j, const names &r) { double n = 0; for (auto &d : r) n += rel(j, d); return n; }
	static double relevant(const grades &j) { double n = 0; for (auto &[d, g] : j) n += g != 0; return n; }
	static double precision(const grades &j, const names &r, size_t n) { if (r.empty()) return 0; return found(j, top(r, n)) / (n == ALL ? r.size() : n); }
	static double recall(const grades &j, const names &r, size_t n) { double all = relevant(j); if (all == 0) return 1; return found(j, top(r, n)) / std::min(all, n == ALL ? 1e18 : (double)n); }
	static double f(const grades &j, const names &r, size_t n) { double p = precision(j, r, n), c = recall(j, r, n); return p + c == 0 ? 0 : 2 * p * c / (p + c); }
	static double ap(const grades &j, const names &r, size_t n) { double all = relevant(j), s = 0; if (all == 0) return 1; names t = top(r, n); for (size_t i = 0; i < t.size(); i++) if (rel(j, t[i])) s += found(j, names(t.begin(), t.begin() + i + 1)) / (i + 1); return s / all; }
	static double rr(const grades &j, const names &r, size_t n) { names t = top(r, n); for (size_t i = 0; i < t.size(); i++) if (rel(j, t[i])) return 1.0 / (i + 1); return 0; }
	static double rr4k(const grades &j, const names &r, size_t n, size_t k) { names t = top(r, n); if (found(j, t) < k) return 0; double s = 0; size_t c = 0; for (size_t i = 0; i < t.size() && c < k; i++) if (rel(j, t[i])) { s += 1.0 / (i + 1); c++; } return s / k; }
	static double rbp(const grades &j, const names &r, size_t n, double p) { names t = top(r, n); double s = 0, w = 1 - p; for (auto &d : t) { if (rel(j, d)) s += w; w *= p; } return s; }
	static double esl(const grades &j, const names &r, size_t n) { names t = top(r, n); for (size_t i = 0; i < t.size(); i++) if (rel(j, t[i])) return i; return n; }
	static std::vector<std::pair<double, std::string>> cheap(const grades &j, const grades &price) { std::vector<std::pair<double, std::string>> v; for (auto &[d, g] : j) if (g != 0) v.push_back({price.at(d), d}); std::sort(v.begin(), v.end()); return v; }
	static double spent(const grades &price, const names &r, size_t last) { double s = 0; for (size_t i = 0; i <= last; i++) s += price.at(r[i]); return s; }
	static double bp4k(const grades &j, const grades &price, const names &r, size_t n, size_t k) { auto c = cheap(j, price); if (c.size() < k) return 0; double best = 0; for (size_t i = 0; i < k; i++) best += c[i].first; names t = top(r, n); size_t got = 0; for (size_t i = 0; i < t.size(); i++) if (rel(j, t[i]) && ++got == k) return best / spent(price, t, i); return 0; }
	static double bp(const grades &j, const grades &price, const names &r, size_t n) { if (cheap(j, price).empty()) return 1; return bp4k(j, price, r, n, 1); }
	static double pc(const grades &j, const grades &price, const names &r, size_t n)
		{
		if (r.empty()) return 0; auto c = cheap(j, price); if (c.empty()) return 1;
		size_t k = std::min(n, r.size()); double most = k < c.size() ? c[k - 1].first : 1e300, got = 0;
		for (auto &d : top(r, n)) if (rel(j, d) && price.at(d) <= most) got++;
		return got / (n == ALL ? r.size() : n);
		}
	static double sp(const grades &j, const grades &price, const names &r, size_t n) { auto c = cheap(j, price); if (c.empty()) return 1; size_t k = std::min(n, c.size()), got = 0; double s = 0; for (auto &d : top(r, k)) if (rel(j, d)) s += c[got++].first / price.at(d); return s / k; }
	static double dcg(const grades &j, const names &r, size_t n, std::function<double(const std::string &)> gain) { double s = 0; names t = top(r, n); for (size_t i = 0; i < t.size(); i++) if (rel(j, t[i])) s += gain(t[i]) / log2(i + 2.0); return s; }
	static double ndcg(const grades &j, const grades &price, const names &r, size_t n, std::function<double(double, double, double)> gain)
		{
		auto c = cheap(j, price); if (c.empty()) return 1; names ideal; for (auto &x : c) ideal.push_back(x.second);
		auto g = [&](const std::string &d) { return gain(price.at(d), c.front().first, c.back().first); };
		return dcg(j, r, n, g) / dcg(j, ideal, n, g);
		}
	static double bpndcg(const grades &j, const grades &price, const names &r, size_t n) { return ndcg(j, price, r, n, [](double p, double low, double) { return low / p; }); }
	// bins between the least and the greatest price, growing by powers of e: the cheapest scores 5, the dearest 1
	static double pbndcg(const grades &j, const grades &price, const names &r, size_t n) { return ndcg(j, price, r, n, [](double p, double low, double high) { double s = 6; for (int i = 0; i < 5; i++) if (low + (high - low) * ((exp(i) - 1) / (exp(5) - 1)) <= p * (1 + 1e-13)) s--; return s; }); }
	}
static std::shared_ptr<JASS::evaluate> decoded(const std::string &text) { auto e = std::make_shared<JASS::evaluate>(); std::string copy = text; e->decode_assessments_trec_qrels(copy); return e; }
static std::string qrel(const std::string &q, const grades &g) { std::string s; char x[64]; for (auto &[d, v] : g) { snprintf(x, sizeof x, " %g\n", v); s += q + " 0 " + d + x; } return s; }
static void same(const char *what, double got, double want, const std::string &about, size_t depth)
	{
	vf::eval();
	if (!near(got, want)) vf::fail(what, "%s of %s at depth %s is %.12g, should be %.12g", what, about.c_str(), depth == ALL ? "infinite" : std::to_string(depth).c_str(), got, want);
	}
// every ordered selection of documents
static void selections(const names &d, size_t most, std::vector<names> &out)
	{
	std::vector<size_t> pick; std::function<void()> go = [&]() { names n; for (auto i : pick) n.push_back(d[i]); out.push_back(n); if (pick.size() == most) return; for (size_t i = 0; i < d.size(); i++) if (std::find(pick.begin(), pick.end(), i) == pick.end()) { pick.push_back(i); go(); pick.pop_back(); } };
	go();
	}
static std::string capture(const std::vector<std::string> &args, const std::string &dir)
	{
	std::string out = dir + "/out"; fflush(stdout);
	pid_t p = fork();
	if (!p)
		{
		int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); std::vector<const char *> a{"JASS_eval"}; for (auto &s : args) a.push_back(s.c_str());
		int r = eval_main((int)a.size(), a.data()); std::cout.flush(); fflush(stdout); _exit(r);
		}
	int st; waitpid(p, &st, 0);
	std::string s; FILE *f = fopen(out.c_str(), "r"); char b[4096]; size_t n; while (f && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); if (f) fclose(f);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) s += "\nEXIT " + std::to_string(st) + "\n";
	return s;
	}
static void save(const std::string &f, const std::string &s) { FILE *o = fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	const names docs = {"D1", "D10", "D2", "d1"};
	std::vector<names> rankings; selections({"D1", "D10", "D2", "d1", "unjudged"}, 5, rankings);
	const double state[] = {-9, 0, 1, 3};				// not judged, not relevant, relevant, highly relevant
	const size_t depths[] = {1, 2, 3, 4, 5, 6, 1000, ALL};
	// the measures that need judgements only, beside the judgements of queries that sort before and after
	for (int others = 0; others < 2; others++)
		for (int a = 0; a < 256; a++)
			{
			if (!vf::mine()) continue;
			grades j; for (int i = 0, x = a; i < 4; i++, x /= 4) if (state[x % 4] >= 0) j[docs[i]] = state[x % 4];
			std::string text; if (others) text += "10 0 D1 1\n10 0 unjudged 1\n"; text += qrel("2", j); if (others) text += "1 0 D2 1\n3 0 D1 1\n22 0 d1 1\n2a 0 D10 2\n2 1 zzz 0\n";
			vf::describe("judgements %s%s", show(j).c_str(), others ? ", other queries judged too" : ""); vf::nontrivial(vf::described()); vf::sample(vf::described());
			auto store = decoded(text); using namespace JASS;
			evaluate_precision P(store); evaluate_recall R(store); evaluate_f F(store); evaluate_map M(store); evaluate_mean_reciprocal_rank RR(store); evaluate_relevant_returned N(store); evaluate_expected_search_length E(store);
			if (store->relevance_count("2") != ref::relevant(j)) vf::fail("relevance_count", "%s: %zu", vf::described().c_str(), store->relevance_count("2"));
			std::set<std::string> qs; if (!j.empty() || others) qs.insert("2"); if (others) qs.insert({"10", "1", "3", "22", "2a"});
			if (store->query_count() != qs.size()) vf::fail("query_count", "%s: %zu queries, should be %zu", vf::described().c_str(), store->query_count(), qs.size());
			for (auto &r : rankings)
				{
				std::string about = "[" + show(r) + "] judged " + show(j);
				for (size_t n : depths)
					{
					same("precision", P.compute("2", r, n), ref::precision(j, r, n), about, n);
					same("recall", R.compute("2", r, n), ref::recall(j, r, n), about, n);
					same("f", F.compute("2", r, n), ref::f(j, r, n), about, n);
					same("average precision", M.compute("2", r, n), ref::ap(j, r, n), about, n);
					same("reciprocal rank", RR.compute("2", r, n), ref::rr(j, r, n), about, n);
					same("relevant returned", N.compute("2", r, n), ref::found(j, ref::top(r, n)), about, n);
					same("expected search length", E.compute("2", r, n), ref::esl(j, r, n), about, n);
					for (size_t k = 1; k <= 5; k++) same("reciprocal rank for k", evaluate_mean_reciprocal_rank4k(k, store).compute("2", r, n), ref::rr4k(j, r, n, k), about, n);
					for (double p : {0.0, 0.5, 0.95, 1.0}) same("rank biased precision", evaluate_rank_biased_precision(p, store).compute("2", r, n), ref::rbp(j, r, n, p), about, n);
					}
				}
			vf::tick();
			}
	// the measures that need prices
	const double cost[] = {1, 2, 2.5, 40};
	const int costs = T ? 4 : 3;
	std::vector<names> priced; selections({"D1", "D10", "D2", "d1"}, 4, priced);
	for (int a = 0; a < 16; a++)
		for (int b = 0; b < costs * costs * costs * costs; b++)
			{
			if (!vf::mine()) continue;
			grades j, price; for (int i = 0; i < 4; i++) j[docs[i]] = a >> i & 1; for (int i = 0, x = b; i < 4; i++, x /= costs) price[docs[i]] = cost[costs == 3 && x % costs == 2 ? 3 : x % costs];
			vf::describe("judgements %s, prices %s", show(j).c_str(), show(price).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
			auto store = decoded("1 0 D1 1\n" + qrel("2", j) + "3 0 D1 1\n"), prices = decoded(qrel("PRICE", price)); using namespace JASS;
			evaluate_buying_power BP(prices, store); evaluate_cheapest_precision PC(prices, store); evaluate_selling_power SP(prices, store);
			evaluate_price_based_normalized_discounted_cumulative_gain PB(prices, store); evaluate_buying_power_normalized_discounted_cumulative_gain BN(prices, store);
			for (auto &r : priced)
				{
				std::string about = "[" + show(r) + "] judged " + show(j) + ", priced " + show(price);
				for (size_t n : depths)
					{
					same("buying power", BP.compute("2", r, n), ref::bp(j, price, r, n), about, n);
					for (size_t k = 1; k <= 5; k++) same("buying power for k", evaluate_buying_power4k(k, prices, store).compute("2", r, n), ref::bp4k(j, price, r, n, k), about, n);
					same("cheapest precision", PC.compute("2", r, n), ref::pc(j, price, r, n), about, n);
					same("selling power", SP.compute("2", r, n), ref::sp(j, price, r, n), about, n);
					same("price based ndcg", PB.compute("2", r, n), ref::pbndcg(j, price, r, n), about, n);
					same("buying power ndcg", BN.compute("2", r, n), ref::bpndcg(j, price, r, n), about, n);
					}
				}
			vf::tick();
			}
	// longer rankings: one relevant document or a regular pattern of them
	for (size_t length : {10, 20, 100, 1000, 1500})
		for (size_t step : {1, 2, 3, 7, 50, 2000})
			for (size_t from : {0, 1, 9, 10, 99, 999})
				{
				if (from >= length || !vf::mine()) continue;
				vf::describe("a ranking of %zu documents with every %zu-th relevant from %zu", length, step, from); vf::nontrivial(vf::described());
				grades j; names r; for (size_t i = 0; i < length; i++) { r.push_back("doc" + std::to_string(i * 7919 % 10007)); if (i >= from && (i - from) % step == 0) j[r.back()] = 1; else if (i % 5 == 0) j[r.back()] = 0; }
				auto store = decoded(qrel("77", j)); using namespace JASS;
				for (size_t n : {(size_t)5, (size_t)10, (size_t)15, (size_t)20, (size_t)30, (size_t)100, (size_t)1000, ALL})
					{
					std::string about = vf::described();
					same("precision", evaluate_precision(store).compute("77", r, n), ref::precision(j, r, n), about, n);
					same("recall", evaluate_recall(store).compute("77", r, n), ref::recall(j, r, n), about, n);
					same("f", evaluate_f(store).compute("77", r, n), ref::f(j, r, n), about, n);
					if (n <= 100) same("average precision", evaluate_map(store).compute("77", r, n), ref::ap(j, r, n), about, n);
					same("reciprocal rank", evaluate_mean_reciprocal_rank(store).compute("77", r, n), ref::rr(j, r, n), about, n);
					same("rank biased precision", evaluate_rank_biased_precision(0.95, store).compute("77", r, n), ref::rbp(j, r, n, 0.95), about, n);
					same("expected search length", evaluate_expected_search_length(store).compute("77", r, n), ref::esl(j, r, n), about, n);
					}
				}
	// reading judgements: every spacing, order and ending of three of them
	{
	const char *gap[] = {" ", "  ", "\t", " \t"}, *lead[] = {"", " "}, *tail[] = {"", " "}, *end[] = {"\n", "\r\n", "\n\n"};
	struct line { const char *q, *it, *d, *v; double value; } lines[] = {{"1", "0", "AP880212-0161", "1", 1}, {"10", "Q0", "b", "0", 0}, {"1", "0", "AP880212-016", "2.5", 2.5}, {"PRICE", "0", "b", "-1", -1}};
	for (int g = 0; g < 64; g++)
		for (auto l : lead) for (auto t : tail) for (auto e : end)
			{
			if (!vf::mine()) continue;
			vf::describe("judgements with gaps %d, lead %zu, tail %zu, line end %zu", g, strlen(l), strlen(t), strlen(e)); vf::nontrivial(vf::described());
			std::vector<int> order{0, 1, 2, 3};
			do
				for (int last = 0; last < 2; last++)
					for (int junk = 0; junk < 3; junk++)
						{
						vf::eval();
						std::string text; std::set<std::string> want; char x[100];
						for (int i = 0; i < 4; i++)
							{
							auto &k = lines[order[i]]; text += std::string(l) + k.q + gap[g % 4] + k.it + gap[g / 4 % 4] + k.d + gap[g / 16] + k.v + t; if (i < 3 || !last) text += e;
							snprintf(x, sizeof x, "%s %s %g", k.q, k.d, k.value); want.insert(x);
							if (i == 1 && junk) text += junk == 1 ? std::string("1 0 short") + e : std::string("nothing") + e;
							}
						auto s = decoded(text); std::set<std::string> got; const JASS::evaluate::judgement *previous = nullptr; bool sorted = true;
						for (auto &a : s->assessments) { snprintf(x, sizeof x, "%s %s %g", a.query_id.c_str(), a.document_id.c_str(), a.score); got.insert(x); if (previous && !(*previous < a)) sorted = false; previous = &a; }
						if (got != want || s->assessments.size() != want.size() || !sorted) vf::fail("judgements", "%zu judgements read from \"%s\"", s->assessments.size(), vf::esc(text).c_str());
						for (auto &k : lines) if (s->find(k.q, k.d).score != k.value) vf::fail("judgements", "find(%s, %s) gives %g in \"%s\"", k.q, k.d, s->find(k.q, k.d).score, vf::esc(text).c_str());
						if (s->find("1", "b").score != 0 || s->find("zz", "b").score != 0 || s->find("0", "b").score != 0) vf::fail("judgements", "an unjudged document is found in \"%s\"", vf::esc(text).c_str());
						}
			while (std::next_permutation(order.begin(), order.end()));
			}
	}
	// correlation and significance
	{
	const double v[] = {0, 0.25, 0.5, 1};
	for (int n = 2; n <= (T ? 6 : 5); n++)
		{
		int64_t all = 1; for (int i = 0; i < n; i++) all *= 4;
		for (int64_t a = 0; a < all; a++)
			{
			if (!vf::mine()) continue;
			vf::describe("statistics of %d pairs, first %ld", n, (long)a); vf::nontrivial(vf::described());
			for (int64_t b = 0; b < all; b++)
				{
				if (T && n == 6 && b % 16 != a % 16) continue;
				vf::eval(); if (b % 1024 == 0) vf::tick();
				std::vector<double> x, y; for (int64_t i = 0, p = a, q = b; i < n; i++, p /= 4, q /= 4) { x.push_back(v[p % 4]); y.push_back(v[q % 4]); }
				auto mean = [&](const std::vector<double> &z) { double s = 0; for (auto c : z) s += c; return s / z.size(); };
				auto corr = [&](const std::vector<double> &z, const std::vector<double> &w) { double mz = mean(z), mw = mean(w), zz = 0, ww = 0, zw = 0; for (size_t i = 0; i < z.size(); i++) { zz += (z[i] - mz) * (z[i] - mz); ww += (w[i] - mw) * (w[i] - mw); zw += (z[i] - mz) * (w[i] - mw); } return zz == 0 || ww == 0 ? NAN : zw / sqrt(zz * ww); };
				auto rank = [&](const std::vector<double> &z) { std::vector<double> r; for (auto c : z) { double less = 0, eq = 0; for (auto d : z) { less += d < c; eq += d == c; } r.push_back(less + (eq + 1) / 2); } return r; };
				double p = corr(x, y), s = corr(rank(x), rank(y));
				if (!std::isnan(p) && !near(JASS::statistics::pearson_correlation(x, y), p, 1e-6)) vf::fail("pearson", "n %d a %ld b %ld: %g, should be %g", n, (long)a, (long)b, JASS::statistics::pearson_correlation(x, y), p);
				if (!std::isnan(s) && !near(JASS::statistics::spearman_correlation(x, y), s, 1e-6)) vf::fail("spearman", "n %d a %ld b %ld: %g, should be %g", n, (long)a, (long)b, JASS::statistics::spearman_correlation(x, y), s);
				double md = 0, var = 0; for (int i = 0; i < n; i++) md += (x[i] - y[i]) / n; for (int i = 0; i < n; i++) var += pow(x[i] - y[i] - md, 2) / (n - 1);
				if (var > 1e-9 && b % 7 == 0)
					{
					double t = fabs(md) / sqrt(var / n); int nu = n - 1;
					// area of the density of t from 0
					double c = exp(lgamma((nu + 1) / 2.0) - lgamma(nu / 2.0)) / sqrt(nu * M_PI), area = 0; const int steps = 200;
					auto f = [&](double u) { return c * pow(1 + u * u / nu, -(nu + 1) / 2.0); };
					for (int i = 0; i < steps; i++) { double l = t * i / steps, h = t * (i + 1) / steps; area += (h - l) / 6 * (f(l) + 4 * f((l + h) / 2) + f(h)); }
					double want = 0.5 - area, got = JASS::statistics::ttest_paired(x, y, JASS::statistics::ONE_TAILED);
					if (fabs(got - want) > 1e-4) vf::fail("t-test", "n %d a %ld b %ld: t %g, p %g, should be %g", n, (long)a, (long)b, t, got, want);
					if (fabs(JASS::statistics::ttest_paired(x, y, JASS::statistics::TWO_TAILED) - 2 * want) > 2e-4) vf::fail("t-test", "two tailed: n %d a %ld b %ld", n, (long)a, (long)b);
					}
				}
			}
		}
	}
	// the program
	std::vector<names> shown; selections({"a", "b", "c"}, 3, shown);
	for (int jj = 0; jj < 27; jj++)
		for (int how = 0; how < 5; how++)
			{
			if (!vf::mine()) continue;
			vf::describe("JASS_eval, judgements %d, way %d", jj, how); vf::nontrivial(vf::described()); vf::sample(vf::described());
			char dir[] = "/dev/shm/vf-p20.XXXXXX"; if (!mkdtemp(dir)) abort();
			grades j, j2{{"a", 1}, {"b", 0}}, price{{"a", 3}, {"b", 1}, {"c", 2}, {"x", 7}}; for (int i = 0, x = jj; i < 3; i++, x /= 3) if (x % 3 < 2) j[std::string(1, 'a' + i)] = x % 3;
			bool money = how == 2 || how == 4; size_t depth = how == 1 || how == 4 ? 2 : ALL, k = how >= 3 ? 2 : 10; double prob = how == 3 ? 0.5 : 0.95; bool zero = how == 4;
			std::string qrels = (money ? qrel("PRICE", price) : "") + qrel("q1", j) + qrel("q2", j2) + "q3 0 a 1\n"; save(std::string(dir) + "/qrels", qrels);
			for (size_t w = 0; w < shown.size(); w++)
				{
				if (shown[w].empty()) continue;
				vf::eval(); vf::tick();
				names r2 = {"x", "a", "b"}; std::string run; char x[200];
				auto put = [&](const char *q, const names &n) { for (size_t i = 0; i < n.size(); i++) { snprintf(x, sizeof x, "%s Q0 %s %zu %zu me%s", q, n[i].c_str(), i + 1, 100 - i, how == 1 && q[1] == '2' && i + 1 == n.size() ? "" : "\n"); run += x; } };
				put("q1", shown[w]); put("q2", r2); save(std::string(dir) + "/run", run);
				std::vector<std::string> args{"-p", "-a", std::string(dir) + "/qrels", "-r", std::string(dir) + "/run"};
				if (depth != ALL) { args.push_back("-n"); args.push_back(std::to_string(depth)); } if (k != 10) { args.push_back("-k"); args.push_back(std::to_string(k)); } if (prob != 0.95) { args.push_back("-P"); args.push_back("0.5"); } if (zero) args.push_back("-Z");
				std::string out = capture(args, dir);
				// every block of the output
				std::map<std::string, std::map<std::string, double>> got; std::string block; size_t at = 0;
				while (at < out.size()) { size_t e = out.find('\n', at); if (e == std::string::npos) e = out.size(); std::string l = out.substr(at, e - at); at = e + 1; size_t c = l.rfind(": "); if (c == std::string::npos) continue; std::string name = l.substr(0, c), value = l.substr(c + 2); while (!name.empty() && name.back() == ' ') name.pop_back(); if (name == "QUERY ID") block = value; else if (name == "RUN ID") { if (value.substr(0, 2) != "me" && block != "Averages") vf::fail("program", "run id %s", value.c_str()); } else got[block][name] = atof(value.c_str()); }
				auto expect = [&](const grades &j, const names &r)
					{
					std::map<std::string, double> m; m["Number of Queries"] = 1; m["Number Relevant"] = ref::relevant(j); m["Number of Results Returned"] = r.size(); m["Number Relevant Returned"] = ref::found(j, r);
					m["Mean Reciprocal Rank (MRR)"] = ref::rr(j, r, depth); m["Mean Reciprocal Rank for k(MRR4K)"] = ref::rr4k(j, r, depth, k); m["Precision (P)"] = ref::precision(j, r, ALL); m["Recall (R)"] = ref::recall(j, r, ALL); m["F1 (F1)"] = ref::f(j, r, ALL);
					m["Expected Search Length (ESL)"] = ref::esl(j, r, depth);
					for (size_t n : {5, 10, 15, 20, 30, 100, 200, 500, 1000}) { std::string s = std::to_string(n); m["Precision at " + s + " (P@" + s + ")"] = ref::precision(j, r, n); m["Recall at " + s + " (R@" + s + ")"] = ref::recall(j, r, n); m["F1 at " + s + " (F1@" + s + ")"] = ref::f(j, r, n); }
					m["Mean Average Precision (MAP)"] = ref::ap(j, r, depth); m["Rank Biased Precision (RBP)"] = ref::rbp(j, r, depth, prob);
					m["Cheapest Precision (PC)"] = money ? ref::pc(j, price, r, depth) : 0; m["Selling Power (SP)"] = money ? ref::sp(j, price, r, depth) : 0; m["Buying Power (BP)"] = money ? ref::bp(j, price, r, depth) : 0; m["Buying Power for k (BP4K)"] = money ? ref::bp4k(j, price, r, depth, k) : 0;
					m["Price Based Normalized Discounted Cumulative Gain (PBnDCG)"] = money ? ref::pbndcg(j, price, r, depth) : 0; m["Buying Power Normalized Discounted Cumulative Gain (BPnDCG)"] = money ? ref::bpndcg(j, price, r, depth) : 0;
					return m;
					};
				auto m1 = expect(j, shown[w]), m2 = expect(j2, r2), average = m1; double queries = zero ? 2 : j.empty() ? 2 : 3;
				for (auto &[n, v] : average) { v += m2[n]; if (n.compare(0, 6, "Number")) v /= queries; }
				struct { const char *b; std::map<std::string, double> *m; } blocks[] = {{"q1", &m1}, {"q2", &m2}, {"Averages", &average}};
				for (auto &b : blocks)
					for (auto &[n, v] : *b.m)
						{
						auto i = got[b.b].find(n);
						if (i == got[b.b].end()) vf::fail("program", "judgements %s, ranking %s: no %s for %s in the output", show(j).c_str(), show(shown[w]).c_str(), n.c_str(), b.b);
						else if (v < 1e15 && !(fabs(i->second - v) <= 0.000051)) vf::fail("program " + n, "judgements %s, ranking %s, way %d: %s of %s is %g, should be %g", show(j).c_str(), show(shown[w]).c_str(), how, n.c_str(), b.b, i->second, v);
						}
				}
			if (system((std::string("rm -rf ") + dir).c_str())) {}
			}
	return vf::finish("every judgement (none 0 1 3) of 4 documents, with and without other queries, x every ranking of up to 5 documents x 8 depths; every price assignment (3; 4 prices) x relevance x ranking of 4; patterns of up to 1500 documents; every spacing, order and ending of 4 judgements; every pair of samples of up to 5 (6) values of 4; the program on every judgement and ranking of 3 documents, 5 option sets");
	}

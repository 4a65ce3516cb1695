// search.h - small collections, their indexes on disk (written by the real serialisers) and the reference
// model of searching them.
#pragma once
#include "vf.h"
#include <map>
#include <memory>
#include <set>
#include <fstream>
#include <filesystem>
#include <iostream>
#include <sstream>
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "JASS_anytime_api.h"

typedef JASS::serialise_jass_v1::jass_v1_codex CODEX;
static const CODEX CODICES[] = {CODEX::elias_gamma_simd, CODEX::uncompressed, CODEX::qmx, CODEX::elias_gamma_simd_vb, CODEX::elias_delta_simd};

struct collection
	{
	size_t n = 0;													// documents, numbered 0..n-1 here (the serialisers count from 1)
	std::vector<std::string> keys;
	std::map<std::string, std::map<uint32_t, unsigned>> terms;		// term -> document -> impact
	explicit collection(size_t n = 0) : n(n) { for (size_t d = 0; d < n; d++) keys.push_back("K" + std::to_string(d * 7 + 3)); }
	};
// an alphabetic term name that every query parser keeps as it is
static inline std::string term_name(size_t v, char first = 'q')
	{
	std::string s(1, first);
	for (int i = 0; i < 4; i++) { s += (char)('a' + v % 26); v /= 26; }
	return s;
	}
static inline void write_index_to(const collection &c, int version, CODEX codex, int alignment)
	{
	std::unique_ptr<JASS::serialise_jass_v1> out;
	if (version == 1) out.reset(new JASS::serialise_jass_v1(c.n, codex, alignment));
	else out.reset(new JASS::serialise_jass_v2(c.n, codex, alignment));
	JASS::allocator_pool pool;
	JASS::index_postings unused(pool);
	std::vector<JASS::compress_integer::integer> ids; std::vector<JASS::index_postings_impact::impact_type> tfs;
	for (auto &[term, list] : c.terms)
		{
		ids.clear(); tfs.clear();
		for (auto &[d, impact] : list) { ids.push_back(d + 1); tfs.push_back(impact); }
		if (ids.size()) (*out)(JASS::slice(term.c_str()), unused, ids.size(), ids.data(), tfs.data());
		}
	(*out)(0, JASS::slice("-"));
	for (size_t d = 0; d < c.n; d++) (*out)(d + 1, JASS::slice(c.keys[d].c_str()));
	out->finish();
	}
// write an index into a new directory below the scratch directory the harness runs in
static inline std::string write_index(const collection &c, int version, CODEX codex = CODEX::elias_gamma_simd, int alignment = -1)
	{
	static unsigned serial = 0;
	if (alignment < 0) alignment = codex == CODEX::qmx ? 16 : 1;
	static std::string home = std::filesystem::current_path().string();
	std::string dir = home + "/index" + std::to_string(serial++);
	std::filesystem::create_directory(dir);
	if (chdir(dir.c_str())) abort();
	write_index_to(c, version, codex, alignment);
	if (chdir(home.c_str())) abort();
	return dir;
	}
static inline void drop_index(const std::string &dir) { for (const char *f : {"CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin"}) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str()); }

typedef std::vector<std::pair<std::string, unsigned>> bag;		// distinct terms with their number of occurrences
struct segment { unsigned impact; size_t freq; const std::string *term; unsigned raw; unsigned scaled; };
struct model
	{
	std::vector<segment> segments;			// in processing order
	size_t total = 0, distinct = 0; uint64_t largest = 0; bool scaled = false;
	model(const collection &c, const bag &q)
		{
		distinct = q.size();
		for (auto &[t, f] : q)
			{
			auto at = c.terms.find(t);
			if (at == c.terms.end() || at->second.empty()) continue;
			std::map<unsigned, size_t> by;
			for (auto &[d, i] : at->second) by[i]++;
			for (auto &[i, n] : by) { segments.push_back({i * f, n, &at->first, i, i * f}); total += n; }
			largest += by.rbegin()->first * f;
			}
		std::stable_sort(segments.begin(), segments.end(), [](const segment &a, const segment &b) { return a.impact != b.impact ? a.impact > b.impact : a.freq < b.freq; });
		if (largest > 255)
			{
			scaled = true;
			for (auto &s : segments)
				s.scaled = (uint8_t)((double)s.impact / (double)largest * (255.0 - (double)distinct) + 1);
			}
		}
	// number of segments a budget allows
	size_t within(size_t budget, size_t &postings) const
		{
		postings = 0; size_t i = 0;
		for (; i < segments.size() && postings + segments[i].freq <= budget; i++) postings += segments[i].freq;
		return i;
		}
	void score(const collection &c, const std::vector<size_t> &chosen, std::vector<uint32_t> &scores) const
		{
		scores.assign(c.n, 0);
		for (size_t s : chosen)
			for (auto &[d, i] : c.terms.at(*segments[s].term))
				if (i == segments[s].raw) scores[d] += segments[s].scaled;
		}
	// the result lists a correct search may give (more than one only when a budget cuts equal segments)
	std::set<std::string> answers(const collection &c, const std::string &id, size_t k, size_t budget, size_t &postings) const
		{
		size_t take = within(budget, postings);
		std::vector<std::vector<size_t>> choices(1);
		for (size_t s = 0; s < take; )
			{
			size_t e = s; while (e < segments.size() && segments[e].impact == segments[s].impact && segments[e].freq == segments[s].freq) e++;
			size_t need = std::min(e, take) - s, have = e - s;
			std::vector<std::vector<size_t>> next;
			if (need == have) { for (auto base : choices) { for (size_t b = 0; b < have; b++) base.push_back(s + b); next.push_back(base); } choices = next; s = e; continue; }
			for (unsigned m = 0; m < (1u << have); m++)
				{
				if ((size_t)__builtin_popcount(m) != need) continue;
				for (auto base : choices) { for (size_t b = 0; b < have; b++) if (m >> b & 1) base.push_back(s + b); next.push_back(base); }
				if (have > 12) break;
				}
			choices = next;
			s = e;
			}
		std::set<std::string> out;
		for (auto &ch : choices) { std::vector<uint32_t> sc; score(c, ch, sc); out.insert(format(c, id, top(sc, k))); }
		return out;
		}
	static std::vector<std::pair<uint32_t, uint32_t>> top(const std::vector<uint32_t> &scores, size_t k)
		{
		std::vector<std::pair<uint32_t, uint32_t>> r;
		for (size_t d = 0; d < scores.size(); d++) if (scores[d]) r.push_back({scores[d], (uint32_t)d});
		if (k < r.size()) { std::partial_sort(r.begin(), r.begin() + k, r.end(), std::greater<>()); r.resize(k); }
		else std::sort(r.begin(), r.end(), std::greater<>());
		return r;
		}
	static std::string format(const collection &c, const std::string &id, const std::vector<std::pair<uint32_t, uint32_t>> &r)
		{
		std::string o; char b[200]; size_t rank = 0;
		for (auto &[s, d] : r)
			{
			snprintf(b, sizeof b, " %zu %u JASSv2(ID:%u->%u)\n", ++rank, s, d, s);
			o += id + " Q0 " + c.keys[d] + b;
			}
		return o;
		}
	};
static inline std::string flat(std::string s) { for (auto &ch : s) if (ch == '\n') ch = '|'; return s.size() > 600 ? s.substr(0, 600) + "..." : s; }
static inline std::string show(const std::set<std::string> &s) { std::string o; for (auto &x : s) { if (o.size()) o += " or "; o += "[" + flat(x) + "]"; } return o; }
static const size_t ALL = std::numeric_limits<size_t>::max();

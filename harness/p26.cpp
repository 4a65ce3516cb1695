// P26: common index files: the fields of the wire format, the records of a file, and the index a file is converted to.
#include "vf.h"
#include <errno.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <filesystem>
#include <iostream>
#include <sstream>
#include <map>
#include <memory>
#include "index_manager_sequential.h"
#include "quantize.h"
#include "quantize_none.h"
#include "ranking_function_none.h"
#include "ranking_function_atire_bm25.h"
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "file.h"
#include "../tools/protobuf.h"
#include "../tools/ciff_lin.h"
#define main ciff_main
#define usage ciff_usage
#include "../tools/ciff_to_JASS.cpp"
#undef usage
#undef main
using JASS::protobuf; using JASS::ciff_lin;
static const unsigned TOP = JASS::index_postings_impact::largest_impact;
static std::string home;
static std::string slurp(const std::string &name) { std::string r; FILE *f = fopen(name.c_str(), "rb"); if (!f) return r; static char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static void spit(const std::string &name, const std::string &text) { FILE *f = fopen(name.c_str(), "wb"); if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) { perror("spit"); _exit(98); } }
static std::string varint(uint64_t v, size_t pad = 0) { std::string s; for (;;) { uint8_t b = v & 0x7F; v >>= 7; if (v || pad) { s += (char)(b | 0x80); if (!v) break; } else { s += (char)b; return s; } } while (pad-- > 1) s += (char)0x80; s += (char)0; return s; }
static std::string fixed(uint64_t v, int n) { std::string s; while (n--) { s += (char)v; v >>= 8; } return s; }
static std::string field(unsigned number, uint64_t v, size_t pad = 0) { return varint(number << 3) + varint(v, pad); }
static std::string blob(unsigned number, const std::string &s) { return varint(number << 3 | 2) + varint(s.size()) + s; }
static std::string number(unsigned n, double d) { uint64_t v; memcpy(&v, &d, 8); return varint(n << 3 | 1) + fixed(v, 8); }
static std::string record(const std::string &s) { return varint(s.size()) + s; }
// a buffer of exactly the right size, so that a read outside it is seen
struct exact { uint8_t *p; size_t n; exact(const std::string &s) : p((uint8_t *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); } ~exact() { free(p); } };
struct plist { std::string term; std::vector<std::pair<uint32_t, uint32_t>> postings; uint64_t cf = 0; };		// documents from 0, in order
struct record_of { std::string key; uint32_t length = 0; };
struct ciff { std::string description; double average = 0; std::vector<plist> lists; std::vector<record_of> docs; int64_t terms = 0; int version = 1; uint32_t all_lists = 0, all_docs = 0; };
enum { DEFAULTS = 1, BACKWARDS = 2, PADDED = 4 };	// write fields whose value is the default; fields in the opposite order; integers longer than necessary
static std::string join(std::vector<std::string> v, int style) { std::string s; if (style & BACKWARDS) std::reverse(v.begin(), v.end()); for (auto &x : v) s += x; return s; }
static std::string encode(const ciff &c, int style)
	{
	auto num = [&](unsigned n, uint64_t v) { return v || (style & DEFAULTS) ? field(n, v, style & PADDED ? 1 : 0) : std::string(); };
	auto str = [&](unsigned n, const std::string &s) { return s.size() || (style & DEFAULTS) ? blob(n, s) : std::string(); };
	std::string out = record(join({num(1, c.version), num(2, c.lists.size()), num(3, c.docs.size()), num(4, c.all_lists), num(5, c.all_docs), num(6, (uint64_t)c.terms), c.average || (style & DEFAULTS) ? number(7, c.average) : std::string(), str(8, c.description)}, style));
	for (auto &l : c.lists)
		{
		std::string p; uint32_t last = 0; for (auto &[d, tf] : l.postings) { p += blob(4, join({num(1, d - last), num(2, tf)}, style)); last = d; }
		out += record(join({str(1, l.term), num(2, l.postings.size()), num(3, l.cf), p}, style));
		}
	uint32_t d = 0; for (auto &r : c.docs) out += record(join({num(1, d++), str(2, r.key), num(3, r.length)}, style));
	return out;
	}
static std::string text(const JASS::slice &s) { return s.size() ? std::string((char *)s.address(), s.size()) : std::string(); }
// reading the records of a file gives the file
static void reading(const ciff &c, int style)
	{
	std::string bytes = encode(c, style), what = vf::described(); exact e(bytes); vf::eval(); vf::step();
	what += ", written in style " + std::to_string(style);
	std::ostringstream sink; auto old = std::cout.rdbuf(sink.rdbuf());
	ciff_lin source(e.p);
	std::cout.rdbuf(old);
	auto &h = source.get_header();
	if (h.version != c.version || h.num_postings_lists != (int64_t)c.lists.size() || h.num_docs != (int64_t)c.docs.size() || h.total_postings_lists != (int64_t)c.all_lists || h.total_docs != (int64_t)c.all_docs || h.total_terms_in_collection != c.terms || memcmp(&h.average_doclength, &c.average, 8) || h.description != c.description)
		return vf::fail("header", "%s: the header is read as version %d, %d lists, %d documents, %d lists in all, %d documents in all, %lld terms, average %g, '%s'", what.c_str(), h.version, h.num_postings_lists, h.num_docs, h.total_postings_lists, h.total_docs, (long long)h.total_terms_in_collection, h.average_doclength, h.description.c_str());
	size_t n = 0;
	for (auto &p : source.postings())
		{
		if (n >= c.lists.size()) return vf::fail("postings", "%s: more postings lists than the file has", what.c_str());
		auto &l = c.lists[n++]; bool ok = text(p.term) == l.term && p.document_frequency == l.postings.size() && p.collection_frequency == l.cf && p.postings.size() == l.postings.size(); uint32_t last = 0;
		for (size_t i = 0; ok && i < p.postings.size(); i++) { ok = p.postings[i].docid == l.postings[i].first - last && p.postings[i].term_frequency == l.postings[i].second; last = l.postings[i].first; }
		if (!ok) return vf::fail("postings", "%s: postings list %zu is wrong: term '%s', %llu documents, frequency %llu, %zu postings", what.c_str(), n, vf::esc(text(p.term)).c_str(), (unsigned long long)p.document_frequency, (unsigned long long)p.collection_frequency, p.postings.size());
		}
	if (n != c.lists.size() || source.status != ciff_lin::OK) return vf::fail("postings", "%s: %zu postings lists of %zu are read, status %d", what.c_str(), n, c.lists.size(), source.status);
	n = 0;
	for (auto &d : source.docrecords())
		{
		if (n >= c.docs.size()) return vf::fail("documents", "%s: more documents than the file has", what.c_str());
		auto &r = c.docs[n];
		if (d.docid != (int64_t)n || text(d.collection_docid) != r.key || (uint32_t)d.doclength != r.length) return vf::fail("documents", "%s: document %zu is read as %d, '%s', length %d", what.c_str(), n, d.docid, vf::esc(text(d.collection_docid)).c_str(), d.doclength);
		n++;
		}
	if (n != c.docs.size() || source.status != ciff_lin::OK) return vf::fail("documents", "%s: %zu documents of %zu are read, status %d", what.c_str(), n, c.docs.size(), source.status);
	}
static int program(std::vector<std::string> args, std::string &out)
	{
	fflush(stdout); std::cout.flush();
	pid_t p = fork();
	if (!p)
		{
		alarm(20); if (!freopen("stdout.txt", "wb", stdout)) _exit(99);
		std::vector<const char *> v; for (auto &a : args) v.push_back(a.c_str()); v.push_back(nullptr);
		int r = 99; try { r = ciff_main((int)args.size(), v.data()); } catch (...) { r = 77; }
		std::cout.flush(); fflush(stdout); _exit(r);
		}
	int st; waitpid(p, &st, 0); out = slurp("stdout.txt"); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
	}
typedef std::map<std::string, std::map<uint32_t, unsigned>> content;
struct stored { content terms; std::vector<std::string> keys; std::string wrong; };
template <class INDEX> static stored read_back()
	{
	stored s; INDEX in;
	if (in.read_index(".") == 0) { s.wrong = "cannot be read back"; return s; }
	s.keys = in.primary_keys(); if (in.document_count() != s.keys.size()) { s.wrong = std::to_string(in.document_count()) + " documents but " + std::to_string(s.keys.size()) + " primary keys"; return s; }
	std::string name; int32_t dness; auto codec = in.codex(name, dness);
	std::vector<JASS::deserialised_jass_v1::segment_header> segments(TOP + 8); alignas(64) static uint32_t ids[1 << 16];
	for (auto &m : in)
		{
		std::string t((char *)m.term.address(), m.term.size()), probe = t; JASS::deserialised_jass_v1::metadata md;
		if (s.terms.count(t)) { s.wrong = "'" + vf::esc(t) + "' occurs twice"; return s; }
		if (!in.postings_details(md, JASS::query_term(JASS::slice((void *)probe.data(), probe.size())))) { s.wrong = "'" + vf::esc(t) + "' cannot be found"; return s; }
		uint32_t smallest, largest; JASS::query::DOCID_TYPE df; size_t n = in.get_segment_list(segments.data(), md, 1, smallest, largest, df);
		auto &p = s.terms[t];
		for (size_t i = 0; i < n; i++) { auto &h = segments[i]; codec->decode(ids, h.segment_frequency, in.postings() + h.offset, h.end - h.offset); uint32_t id = 0; for (size_t j = 0; j < h.segment_frequency; j++) { id += ids[j]; if (p.count(id)) { s.wrong = "'" + vf::esc(t) + "' has a document twice"; return s; } p[id] = h.impact; } }
		}
	return s;
	}
static std::string differ(const content &got, const content &want)
	{
	auto say = [](const std::map<uint32_t, unsigned> &p) { std::string s; for (auto &[d, i] : p) if (s.size() < 200) s += std::to_string(d) + ":" + std::to_string(i) + " "; return s; };
	for (auto &[t, p] : want) { auto i = got.find(t); if (i == got.end()) return "term '" + vf::esc(t) + "' is missing"; if (i->second != p) return "term '" + vf::esc(t) + "' has " + say(i->second) + ", should be " + say(p); }
	for (auto &[t, p] : got) if (!want.count(t)) return "term '" + vf::esc(t) + "' is not in the file";
	return "";
	}
// the same documents, given to the indexer one by one
static void index_directly(const ciff &c, JASS::index_manager_sequential &m)
	{
	for (size_t d = 0; d < c.docs.size(); d++)
		{
		std::string key = c.docs[d].key; m.begin_document(JASS::slice((void *)key.data(), key.size()));
		for (auto &l : c.lists) for (auto &[id, tf] : l.postings) if (id == d) { std::string t = l.term; JASS::parser::token token; token.type = JASS::parser::token::alpha; token.lexeme = JASS::slice((void *)t.data(), t.size()); token.count = std::min(tf, TOP); m.term(token); }
		m.end_document(c.docs[d].length);
		}
	}
static content model(const ciff &c) { content m; for (auto &l : c.lists) for (auto &[d, tf] : l.postings) m[l.term][d] = std::min(tf, TOP); return m; }
// converting a file gives the index it describes
static void converting(const ciff &c, int style, const std::vector<int> &modes)
	{
	std::string what = vf::described(); spit("in.ciff", encode(c, style));
	for (int mode : modes)
		for (int version : {1, 2})
			{
			vf::eval(); vf::tick();
			static const char *OPTION[] = {"", "-passthrough", "-scalepassthrough"}; std::vector<std::string> args = {"ciff_to_JASS", "in.ciff"}; if (version == 2 && mode != 2) args.push_back("-2"); if (mode) args.push_back(OPTION[mode]); if (version == 2 && mode == 2) args.push_back("-2");
			std::string run = what + ", style " + std::to_string(style) + ", options"; for (size_t i = 2; i < args.size(); i++) run += " " + args[i];
			for (auto f : {"CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin"}) unlink(f);
			std::string out; int r = program(args, out);
			if (r) { vf::fail("conversion", "%s: exit %d, prints '%s'", run.c_str(), r, vf::esc(out.substr(out.size() > 300 ? out.size() - 300 : 0)).c_str()); continue; }
			stored got = version == 1 ? read_back<JASS::deserialised_jass_v1>() : read_back<JASS::deserialised_jass_v2>();
			if (got.wrong.size()) { vf::fail("conversion", "%s: the index %s", run.c_str(), got.wrong.c_str()); continue; }
			std::vector<std::string> keys; for (auto &d : c.docs) keys.push_back(d.key);
			if (got.keys != keys) vf::fail("keys", "%s: the index has %zu primary keys, the file %zu, or they differ", run.c_str(), got.keys.size(), keys.size());
			content want;
			if (mode == 1) want = model(c);
			else if (mode == 2)
				{
				// the frequencies scaled into the range of impacts: equal ones stay equal, larger ones are not smaller, the smallest and largest are the ends of the range
				want = got.terms; content m = model(c); bool same = m.size() == got.terms.size(); std::map<unsigned, unsigned> image; unsigned lo = ~0u, hi = 0;
				for (auto &[t, p] : m) { auto i = got.terms.find(t); if (i == got.terms.end() || i->second.size() != p.size()) { same = false; break; } for (auto &[d, tf] : p) { auto j = i->second.find(d); if (j == i->second.end()) { same = false; break; } if (image.count(tf) && image[tf] != j->second) { vf::fail("scaled", "%s: frequency %u becomes impacts %u and %u", run.c_str(), tf, image[tf], j->second); } image[tf] = j->second; lo = std::min(lo, j->second); hi = std::max(hi, j->second); } }
				if (!same) { vf::fail("postings", "%s: %s", run.c_str(), differ(got.terms, m).c_str()); continue; }
				unsigned before = 0; for (auto &[tf, i] : image) { if (i < before || i < 1 || i > TOP) vf::fail("scaled", "%s: frequency %u becomes impact %u, after %u", run.c_str(), tf, i, before); before = i; }
				if (image.size() > 1 && (lo != 1 || hi != TOP)) vf::fail("scaled", "%s: the impacts go from %u to %u", run.c_str(), lo, hi);
				if (image.size() > 1) { double a = image.begin()->first, b = image.rbegin()->first; for (auto &[tf, i] : image) { double exact = 1 + (tf - a) / (b - a) * (TOP - 1); if (fabs(exact - i) > 1.01) vf::fail("scaled", "%s: frequency %u becomes impact %u, linearly %g", run.c_str(), tf, i, exact); } }
				}
			else
				{
				auto m = std::make_unique<JASS::index_manager_sequential>(); index_directly(c, *m);
				auto ranker = std::make_shared<JASS::ranking_function_atire_bm25>(0.9, 0.4, m->get_document_length_vector());
				struct catcher : public JASS::index_manager::delegate
					{
					content *into; catcher(size_t n, content *c) : delegate(n), into(c) {}
					void operator()(const JASS::slice &t, const JASS::index_postings &, uint32_t df, uint32_t *ids, JASS::index_postings_impact::impact_type *tf) { for (uint32_t i = 0; i < df; i++) (*into)[text(t)][ids[i] - 1] = tf[i]; }
					void operator()(size_t, const JASS::slice &) {} void finish(void) {}
					};
				std::vector<std::unique_ptr<JASS::index_manager::delegate>> o; o.push_back(std::make_unique<catcher>(c.docs.size(), &want));
				JASS::quantize<JASS::ranking_function_atire_bm25> q(c.docs.size(), ranker); m->iterate(q); q.serialise_index(*m, o);
				}
			std::string w = differ(got.terms, want); if (w.size()) vf::fail("postings", "%s: %s", run.c_str(), w.c_str());
			}
	}
static ciff sized(ciff c) { c.all_lists = c.lists.size(); c.all_docs = c.docs.size(); c.terms = 0; for (auto &l : c.lists) { l.cf = 0; for (auto &p : l.postings) l.cf += p.second; c.terms += l.cf; } if (c.docs.size()) c.average = (double)c.terms / c.docs.size(); return c; }
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough(); home = std::filesystem::current_path().string() + "/p26." + std::to_string(getpid()); std::filesystem::create_directory(home); if (chdir(home.c_str())) abort();
	// integers: values around every power of two, and every pair of bits, in every length that can hold them
	for (int bits = 0; bits < 64; bits++)
		{
		if (!vf::mine()) continue;
		vf::describe("integers whose highest bit is %d", bits); vf::nontrivial(vf::described());
		std::vector<uint64_t> values = {1ull << bits, (1ull << bits) - 1, (1ull << bits) + 1, ~0ull >> (63 - bits)}; for (int b = 0; b < bits; b++) { values.push_back(1ull << bits | 1ull << b); values.push_back((~0ull >> (63 - bits)) ^ 1ull << b); }
		if (bits < vf::q(16, 20)) for (uint64_t v = 1ull << bits; v < 2ull << bits; v++) values.push_back(v);
		if (bits == 0) values.push_back(0);
		for (uint64_t v : values)
			for (size_t pad = 0; varint(v, pad).size() <= 10; pad++)
				{
				std::string s = varint(v, pad); exact e(s); vf::eval();
				auto unsign = [&](const char *name, uint64_t got, const uint8_t *at, uint64_t want) { if (got != want || at != e.p + s.size()) vf::fail(name, "%s: the bytes %s are read as %llu, %zd bytes; they are %llu, %zu bytes", name, vf::hex(s.data(), s.size()).c_str(), (unsigned long long)got, (ssize_t)(at - e.p), (unsigned long long)want, s.size()); };
				const uint8_t *at = e.p; uint64_t got = protobuf::get_uint64_t(at); unsign("get_uint64_t", got, at, v);
				int64_t z = v & 1 ? (int64_t)~(v >> 1) : (int64_t)(v >> 1);		// ZigZag: 0 -1 1 -2 2 ...
				at = e.p; got = protobuf::get_int64_t(at); unsign("get_int64_t", got, at, (uint64_t)z);
				if (v <= 0xFFFFFFFFull)
					{
					at = e.p; got = protobuf::get_uint32_t(at); unsign("get_uint32_t", got, at, v);
					at = e.p; got = (uint64_t)(int64_t)protobuf::get_int32_t(at); unsign("get_int32_t", got, at, (uint64_t)z);
					}
				if (v <= 3000 && pad < 3) { std::string b(v, 'x'); if (v) { b[0] = 'F'; b.back() = 'L'; } std::string t = s + b; exact f(t); at = f.p; JASS::slice g = protobuf::get_blob(at); if (text(g) != b || at != f.p + t.size()) vf::fail("get_blob", "a blob of %llu bytes is read as %zu", (unsigned long long)v, g.size()); }
				}
		for (uint64_t v : values)
			{
			exact e(fixed(v, 8)); const uint8_t *at = e.p; uint64_t got = protobuf::get_64_t(at); if (got != v || at != e.p + 8) vf::fail("get_64_t", "%llx is read as %llx", (unsigned long long)v, (unsigned long long)got);
			at = e.p; double d = protobuf::get_double(at); if (memcmp(&d, &v, 8) || at != e.p + 8) vf::fail("get_double", "the bits %llx are read wrongly", (unsigned long long)v);
			exact f(fixed(v, 4)); at = f.p; uint32_t g = protobuf::get_32_t(at); if (g != (uint32_t)v || at != f.p + 4) vf::fail("get_32_t", "%x is read as %x", (unsigned)v, g);
			}
		if (bits < 16) for (unsigned t : {0, 1, 2, 5}) if (bits) { exact e(std::string(1, (char)(bits << 3 | t))); const uint8_t *at = e.p; protobuf::wire_type w; unsigned n = protobuf::get_type_and_field(w, at); if (n != (unsigned)bits || w != (protobuf::wire_type)t || at != e.p + 1) vf::fail("get_type_and_field", "field %d of type %u is read as %u, %u", bits, t, n, (unsigned)w); }
		}
	// headers: each field in turn through every width of value
	for (int which = 0; which < 6; which++)
		{
		if (!vf::mine()) continue;
		vf::describe("headers, field %d", which); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (int bits = 0; bits < 63; bits++) for (uint64_t v : {(1ull << bits) - 1, 1ull << bits})
			{
			ciff c; c.docs.push_back({"k", 3}); c.lists.push_back({"t", {{0, 1}}, 1}); if (which < 4 && v > 0x7FFFFFFF) continue;
			if (which == 0) c.version = v; if (which == 1) c.all_lists = v; if (which == 2) c.all_docs = v; if (which == 3) { if (v > 5000) continue; c.description = std::string(v, 'd'); } if (which == 4) c.terms = v; if (which == 5) { c.average = (double)v * (bits % 2 ? -1.7 : 0.3); }
			for (int style = 0; style < 8; style++) reading(c, style);
			}
		}
	// values of one posting, list or document
	for (int which = 0; which < 5; which++)
		for (int style = 0; style < 8; style++)
			{
			if (!vf::mine()) continue;
			vf::describe("values of field %d of the records", which); vf::nontrivial(std::string(vf::described()) + std::to_string(style)); vf::sample(vf::described());
			for (int bits = 0; bits < 63; bits++) for (uint64_t v : {(1ull << bits) - 1, 1ull << bits})
				{
				ciff c; c.docs = {{"k", 3}, {"", 0}, {"kk", 7}}; c.lists = {{"t", {{0, 1}, {2, 9}}, 1}, {"u", {{1, 1}}, 1}};
				if (which == 0) { if (v > 0xFFFFFFFF) continue; c.lists[0].postings[1].second = (uint32_t)v; }
				if (which == 1) { if (v > 0x7FFFFFFF || v < 1) continue; c.lists[0].postings[1].first = (uint32_t)v; }
				if (which == 2) c.lists[0].cf = v;
				if (which == 3) { if (v > 0x7FFFFFFF) continue; c.docs[1].length = (uint32_t)v; }
				if (which == 4) { if (v > 5000) continue; c.docs[1].key = std::string(v, 'd'); c.lists[1].term = std::string(v, 't'); c.lists[1].postings.clear(); for (size_t i = 0; i < v; i++) c.lists[1].postings.push_back({(uint32_t)i, 1}); }
				reading(c, style);
				}
			}
	// numbers of lists and documents
	for (size_t lists = 0; lists <= (size_t)vf::q(5, 8); lists++)
		for (size_t docs = 0; docs <= (size_t)vf::q(5, 8); docs++)
			{
			if (!vf::mine()) continue;
			vf::describe("%zu postings lists, %zu documents", lists, docs); vf::nontrivial(vf::described());
			ciff c; for (size_t d = 0; d < docs; d++) c.docs.push_back({"K" + std::to_string(d * 11), (uint32_t)d + 1}); for (size_t l = 0; l < lists; l++) { plist p; p.term = "t" + std::to_string(l * 7); for (size_t d = 0; d < docs; d++) if ((l + 1) >> (d % 3) & 1) p.postings.push_back({(uint32_t)d, (uint32_t)(l + d + 1)}); c.lists.push_back(p); }
			c = sized(c); for (int style = 0; style < 8; style++) reading(c, style);
			bool any = false; for (auto &l : c.lists) if (l.postings.size()) any = true;
			if (any) converting(c, (int)(lists + docs) % 8, {0, 1, 2});		// an index without postings cannot be loaded
			}
	// every small index: up to three documents and three terms
	for (size_t D = 1; D <= 3; D++)
		{
		size_t kinds = D == 1 ? 27 : D == 2 ? 27 : 8, total = 1; for (size_t i = 0; i < D; i++) total *= kinds;
		for (size_t from = 0; from < total; from += 32)
			{
			if (!vf::mine()) continue;
			for (size_t v = from; v < std::min(from + 32, total); v++)
				{
				ciff c; const char *names[] = {"a", "b1", "ccc"}; std::string s; for (int t = 0; t < 3; t++) c.lists.push_back({names[t], {}, 0});
				size_t x = v; for (size_t d = 0; d < D; d++) { size_t k = x % kinds; x /= kinds; uint32_t length = 0; s += " {"; for (int t = 0; t < 3; t++) { unsigned base = kinds == 27 ? 3 : 2, n = k % base; k /= base; if (n) { c.lists[t].postings.push_back({(uint32_t)d, n * (1 + t)}); s += std::string(" ") + names[t] + ":" + std::to_string(n * (1 + t)); } length += n; } s += " }"; c.docs.push_back({"doc" + std::to_string(d), length + 1}); }
				vf::describe("documents%s", s.c_str()); vf::nontrivial(s); if (v % 50 == 0) vf::sample(vf::described());
				c.lists.erase(std::remove_if(c.lists.begin(), c.lists.end(), [](const plist &p) { return p.postings.empty(); }), c.lists.end()); c = sized(c);
				for (int style = 0; style < 8; style++) reading(c, style);
				if (T || v % 7 == 3) converting(c, (int)v % 8, {(int)(v / 7) % 3});
				}
			}
		}
	// larger ones
	for (size_t D : T ? std::vector<size_t>{7, 8, 9, 127, 128, 129, 255, 256, 257, 400, 1000, 16385} : std::vector<size_t>{9, 127, 129, 257, 400})
		for (int kind = 0; kind < 4; kind++)
			{
			if (!vf::mine()) continue;
			const char *kinds[] = {"every step and start", "single documents and pairs", "frequencies up to the largest impact and beyond", "a term of every document"};
			vf::describe("%zu documents, %s", D, kinds[kind]); vf::nontrivial(vf::described()); vf::sample(vf::described());
			ciff c; for (size_t d = 0; d < D; d++) c.docs.push_back({"D" + std::to_string(d * d), (uint32_t)(1 + (d * 7919) % 300)});
			std::map<size_t, plist> m; auto put = [&](size_t d, size_t v, uint32_t n) { auto &l = m[v]; l.term = "t" + std::to_string(v); l.postings.push_back({(uint32_t)d, n}); }; size_t v = 0;
			if (kind == 0) for (size_t step = 1; step <= D; step += 1 + step / 4) for (size_t start : {(size_t)0, step - 1}) { for (size_t d = start; d < D; d += step) put(d, v, 1 + (d / step) % 3); v++; }
			if (kind == 1) for (size_t d = 0; d < D; d += 1 + D / 40) { put(d, v++, 1); put(0, v, 2); if (d) put(d, v, 2); v++; }
			if (kind == 2) { for (unsigned spread : {2u, 127u, 128u, 255u, 256u, 1000u, TOP}) { for (size_t d = 0; d < D; d++) put(d, v, 1 + (d * 37) % spread); v++; } for (unsigned over : {TOP, TOP + 1, 65535u, 65536u, 65537u, 0x7FFFFFFFu}) { put(0, v, over); put(1, v, 3); put(D - 1, v, over - 1); v++; } }
			if (kind == 3) for (size_t d = 0; d < D; d++) { put(d, 0, 1); put(d, d + 1, 1 + (uint32_t)d); }
			for (auto &[k, l] : m) c.lists.push_back(l); c = sized(c);
			for (int style : {0, 7}) reading(c, style);
			converting(c, 0, {0, 1, 2});
			}
	// terms and keys of every kind of byte and length
	for (int b = 0; b < 256; b += 16)
		{
		if (!vf::mine()) continue;
		vf::describe("terms and keys with the bytes %02x to %02x", b, b + 15); vf::nontrivial(vf::described());
		ciff c; c.docs = {{"", 2}, {std::string(300, 'k'), 5}}; for (int i = b; i < b + 16; i++) if (i) { std::string s(1, (char)i); c.docs.push_back({"k" + s, 4}); c.lists.push_back({s + "t", {{(uint32_t)c.docs.size() - 1, 2}}, 0}); c.lists.push_back({s, {{0, 1}, {(uint32_t)c.docs.size() - 1, 2}}, 0}); }
		c.lists.push_back({std::string(255, 'x'), {{1, 1}}, 0}); c.lists.push_back({std::string(1000, 'x'), {{1, 1}}, 0}); c = sized(c);
		for (int style = 0; style < 8; style++) reading(c, style);
		converting(c, b / 16 % 8, {0, 1});
		}
	// a postings list without postings; records that are not well formed
	if (vf::mine())
		{
		vf::describe("a postings list without postings"); vf::nontrivial(vf::described());
		ciff c; c.docs = {{"a", 1}, {"b", 2}}; c.lists = {{"one", {{0, 1}}, 1}, {"none", {}, 0}, {"two", {{0, 2}, {1, 1}}, 3}}; c = sized(c);
		for (int style = 0; style < 8; style++) reading(c, style);
		for (int style : {0, 1}) converting(c, style, {0, 1, 2});
		}
	for (int where = 0; where < 4; where++)
		for (int what = 0; what < 3; what++)
			{
			if (!vf::mine()) continue;
			const char *places[] = {"the header", "a postings list", "a posting", "a document"}, *bad[] = {"an unknown integer", "an unknown fixed-width number", "an unknown string"};
			if (where == 1 && what == 2) continue;		// an unknown string in a postings list is passed over, which is as good
			vf::describe("%s with %s", places[where], bad[what]); vf::nontrivial(vf::described()); vf::eval();
			std::string junk = what == 0 ? field(9, 1) : what == 1 ? varint(9 << 3 | 5) + fixed(1, 4) : blob(9, "x");
			std::string f = record(field(1, 1) + field(2, 2) + field(3, 2) + field(4, 2) + field(5, 2) + (where == 0 ? junk : ""));
			for (int l = 0; l < 2; l++) f += record(blob(1, l ? "u" : "t") + field(2, 1) + field(3, 1) + blob(4, field(2, 1) + (where == 2 && !l ? junk : "")) + (where == 1 && !l ? junk : ""));
			for (int d = 0; d < 2; d++) f += record((d ? field(1, d) : "") + blob(2, "k") + field(3, 1) + (where == 3 && !d ? junk : ""));
			spit("in.ciff", f);
			for (auto n : {"CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin"}) unlink(n);
			std::string out; int r = program({"ciff_to_JASS", "in.ciff"}, out);
			if (r == 0 || r >= 1000 || r == 77) vf::fail("malformed", "%s with %s: the conversion ends with %d, and prints '%s'", places[where], bad[what], r, vf::esc(out.substr(out.size() > 200 ? out.size() - 200 : 0)).c_str());
			}
	if (vf::mine())
		{
		vf::describe("documents out of order, no file, both options"); vf::nontrivial(vf::described()); vf::eval();
		std::string f = record(field(1, 1) + field(2, 1) + field(3, 2) + field(4, 1) + field(5, 2)) + record(blob(1, "t") + field(2, 1) + field(3, 1) + blob(4, field(2, 1))) + record(field(1, 1) + blob(2, "k") + field(3, 1)) + record(blob(2, "k") + field(3, 1));
		spit("in.ciff", f); std::string out; int r = program({"ciff_to_JASS", "in.ciff"}, out); if (r == 0 || r >= 1000 || r == 77) vf::fail("malformed", "documents out of order: the conversion ends with %d", r);
		r = program({"ciff_to_JASS", "nothing.ciff"}, out); if (r == 0 || r >= 1000 || r == 77) vf::fail("malformed", "no such file: the conversion ends with %d", r);
		r = program({"ciff_to_JASS", "in.ciff", "-passthrough", "-scalepassthrough"}, out); if (r == 0 || r >= 1000 || r == 77) vf::fail("malformed", "two ways of weighting: the conversion ends with %d", r);
		}
	if (chdir("/")) abort(); std::error_code e; std::filesystem::remove_all(home, e);
	return vf::finish("integers around every power of two and with every pair of bits in every length, and all up to 2^16 (2^20); headers and records with each field through every width, in eight styles of writing; every index of up to 3 documents and 3 terms, up to 5x5 (8x8) lists and documents, families of up to 400 (16385) documents with frequencies beyond the largest impact; all converted with every option in both formats (every seventh of the small ones); unknown fields in every record");
	}

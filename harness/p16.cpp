// P16: the documents of a stream, for every way its bytes are split into reads and every size of internal buffer, against a reference that has the whole text.
#include "vf.h"
#include <map>
#include <memory>
#include <functional>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <zlib.h>
#include "instream_memory.h"
#include "instream_file.h"
#include "instream_file_star.h"
#include "instream_deflate.h"
#include "instream_directory_iterator.h"
#include "instream_document_trec.h"
#include "instream_document_html.h"
#include "instream_document_warc.h"
#include "instream_document_fasta.h"
#include "instream_document_unicoil_json.h"
using JASS::instream; using JASS::document; using JASS::slice;
typedef std::shared_ptr<instream> stream;
typedef std::pair<std::string, std::string> doc;			// primary key, contents
typedef std::vector<doc> docs;
static std::string show(const std::string &s) { std::string r; char t[8]; for (unsigned char c : s) if (c >= 32 && c < 127 && c != '\\') r += (char)c; else if (c == '\n') r += "\\n"; else snprintf(t, 8, "\\x%02X", c), r += t; return r.size() > 220 ? r.substr(0, 160) + "..." + r.substr(r.size() - 50) : r; }
static std::string show(const docs &d) { std::string r; for (auto &x : d) { r += "[" + show(x.first) + ": " + show(x.second) + "]"; if (r.size() > 600) { r += "..."; break; } } return r; }

// a source that delivers its text in parts: each read gives at most up to the next cut
struct parts : instream
	{
	const std::string &text; std::vector<size_t> cuts; size_t every, at = 0, reads = 0, ended = 0;
	parts(const std::string &text, std::vector<size_t> cuts, size_t every) : text(text), cuts(cuts), every(every) {}
	virtual void read(document &d)
		{
		size_t want = d.contents.size(), to = text.size(); reads++;
		for (size_t c : cuts) if (c > at && c < to) { to = c; break; }
		if (every && at + every < to) to = at + every;
		size_t give = std::min(want, to - at);
		if (give) memcpy(d.contents.address(), text.data() + at, give);
		at += give; d.contents = slice(d.contents.address(), give);
		if (give == 0 && want != 0) ended++;
		}
	};
static std::string as_string(const slice &s) { return std::string((const char *)s.address(), s.size()); }
static bool get(instream &from, document &into, doc &d)
	{
	into.rewind(); from.read(into); vf::step();
	d = {as_string(into.primary_key), as_string(into.contents)};
	return into.contents.size() != 0 || into.primary_key.size() != 0;
	}
static void expect(const char *what, const std::string &text, const docs &want, instream &from, const std::string &how)
	{
	vf::eval(); document into; docs got; doc d;
	while (got.size() <= want.size() + 2 && get(from, into, d)) got.push_back(d);
	if (got != want) { vf::fail(what, "'%s' %s: %s, should be %s", show(text).c_str(), how.c_str(), show(got).c_str(), show(want).c_str()); return; }
	for (int i = 0; i < 3; i++) if (get(from, into, d)) { vf::fail(what, "'%s' %s: a document after the end: %s", show(text).c_str(), how.c_str(), show(docs{d}).c_str()); return; }
	}
static std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; return s.substr(i); }
/*
	The references
*/
static docs ref_trec(const std::string &t, const std::string &open, const std::string &close, const std::string &kopen, const std::string &kclose)
	{
	docs out; size_t at = 0;
	while ((at = t.find(open, at)) != std::string::npos)
		{
		size_t end = t.find(close, at); if (end == std::string::npos) break;
		end += close.size(); std::string body = t.substr(at, end - at), key = "Unknown";
		size_t a = body.find(kopen); if (a != std::string::npos) { a += kopen.size(); size_t b = body.find(kclose, a); if (b != std::string::npos) key = trim(body.substr(a, b - a)); }
		out.push_back({key, body}); at = end;
		}
	return out;
	}
static docs ref_fasta(const std::string &t)
	{
	docs out; size_t at = t.find('>');
	while (at != std::string::npos)
		{
		size_t end = t.find("\n>", at + 1); std::string body = t.substr(at, end == std::string::npos ? std::string::npos : end + 1 - at);
		out.push_back({trim(body.substr(0, body.find('\n'))), body});
		at = end == std::string::npos ? end : end + 1;
		}
	return out;
	}
static docs ref_warc(const std::string &t)
	{
	docs out; size_t at = 0;
	auto line = [&](const std::string &name, std::string &value)
		{
		for (;;)
			{
			size_t e = t.find('\n', at); if (e == std::string::npos) { at = t.size(); return false; }
			std::string l = t.substr(at, e - at); at = e + 1;
			if (l.compare(0, name.size() + 1, name + ":") == 0) { value = trim(l.substr(name.size() + 1)); return true; }
			}
		};
	std::string key, length;
	while (line("WARC-TREC-ID", key) && line("Content-Length", length)) { std::string body = t.substr(std::min(at, t.size()), atoll(length.c_str())); at += body.size(); out.push_back({key, body}); }
	return out;
	}
static docs ref_unicoil(const std::string &t)
	{
	docs out; size_t at = 0;
	while ((at = t.find("{\"id\":", at)) != std::string::npos)
		{
		size_t end = t.find("}}\n", at), next; std::string body;
		if (end != std::string::npos) body = t.substr(at, end - at), next = end + 2;
		else { body = t.substr(at); size_t e = body.rfind("}}"); if (e != std::string::npos) body.resize(e); next = t.size(); }
		std::string key = "AnonymousDocument"; size_t k = body.find("\"id\": \""); if (k != std::string::npos) { size_t e = body.find('"', k + 7); if (e != std::string::npos) key = body.substr(k + 7, e - k - 7); }
		size_t v = body.find("\"vector\": {"); out.push_back({key, v == std::string::npos ? "" : body.substr(v + 11)});
		at = next;
		}
	return out;
	}
/*
	Readers with small buffers
*/
struct small_trec : JASS::instream_document_trec { small_trec(stream &s, size_t n, const char *d = "DOC", const char *k = "DOCNO") : instream_document_trec(s, n, d, k) {} };
struct small_fasta : JASS::instream_document_fasta { small_fasta(stream &s, size_t n) : instream_document_fasta(s, n) {} };
struct small_html : JASS::instream_document_html
	{
	small_html(stream &s, size_t n) : instream_document_html(s) { uint8_t *was = buffer; delete [] was; buffer = new uint8_t[n + 1]; buffer_end = buffer; buffer_used = 0; buffer_size = n; }
	};
enum { TREC, FASTA, HTML, WARC, UNICOIL };
static const char *names[] = {"trec", "fasta", "html", "warc", "unicoil"};
static std::unique_ptr<instream> reader(int kind, stream &s, size_t n)
	{
	switch (kind)
		{
		case TREC: return std::make_unique<small_trec>(s, n);
		case FASTA: return std::make_unique<small_fasta>(s, n);
		case HTML: return std::make_unique<small_html>(s, n);
		case WARC: return std::make_unique<JASS::instream_document_warc>(s);
		default: return std::make_unique<JASS::instream_document_unicoil_json>(s);
		}
	}
static docs reference(int kind, const std::string &t)
	{
	switch (kind)
		{
		case TREC: return ref_trec(t, "<DOC>", "</DOC>", "<DOCNO>", "</DOCNO>");
		case FASTA: return ref_fasta(t);
		case HTML: return ref_trec(t, "<html", "</html>", "<title>", "</title>");
		case WARC: return ref_warc(t);
		default: return ref_unicoil(t);
		}
	}
static void one(int kind, const std::string &text, const docs &want, size_t buffer, std::vector<size_t> cuts, size_t every)
	{
	stream s = std::make_shared<parts>(text, cuts, every);
	auto r = reader(kind, s, buffer);
	std::string how = "buffer " + std::to_string(buffer) + (every ? " in parts of " + std::to_string(every) : cuts.empty() ? " whole" : " cut at " + std::to_string(cuts[0]) + (cuts.size() > 1 ? " and " + std::to_string(cuts[1]) : ""));
	expect(names[kind], text, want, *r, how);
	}
// every buffer size (from the smallest that holds the longest document) and every way to split the text
static void all(int kind, const std::string &text, bool pairs, bool third = false)
	{
	docs want = reference(kind, text); size_t longest = kind == FASTA ? 3 : 8;
	for (auto &d : want) longest = std::max(longest, d.second.size() + (kind == FASTA ? 2 : 0));
	// what is not a document must fit also when it starts as one (and never ends): then there are no more documents whatever the size
	bool sized = kind == TREC || kind == FASTA || kind == HTML;
	std::vector<size_t> sizes; if (!sized) sizes.push_back(0);
	else for (size_t n = longest; n <= std::max(longest, text.size()) + 2; n++) if (n < longest + 12 || n > text.size() - 3 || n % 7 == 0) sizes.push_back(n);
	for (size_t n : sizes)
		{
		one(kind, text, want, n, {}, 0);
		for (size_t e : {1, 2, 3, 7, 16}) one(kind, text, want, n, {}, e);
		if (n == longest || n == longest + 1 || n == sizes.back() || vf::thorough())
			for (size_t a = 1; a < text.size(); a += kind == UNICOIL && third && !vf::thorough() ? 3 : 1)
				{
				one(kind, text, want, n, {a}, 0);
				if (pairs && (kind != UNICOIL || vf::thorough())) for (size_t b = a + 1; b < text.size(); b++) one(kind, text, want, n, {a, b}, 0);
				}
		}
	}
static std::string gz(const std::string &text, int bits, int level = 6)
	{
	z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, bits, 8, Z_DEFAULT_STRATEGY);
	std::string out(deflateBound(&z, text.size()) + 64, 0); z.next_in = (Bytef *)text.data(); z.avail_in = text.size(); z.next_out = (Bytef *)&out[0]; z.avail_out = out.size();
	deflate(&z, Z_FINISH); out.resize(out.size() - z.avail_out); deflateEnd(&z); return out;
	}
// reading bytes: every size of read gives the same bytes
static void bytes(const char *what, const std::string &want, instream &from, size_t size, const std::string &how, bool exact)
	{
	vf::eval(); std::string got; auto buffer = std::make_unique<uint8_t []>(size);
	for (;;)
		{
		size_t n = from.fetch(buffer.get(), size); vf::step();
		if (n > size) { vf::fail(what, "%s: %zu bytes asked for, %zu given", how.c_str(), size, n); return; }
		if (n == 0) break;
		got.append((char *)buffer.get(), n);
		if (got.size() > want.size()) break;
		if (exact && n != size && got.size() != want.size()) { vf::fail(what, "%s: %zu bytes asked for, %zu given, not at the end", how.c_str(), size, n); return; }
		}
	if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; vf::fail(what, "%s in reads of %zu: %zu bytes, should be %zu (different from %zu)", how.c_str(), size, got.size(), want.size(), i); return; }
	for (int i = 0; i < 2; i++) if (from.fetch(buffer.get(), size) != 0) vf::fail(what, "%s in reads of %zu: bytes after the end", how.c_str(), size);
	}
static std::string scratch;
static void put(const std::string &name, const std::string &text) { FILE *f = fopen(name.c_str(), "wb"); fwrite(text.data(), 1, text.size(), f); fclose(f); }
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	const bool T = vf::thorough();
	char name[] = "/tmp/p16-XXXXXX"; scratch = mkdtemp(name);
	// sequences of pieces
	static const std::vector<std::vector<std::string>> pieces = {
		{"<DOC><DOCNO>a1</DOCNO>x</DOC>", "<DOC>y</DOC>", "<DOC><DOCNO> b 2\n</DOCNO></DOC>\n", "<DOC><DOCNO>  </DOCNO>z<D</DOC>", "<DOC><DOCNO></DOCNO></DOC>", "<DOC><DOCNO>c", "\n", "<DO", "junk text that is quite long ", "</DOC>"},
		{">a b\nACGT\nAC\n", ">x\n", ">y z \n>", ">", "\n", "ACGT", ">c>d\nA\n\n", "junk"},
		{"<html><title>t 1</title>x</html>", "<html lang=\"e\"><title> </title></html>\n", "<html>y</html>", "<ht", "<html><title>u", "\n", "junk "},
		{"WARC-TREC-ID: a-1\nContent-Length: 5\n\nHTTP", "WARC/1.0\r\nWARC-TREC-ID: b-2\r\nX: y\r\nContent-Length: 7\r\n\r\nabcde", "WARC/1.0\nContent-Length: 4\n\nxyz\n", "WARC-TREC-ID: e\nContent-Length: 0\n", "\n\n", "WARC-TREC-ID: f\nContent-Length: 9\n\nabc", "Short\n", "WARC-TREC-ID:g\nContent-Length:3\nab\n"},
		{"{\"id\": \"0\", \"contents\": \"T.\", \"vector\": {\"the\": 94}}\n", "{\"id\": \"doc 1\", \"contents\": \"\", \"vector\": {}}\n", "{\"id\": 5, \"vector\": {\"a\": 1, \"b\": 2}}\n", "\n", "{\"id\": \"9\"}}\n", "{\"id\": \"z\", \"vector\": {\"q\": 3}}", "{\"id\"", "}}\n", "junk"}};
	for (int kind = 0; kind < 5; kind++)
		for (auto &f : pieces[kind])
			for (auto &g : pieces[kind])
				{
				if (!vf::mine()) continue;
				vf::describe("%s starting '%s' '%s'", names[kind], show(f).c_str(), show(g).c_str()); vf::nontrivial(vf::described()); vf::sample(vf::described());
				if (&g == &pieces[kind][0]) { for (size_t c = 0; c <= f.size(); c++) all(kind, f.substr(0, c), true); }
				all(kind, f + g, T);
				for (auto &h : pieces[kind]) { all(kind, f + g + h, false, true); if (T) for (auto &i : pieces[kind]) all(kind, f + g + h + i, false); }
				vf::tick();
				}
	// the uniCOIL reader's buffer of 1 MB, and WARC's lines of 8 KB
	const size_t MB = 1024 * 1024;
	static const std::string tail = "{\"id\": \"last\", \"contents\": \"x\", \"vector\": {\"w\": 7, \"x\": 9}}\n";
	auto padded = [](const std::string &id, size_t size) { std::string a = "{\"id\": \"" + id + "\", \"contents\": \"", b = "\", \"vector\": {\"the\": 94}}\n"; return a + std::string(size - a.size() - b.size(), 'c') + b; };
	for (int shift = -70; shift <= 10; shift++)
		{
		if (!T && shift % 3 && shift < -4) continue;
		if (!vf::mine()) continue;
		vf::describe("uniCOIL documents around 1 MB (%d)", shift); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (size_t base : {MB, 2 * MB})
			for (size_t lead : {(size_t)0, (size_t)100})
				{
				std::string text = (lead ? padded("first", lead) : std::string()) + padded("big", base + shift - lead) + tail + tail;
				docs want = ref_unicoil(text);
				one(UNICOIL, text, want, 0, {}, 0); one(UNICOIL, text, want, 0, {}, 65536 - 3); one(UNICOIL, text, want, 0, {text.size() - 100}, 0); one(UNICOIL, text.substr(0, text.size() - 1), want, 0, {}, 0);
				}
		std::string text = padded("vast", 5 * MB + shift) + tail; docs want = ref_unicoil(text); one(UNICOIL, text, want, 0, {}, 0);
		std::string many; for (int i = 0; many.size() < 3 * MB; i++) many += padded(std::to_string(i), 70 + (i * 7919 + shift + 70) % 3000); want = ref_unicoil(many); one(UNICOIL, many, want, 0, {}, 0); one(UNICOIL, many, want, 0, {}, 100003);
		vf::tick();
		}
	for (size_t length = 8185; length <= 8200; length++)
		{
		if (!vf::mine()) continue;
		vf::describe("WARC lines of %zu", length); vf::nontrivial(vf::described()); vf::sample(vf::described());
		for (const char *where : {"", "WARC-TREC-ID: "})
			{
			std::string line = where; line += std::string(length - line.size(), 'u');
			std::string text = std::string("WARC/1.0\n") + (*where ? "" : line + "\n") + "WARC-TREC-ID: k\nX: " + "\nContent-Length: 4\n\nabcWARC/1.0\n" + std::string(length, 'v') + "\nWARC-TREC-ID: l\n" + std::string(length, 'w') + "\nContent-Length: 2\nhi\n";
			docs want = ref_warc(text); one(WARC, text, want, 0, {}, 0); one(WARC, text, want, 0, {}, 1000);
			}
		vf::tick();
		}
	// the real buffers of the others: documents that cross 16 MB
	for (int kind : {TREC, FASTA})
		for (int shift : {-40, -20, -6, -5, -3, -1, 0, 1, 2})
			{
			if (!vf::mine()) continue;
			vf::describe("%s documents across 16 MB (%d)", names[kind], shift); vf::nontrivial(vf::described());
			const size_t all_of = 16 * MB; std::string text; size_t i = 0;
			while (text.size() < all_of + shift - 300000) { std::string id = "id" + std::to_string(i++); text += kind == TREC ? "<DOC><DOCNO>" + id + "</DOCNO>" + std::string(200000, 'x') + "</DOC>\n" : ">" + id + "\n" + std::string(200000, 'A') + "\n"; }
			std::string end = kind == TREC ? "<DOC><DOCNO>e</DOCNO>y</DOC>" : ">e\nAC\n"; text += (kind == TREC ? std::string(all_of + shift - text.size() - end.size(), '\n') : ">z\n" + std::string(all_of + shift - text.size() - end.size() - 4, 'C') + "\n") + end + "\n" + end + end;
			docs want = reference(kind, text); stream s = std::make_shared<parts>(text, std::vector<size_t>(), 0);
			if (kind == TREC) { JASS::instream_document_trec r(s); expect(names[kind], text, want, r, "16 MB"); } else { JASS::instream_document_fasta r(s); expect(names[kind], text, want, r, "16 MB"); }
			vf::tick();
			}
	// bytes of memory, files, pipes, compressed streams and directories, in reads of every size
	std::vector<std::string> texts = {"", "a", "ab\n", std::string(17, 'q'), "0123456789abcdefghijklmnopqrstuvwxyz\n\0xyz"}; { std::string r; for (int i = 0; i < 300; i++) r += (char)(i * 37 % 251); texts.push_back(r); texts.push_back(std::string(1, '\0') + r + std::string(70, 'z')); }
	for (auto &t : texts)
		{
		if (!vf::mine()) continue;
		vf::describe("%zu bytes in reads of every size", t.size()); vf::nontrivial(vf::described()); vf::sample(vf::described());
		std::string file = scratch + "/" + std::to_string(t.size()) + ".txt"; put(file, t);
		std::vector<std::pair<std::string, std::string>> packed;			// compressed form, what it holds
		for (int bits : {15, 15 + 16}) for (int level : {0, 9}) packed.push_back({gz(t, bits, level), t});
		packed.push_back({gz(t, 31) + gz(t, 31), t + t}); packed.push_back({gz(t, 31) + gz("", 31) + gz("x", 31) + gz(t, 31, 0), t + "x" + t}); packed.push_back({gz(t, 31) + std::string(5, '\0'), t}); packed.push_back({gz("", 31) + gz(t, 31), t});
		for (size_t n = 1; n <= t.size() + 3; n++)
			{
			{ JASS::instream_memory m(t.data(), t.size()); bytes("memory", t, m, n, "memory", true); }
			if (n < 20 || n % 16 == 0 || n + 2 > t.size()) { JASS::instream_file f(file); bytes("file", t, f, n, "file", true); }
			if (n < 20 || n % 16 == 0 || n + 2 > t.size()) { JASS::instream_file_star f(fopen(file.c_str(), "rb")); bytes("file star", t, f, n, "FILE *", true); }
			if (n < 20 || n % 32 == 0)
				{
				int p[2]; if (pipe(p) == 0) { if (write(p[1], t.data(), t.size()) != (ssize_t)t.size()) abort(); close(p[1]); JASS::instream_file_star f(fdopen(p[0], "rb")); bytes("pipe", t, f, n, "pipe", true); }
				for (auto &z : packed)
					for (size_t every : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)18, (size_t)19, (size_t)20, (size_t)21, (size_t)50, z.first.size() - 1})
						{ stream s = std::make_shared<parts>(z.first, std::vector<size_t>(), every); JASS::instream_deflate d(s); bytes("deflate", z.second, d, n, "compressed (parts of " + std::to_string(every) + ")", true); }
				}
			}
		for (auto &z : packed) for (size_t cut = 1; cut < z.first.size(); cut++) { stream s = std::make_shared<parts>(z.first, std::vector<size_t>{cut}, 0); JASS::instream_deflate d(s); bytes("deflate", z.second, d, 1000, "compressed (cut at " + std::to_string(cut) + ")", true); }
		unlink(file.c_str()); vf::tick();
		}
	// compressed data of more than the internal buffer
	for (int kind = 0; kind < 2; kind++)
		{
		if (!vf::mine()) continue;
		vf::describe("%s compressed bytes", kind ? "10 MB of" : "11 MB of"); vf::nontrivial(vf::described());
		std::string t; uint64_t x = 1; size_t size = 10 * MB + (kind ? -20 : MB); while (t.size() < size) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; t += (char)(x >> 56); }
		for (const std::string &z : {gz(t, 31, 0), gz(t, 31, 0) + gz("tail", 31)})
			for (size_t n : {(size_t)65536, (size_t)1000003, size, size + 4, 16 * MB})
				{ std::string want = t + (z.size() > gz(t, 31, 0).size() ? "tail" : ""); stream s = std::make_shared<parts>(z, std::vector<size_t>(), 0); JASS::instream_deflate d(s); bytes("deflate", want, d, n, "large compressed", true); }
		vf::tick();
		}
	// directories of up to four files
	static const std::vector<std::pair<std::string, std::string>> kinds = {{"a.txt", "hello\n"}, {"b.gz", ""}, {"c.gz.txt", "not compressed"}, {"empty", ""}, {"d.gz", "two"}, {"sub", ""}, {"e", std::string(100, 'e')}};
	for (unsigned set = 0; set < (1u << kinds.size()); set++)
		{
		if (!vf::mine()) continue;
		vf::describe("directory %x", set); vf::nontrivial(vf::described()); vf::sample(vf::described());
		std::string top = scratch + "/d.gz.d" + std::to_string(set); mkdir(top.c_str(), 0700); std::vector<std::string> made; std::map<std::string, std::string> holds;
		for (size_t i = 0; i < kinds.size(); i++) if (set & (1u << i))
			{
			std::string n = top + "/" + kinds[i].first; made.push_back(n);
			if (kinds[i].first == "sub") { mkdir(n.c_str(), 0700); continue; }
			std::string c = kinds[i].first == "b.gz" ? "compressed text" : kinds[i].second; holds[n] = kinds[i].first == "d.gz" ? "twice" + c : c;
			put(n, kinds[i].first == "b.gz" ? gz(c, 31) : kinds[i].first == "d.gz" ? gz("twice", 31) + gz(c, 31) : c);
			}
		std::string want; for (auto &e : std::filesystem::directory_iterator(top)) if (holds.count(e.path().string())) want += holds[e.path().string()];
		for (size_t n : {1, 2, 3, 5, 6, 7, 14, 15, 16, 100, 101, 1000}) { JASS::instream_directory_iterator d(top); bytes("directory", want, d, n, "directory", true); }
		for (auto &m : made) remove(m.c_str());
		rmdir(top.c_str()); vf::tick();
		}
	{ JASS::instream_file f(scratch + "/none"); if (vf::mine()) { vf::describe("no file"); bytes("file", "", f, 10, "no file", false); JASS::instream_file d(scratch); bytes("file", "", d, 10, "a directory as a file", false); } }
	rmdir(scratch.c_str());
	std::string bounds = "every sequence of " + std::string(T ? "4" : "3") + " of 7 to 10 pieces for each of five document readers, in buffers of every size, cut at every place (two places for short streams), and in parts of 1, 2, 3, 7 and 16 bytes; documents that cross the real buffers; byte streams in reads of every size; 128 directories";
	return vf::finish(bounds.c_str());
	}

// P24: what is written is what is in the file, what is read is what is in the file, and failures are reported: every short history of a file against a
// byte-string model, every failing transfer of it, every small content read every way, the channels, TREC topics, and the indexer on a full device.
#include "vf.h"
#include <errno.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <functional>
#include <memory>
#include "file.h"
#include "channel_file.h"
#include "channel_buffer.h"
#include "channel_trec.h"
#include "allocator_pool.h"
#include "allocator_cpp.h"
#define main index_main
#include "../tools/JASS_index.cpp"
#undef main
#define main trec_main
#define usage trec_usage
#include "../tools/trec_to_query.cpp"
#undef usage
#undef main
static std::string dir;
template <class F> static bool flushed(F &f) { if constexpr (std::is_void<decltype(f.flush())>::value) { f.flush(); return true; } else return f.flush(); }
static std::string show(const std::string &s) { std::string r; char t[8]; for (unsigned char c : s) if (c >= 32 && c < 127 && c != '\\') r += (char)c; else if (c == '\n') r += "\\n"; else snprintf(t, 8, "\\x%02X", c), r += t; return r.size() > 200 ? r.substr(0, 200) + "..." + std::to_string(s.size()) : r; }
static std::string slurp(const std::string &name) { std::string r; FILE *f = fopen(name.c_str(), "rb"); if (!f) return r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static void spit(const std::string &name, const std::string &text) { FILE *f = fopen(name.c_str(), "wb"); if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) { perror("spit"); _exit(98); } }
// A device in memory whose k-th transfer of a kind fails, or is cut short
struct device { std::string bytes; size_t at = 0; int fail_write = -1, fail_read = -1, fail_seek = -1; int partial = 0; size_t writes = 0, reads = 0, seeks = 0, lost = 0, read_failures = 0, seek_failures = 0; };
static ssize_t dev_write(void *c, const char *b, size_t n)
	{
	device &d = *(device *)c; if ((int)d.writes++ == d.fail_write) { d.lost++; errno = ENOSPC; return 0; }
	if (d.bytes.size() < d.at + n) d.bytes.resize(d.at + n);
	memcpy(&d.bytes[d.at], b, n); d.at += n; return n;
	}
static ssize_t dev_read(void *c, char *b, size_t n)
	{
	device &d = *(device *)c; if ((int)d.reads++ == d.fail_read) { d.read_failures++; errno = EIO; return -1; }
	if (d.at >= d.bytes.size()) return 0;
	n = std::min(n, d.bytes.size() - d.at); if (d.partial && n > 1) n = (n + 1) / 2;
	memcpy(b, &d.bytes[d.at], n); d.at += n; return n;
	}
static int dev_seek(void *c, off64_t *o, int whence)
	{
	device &d = *(device *)c; if ((int)d.seeks++ == d.fail_seek) { d.seek_failures++; errno = EIO; return -1; }
	off64_t to = whence == SEEK_SET ? *o : whence == SEEK_CUR ? (off64_t)d.at + *o : (off64_t)d.bytes.size() + *o;
	if (to < 0) { errno = EINVAL; return -1; }
	d.at = to; *o = to; return 0;
	}
static FILE *open_device(device &d, bool buffered, const char *mode = "w+b")
	{ cookie_io_functions_t f = {dev_read, dev_write, dev_seek, nullptr}; FILE *p = fopencookie(&d, mode, f); if (!buffered) setvbuf(p, nullptr, _IONBF, 0); return p; }
static std::string pattern(size_t from, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)((from + i) * 131 + ((from + i) >> 8) + 1); return s; }
enum { WRITE, WRITE_STRING, FLUSH, READ, READ_VECTOR, SEEK, SIZE, KINDS };
struct op { int kind; size_t n; };
static std::string name(const op &o) { static const char *names[] = {"write", "write(string)", "flush", "read", "read(vector)", "seek", "size"}; return std::string(names[o.kind]) + "(" + std::to_string(o.n) + ")"; }
// Run one history against the model.  With a failing transfer only what is reported is judged.
struct reusable { device d; std::unique_ptr<JASS::file> f; };		// a file brought back to its start (flush, seek to 0, contents replaced) serves many histories
static void history(const std::vector<op> &ops, size_t B, bool buffered, const std::string &initial, const device &script, const char *key, reusable *again = nullptr)
	{
	vf::eval(); device own = script, &d = again ? again->d : own;
	if (!again || !again->f) d.bytes = initial; std::string model = initial; size_t at = 0, written = 0; bool reported = false;
	std::string trail; for (auto &o : ops) trail += name(o) + " ";
	auto bad = [&](const char *what, size_t got, size_t want) { vf::fail(key, "%sbuffer %zu, %zu bytes in the file at first: %s %zu, should be %zu", trail.c_str(), B, initial.size(), what, got, want); };
	bool faulty = d.fail_write >= 0 || d.fail_read >= 0 || d.fail_seek >= 0, sure = true;
	{
	std::unique_ptr<JASS::file> mine;
	if (again && again->f) { flushed(*again->f); again->f->seek(0); d.bytes = initial; }
	else { mine.reset(new JASS::file(open_device(d, buffered, "r+b"))); if (B) mine->setvbuf(B); if (again) again->f = std::move(mine); }
	JASS::file &f = again ? *again->f : *mine;
	for (auto &o : ops)
		{
		vf::step();
		size_t lost = d.lost;
		switch (o.kind)
			{
			case WRITE: case WRITE_STRING:
				{
				std::string data = pattern(written, o.n); written += o.n;
				size_t got = o.kind == WRITE ? f.write(data.data(), data.size()) : f.write(data);
				if (d.lost > lost && got == o.n && o.n) { bool ok = flushed(f); if (ok) bad("a lost write is not reported; write() returns", got, 0); }
				if (got != o.n) reported = true;
				if (got != o.n && !d.lost) return bad("write() returns", got, o.n);
				if (got > o.n) return bad("write() returns", got, o.n);
				if (got) { if (model.size() < at + got) model.resize(at + got); model.replace(at, got, data.substr(0, got)); at += got; }
				break;
				}
			case FLUSH: { bool ok = flushed(f); if (ok && d.lost) return bad("flush() after a failed write returns", 1, 0); if (!ok) reported = true; if (!ok && !d.lost) return bad("flush() returns", 0, 1); break; }
			case READ: case READ_VECTOR:
				{
				size_t failures = d.read_failures, want = at < model.size() ? std::min(o.n, model.size() - at) : 0, got; std::string data;
				if (o.kind == READ) { std::unique_ptr<char []> to(new char [o.n]); got = f.read(to.get(), o.n); if (got > o.n) return bad("read() returns", got, want); data.assign(to.get(), got); }
				else { std::vector<uint8_t> to(o.n); f.read(to); got = to.size(); data.assign(to.begin(), to.end()); }
				if (d.read_failures > failures || d.lost || d.seek_failures) { if (got > want && !d.lost && !d.seek_failures) return bad("a failed read() returns", got, want); at += got; if (d.lost || d.seek_failures) sure = false; }
				else { if (got != want) return bad("read() returns", got, want); if (data != model.substr(std::min(at, model.size()), want)) return bad("wrong bytes read at", at, want); at += got; }
				break;
				}
			case SEEK:
				{
				size_t failures = d.seek_failures;
				try { f.seek(o.n); at = o.n; if (d.seek_failures > failures && !d.lost) { reported = true; sure = false; } }
				catch (std::out_of_range &) { reported = true; if (d.seek_failures == failures && !d.lost) return bad("seek() fails to", at, o.n); }
				break;
				}
			case SIZE: { if (!flushed(f)) reported = true; size_t was = d.seek_failures, got = f.size(); if (!d.lost && d.seek_failures == was && sure && got != model.size()) return bad("size() is", got, model.size()); if (d.seek_failures > was) sure = false; break; }
			}
		if (sure && f.tell() != at) return bad("tell() is", f.tell(), at);
		if (faulty && d.read_failures) { /* the position of the C stream after a failed read is not defined by the standard; stop comparing contents */ sure = false; }
		if (d.lost && flushed(f)) return bad("flush() after a failed write returns", 1, 0);
		}
	if (again || faulty) { if (!flushed(f)) reported = true; }		// otherwise closing it must do
	if (d.lost && !reported) return bad("lost writes not reported", d.lost, 0);
	}
	if (!d.lost && !d.seek_failures && !d.read_failures && sure && d.bytes != model)
		{
		size_t i = 0; while (i < d.bytes.size() && i < model.size() && d.bytes[i] == model[i]) i++;
		vf::fail(key, "%sbuffer %zu, %zu bytes in the file at first: the file has %zu bytes, should have %zu; they differ from byte %zu", trail.c_str(), B, initial.size(), d.bytes.size(), model.size(), i);
		}
	}
static std::vector<op> alphabet(size_t B, size_t initial)
	{
	std::vector<op> r; for (size_t n : {(size_t)0, (size_t)1, B - 1, B, B + 1, 2 * B, 2 * B + 1}) if (n <= 2 * B + 1 && (n != 0 || true)) { bool dup = false; for (auto &o : r) if (o.n == n) dup = true; if (!dup) r.push_back({WRITE, n}); }
	r.push_back({WRITE_STRING, 2}); r.push_back({FLUSH, 0}); r.push_back({READ, 0}); r.push_back({READ, 1}); r.push_back({READ, B + 2}); r.push_back({READ_VECTOR, 3}); r.push_back({READ_VECTOR, 0});
	r.push_back({SEEK, 0}); r.push_back({SEEK, 2}); r.push_back({SEEK, initial + B + 3}); r.push_back({SIZE, 0});
	return r;
	}
// ---- whole files, lines
static void whole(const std::string &text, const char *key)
	{
	vf::eval(); std::string name = dir + "/whole", got = "left over from before"; remove(name.c_str());
	if (!JASS::file::write_entire_file(name, text)) vf::fail(key, "write_entire_file of %zu bytes '%s' returns false", text.size(), show(text).c_str());
	if (slurp(name) != text) return vf::fail(key, "write_entire_file of '%s' writes '%s'", show(text).c_str(), show(slurp(name)).c_str());
	size_t n = JASS::file::read_entire_file(name, got);
	if (n != text.size() || got != text) return vf::fail(key, "read_entire_file of '%s' returns %zu and '%s'", show(text).c_str(), n, show(got).c_str());
	JASS::file::file_read_only mapped; const uint8_t *into = nullptr; n = JASS::file::read_entire_file(name, mapped);
	size_t m = mapped.read_entire_file(into);
	if (n != text.size() || m != n || (n && memcmp(into, text.data(), n))) vf::fail(key, "the mapping of '%s' has %zu, %zu bytes", show(text).c_str(), n, m);
	vf::nontrivial(text.substr(0, 2) + std::to_string(std::min(text.size(), (size_t)6)));
	}
static void lines(const std::string &text)
	{
	vf::eval(); std::string copy = text, line; std::vector<std::string> want; std::vector<uint8_t *> got;
	for (char c : text) if (c == '\n' || c == '\r') { if (line != "") want.push_back(line); line = ""; } else line += c;
	if (line != "") want.push_back(line);
	JASS::file::buffer_to_list(got, copy);
	bool same = got.size() == want.size(); for (size_t i = 0; same && i < got.size(); i++) same = want[i] == (char *)got[i];
	if (!same) vf::fail("lines", "'%s' gives %zu lines, should be %zu", show(text).c_str(), got.size(), want.size());
	}
// ---- channels
struct opened : JASS::channel_file { using JASS::channel_file::channel_file; size_t out(const void *b, size_t n) { return block_write(b, n); } size_t in(void *b, size_t n) { return block_read(b, n); } };
struct item { std::string text, name; std::function<void(JASS::channel &)> put; };
static std::vector<item> items()
	{
	static JASS::allocator_pool memory; static JASS::allocator_cpp<char> allocator(memory);
	std::vector<item> r; using JASS::channel;
	r.push_back({"", "<< \"\"", [](channel &c) { c << ""; }}); r.push_back({"x", "<< \"x\"", [](channel &c) { c << "x"; }});
	r.push_back({"ab\ncd\n", "<< unsigned", [](channel &c) { c << (const unsigned char *)"ab\ncd\n"; }});
	r.push_back({std::string("s\0t", 3), "<< string", [](channel &c) { c << std::string("s\0t", 3); }}); r.push_back({"jass", "<< JASS::string", [](channel &c) { c << JASS::string("jass", allocator); }});
	r.push_back({"0", "<< 0", [](channel &c) { c << 0; }}); r.push_back({"-2147483648", "<< INT_MIN", [](channel &c) { c << (int)-2147483648ll; }}); r.push_back({"18446744073709551615", "<< 2^64-1", [](channel &c) { c << (uint64_t)-1; }});
	r.push_back({"0.5", "<< 0.5", [](channel &c) { c << 0.5; }}); r.push_back({"\n", "puts \"\"", [](channel &c) { c.puts(""); }}); r.push_back({"line\n", "puts line", [](channel &c) { c.puts("line"); }});
	r.push_back({std::string(5000, 'L') + "\n", "puts 5000", [](channel &c) { c.puts(std::string(5000, 'L')); }});
	return r;
	}
static void reading(const std::string &text, bool file, const std::vector<int> &ops, const char *key)
	{
	vf::eval(); std::string name = dir + "/chan"; std::unique_ptr<JASS::channel> c; size_t at = 0;
	static JASS::allocator_pool memory; static JASS::allocator_cpp<char> allocator(memory);
	if (file) c.reset(new JASS::channel_file(name));
	else { std::shared_ptr<char> data(new char [text.size() + 1], [](char *p) { delete [] p; }); strcpy(data.get(), text.c_str()); c.reset(new JASS::channel_buffer(data)); }
	for (int o : ops)
		{
		vf::step(); std::string want, got;
		if (o >= 0) { got.assign(o, 'z'); c->read(got); want = text.substr(at, o); }
		else
			{
			size_t nl = text.find('\n', at); want = nl == std::string::npos ? text.substr(at) : text.substr(at, nl + 1 - at);
			if (o == -1) { got = "before"; c->gets(got); } else { JASS::string s("before", allocator); c->gets(s); got.assign(s.c_str(), s.size()); }
			}
		at += want.size();
		if (got != want) { std::string trail; for (int x : ops) trail += x >= 0 ? "read " + std::to_string(x) + " " : x == -1 ? "gets " : "gets(JASS::string) "; return vf::fail(key, "%s of '%s': got '%s', should be '%s'", trail.c_str(), show(text).c_str(), show(got).c_str(), show(want).c_str()); }
		}
	}
// ---- topics
struct topic { std::string number; std::vector<std::pair<char, std::vector<std::string>>> fields; };
static std::string lower(std::string s) { for (auto &c : s) c = tolower(c); return s; }
static std::string render(const topic &t, int style)
	{
	auto words = [](const std::vector<std::string> &w) { std::string r; for (auto &x : w) r += (r == "" ? "" : " ") + x; return r; };
	std::string r; const char *nl = style == 1 ? "" : "\n";
	if (style == 2) r = "<topic number=\"" + t.number + "\" type=\"faceted\">\n"; else r = std::string("<top>") + nl + "<num>" + (style == 3 ? "" : " Number: ") + t.number + (style == 3 ? "</num>\n" : "\n");
	if (style == 1) r = "<top><num> Number: " + t.number + " ";
	for (auto &f : t.fields)
		{
		std::string tag = f.first == 't' ? "title" : f.first == 'd' ? (style == 2 ? "description" : "desc") : f.first == 'q' ? "query" : "narr";
		if (style == 0) r += "\n<" + tag + ">\n" + words(f.second) + "?\n"; else r += "<" + tag + ">" + words(f.second) + "</" + tag + ">" + nl;
		}
	return r + (style == 2 ? "</topic>" : "</top>") + "\n";
	}
static void topics(const std::vector<topic> &list, int style, const std::string &tags, bool file, const char *key)
	{
	vf::eval(); std::string text; for (auto &t : list) text += render(t, style) + (style == 0 ? "\n\n" : "");
	std::vector<std::string> want, got; for (auto &t : list) { std::string w = t.number + " "; for (auto &f : t.fields) if (tags.find(f.first) != std::string::npos) for (auto &x : f.second) w += lower(x) + " "; want.push_back(w); }
	std::unique_ptr<JASS::channel> c; std::string name = dir + "/topics";
	if (file) { spit(name, text); c.reset(new JASS::channel_file(name)); } else { std::shared_ptr<char> data(new char [text.size() + 1], [](char *p) { delete [] p; }); strcpy(data.get(), text.c_str()); c.reset(new JASS::channel_buffer(data)); }
	JASS::channel_trec reader(c, tags); std::string query = "before";
	for (size_t i = 0; i < list.size() + 2; i++) { reader.gets(query); if (query == "") break; got.push_back(query); vf::step(); }
	if (got != want) { std::string g, w; for (auto &x : got) g += "[" + x + "]"; for (auto &x : want) w += "[" + x + "]"; return vf::fail(key, "topics '%s' with tags %s give %s, should be %s", show(text).c_str(), tags.c_str(), show(g).c_str(), show(w).c_str()); }
	vf::nontrivial(std::to_string(style) + tags + (list.size() ? list[0].number : ""));
	}
template <class C> static int program(std::vector<std::string> args, int (*entry)(int, C), std::string &out)
	{
	std::string o = dir + "/out"; fflush(stdout);
	pid_t p = fork();
	if (!p)
		{
		alarm(0); if (chdir((dir + "/idx").c_str())) _exit(99);
		if (!freopen(o.c_str(), "wb", stdout)) _exit(99);
		std::vector<char *> v; for (auto &a : args) v.push_back(&a[0]); v.push_back(nullptr);
		int r = 99; try { r = entry((int)args.size(), (C)v.data()); } catch (...) { r = 77; }
		std::cout.flush(); fflush(stdout); _exit(r);
		}
	int st; waitpid(p, &st, 0); out = slurp(o); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	char tmp[] = "/tmp/p24.XXXXXX"; if (!mkdtemp(tmp)) return 98;
	dir = tmp; mkdir((dir + "/idx").c_str(), 0700); std::cout.sync_with_stdio(true);
	bool T = vf::thorough();
	// 1. histories of a file, for every small size of its buffer
	for (size_t B : T ? std::vector<size_t>{1, 2, 3, 4, 7, 0} : std::vector<size_t>{1, 2, 5, 0})
		for (int buffered = 0; buffered < 2; buffered++)
			for (size_t initial : {(size_t)0, (size_t)4})
				{
				auto abc = alphabet(B ? B : 3, initial); size_t depth = B == 0 ? 2 : T ? 4 : 3;
				for (auto &first : abc)
					if (vf::mine())
						{
						vf::describe("histories that start with %s, buffer %zu", name(first).c_str(), B);
						std::vector<op> ops{first}; std::string start = pattern(77, initial); reusable again;
						std::function<void()> go = [&]() { history(ops, B, buffered, start, device(), "history", ops.size() < 2 ? nullptr : &again); vf::tick(); if (ops.size() < depth) for (auto &o : abc) { ops.push_back(o); go(); ops.pop_back(); } };
						go(); vf::nontrivial(std::to_string(B) + name(first));
						}
				}
	// 2. every failing transfer of those histories
	for (size_t B : {(size_t)1, (size_t)3})
		for (int kind = 0; kind < 4; kind++)
			{
			auto abc = alphabet(B, 4);
			for (auto &first : abc)
				if (vf::mine())
					{
					vf::describe("failing %s in histories that start with %s, buffer %zu", kind == 0 ? "writes" : kind == 1 ? "reads" : kind == 2 ? "seeks" : "nothing (short transfers)", name(first).c_str(), B);
					std::vector<op> ops{first};
					std::function<void()> go = [&]()
						{
						size_t most = kind == 3 ? 1 : kind == 0 ? 4 : 3;
						for (size_t k = 0; k < most; k++) { device d; if (kind == 0) d.fail_write = k; else if (kind == 1) d.fail_read = k; else if (kind == 2) d.fail_seek = k; else d.partial = 1; history(ops, B, kind == 1 || kind == 3, pattern(77, 4), d, "fault"); }
						vf::tick(); if (ops.size() < (T ? 3u : 2u)) for (auto &o : abc) { ops.push_back(o); go(); ops.pop_back(); }
						};
					go(); vf::nontrivial("fault" + std::to_string(kind) + name(first));
					}
			}
	// the buffer as it comes: writes around its end
	for (size_t a : {(size_t)10 * 1024 * 1024 - 1, (size_t)10 * 1024 * 1024, (size_t)10 * 1024 * 1024 + 1})
		for (size_t b : {(size_t)0, (size_t)1, (size_t)2, (size_t)10 * 1024 * 1024})
			if (vf::mine()) { vf::describe("default buffer %zu %zu", a, b); history({{WRITE, a}, {WRITE, b}, {WRITE, 1}}, 0, true, "", device(), "history"); }
	// 3. whole files and lines
	{
	static const char letters[] = {'a', '\n', '\r', 0, (char)0xff};
	size_t most = T ? 6 : 5;
	for (size_t len = 0; len <= most; len++)
		{
		size_t all = 1; for (size_t i = 0; i < len; i++) all *= 5;
		for (size_t block = 0; block < all; block += 125) if (vf::mine()) { vf::describe("whole files of %zu bytes from %zu", len, block); for (size_t i = block; i < all && i < block + 125; i++) { std::string s; size_t n = i; for (size_t j = 0; j < len; j++, n /= 5) s += letters[n % 5]; whole(s, "whole"); } }
		}
	for (size_t n : {(size_t)4095, (size_t)4096, (size_t)4097, (size_t)65536, (size_t)1 << 20}) if (vf::mine()) { vf::describe("whole file of %zu", n); whole(pattern(0, n), "whole"); }
	for (size_t len = 0; len <= (T ? 10u : 8u); len++)
		for (size_t first = 0; first < (len ? 4u : 1u); first++)
			if (vf::mine())
				{
				vf::describe("lines of %zu bytes", len); size_t all = 1; for (size_t i = 1; i < len; i++) all *= 4;
				for (size_t i = 0; i < all; i++) { std::string s; size_t n = i; if (len) s += "ab\n\r"[first]; for (size_t j = 1; j < len; j++, n /= 4) s += "ab\n\r"[n % 4]; lines(s); }
				vf::nontrivial("lines" + std::to_string(len * 4 + first));
				}
	}
	if (vf::mine())
		{
		vf::describe("what cannot be opened, read or written"); std::string none = dir + "/none/none", got = "before"; vf::nontrivial("cannot");
		auto expect = [&](bool ok, const char *what) { vf::eval(); if (!ok) vf::fail("failure", "%s", what); };
		expect(!JASS::file::write_entire_file(none, "x"), "write_entire_file into a folder that does not exist returns true"); expect(!JASS::file::write_entire_file(dir, "x"), "write_entire_file over a directory returns true");
		expect(!JASS::file::write_entire_file("/dev/full", "x"), "write_entire_file to a full device returns true"); expect(!JASS::file::write_entire_file("/dev/full", std::string(100000, 'x')), "write_entire_file of 100000 bytes to a full device returns true");
		expect(JASS::file::read_entire_file(none, got) == 0 && got == "", "read_entire_file of a missing file gives something"); got = "before"; expect(JASS::file::read_entire_file(dir, got) == 0 && got == "", "read_entire_file of a directory gives something");
		{ JASS::file::file_read_only m; const uint8_t *p = (const uint8_t *)1; expect(JASS::file::read_entire_file(none, m) == 0 && m.read_entire_file(p) == 0, "mapping a missing file gives something"); }
		{ JASS::file::file_read_only m; const uint8_t *p = (const uint8_t *)1; expect(JASS::file::read_entire_file(dir, m) == 0 && m.read_entire_file(p) == 0, "mapping a directory gives something"); }
		{ JASS::file f(none, "rb"); char c; std::vector<uint8_t> v(3); expect(f.read(&c, 1) == 0 && f.tell() == 0, "reading a missing file"); f.read(v); expect(v.size() == 0 && f.size() == 0, "reading a missing file into a vector"); bool threw = false; try { f.seek(1); } catch (std::out_of_range &) { threw = true; } expect(threw && f.tell() == 0, "seek in a missing file"); }
		for (std::string mode : {"wb", "w+b", "ab"}) { JASS::file f(none, mode); expect(f.write("abc", 3) == 0, "write to a file that cannot be opened does not return 0"); expect(!flushed(f), "flush of a file that could not be opened does not fail"); expect(f.tell() == 0, "tell of a file that cannot be opened"); }
		{ JASS::file f(dir + "/ro", "w+b"); f.write("abc", 3); } { JASS::file f(dir + "/ro", "rb"); size_t w = f.write("xyz", 3); expect(w != 3 || !flushed(f), "writing to a file opened for reading is not reported"); } expect(slurp(dir + "/ro") == "abc", "a file opened for reading was written");
		for (size_t n : {1, 10, 5000, 100000, 20 * 1024 * 1024}) { std::string s(n, 'x'); JASS::file f("/dev/full", "wb"); size_t w = f.write(s); expect(w < n || !flushed(f), "writing to a full device is not reported"); expect(!flushed(f), "a second flush to a full device"); }
		expect(JASS::file::is_directory(dir) && !JASS::file::is_directory(dir + "/ro") && !JASS::file::is_directory(none), "is_directory");
		{ std::string a = JASS::file::mkstemp(dir + "/t"), b = JASS::file::mkstemp(dir + "/t"); expect(a != b && a.substr(0, dir.size() + 2) == dir + "/t" && access(a.c_str(), R_OK | W_OK) == 0, "mkstemp"); }
		{ opened c(none); expect(c.out("abc", 3) == 0, "block_write to a channel that cannot be opened does not return 0"); c << "x" << 5; c.puts("y"); std::string s; c.gets(s); expect(s == "", "gets from a missing file"); s = "zzz"; c.read(s); expect(s == "", "read from a missing file"); }
		for (size_t n : {1, 3, 4096, 9999}) { opened c(dir + "/bw" + std::to_string(n)); expect(c.out(std::string(n, 'x').data(), n) == n, "block_write does not return the number of bytes"); }
		{ opened c("/dev/full"); std::string s(100000, 'x'); expect(c.out(s.data(), s.size()) < s.size(), "block_write of 100000 bytes to a full device returns 100000"); }
		}
	// 4. channels
	{
	auto all = items();
	for (size_t a = 0; a < all.size(); a++)
		for (int existing = 0; existing < 2; existing++)
			if (vf::mine())
				{
				vf::describe("channel writes that start with %s", all[a].name.c_str()); std::string name = dir + "/cw";
				auto check = [&](std::vector<size_t> ops) { vf::eval(); std::string want = existing ? "already\n" : ""; remove(name.c_str()); if (existing) spit(name, want); { JASS::channel_file c(name); for (size_t o : ops) { all[o].put(c); want += all[o].text; vf::step(); } } if (slurp(name) != want) vf::fail("channel write", "the file has '%s', should have '%s'", show(slurp(name)).c_str(), show(want).c_str()); };
				check({a}); for (size_t b = 0; b < all.size(); b++) { check({a, b}); for (size_t c = 0; c < all.size(); c++) check({a, b, c}); }
				vf::nontrivial("cw" + all[a].name);
				}
	std::vector<int> what = {-1, -2, 0, 1, 2, 100}; size_t most = T ? 6 : 5;
	for (size_t len = 0; len <= most; len++)
		for (int file = 0; file < (len > 4 ? 1 : 2); file++)
			{
			size_t every = 1; for (size_t i = 0; i < len; i++) every *= 3;
			for (size_t i = 0; i < every; i++)
				{
				std::string s; size_t n = i; for (size_t j = 0; j < len; j++, n /= 3) s += "a\nb"[n % 3]; if (file) for (auto &c : s) if (c == 'b') c = 0;
				if (!vf::mine()) continue;
				vf::describe("channel reads of '%s'", show(s).c_str()); if (file) spit(dir + "/chan", s);
				for (int a : what) for (int b : what) if (file && !T) reading(s, file, {a, b, -1}, "channel_file read"); else for (int c : what) reading(s, file, {a, b, c, -1}, file ? "channel_file read" : "channel_buffer read");
				vf::nontrivial("cr" + s.substr(0, 3));
				}
			}
	for (size_t n : {1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 16383, 16384, 16385, 100000})
		for (int file = 0; file < 2; file++)
			if (vf::mine()) { vf::describe("lines of %zu", n); std::string s = std::string(n, 'q') + "\nsecond\n" + std::string(n, 'r'); if (file) spit(dir + "/chan", s); for (int o : {-1, -2}) reading(s, file, {o, o, o, o}, "long lines"); reading(s, file, {(int)n, -1, -1, (int)n, 1}, "long lines"); reading(s, file, {(int)n + 8, (int)n + 1, 1}, "long lines"); }
	}
	// 5. topics
	{
	std::vector<std::string> numbers = {"1", "69", "698", "12345", "1234567890"}; std::vector<std::string> tags = {"t", "d", "n", "td", "tdn", "q", "tq"};
	std::vector<std::vector<std::string>> texts = {{"alpha"}, {"Beta", "GAMMA"}, {"123456789", "x"}, {"a", "9876543210987"}, {}};
	for (int style = 0; style < 4; style++)
		for (auto &tag : tags)
			for (size_t a = 0; a < numbers.size(); a++)
				if (vf::mine())
					{
					vf::describe("topics in style %d, tags %s, first %s", style, tag.c_str(), numbers[a].c_str());
					for (size_t x = 0; x < texts.size(); x++)
						{
						char f1 = style == 2 ? 'q' : 't'; topic one{numbers[a], {{f1, texts[x]}, {'d', texts[(x + 1) % 5]}, {'n', texts[(x + 2) % 5]}}};
						topics({one}, style, tag, x % 2, "topics");
						for (size_t b = 0; b < numbers.size(); b++)
							for (size_t y = 0; y < texts.size(); y++)
								{
								topic two{numbers[b], {{f1, texts[y]}, {'d', texts[(y + 3) % 5]}}}, three{"7", {{f1, {"last"}}}};
								topics({one, two}, style, tag, y == 4 && x == 0, "topics"); topics({one, two, three}, style, tag, false, "topics"); vf::tick();
								}
						}
					}
	if (vf::mine()) { vf::describe("files without topics"); for (int f = 0; f < 2; f++) topics({}, 0, "t", f, "no topics"); for (std::string s : {"<num>\n", "<num>", "<num> Number:\n<title> a\n", "<topic>\n<query>a b</query>\n"}) { std::shared_ptr<char> data(new char [s.size() + 1], [](char *p) { delete [] p; }); strcpy(data.get(), s.c_str()); std::unique_ptr<JASS::channel> c(new JASS::channel_buffer(data)); JASS::channel_trec r(c, "t"); std::string q; for (int i = 0; i < 4; i++) r.gets(q); if (q != "") vf::fail("no topics", "'%s' does not end", show(s).c_str()); } }
	if (vf::mine())
		{
		vf::describe("trec_to_query"); std::string out; topic a{"698", {{'t', {"literacy", "rates"}}, {'d', {"what"}}}}, b{"9", {{'t', {"Tax"}}}};
		spit(dir + "/idx/topics", render(a, 0) + render(b, 0)); int r = program({"trec_to_query", "topics"}, trec_main, out);
		if (r != 0 || out != "698 literacy rates \n9 tax \n\n") vf::fail("trec_to_query", "exits %d with '%s'", r, show(out).c_str());
		}
	}
	// 6. the indexer when one of its files cannot be written
	{
	static const char *kinds[][6] = {{"-I1", "CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin", ""}, {"-I2", "CIdoclist.bin", "CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin", ""}, {"-Ib", "postings.bin", "", "", "", ""}, {"-If", "JASS_forward.index", "", "", "", ""}, {"-Ic", "JASS_postings.cpp", "JASS_postings.h", "JASS_vocabulary.cpp", "JASS_primary_keys.cpp", ""}};
	for (auto &k : kinds)
		for (int broken = 0; broken < 5; broken++)
			for (int how = 0; how < (broken ? 2 : 1); how++)
				if (broken == 0 || *k[broken])
					if (vf::mine())
						{
						vf::describe("index %s with %s %s", k[0], broken ? k[broken] : "nothing", how ? "a directory" : "a full device"); vf::eval(); std::string in = dir + "/idx/";
						for (int i = 1; i < 5; i++) if (*k[i]) { unlink((in + k[i]).c_str()); rmdir((in + k[i]).c_str()); }
						spit(in + "docs", "<DOC><DOCNO>1</DOCNO>one two</DOC>\n<DOC><DOCNO>2</DOCNO>two three</DOC>\n");
						if (broken) { if (how ? mkdir((in + k[broken]).c_str(), 0700) : symlink("/dev/full", (in + k[broken]).c_str())) perror("broken"); }
						std::string out; int r = program({"JASS_index", "-q", "-f", "docs", k[0]}, index_main, out);
						if (broken == 0 && r != 0) vf::fail("index", "exits %d with '%s'", r, show(out).c_str());
						if (broken && r == 0) vf::fail(std::string("index failure ") + k[0], "%s is %s and the indexer exits with success", k[broken], how ? "a directory" : "a full device");
						if (r >= 1000) vf::fail("index", "died of signal %d", r - 1000);
						vf::nontrivial(std::string("index") + k[0] + k[broken]);
						for (int i = 1; i < 5; i++) if (*k[i]) { unlink((in + k[i]).c_str()); rmdir((in + k[i]).c_str()); }
						}
	}
	vf::sample("write(4) write(6) seek(2) read(7) size(0) with a buffer of 5 bytes"); vf::sample("<top>\\n<num> Number: 698\\n\\n<title>\\nBeta GAMMA?\\n</top>");
	int r = system(("rm -rf " + dir).c_str()); (void)r;
	return vf::finish(T ? "histories of up to 4 operations (buffers 1-7), faults in histories of up to 3, contents of up to 6 bytes, lines of up to 10" : "histories of up to 3 operations (buffers 1, 2, 5), faults in histories of up to 2, contents of up to 5 bytes, lines of up to 8");
	}

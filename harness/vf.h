// vf.h - the part every harness shares: case numbering, sharding, replay, watchdog, result file.
// A harness enumerates a finite, deterministic space of numbered cases.  run.py runs it as several
// shards; a failing, crashing or hanging case is identified by its number and replayed on its own.
#pragma once
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>
#include <string>
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <algorithm>

namespace vf
	{
	struct shared_page { volatile uint64_t current; volatile uint64_t started; char text[3900]; };
	struct global
		{
		std::string tier = "quick", out, aux;
		uint64_t shard = 0, shards = 1, only = ~0ull, from = 0;
		uint64_t next = 0, run = 0, evals = 0, transitions = 0, total = 0;
		unsigned limit = 30;
		std::unordered_set<uint64_t> distinct;
		std::vector<std::string> samples;
		std::vector<std::string> fails;
		shared_page *page = nullptr;
		size_t fail_total = 0;
		std::unordered_map<std::string, size_t> per_key;
		bool strided = true;
		};
	inline global &g() { static global *x = new global; return *x; }
	inline bool thorough() { return g().tier == "thorough"; }
	// pick between quick and thorough bounds
	template <class T> T q(T quick, T deep) { return thorough() ? deep : quick; }

	inline std::string esc(const std::string &s)
		{
		std::string o; char b[8];
		for (unsigned char c : s)
			if (c == '"' || c == '\\') { o += '\\'; o += c; }
			else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
			else o += c;
		return o;
		}
	inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
		{
		const unsigned char *c = (const unsigned char *)p;
		for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
		h ^= h >> 31; return h;
		}
	inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

	inline void on_alarm(int) { const char m[] = "VF-HANG\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(97); }

	inline void init(int argc, char **argv)
		{
		auto &G = g();
		std::string status;
		for (int i = 1; i + 1 < argc; i += 2)
			{
			std::string a = argv[i], v = argv[i + 1];
			if (a == "--tier") G.tier = v;
			else if (a == "--shard") G.shard = strtoull(v.c_str(), 0, 10);
			else if (a == "--shards") G.shards = strtoull(v.c_str(), 0, 10);
			else if (a == "--only") G.only = strtoull(v.c_str(), 0, 10);
			else if (a == "--from") G.from = strtoull(v.c_str(), 0, 10);
			else if (a == "--limit") G.limit = atoi(v.c_str());
			else if (a == "--out") G.out = v;
			else if (a == "--status") status = v;
			else if (a == "--aux") G.aux = v;
			}
		int fd = -1;
		if (!status.empty()) { fd = open(status.c_str(), O_RDWR | O_CREAT, 0644); if (ftruncate(fd, 4096)) abort(); }
		G.page = (shared_page *)(fd >= 0 ? mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0) : calloc(1, 4096));
		G.page->current = ~0ull;
		signal(SIGALRM, on_alarm);
		}
	// Describe the current case (kept in the status page so that a crash can be reported)
	inline void describe(const char *f, ...)
		{
		va_list ap; va_start(ap, f); vsnprintf(g().page->text, sizeof(g().page->text), f, ap); va_end(ap);
		}
	inline std::string described() { return g().page->text; }
	// Advance to the next numbered case; true when this process is the one to run it.
	inline bool mine()
		{
		auto &G = g();
		uint64_t n = G.next++;
		G.total = G.next;
		if (G.only != ~0ull) { if (n != G.only) return false; }
		else if (n % G.shards != G.shard || n < G.from) return false;
		G.page->text[0] = 0; G.page->current = n; G.run++; G.evals++;
		alarm(G.limit);
		return true;
		}
	inline uint64_t current() { return g().page->current; }
	inline void tick() { alarm(g().limit); }			// progress inside a long case
	inline void eval(uint64_t n = 1) { g().evals += n; }
	inline void step(uint64_t n = 1) { g().transitions += n; }
	inline void nontrivial(uint64_t h) { auto &G = g(); if (G.distinct.size() < 200000) G.distinct.insert(h); }
	inline void nontrivial(const std::string &s) { nontrivial(hash(s)); }
	inline void sample(const std::string &s) { auto &G = g(); if (G.samples.size() < 4) G.samples.push_back(s.substr(0, 400)); }
	// Report that the property does not hold in the current case.  key identifies the failure for known findings.
	inline void fail(const std::string &key, const char *f, ...)
		{
		auto &G = g();
		char buf[3000]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
		G.fail_total++;
		if (G.fails.size() >= 80 || ++G.per_key[key] > 2) return;
		char head[64]; snprintf(head, sizeof head, "{\"case\":%llu,", (unsigned long long)G.page->current);
		G.fails.push_back(std::string(head) + "\"key\":\"" + esc(key) + "\",\"text\":\"" + esc(G.page->text) + "\",\"msg\":\"" + esc(buf) + "\"}");
		}
	inline int finish(const char *bounds = "")
		{
		auto &G = g();
		alarm(0);
		FILE *o = fopen(G.out.c_str(), "w");
		if (!o) { perror("out"); return 98; }
		fprintf(o, "{\"done\":true,\"total\":%llu,\"run\":%llu,\"evals\":%llu,\"transitions\":%llu,\"fail_total\":%zu,\"bounds\":\"%s\",\"samples\":[", (unsigned long long)G.total, (unsigned long long)G.run, (unsigned long long)G.evals, (unsigned long long)G.transitions, G.fail_total, esc(bounds).c_str());
		for (size_t i = 0; i < G.samples.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", esc(G.samples[i]).c_str());
		fprintf(o, "],\"fails\":[");
		for (size_t i = 0; i < G.fails.size(); i++) fprintf(o, "%s%s", i ? "," : "", G.fails[i].c_str());
		fprintf(o, "]}\n");
		fclose(o);
		FILE *d = fopen((G.out + ".distinct").c_str(), "wb");
		for (uint64_t h : G.distinct) fwrite(&h, 8, 1, d);
		fclose(d);
		fflush(stdout);
		_exit(0);			// no destructors: they are not what is being checked
		}
	// A buffer whose last byte is followed, and first byte preceded, by an inaccessible page
	struct guarded
		{
		uint8_t *base = nullptr, *area = nullptr; size_t pages = 0;
		explicit guarded(size_t capacity)
			{
			pages = (capacity + 4095) / 4096; if (!pages) pages = 1;
			base = (uint8_t *)mmap(0, (pages + 2) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			area = base + 4096;
			mprotect(base, 4096, PROT_NONE); mprotect(area + pages * 4096, 4096, PROT_NONE);
			}
		~guarded() { munmap(base, (pages + 2) * 4096); }
		uint8_t *tail(size_t n) { return area + pages * 4096 - n; }		// n bytes ending at the guard page
		uint8_t *head() { return area; }
		size_t size() { return pages * 4096; }
		};
	inline std::string hex(const void *p, size_t n)
		{
		std::string s; char b[4];
		for (size_t i = 0; i < n && i < 200; i++) { snprintf(b, 4, "%02x", ((const unsigned char *)p)[i]); s += b; }
		return s;
		}
	}

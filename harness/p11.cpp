// P11: every accumulator table against a plain array.
#include "vf.h"
#include "accumulator_2d.h"
#include "accumulator_counter.h"
#include "accumulator_counter_interleaved.h"
#include <memory>
template <class TABLE, class ELEMENT> struct subject
	{
	const char *name; size_t capacity;
	std::unique_ptr<TABLE> table;
	std::vector<ELEMENT> model; size_t size = 0;
	std::string history;
	void create(void) { void *m = aligned_alloc(64, (sizeof(TABLE) + 63) / 64 * 64); memset(m, 0xA5, sizeof(TABLE)); table.reset(); table = std::unique_ptr<TABLE>(new (m) TABLE); history = ""; }
	~subject() { if (table) { TABLE *t = table.release(); t->~TABLE(); free(t); } }
	void drop(void) { if (table) { TABLE *t = table.release(); t->~TABLE(); free(t); } }
	void bad(const char *what, size_t which, uint64_t got, uint64_t want) { vf::fail(std::string(name) + ":" + what, "%s of %zu of at most %zu, %s: %s of %zu is %llu, should be %llu", name, size, capacity, history.c_str(), what, which, (unsigned long long)got, (unsigned long long)want); }
	void init(size_t n, size_t width) { history += "init(" + std::to_string(n) + "," + std::to_string(width) + ") "; table->init(n, width); size = n; model.assign(n, 0); if (table->size() != n) bad("size", 0, table->size(), n); }
	void rewind(void) { history += "rewind "; table->rewind(); model.assign(size, 0); }
	void add(size_t which, ELEMENT by) { if (history.size() < 600) history += "+" + std::to_string(which) + " "; (*table)[which] += by; model[which] += by; ELEMENT *p = &(*table)[which]; if (table->get_index(p) != which) bad("index", which, table->get_index(p), which); }
	void set(size_t which, ELEMENT to) { if (history.size() < 600) history += "=" + std::to_string(which) + " "; (*table)[which] = to; model[which] = to; }
	void look(size_t which) { ELEMENT v = table->get_value(which); if (v != model[which]) bad("value", which, v, model[which]); }
	void touch(size_t which) { if (history.size() < 600) history += "?" + std::to_string(which) + " "; ELEMENT v = (*table)[which]; if (v != model[which]) bad("element", which, v, model[which]); }
	void look_all(void) { for (size_t i = 0; i < size; i++) look(i); }
	void touch_all(void) { for (size_t i = 0; i < size; i++) { touch(i); ELEMENT *p = &(*table)[i]; if (table->get_index(p) != i) bad("index", i, table->get_index(p), i); } }
	};
template <class TABLE, class ELEMENT, size_t N> static void all(const char *name, const char *type)
	{
	const bool T = vf::thorough(), flat = strcmp(name, "accumulator_2d") != 0;			// only accumulator_2d has rows
	// a table holds half as many again as it is declared to; rows that do not fit are refused by an exception
	auto fits = [&](size_t n, size_t width) { size_t w = (size_t)1 << width; return !(flat && width) && (n + w - 1) / w * w <= N + N / 2; };
	typedef subject<TABLE, ELEMENT> S;
	// every short sequence of operations, on a few accumulators
	for (size_t n : {1, 2, 3, 5, 25, 40, 64})
		{
		if (n > N) continue;
		for (size_t width : {0, 1, 2, 3, 7})
			{
			if (!fits(n, width)) continue;
			if (!vf::mine()) continue;
			vf::describe("%s of %s, %zu of %zu, width %zu: every sequence of operations", name, type, n, N, width); vf::nontrivial(vf::described()); vf::sample(vf::described());
			std::vector<size_t> places = {0, n - 1}; if (n > 2) places.push_back(n / 2); if (n > 3) places.push_back(1);
			// 0 rewind, 1 init again, then per place: add, read, touch
			size_t kinds = 2 + places.size() * 3, depth = T ? 5 : 4;
			uint64_t total = 1; for (size_t i = 0; i < depth; i++) total *= kinds;
			if (T && total > 600000) { total /= kinds; depth--; }
			for (uint64_t w = 0; w < total; w++)
				{
				S s{name, N}; s.create(); s.init(n, width); vf::eval(); vf::step(depth);
				uint64_t x = w; if (w % 1024 == 0) vf::tick();
				for (size_t i = 0; i < depth; i++, x /= kinds)
					{
					size_t op = x % kinds;
					if (op == 0) s.rewind();
					else if (op == 1) s.init(n, width);
					else { size_t p = places[(op - 2) / 3]; switch ((op - 2) % 3) { case 0: s.add(p, (ELEMENT)(3 + i)); break; case 1: s.look(p); break; default: s.touch(p); } }
					}
				s.look_all(); s.touch_all(); s.drop();
				}
			}
		}
	// many rewinds (the counters wrap around), with something different done in each round
	for (size_t n : {1, 2, 3, 24, 25, 26, 41, 42, 64, 100, 127, 128, 129, 200})
		{
		if (n > N) continue;
		for (size_t width : {0, 1, 2, 4, 7})
			{
			if (!fits(n, width)) continue;
			if (!vf::mine()) continue;
			vf::describe("%s of %s, %zu of %zu, width %zu: many rewinds", name, type, n, N, width); vf::nontrivial(vf::described());
			for (size_t gap = 0; gap < (T ? 40u : 20u); gap++)
				{
				S s{name, N}; s.create(); s.init(n, width); vf::eval(); vf::tick();
				for (size_t round = 0; round < 600; round++)
					{
					vf::step(); if (round % 16 == 0) s.history = "after " + std::to_string(round) + " rewinds, ";
					if (gap == 0) { for (size_t i = round % 3; i < n; i += 3) s.add(i, (ELEMENT)(round % 50 + 1)); s.look_all(); }
					else if (round % (gap * 16 - gap / 2) == gap) { s.look_all(); s.touch_all(); for (size_t i = 0; i < n; i++) s.add(i, (ELEMENT)(1 + i % 100)); s.look_all(); }
					else if (gap % 2 && round % 7 == 0) { size_t at = (round * 5) % n; s.look(at); s.touch(at); s.set(at, (ELEMENT)round); s.look_all(); }
					s.rewind();
					}
				s.look_all(); s.touch_all();
				// the same table, initialised again smaller then at full size
				s.history = "later "; s.init(1 + n / 2, width); s.look_all(); s.touch_all(); for (size_t i = 0; i < s.size; i++) s.add(i, 7); s.init(n, width); s.look_all(); s.touch_all();
				s.drop();
				}
			}
		}
	// every accumulator, alone and among others
	if (vf::mine())
		{
		vf::describe("%s of %s of %zu: every accumulator alone", name, type, N); vf::nontrivial(vf::described());
		for (size_t n : {(size_t)1, N / 2, N - 1, N})
			for (size_t width : {0, 1, 3, 7})
				{
				if (n == 0 || !fits(n, width)) continue;
				S s{name, N}; s.create(); s.init(n, width);
				for (size_t i = 0; i < n; i++)
					{
					vf::tick(); vf::eval(); s.history = "";
					s.add(i, 5); s.look_all(); if (i % 2) s.touch_all(); s.rewind();
					for (size_t j = 0; j < n; j++) if (j != i) s.set(j, (ELEMENT)(j + 1));
					s.look_all(); s.rewind();
					}
				s.drop();
				}
		}
	}
// the vector operator[] of the two-dimensional table
template <class ELEMENT, size_t N> static void vectors(const char *type)
	{
	typedef JASS::accumulator_2d<ELEMENT, N> TABLE; typedef subject<TABLE, ELEMENT> S;
	if (!vf::mine()) return;
	vf::describe("accumulator_2d of %s of %zu: 16 (or 8) at a time", type, N); vf::nontrivial(vf::described());
	for (size_t width : {0, 1, 2, 4, 5})
		for (size_t start = 0; start + 16 <= N; start += 3)
			for (size_t stride = 1; start + 16 * stride <= N; stride++)
				for (int before = 0; before < 4; before++)
					{
					vf::tick(); vf::eval();
					S s{"accumulator_2d (vector)", N}; s.create(); s.init(N, width);
					for (int round = 0; round < 3; round++)
						{
						if (before & 1) for (size_t i = start; i < N; i += 5) s.add(i, (ELEMENT)(i + 1));
						if (before & 2) for (size_t i = 0; i < N; i += 3) s.add(i, (ELEMENT)(i + 2));
						uint32_t w[16]; for (size_t i = 0; i < 16; i++) w[i] = (uint32_t)(start + (before == 3 ? 15 - i : i) * stride);
						uint32_t got[16]; size_t lanes;
#ifdef __AVX512F__
						__m512i r = (*s.table)[_mm512_loadu_si512(w)]; _mm512_storeu_si512(got, r); lanes = 16;
#else
						__m256i r = (*s.table)[_mm256_loadu_si256((__m256i *)w)]; _mm256_storeu_si256((__m256i *)got, r); lanes = 8;
#endif
						for (size_t i = 0; i < lanes; i++) if ((ELEMENT)got[i] != s.model[w[i]]) s.bad("vector element", w[i], got[i], s.model[w[i]]);
						s.look_all(); s.touch_all(); s.rewind();
						}
					s.drop();
					}
	}
template <class ELEMENT, size_t N> static void types(const char *type)
	{
	all<JASS::accumulator_2d<ELEMENT, N>, ELEMENT, N>("accumulator_2d", type);
	all<JASS::accumulator_counter<ELEMENT, N, 8>, ELEMENT, N>("accumulator_counter 8", type);
	all<JASS::accumulator_counter<ELEMENT, N, 4>, ELEMENT, N>("accumulator_counter 4", type);
	all<JASS::accumulator_counter_interleaved<ELEMENT, N, 8>, ELEMENT, N>("accumulator_counter_interleaved 8", type);
	all<JASS::accumulator_counter_interleaved<ELEMENT, N, 8, 1>, ELEMENT, N>("accumulator_counter_interleaved 8, 1", type);
	all<JASS::accumulator_counter_interleaved<ELEMENT, N, 8, 16>, ELEMENT, N>("accumulator_counter_interleaved 8, 16", type);
	all<JASS::accumulator_counter_interleaved<ELEMENT, N, 4>, ELEMENT, N>("accumulator_counter_interleaved 4", type);
	all<JASS::accumulator_counter_interleaved<ELEMENT, N, 4, 8>, ELEMENT, N>("accumulator_counter_interleaved 4, 8", type);
	}
int main(int argc, char **argv)
	{
	vf::init(argc, argv);
	types<uint8_t, 200>("uint8_t"); types<uint16_t, 200>("uint16_t"); types<uint32_t, 129>("uint32_t"); types<uint64_t, 64>("uint64_t");
	types<uint16_t, 128>("uint16_t"); types<uint8_t, 1>("uint8_t");
	vectors<uint32_t, 129>("uint32_t"); 
	return vf::finish("8 tables, 6 element types and capacities: every sequence of 4 (5) operations on up to 64 accumulators; 600 rewinds with 20 (40) patterns of use; every accumulator alone; vectors at every start and stride");
	}

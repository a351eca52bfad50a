#include "pbt.h"
#include <memory>
#include "accumulator_2d.h"
#include "accumulator_counter.h"
#include "accumulator_counter_interleaved.h"

RULE("histories of init, rewind (up to 700, so that every flag width wraps), scalar and vector reads and additive updates on every accumulator layout, against a plain array; non-trivial: at least one rewind after a write followed by a read of that accumulator")

template <typename A, typename ELEMENT, bool TWO_D, bool VECTOR> static void history(pbt::gen &g, size_t capacity)
	{
	std::unique_ptr<A> holder;
		{
		/* the object is to work whatever was in its memory before */
		void *raw = ::operator new(sizeof(A) + 256, std::align_val_t(64));
		memset(raw, (int)g.pick({0x00, 0xff, 0x01, 0xa5}), sizeof(A) + 256);
		holder.reset(new (raw) A());
		}
	struct freer { std::unique_ptr<A> &h; ~freer() { A *p = h.release(); p->~A(); ::operator delete((void *)p, std::align_val_t(64)); } } freer{holder};
	A &a = *holder;
	std::vector<ELEMENT> want;
	std::vector<char> written;										/* written since init */
	size_t n = 0; bool have = false, interesting = false;
	size_t inits = 1 + g.weighted({6, 2, 1});
	for (size_t i = 0; i < inits; i++)
		{
		n = 1 + (g.flip() ? g.draw(capacity) : g.edge(0, capacity - 1, {0, 20, 21, 24, 25, 7, 8, 63, 64, capacity - 1}));
		size_t width = 0;
		if (TWO_D && g.flip()) width = 1 + g.draw(12);
		g.note("init", n); g.note("width", width);
		try
			{
			a.init(n, width);
			}
		catch (std::bad_array_new_length &)
			{
			/* a width that would need more memory than there is must be refused, and only that */
			size_t w = (size_t)1 << width;
			REQUIRE(width != 0 && (n + w - 1) / w * w > capacity + capacity / 2, "init(" << n << ", " << width << ") refused with room for " << capacity);
			have = false;
			g.label("refused width");
			continue;
			}
		if (TWO_D && width != 0)
			{
			size_t w = (size_t)1 << width;
			REQUIRE((n + w - 1) / w * w <= capacity + capacity / 2, "init accepted a layout larger than its memory");
			}
		have = true;
		EQUAL(a.size(), n, "size()");
		want.assign(n, 0); written.assign(n, 0);
		size_t steps = g.size(1, 120);
		size_t rewinds = 0;
		for (size_t s = 0; s < steps; s++)
			{
			switch (g.weighted({6, 4, 3, 3, 1, 1}))
				{
				case 0:
					{
					size_t at = g.flip() ? g.draw(n) : g.draw(std::min<size_t>(n, 4));
					ELEMENT by = (ELEMENT)g.draw(9);
					ELEMENT &slot = a[at];
					EQUAL((uint64_t)slot, (uint64_t)want[at], "read through operator[] of accumulator " << at << " of " << n);
					slot += by;
					want[at] += by; written[at] = 1;
					EQUAL(a.get_index(&slot), at, "get_index()");
					break;
					}
				case 1:
					{
					size_t at = g.flip() ? g.draw(n) : g.draw(std::min<size_t>(n, 4));
					EQUAL((uint64_t)a.get_value(at), (uint64_t)want[at], "get_value(" << at << ") of " << n);
					interesting |= written[at] && rewinds;
					break;
					}
				case 2:
					a.rewind(); rewinds++;
					std::fill(want.begin(), want.end(), 0);
					break;
				case 3:
					if constexpr (VECTOR)
						{
						uint32_t ids[16], got[16], lanes = 16; size_t base = g.draw(n); bool cluster = g.flip();
						for (auto &x : ids) x = cluster ? std::min<size_t>(n - 1, base + g.draw(20)) : g.draw(n);
#ifdef __AVX512F__
	#ifndef USE_QUERY_IDS
						if (g.flip())
	#else
						if (false)
	#endif
							{ lanes = 8; _mm256_storeu_si256((__m256i *)got, a[_mm256_loadu_si256((__m256i *)ids)]); }
						else
							_mm512_storeu_si512((void *)got, a[_mm512_loadu_si512((void *)ids)]);
#else
						lanes = 8; _mm256_storeu_si256((__m256i *)got, a[_mm256_loadu_si256((__m256i *)ids)]);
#endif
						for (size_t l = 0; l < lanes; l++)
							{
							EQUAL((uint64_t)got[l], (uint64_t)want[ids[l]], "vector read of accumulator " << ids[l] << " (lane " << l << " of " << lanes << ") of " << n);
							interesting |= written[ids[l]] && rewinds;
							}
						}
					break;
				case 4:
					{
					size_t many = g.edge(1, 700, {14, 15, 16, 17, 30, 31, 253, 254, 255, 256, 257, 510, 511, 512});
					for (size_t r = 0; r < many; r++) a.rewind();
					rewinds += many;
					std::fill(want.begin(), want.end(), 0);
					g.label("flags wrapped", many > 255);
					break;
					}
				default:
					for (size_t at = 0; at < n; at++) EQUAL((uint64_t)a.get_value(at), (uint64_t)want[at], "get_value(" << at << ") of " << n << " in a full scan");
				}
			}
		for (size_t at = 0; at < n; at++) EQUAL((uint64_t)a.get_value(at), (uint64_t)want[at], "get_value(" << at << ") of " << n << " at the end");
		for (size_t at = 0; at < n; at++) EQUAL((uint64_t)a[at], (uint64_t)want[at], "operator[](" << at << ") of " << n << " at the end");
		for (size_t at = 0; at < n; at++) EQUAL(a.get_index(&a[at]), at, "get_index() at the end");
		}
	(void)have;
	g.nontrivial(interesting);
	}

#define LAYOUT(name, cap, q, t, two_d, vec, ELEMENT, ...) PROPERTY(name, q, t) { history<__VA_ARGS__, ELEMENT, two_d, vec>(g, cap); }
#define COMMA ,
#ifdef USE_QUERY_IDS
LAYOUT(ids_2d_16, 4096, 5000, 300000, true, true, uint16_t, JASS::accumulator_2d<uint16_t COMMA 4096>)
LAYOUT(ids_2d_8_small, 61, 5000, 300000, true, true, uint8_t, JASS::accumulator_2d<uint8_t COMMA 61>)
#else
LAYOUT(two_d_8, 4096, 4000, 300000, true, true, uint8_t, JASS::accumulator_2d<uint8_t COMMA 4096>)
LAYOUT(two_d_16, 4096, 4000, 300000, true, true, uint16_t, JASS::accumulator_2d<uint16_t COMMA 4096>)
LAYOUT(two_d_32, 1000, 4000, 300000, true, true, uint32_t, JASS::accumulator_2d<uint32_t COMMA 1000>)
LAYOUT(two_d_8_small, 61, 4000, 300000, true, true, uint8_t, JASS::accumulator_2d<uint8_t COMMA 61>)
LAYOUT(counter_8_16, 2000, 4000, 300000, false, false, uint16_t, JASS::accumulator_counter<uint16_t COMMA 2000 COMMA 8>)
LAYOUT(counter_4_16, 2000, 4000, 300000, false, false, uint16_t, JASS::accumulator_counter<uint16_t COMMA 2000 COMMA 4>)
LAYOUT(counter_4_8_small, 33, 4000, 300000, false, false, uint8_t, JASS::accumulator_counter<uint8_t COMMA 33 COMMA 4>)
LAYOUT(interleaved_8_16, 2000, 4000, 300000, false, false, uint16_t, JASS::accumulator_counter_interleaved<uint16_t COMMA 2000 COMMA 8>)
LAYOUT(interleaved_8_1_8, 2000, 4000, 300000, false, false, uint8_t, JASS::accumulator_counter_interleaved<uint8_t COMMA 2000 COMMA 8 COMMA 8>)
LAYOUT(interleaved_4_16, 2000, 4000, 300000, false, false, uint16_t, JASS::accumulator_counter_interleaved<uint16_t COMMA 2000 COMMA 4>)
LAYOUT(interleaved_4_8, 333, 4000, 300000, false, false, uint8_t, JASS::accumulator_counter_interleaved<uint8_t COMMA 333 COMMA 4>)
LAYOUT(interleaved_8_32_small, 50, 4000, 300000, false, false, uint32_t, JASS::accumulator_counter_interleaved<uint32_t COMMA 50 COMMA 8>)
#endif

#ifdef SCHED
	#include "fibre.h"
#endif
#include "pbt.h"
#include <memory>
#include <thread>
#include <limits.h>
#include "allocator_pool.h"
#include "allocator_memory.h"
#include "allocator_cpp.h"

RULE("request histories (size, alignment, rewind) on the pool and the fixed-memory allocator, each block filled with its own pattern and re-read at the end; programs of 2-4 requesters under generated interleavings and real threads; non-trivial: at least two chunks used, an alignment above 16, or a refused request (histories); at least one context switch inside a request (programs)")
ASSUME_TEXT("sizes up to 64 KiB, alignments 1..4096; interleavings are sequentially consistent")

struct block { uint8_t *at; size_t n, align; uint8_t fill; };
static void verify(std::vector<block> &live, const char *what)
	{
	for (auto &b : live)
		{
		REQUIRE((uintptr_t)b.at % b.align == 0, what << ": a block is not aligned to " << b.align);
		for (size_t i = 0; i < b.n; i++)
			REQUIRE(b.at[i] == b.fill, what << ": byte " << i << " of a live block of " << b.n << " changed");
		}
	auto order = live;
	std::sort(order.begin(), order.end(), [](const block &a, const block &b) { return a.at < b.at; });
	for (size_t i = 1; i < order.size(); i++)
		REQUIRE(order[i - 1].at + order[i - 1].n <= order[i].at || order[i].n == 0 || order[i - 1].n == 0, what << ": two live blocks overlap");
	}
static size_t an_alignment(pbt::gen &g) { return g.flip() ? g.pick({1, 8}) : g.flip() ? (size_t)1 << g.draw(13) : g.pick({3, 10, 24, 100}); }

#if !defined(SCHED) && !defined(TSAN)
PROPERTY(pool_history, 30000, 1000000)
	{
	size_t bs = g.edge(1, 70000, {1, 64, 1000, 4096, 65536});
	g.note("block_size", bs);
	JASS::allocator_pool pool(bs);
	std::vector<block> live; size_t total = 0, steps = g.size(1, 80);
	EQUAL(pool.size(), (size_t)0, "size of a new pool"); EQUAL(pool.capacity(), (size_t)0, "capacity of a new pool");
	size_t chunks = 0, last_capacity = 0; bool big_align = false;
	for (size_t s = 0; s < steps; s++)
		{
		if (g.chance(1, 20))
			{
			verify(live, "pool"); pool.rewind(); live.clear(); total = 0; last_capacity = 0;
			EQUAL(pool.size(), (size_t)0, "size after rewind"); EQUAL(pool.capacity(), (size_t)0, "capacity after rewind");
			continue;
			}
		size_t n = g.flip() ? g.size(0, 2000) : g.edge(0, 65536, {0, bs, bs / 2, 65536, 4096});
		size_t align = an_alignment(g);
		g.note(std::to_string(n) + "@" + std::to_string(align));
		block b{(uint8_t *)(align == 1 && g.flip() ? pool.malloc(n) : pool.malloc(n, align)), n, align, (uint8_t)(s * 37 + 1)};
		REQUIRE(b.at != nullptr, "the pool returned no memory");
		memset(b.at, b.fill, n);
		live.push_back(b); total += n; big_align |= align > 16 && n;
		EQUAL(pool.size(), total, "size() after a request for " << n);
		REQUIRE(pool.capacity() >= total, "capacity() " << pool.capacity() << " below the " << total << " bytes handed out");
		if (pool.capacity() != last_capacity) { chunks++; last_capacity = pool.capacity(); }
		}
	verify(live, "pool");
	g.nontrivial(chunks > 1 || big_align); g.label("several chunks", chunks > 1);
	}

PROPERTY(memory_history, 30000, 1000000)
	{
	size_t cap = g.edge(1, 20000, {1, 16, 100, 4096});
	std::unique_ptr<uint8_t[]> raw(new uint8_t[cap]);
	JASS::allocator_memory mem(raw.get(), cap);
	g.note("region", cap);
	EQUAL(mem.capacity(), cap, "capacity()"); EQUAL(mem.size(), (size_t)0, "size() of a new allocator");
	std::vector<block> live; size_t steps = g.size(1, 60), total = 0; bool refused = false, big_align = false;
	for (size_t s = 0; s < steps; s++)
		{
		if (g.chance(1, 20)) { verify(live, "memory"); mem.rewind(); live.clear(); total = 0; EQUAL(mem.size(), (size_t)0, "size after rewind"); continue; }
		size_t align = an_alignment(g);
		size_t left = cap - mem.size();
		size_t n = g.chance(1, 3) ? (g.flip() ? left : left / 2) : g.size(0, 300);
		uintptr_t top = (uintptr_t)raw.get() + mem.size();
		size_t pad = (align - top % align) % align;
		bool fits = n <= left && pad <= left - n;
		if (!fits)
			{
			if (!refused && g.chance(1, 40))
				{
				/* a request that does not fit is refused: no memory, or the program stops with a message */
				size_t ask = g.pick(std::vector<size_t>{n, left + 1, cap + 1, SIZE_MAX, SIZE_MAX - mem.size(), SIZE_MAX - mem.size() - pad + 1, SIZE_MAX / 2 + 1, n});
				if (ask <= left && pad <= left - ask) continue;
				refused = true;
				g.note("refuse", ask);
				pid_t p = fork();
				if (p == 0) { void *got = mem.malloc(ask, align); _exit(got == nullptr ? 91 : 90); }
				int st = 0; waitpid(p, &st, 0);
				REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) != 90 && WEXITSTATUS(st) != 0, "a request for " << ask << " bytes (alignment " << align << ") with " << left << " left was not refused cleanly (status " << st << ")");
				}
			continue;
			}
		block b{(uint8_t *)mem.malloc(n, align), n, align, (uint8_t)(s * 37 + 1)};
		REQUIRE(b.at >= raw.get() && b.at + n <= raw.get() + cap, "a block of " << n << " lies outside the region");
		memset(b.at, b.fill, n); live.push_back(b); total += n; big_align |= align > 16;
		REQUIRE(mem.size() >= total && mem.size() <= cap, "size() " << mem.size() << " after " << total << " bytes from " << cap);
		EQUAL(mem.capacity(), cap, "capacity()");
		}
	verify(live, "memory");
	g.nontrivial(refused || big_align || live.size() > 3); g.label("refused", refused);
	}

PROPERTY(stl_adapter, 5000, 200000)
	{
	JASS::allocator_pool pool(g.pick({100, 5000, 100000}));
	std::vector<std::vector<uint64_t, JASS::allocator_cpp<uint64_t>>> v;
	std::vector<std::vector<uint64_t>> want;
	std::map<uint32_t, std::string, std::less<uint32_t>, JASS::allocator_cpp<std::pair<const uint32_t, std::string>>> m{JASS::allocator_cpp<std::pair<const uint32_t, std::string>>(pool)};
	std::map<uint32_t, std::string> wm;
	size_t k = 1 + g.draw(4);
	for (size_t i = 0; i < k; i++) { v.emplace_back(JASS::allocator_cpp<uint64_t>(pool)); want.emplace_back(); }
	size_t steps = g.size(1, 300);
	for (size_t s = 0; s < steps; s++)
		{
		size_t w = g.draw(k); uint64_t x = g.draw(1000000);
		switch (g.weighted({6, 2, 1}))
			{
			case 0: v[w].push_back(x); want[w].push_back(x); break;
			case 1: m[x % 100] = std::to_string(x); wm[x % 100] = std::to_string(x); break;
			default: v[w].clear(); v[w].shrink_to_fit(); want[w].clear();
			}
		}
	for (size_t i = 0; i < k; i++) REQUIRE(std::equal(v[i].begin(), v[i].end(), want[i].begin(), want[i].end()), "a vector on the pool differs from a plain vector");
	REQUIRE(std::equal(m.begin(), m.end(), wm.begin(), wm.end()), "a map on the pool differs from a plain map");
	JASS::allocator_cpp<uint64_t> a(pool);
	bool threw = false;
	try { a.allocate((size_t)-1 / sizeof(uint64_t) + 1 + g.draw(5)); } catch (std::bad_array_new_length &) { threw = true; }
	REQUIRE(threw, "an impossible array length was not refused");
	REQUIRE(a.allocate(0) == nullptr, "zero elements");
	g.nontrivial(steps > 20);
	}
#endif

struct request { size_t n, align; };
static std::vector<std::vector<request>> programs(pbt::gen &g, size_t max_threads, size_t max_requests, size_t biggest)
	{
	std::vector<std::vector<request>> p(2 + g.draw(max_threads - 1));
	for (auto &t : p)
		for (size_t i = 0, n = 1 + g.draw(max_requests); i < n; i++) t.push_back({g.flip() ? g.draw(40) : g.size(0, biggest), g.pick({1, 1, 8, 16, 64, 10})});
	return p;
	}
template <typename ALLOC> static void run_program(pbt::gen &g, ALLOC &alloc, const std::vector<std::vector<request>> &p, bool exact, size_t from)
	{
	std::vector<std::vector<block>> got(p.size());
	std::vector<std::function<void()>> bodies;
	for (size_t t = 0; t < p.size(); t++)
		bodies.push_back([&, t]()
			{
			for (size_t i = 0; i < p[t].size(); i++)
				{
				block b{(uint8_t *)alloc.malloc(p[t][i].n, p[t][i].align), p[t][i].n, p[t][i].align, (uint8_t)(t * 64 + i + 1)};
				if (b.at != nullptr) memset(b.at, b.fill, b.n);
				got[t].push_back(b);
				}
			});
#ifdef SCHED
	sched::run(bodies, [&](uint64_t n) { return g.draw(n); }, g.pick({2, 3, 5, 12}));
	g.nontrivial(sched::the().switches > 0); g.label("switches", sched::the().switches > 0);
#else
	std::vector<std::thread> th;
	std::atomic<size_t> ready(0);
	for (auto &b : bodies) th.emplace_back([&]() { ready++; while (ready < bodies.size()) std::this_thread::yield(); b(); });
	for (auto &t : th) t.join();
	g.nontrivial();
#endif
	std::vector<block> live; size_t total = 0;
	for (auto &t : got) for (auto &b : t) { REQUIRE(b.at != nullptr, "no memory"); live.push_back(b); total += b.n; }
	verify(live, "concurrent requesters");
	if (exact) EQUAL(alloc.size(), from + total, "size() after all requests");
	REQUIRE(alloc.size() >= from + total && alloc.capacity() >= alloc.size(), "size " << alloc.size() << " capacity " << alloc.capacity() << " for " << total << " bytes");
	}
PROPERTY(pool_concurrent, NONDET ? 1500 : 400000, NONDET ? 100000 : 20000000, p.nondet = (NONDET))
	{
	size_t bs = g.pick({1, 50, 200, 4096, 100000});
	auto p = programs(g, 4, NONDET ? 40 : 6, 200);
	g.note("block_size", bs); for (auto &t : p) g.note("requests", t.size());
	JASS::allocator_pool pool(bs);
	if (g.flip()) pool.malloc(1);
	size_t from = pool.size();
	run_program(g, pool, p, true, from);
	}
PROPERTY(memory_concurrent, NONDET ? 1000 : 200000, NONDET ? 60000 : 10000000, p.nondet = (NONDET))
	{
	auto p = programs(g, 4, NONDET ? 40 : 6, 200);
	size_t need = 0; for (auto &t : p) for (auto &r : t) need += r.n + r.align;
	std::unique_ptr<uint8_t[]> raw(new uint8_t[need + 1]);
	JASS::allocator_memory mem(raw.get(), need + 1);
	run_program(g, mem, p, false, 0);
	}

#ifdef SCHED
	#include "fibre.h"
#endif
#include "pbt.h"
#include <memory>
#include <thread>
#include "allocator_pool.h"
#include "dynamic_array.h"

RULE("append programs: one thread with reads in between, and 2-5 threads under generated interleavings and on real threads; any initial size and growth factor >= 1; non-trivial: the array grew at least once (single thread), or threads really interleaved (several)")
ASSUME_TEXT("growth factor at least 1; readers run after the appenders finished, or read what was appended before");

template <typename ARRAY> static void whole(const ARRAY &a, ARRAY &m, const std::vector<uint64_t> &want)
	{
	std::vector<uint64_t> seen;
	for (auto it = a.begin(); it != a.end(); ++it) { seen.push_back(*it); REQUIRE(seen.size() <= want.size(), "iteration visits more elements than were appended (" << want.size() << ")"); }
	REQUIRE(seen == want, "iteration gives " << pbt::show_list(seen) << " instead of " << pbt::show_list(want));
	EQUAL(a.serialise(nullptr, 0), want.size(), "serialise() reports the size");
	for (size_t i = 0; i < want.size(); i++) EQUAL(m[i], want[i], "operator[](" << i << ")");
	if (!want.empty()) EQUAL(a.back(), want.back(), "back()");
	}

#if !defined(SCHED) && !defined(TSAN)
PROPERTY(one_thread, 60000, 3000000)
	{
	JASS::allocator_pool pool(4096);
	size_t initial = 1 + g.size(0, 100);
	double growth = g.pick({1.0, 1.5, 1.5, 2.0, 1.1, 3.7});
	g.note("initial", initial); g.note("growth", growth);
	bool defaults = g.chance(1, 4);
	JASS::dynamic_array<uint64_t> a = defaults ? JASS::dynamic_array<uint64_t>(pool) : JASS::dynamic_array<uint64_t>(pool, initial, growth);
	std::vector<uint64_t> want; std::vector<uint64_t *> where;
	REQUIRE(!(a.begin() != a.end()), "a new array is not empty");
	EQUAL(a.serialise(nullptr, 0), (size_t)0, "size of a new array");
	size_t steps = g.size(0, 400);
	for (size_t s = 0; s < steps; s++)
		switch (g.weighted({12, 1, 2, 1}))
			{
			case 0:
				{
				uint64_t v = g.draw(1 << 20); a.push_back(v); want.push_back(v); where.push_back(&a.back());
				EQUAL(a.back(), v, "back() after push_back()");
				break;
				}
			case 1: whole(a, a, want); break;
			case 2:
				if (want.size())
					{
					size_t i = g.draw(want.size());
					EQUAL(a[i], want[i], "operator[](" << i << ")");
					REQUIRE(&a[i] == where[i], "element " << i << " moved");
					if (g.chance(1, 4)) { a[i] = want[i] = g.draw(1000); }
					}
				break;
			default:
				{
				/* copying out never writes more than the room given and says how much is needed */
				size_t room = g.flip() ? want.size() : g.draw(want.size() + 5);
				if (room == 0) break;
				std::unique_ptr<uint64_t[]> out(new uint64_t[room]);
				for (size_t i = 0; i < room; i++) out[i] = ~0ULL;
				EQUAL(a.serialise(out.get(), room), want.size(), "serialise() into " << room << " reports the size");
				for (size_t i = 0; i < room; i++)
					EQUAL(out[i], i < want.size() ? want[i] : ~0ULL, "serialise() into " << room << " of " << want.size() << " at " << i);
				g.label("short copy", room < want.size());
				}
			}
	whole(a, a, want);
	if (want.size()) REQUIRE(&a[want.size() + g.draw(5)] == &a[0], "an index past the end gives the first element");
	for (size_t i = 0; i < want.size(); i++) REQUIRE(&a[i] == where[i], "element " << i << " moved");
	g.nontrivial(want.size() > (defaults ? 1 : initial)); g.label("grew", want.size() > (defaults ? 1 : initial));
	}
/* as long as the list of primary keys of a real collection */
PROPERTY(long_arrays, 60, 5000, p.cpu_limit = 60;)
	{
	JASS::allocator_pool pool;
	size_t initial = g.pick({1, 2, 1000, 65536}); double growth = initial > 100 ? g.pick({1.0, 1.5, 2.0}) : g.pick({1.5, 2.0, 3.0});
	bool defaults = g.chance(1, 3);
	JASS::dynamic_array<uint64_t> a = defaults ? JASS::dynamic_array<uint64_t>(pool) : JASS::dynamic_array<uint64_t>(pool, initial, growth);
	size_t n = g.edge(20000, 300000, {65535, 65536, 65537, 131072});
	g.note("n", n); g.note("initial", initial); g.note("growth", growth); g.note("defaults", defaults);
	auto r = g.stream();
	std::vector<uint64_t> want; std::vector<uint64_t *> where;
	for (size_t i = 0; i < n; i++) { uint64_t v = r.below(~0ULL); a.push_back(v); want.push_back(v); where.push_back(&a.back()); REQUIRE(*where.back() == v, "back() after push_back() number " << i); }
	std::vector<uint64_t> seen;
	for (auto it = a.begin(); it != a.end(); ++it) { seen.push_back(*it); REQUIRE(seen.size() <= n, "iteration visits more elements than were appended"); }
	REQUIRE(seen == want, "iteration gives other elements");
	for (size_t x = 0; x < 200; x++)
		{
		size_t i = x == 0 ? 0 : x == 1 ? n - 1 : r.below(n);
		EQUAL(a[i], want[i], "operator[](" << i << ")"); REQUIRE(&a[i] == where[i], "element " << i << " moved");
		}
	EQUAL(a.serialise(nullptr, 0), n, "serialise() reports the size");
	size_t room = g.flip() ? n : r.below(n + 5);
	std::vector<uint64_t> out(room, ~0ULL);
	if (room) EQUAL(a.serialise(out.data(), room), n, "serialise() into " << room << " reports the size");
	for (size_t i = 0; i < room; i++) if (out[i] != (i < n ? want[i] : ~0ULL)) REQUIRE(false, "serialise() into " << room << " of " << n << " at " << i);
	g.nontrivial();
	}
#endif

struct counted { uint32_t thread, index; bool operator==(const counted &o) const { return thread == o.thread && index == o.index; } };
PROPERTY(threads, NONDET ? 2500 : 300000, NONDET ? 200000 : 15000000, p.nondet = (NONDET))
	{
	size_t n = 2 + g.draw(4), most = NONDET ? 60 : 7;
	JASS::allocator_pool pool(g.pick({512, 8192, 100000}));
	size_t initial = 1 + g.draw(6); double growth = g.pick({1.0, 1.5, 2.0, 1.3});
	JASS::dynamic_array<counted> a(pool, initial, growth);
	std::vector<counted> before;
	for (size_t i = 0, k = g.draw(5); i < k; i++) { before.push_back({99, (uint32_t)i}); a.push_back(before.back()); }
	std::vector<size_t> count(n);
	for (auto &c : count) c = g.draw(most + 1);
	g.note("initial", initial); g.note("growth", growth); g.note("before", before.size()); g.note("counts " + pbt::show_list(count));
	bool reader = g.flip();
	std::vector<counted *> place; for (size_t i = 0; i < before.size(); i++) place.push_back(&a[i]);
	std::vector<std::function<void()>> bodies;
	std::string trouble;
	for (size_t t = 0; t < n; t++)
		bodies.push_back([&, t]() { for (size_t i = 0; i < count[t]; i++) a.push_back({(uint32_t)t, (uint32_t)i}); });
	if (reader && before.size())
		bodies.push_back([&]() { for (size_t r = 0; r < 4; r++) for (size_t i = 0; i < before.size(); i++) if (!(*place[i] == before[i])) trouble = "an element appended earlier changed"; });
#ifdef SCHED
	sched::run(bodies, [&](uint64_t k) { return g.draw(k); }, g.pick({2, 3, 5, 12}));
	g.nontrivial(sched::the().switches > 1);
#else
	std::vector<std::thread> th; std::atomic<size_t> ready(0);
	for (auto &b : bodies) th.emplace_back([&]() { ready++; while (ready < bodies.size()) std::this_thread::yield(); b(); });
	for (auto &t : th) t.join();
	g.nontrivial();
#endif
	REQUIRE(trouble.empty(), trouble);
	size_t total = before.size(); for (auto c : count) total += c;
	EQUAL(a.serialise(nullptr, 0), total, "the number of elements after all threads appended");
	std::vector<counted> all(total, counted{77, 77});
	if (total) a.serialise(all.data(), total);
	std::vector<uint32_t> next(n, 0); size_t from = 0;
	for (; from < before.size(); from++) { REQUIRE(all[from] == before[from], "an earlier element changed"); REQUIRE(&a[from] == place[from], "an earlier element moved"); }
	for (size_t i = from; i < total; i++)
		{
		REQUIRE(all[i].thread < n, "position " << i << " holds something nobody appended");
		EQUAL(all[i].index, next[all[i].thread], "thread " << all[i].thread << "'s elements are out of order, lost or duplicated at position " << i);
		next[all[i].thread]++;
		}
	size_t i = 0;
	for (auto it = a.begin(); it != a.end(); ++it, i++) { REQUIRE(i < total, "iteration visits too much"); REQUIRE(*it == all[i], "iteration and copy disagree at " << i); REQUIRE(a[i] == all[i], "indexing and copy disagree at " << i); }
	EQUAL(i, total, "elements visited by iteration");
	if (total) REQUIRE(a.back() == all[total - 1], "back()");
	}

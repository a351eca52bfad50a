#ifdef SCHED
	#include "fibre.h"
#endif
#include "pbt.h"
#include <memory>
#include <thread>
#include "slice.h"
#include "allocator_pool.h"
#include "binary_tree.h"
#include "hash_table.h"

RULE("look-up programs over few keys (equal keys, keys sharing a hash bucket, prefixes of one another, empty, embedded NULs): one thread against std::map, and 2-4 threads under generated interleavings and on real threads; non-trivial: at least 3 distinct keys (one thread), or two threads asking for the same new key (several)")
ASSUME_TEXT("sequentially consistent interleavings for the generated schedules; ThreadSanitizer for data races on real threads")

struct cell
	{
	uint64_t value = 0; static std::vector<cell *> *made;
	cell(JASS::allocator &) {}
	};
struct number											/* a key that is not a slice */
	{
	uint64_t n;
	number(uint64_t n) : n(n) {}
	number(JASS::allocator &, const number &o) : n(o.n) {}
	bool operator<(const number &o) const { return n < o.n; }
	};
static std::ostream &operator<<(std::ostream &o, const cell &c) { return o << c.value; }

static std::vector<std::string> keys_of(pbt::gen &g, size_t most)
	{
	size_t k = 1 + g.draw(most);
	std::vector<std::string> keys;
	for (size_t i = 0; i < k; i++)
		switch (g.weighted({4, 2, 1, 1, 1}))
			{
			case 0: keys.push_back(g.word(1, 3, "abc")); break;
			case 1: keys.push_back(keys.empty() ? "" : keys[g.draw(keys.size())] + g.word(0, 2, "az")); break;
			case 2: keys.push_back(std::string(g.draw(3), '\0') + g.word(0, 1)); break;
			case 3: keys.push_back(g.bytes(g.draw(12))); break;
			default: keys.push_back(std::string(g.draw(4), 'z') + g.word(0, 2)); break;
			}
	return keys;
	}
static JASS::slice S(const std::string &s) { return JASS::slice((void *)s.data(), s.size()); }
static std::string T(const JASS::slice &s) { return std::string((const char *)s.address(), s.size()); }
/* the tree's order: descending in the key's own order (shorter first, then bytes) */
struct slice_order { bool operator()(const std::string &a, const std::string &b) const { return S(b) < S(a); } };

#if !defined(SCHED) && !defined(TSAN)
template <typename TABLE, bool TREE> static void one(pbt::gen &g, JASS::allocator_pool &pool)
	{
	TABLE table(pool);
	auto keys = keys_of(g, 40);
	std::map<std::string, uint64_t> want; std::map<std::string, const cell *> where;
	size_t steps = g.size(1, 300);
	for (size_t s = 0; s < steps; s++)
		{
		std::string key = keys[g.draw(keys.size())];
			{
			/* the caller's key memory may be reused straight after the call */
			std::string shortlived = key;
			cell &c = table[S(shortlived)];
			EQUAL(c.value, want[key], "value of " << pbt::show(key));
			if (where.count(key)) REQUIRE(where[key] == &c, "the value of " << pbt::show(key) << " moved");
			where[key] = &c;
			if (g.flip()) { c.value = s + 1; want[key] = s + 1; }
			for (auto &ch : shortlived) ch = '#';
			}
		}
	std::vector<std::string> seen;
	for (const auto &kv : table) { std::string k = T(kv.first); seen.push_back(k); REQUIRE(where.count(k), "iteration gives a key never inserted: " << pbt::show(k)); EQUAL(kv.second.value, want[k], "iterated value of " << pbt::show(k)); REQUIRE(&kv.second == where[k], "iteration gives another object"); REQUIRE(seen.size() <= want.size(), "iteration repeats"); }
	EQUAL(seen.size(), want.size(), "keys visited");
	REQUIRE(std::set<std::string>(seen.begin(), seen.end()).size() == want.size(), "a key visited twice");
	if (TREE) REQUIRE(std::is_sorted(seen.begin(), seen.end(), slice_order()), "the tree is not iterated in key order");
	/* the text form lists each key once, too */
	std::ostringstream text; text << table;
	std::string t = text.str();
	size_t arrows = 0; for (size_t p = t.find("->"); p != std::string::npos; p = t.find("->", p + 2)) arrows++;
	size_t in_keys = 0; for (auto &k : want) for (size_t p = k.first.find("->"); p != std::string::npos; p = k.first.find("->", p + 2)) in_keys++;
	EQUAL(arrows, want.size() + in_keys, "lines of the text form");
	g.nontrivial(want.size() >= 3);
	}
/* as many keys as a collection has words */
template <typename TABLE, bool TREE> static void vocabulary(pbt::gen &g, JASS::allocator_pool &pool, size_t most)
	{
	TABLE table(pool);
	size_t n = g.edge(most / 20, most, {255, 256, 257, most - 1});
	auto r = g.stream();
	static const char *const alphabets[] = {"ab", "etaoinshrdlu", "0123456789abcdef"};
	std::string alphabet = alphabets[g.draw(3)];
	size_t longest = g.range(4, 30);
	std::map<std::string, std::pair<uint64_t, const cell *>> want;
	std::vector<std::string> asked;
	g.note("requests", n);
	for (size_t i = 0; i < n; i++)
		{
		std::string key;
		if (asked.size() && r.below(4) == 0) key = asked[r.below(asked.size())];
		else for (size_t l = r.below(longest + 1); l != 0; l--) key += alphabet[r.below(alphabet.size())];
		std::string shortlived = key;
		cell &c = table[S(shortlived)];
		auto was = want.find(key);
		EQUAL(c.value, was == want.end() ? (uint64_t)0 : was->second.first, "value of " << pbt::show(key) << " at request " << i);
		if (was != want.end()) REQUIRE(was->second.second == &c, "the value of " << pbt::show(key) << " moved");
		else asked.push_back(key);
		c.value++; want[key] = {c.value, &c};
		for (auto &ch : shortlived) ch = '#';
		}
	std::vector<std::string> seen;
	for (const auto &kv : table)
		{
		std::string k = T(kv.first); auto was = want.find(k);
		seen.push_back(k);
		REQUIRE(was != want.end(), "iteration gives a key never inserted: " << pbt::show(k));
		EQUAL(kv.second.value, was->second.first, "iterated value of " << pbt::show(k));
		REQUIRE(&kv.second == was->second.second, "iteration gives another object");
		REQUIRE(seen.size() <= want.size(), "iteration repeats");
		}
	EQUAL(seen.size(), want.size(), "keys visited");
	if (TREE) REQUIRE(std::is_sorted(seen.begin(), seen.end(), slice_order()), "the tree is not iterated in key order");
	REQUIRE(std::set<std::string>(seen.begin(), seen.end()).size() == want.size(), "a key visited twice");
	g.nontrivial(want.size() >= 256); g.label("over 10000 keys", want.size() > 10000);
	}
PROPERTY(tree_vocabulary, 30, 3000, p.cpu_limit = 60;) { JASS::allocator_pool pool; vocabulary<JASS::binary_tree<JASS::slice, cell>, true>(g, pool, 60000); }
PROPERTY(hash_8_vocabulary, 30, 3000, p.cpu_limit = 60;) { JASS::allocator_pool pool; vocabulary<JASS::hash_table<JASS::slice, cell, 8>, false>(g, pool, 60000); }
PROPERTY(hash_16_vocabulary, 20, 1000, p.cpu_limit = 60;) { JASS::allocator_pool pool; vocabulary<JASS::hash_table<JASS::slice, cell, 16>, false>(g, pool, 100000); }
PROPERTY(hash_24_vocabulary, 2, 30, p.cpu_limit = 60;) { JASS::allocator_pool pool; vocabulary<JASS::hash_table<JASS::slice, cell, 24>, false>(g, pool, 200000); }
PROPERTY(tree_one_thread, 40000, 2000000) { JASS::allocator_pool pool(65536); one<JASS::binary_tree<JASS::slice, cell>, true>(g, pool); }
PROPERTY(hash_8_one_thread, 20000, 1000000) { JASS::allocator_pool pool(65536); one<JASS::hash_table<JASS::slice, cell, 8>, false>(g, pool); }
PROPERTY(hash_16_one_thread, 600, 20000) { JASS::allocator_pool pool(65536 * 10); one<JASS::hash_table<JASS::slice, cell, 16>, false>(g, pool); }
PROPERTY(hash_24_one_thread, 8, 60) { JASS::allocator_pool pool; one<JASS::hash_table<JASS::slice, cell, 24>, false>(g, pool); }
#endif

template <typename TABLE, bool TREE> static void many(pbt::gen &g, JASS::allocator_pool &pool)
	{
	TABLE table(pool);
	size_t n = 2 + g.draw(3);
	auto keys = keys_of(g, NONDET ? 12 : 5);
	std::map<std::string, const cell *> before;
	for (auto &k : keys) if (g.chance(1, 4)) before[k] = &table[S(k)];
	std::vector<std::vector<size_t>> prog(n);
	for (auto &p : prog) for (size_t i = 0, k = 1 + g.draw(NONDET ? 30 : 4); i < k; i++) p.push_back(g.draw(keys.size()));
	std::vector<std::vector<cell *>> got(n);
	for (size_t t = 0; t < n; t++) got[t].resize(prog[t].size());
	std::vector<std::function<void()>> bodies;
	for (size_t t = 0; t < n; t++)
		bodies.push_back([&, t]() { for (size_t i = 0; i < prog[t].size(); i++) got[t][i] = &table[S(keys[prog[t][i]])]; });
	for (auto &p : prog) { std::string s; for (auto k : p) s += pbt::show(keys[k]) + " "; g.note("[" + s + "]"); }
#ifdef SCHED
	sched::run(bodies, [&](uint64_t k) { return g.draw(k); }, g.pick({2, 3, 5, 12, 30}));
#else
	std::vector<std::thread> th; std::atomic<size_t> ready(0);
	for (auto &b : bodies) th.emplace_back([&]() { ready++; while (ready < bodies.size()) std::this_thread::yield(); b(); });
	for (auto &t : th) t.join();
#endif
	std::map<std::string, const cell *> object = before; bool shared = false;
	std::map<std::string, size_t> first;
	for (size_t t = 0; t < n; t++)
		for (size_t i = 0; i < prog[t].size(); i++)
			{
			const std::string &k = keys[prog[t][i]];
			if (!object.count(k)) { object[k] = got[t][i]; first[k] = t; }
			REQUIRE(object[k] == got[t][i], "two threads got different objects for " << pbt::show(k));
			shared |= first.count(k) && first[k] != t;
			}
	std::set<const cell *> distinct; for (auto &o : object) distinct.insert(o.second);
	EQUAL(distinct.size(), object.size(), "distinct keys and distinct objects");
	size_t seen = 0; std::set<std::string> names; std::vector<std::string> order;
	for (const auto &kv : table)
		{
		std::string k = T(kv.first);
		REQUIRE(object.count(k), "iteration gives a key never inserted: " << pbt::show(k));
		REQUIRE(object[k] == &kv.second, "iteration gives another object for " << pbt::show(k));
		names.insert(k); order.push_back(k);
		REQUIRE(++seen <= object.size(), "iteration visits too much");
		}
	EQUAL(names.size(), object.size(), "keys visited by iteration");
	if (TREE) REQUIRE(std::is_sorted(order.begin(), order.end(), slice_order()), "the tree is not iterated in key order");
	for (auto &o : object) REQUIRE(&table[S(o.first)] == o.second, "a later look-up of " << pbt::show(o.first) << " gives another object");
	g.nontrivial(shared); g.label("contended key", shared);
	}
PROPERTY(tree_threads, NONDET ? 2500 : 150000, NONDET ? 150000 : 10000000, p.nondet = (NONDET)) { JASS::allocator_pool pool(65536); many<JASS::binary_tree<JASS::slice, cell>, true>(g, pool); }
PROPERTY(hash_threads, NONDET ? 2500 : 100000, NONDET ? 150000 : 6000000, p.nondet = (NONDET)) { JASS::allocator_pool pool(65536); many<JASS::hash_table<JASS::slice, cell, 8>, false>(g, pool); }

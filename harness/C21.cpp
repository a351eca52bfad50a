#include "pbt.h"
#include <memory>
#include "top_k_qsort.h"
#include "heap.h"
#include "beap.h"
#include "top_k_heap.h"
#include "pointer_box.h"
#include "sort512_uint64_t.h"
#include "allocator_pool.h"

RULE("arrays of up to 3000 values (random, few distinct, sorted, reversed, constant, organ pipe) with any k; heaps with operation histories against a multiset; non-trivial: array longer than 7 with 1 <= k < n, or a history with at least 3 operations that change the heap")

static std::vector<uint64_t> values(pbt::gen &g, size_t n, uint64_t bound)
	{
	std::vector<uint64_t> v(n);
	size_t shape = g.draw(8);
	uint64_t distinct = shape == 1 ? 1 + g.draw(5) : shape == 2 ? 1 : bound;
	if (n <= 24) for (auto &x : v) x = g.draw(std::min<uint64_t>(distinct, 100000));
	else { auto p = g.stream(); for (auto &x : v) x = p.below(distinct); }
	if (shape == 3) std::sort(v.begin(), v.end());
	if (shape == 4) std::sort(v.begin(), v.end(), std::greater<uint64_t>());
	if (shape == 5) { std::sort(v.begin(), v.end()); std::reverse(v.begin() + n / 2, v.end()); }
	if (shape == 6) { std::sort(v.begin(), v.end()); for (size_t i = 0; i + 1 < n; i += 5) std::swap(v[i], v[i + 1]); }
	if (shape == 7) for (size_t i = 0; i < n; i++) v[i] = (v[i] & 0xff) << g.pick({0, 32, 40}) | i;
	return v;
	}

static size_t length(pbt::gen &g, size_t hi) { return g.flip() ? g.size(0, hi) : g.edge(0, hi, {0, 1, 6, 7, 8, 16, 39, 40, 41, 64, 127, 128, 129, 136, 256, 257, 1000}); }

template <typename T> static void partial_sort_case(pbt::gen &g, bool pointers)
	{
	size_t n = length(g, 3000);
	auto v = values(g, n, 1ULL << 30);
	for (auto &x : v) x = (T)x;
	size_t k = g.flip() ? g.draw(n + 2) : g.edge(0, n + 1, {0, 1, 10, n / 2, n});
	g.note("n", n); g.note("k", k);
	std::unique_ptr<T[]> a(new T[n]);
	std::copy(v.begin(), v.end(), a.get());
	auto want = v; std::sort(want.begin(), want.end());
	if (pointers)
		{
		std::unique_ptr<JASS::pointer_box<T>[]> boxes(new JASS::pointer_box<T>[n]);
		for (size_t i = 0; i < n; i++) boxes[i] = JASS::pointer_box<T>(&a[i]);
		std::vector<T *> order(n); for (size_t i = 0; i < n; i++) order[i] = &a[i];
		std::sort(order.begin(), order.end(), [](T *x, T *y) { return *x != *y ? *x < *y : x < y; });
		JASS::top_k_qsort::sort(boxes.get(), n, k);
		for (size_t i = 0; i < std::min(n, k); i++)
			REQUIRE(boxes[i].pointer() == order[i], "pointer sort: position " << i << " of " << n << " top " << k);
		std::set<T *> all; for (size_t i = 0; i < n; i++) all.insert(boxes[i].pointer());
		REQUIRE(all.size() == n, "pointer sort: not a permutation");
		}
	else
		{
		if (k >= n && g.flip()) JASS::top_k_qsort::sort(a.get(), n); else JASS::top_k_qsort::sort(a.get(), n, k);
		for (size_t i = 0; i < std::min(n, k); i++)
			EQUAL((uint64_t)a[i], want[i], "position " << i << " of " << n << " top " << k);
		std::vector<uint64_t> all(a.get(), a.get() + n); std::sort(all.begin(), all.end());
		REQUIRE(all == want, "the array is not a permutation of the input");
		}
	g.nontrivial(n > 7 && k >= 1 && k < n); g.label(n > 40 ? "n > 40" : n > 7 ? "n > 7" : "n <= 7");
	}
PROPERTY(partial_sort, 60000, 3000000) { partial_sort_case<uint64_t>(g, false); }
PROPERTY(partial_sort_small_type, 20000, 1000000) { partial_sort_case<uint32_t>(g, false); }
PROPERTY(partial_sort_pointers, 30000, 1000000) { partial_sort_case<uint32_t>(g, true); }

/* many more than a result list: a whole collection's accumulators */
PROPERTY(long_sorts, 150, 8000, p.cpu_limit = 60;)
	{
	size_t n = g.edge(10000, 200000, {65535, 65536, 65537, 131072}), k = g.edge(0, n + 1, {0, 1, 10, 1000, n / 2, n}), shape = g.draw(6);
	uint64_t range = 1ULL << g.pick({1, 8, 20, 40, 62});
	auto r = g.stream();
	std::vector<uint64_t> v(n);
	for (auto &x : v) x = r.below(range);
	if (shape == 1) std::sort(v.begin(), v.end());
	if (shape == 2) std::sort(v.begin(), v.end(), std::greater<uint64_t>());
	if (shape == 3) for (size_t i = 0; i < n; i++) v[i] = i % 1000;
	if (shape == 4) { std::sort(v.begin(), v.end()); for (size_t i = 0; i < 50; i++) std::swap(v[r.below(n)], v[r.below(n)]); }
	g.note("n", n); g.note("k", k); g.note("shape", shape); g.note("range", range);
	auto a = v, want = v; std::sort(want.begin(), want.end());
	JASS::top_k_qsort::sort(a.data(), n, k);
	for (size_t i = 0; i < std::min(n, k); i++) if (a[i] != want[i]) EQUAL(a[i], want[i], "position " << i << " of " << n << " top " << k);
	std::sort(a.begin(), a.end());
	REQUIRE(a == want, "the array is not a permutation of the input");
#ifdef __AVX512F__
	std::unique_ptr<uint64_t[]> b(new uint64_t[n + 16]);
	std::copy(v.begin(), v.end(), b.get());
	for (size_t i = 0; i < 16; i++) b[n + i] = 0x1234567890abcdefULL + i;
	Sort512_uint64_t::Sort(b.get(), n);
	for (size_t i = 0; i < n; i++) if (b[i] != want[i]) EQUAL(b[i], want[i], "vector sort: position " << i << " of " << n);
	for (size_t i = 0; i < 16; i++) REQUIRE(b[n + i] == 0x1234567890abcdefULL + i, "wrote past the end of the array");
#endif
	/* the best k of them by way of the heaps */
	JASS::allocator_pool pool;
	size_t held = 1 + r.below(1000);
	JASS::top_k_heap<uint64_t> h(held, pool);
	for (auto x : v) h.push_back(x);
	h.sort();
	size_t i = 0;
	for (auto x : h) { REQUIRE(i < held, "more than " << held << " held"); if (x != want[n - 1 - i]) EQUAL(x, want[n - 1 - i], "heap of " << held << " of " << n << ": position " << i); i++; }
	EQUAL(i, std::min(n, held), "number held");
	std::vector<uint64_t> raw(v.begin(), v.begin() + held);
	JASS::heap<uint64_t> plain(raw.data(), held);
	plain.make_heap();
	for (size_t x = held; x < n; x++) if (v[x] > raw[0]) plain.push_back(v[x]);
	std::sort(raw.begin(), raw.end(), std::greater<uint64_t>());
	for (size_t x = 0; x < held; x++) if (raw[x] != want[n - 1 - x]) EQUAL(raw[x], want[n - 1 - x], "plain heap of " << held << " of " << n << ": position " << x);
	/* and the beap, of distinct elements */
	std::vector<uint64_t> rows(held); std::set<uint64_t> inside;
	for (auto &x : rows) do x = 1 + r.below(1ULL << 40); while (!inside.insert(x).second);
	JASS::beap<uint64_t> beap(rows.data(), held);
	beap.make_beap();
	for (size_t step = 0; step < 1000; step++)
		{
		uint64_t fresh; do fresh = 1 + r.below(1ULL << 40); while (inside.count(fresh));
		auto it = inside.lower_bound(r.below(1ULL << 40)); if (it == inside.end()) --it;
		uint64_t old = *it;
		int64_t at = beap.find(old);
		REQUIRE(at >= 0 && (size_t)at < held && rows[at] == old, "beap of " << held << ": find of a stored element gave " << at);
		EQUAL(beap.find(fresh), (int64_t)-1, "beap of " << held << ": find of an absent element");
		if (fresh < old) beap.guaranteed_replace_with_smaller(old, fresh); else beap.guaranteed_replace_with_larger(old, fresh);
		inside.erase(old); inside.insert(fresh);
		REQUIRE(rows[0] == *inside.begin(), "beap of " << held << ": the root is not the smallest");
		}
	REQUIRE(beap.isbeap() && std::set<uint64_t>(rows.begin(), rows.end()) == inside, "beap of " << held << ": elements lost or out of order");
	g.nontrivial(k >= 1 && k < n);
	}

#ifdef __AVX512F__
PROPERTY(vector_sort, 60000, 3000000)
	{
	/* documented and used for keys below 2^63 */
	size_t n = length(g, 3000);
	auto v = values(g, n, 1ULL << g.pick({8, 20, 40, 63}));
	g.note("n", n);
	std::unique_ptr<uint64_t[]> a(new uint64_t[n + 16]);				/* the vector code may read a whole register at the end */
	for (size_t i = 0; i < 16; i++) a[n + i] = 0x1234567890abcdefULL + i;
	std::copy(v.begin(), v.end(), a.get());
	Sort512_uint64_t::Sort(a.get(), n);
	std::sort(v.begin(), v.end());
	for (size_t i = 0; i < n; i++) EQUAL(a[i], v[i], "position " << i << " of " << n);
	for (size_t i = 0; i < 16; i++) REQUIRE(a[n + i] == 0x1234567890abcdefULL + i, "wrote past the end of the array");
	g.nontrivial(n > 7);
	}
#endif

static void heap_ok(pbt::gen &g, const std::vector<int> &a, const std::multiset<int> &m)
	{
	EQUAL(a[0], *m.begin(), "the root is not the minimum");
	for (size_t i = 0; i < a.size(); i++)
		for (size_t c = 2 * i + 1; c <= 2 * i + 2 && c < a.size(); c++)
			REQUIRE(!(a[c] < a[i]), "heap order broken between " << i << " and " << c);
	REQUIRE(std::multiset<int>(a.begin(), a.end()) == m, "elements lost, invented or duplicated");
	}

PROPERTY(heap_history, 60000, 2000000)
	{
	size_t n = g.size(1, 200); int range = g.pick({3, 20, 1000});
	std::vector<int> a(n); for (auto &x : a) x = (int)g.draw(range);
	std::multiset<int> m(a.begin(), a.end());
	JASS::heap<int> h(a.data(), n);
	if (g.flip()) h.set_top_k(n);
	h.make_heap();
	heap_ok(g, a, m);
	size_t steps = g.size(0, 80), changes = 0;
	for (size_t s = 0; s < steps; s++)
		{
		if (g.draw(3) != 0)
			{
			int key = (int)g.draw(range * 2);
			h.push_back(key);
			m.erase(m.begin()); m.insert(key); changes++;
			}
		else
			{
			int key = a[g.draw(n)];
			int64_t at = h.find(key);
			REQUIRE(at >= 0 && (size_t)at < n && a[at] == key, "find of a stored element");
			int absent = -1 - (int)g.draw(5);
			EQUAL(h.find(absent), (int64_t)-1, "find of an absent element");
			int bigger = key + (int)g.draw(range);
			h.promote(bigger, at);
			m.erase(m.find(key)); m.insert(bigger); changes++;
			}
		heap_ok(g, a, m);
		}
	g.note("n", n); g.note("changes", changes); g.nontrivial(n > 2 && changes > 2);
	}

template <typename T> static bool beap_order(const std::vector<T> &a)
	{
	size_t row = 0, start = 0;
	for (size_t i = 0; i < a.size(); i++)
		{
		if (i >= start + row + 1) { start += row + 1; row++; }
		size_t c1 = i + row + 1, c2 = i + row + 2;
		if (c1 < a.size() && a[c1] < a[i]) return false;
		if (c2 < a.size() && a[c2] < a[i]) return false;
		}
	return true;
	}

PROPERTY(beap_history, 60000, 2000000)
	{
	/* the engine stores distinct keys (score, address); the array behind the beap holds exactly the elements */
	size_t n = g.size(1, 200); bool distinct = !g.chance(1, 4); int range = distinct ? (int)n * 4 + 50 : (int)g.pick({2, 10});
	std::vector<int> a; std::multiset<int> m;
	while (a.size() < n) { int x = (int)g.draw(range); while (distinct && m.count(x)) x++; a.push_back(x); m.insert(x); }
	std::unique_ptr<int[]> store(new int[n]); std::copy(a.begin(), a.end(), store.get());
	JASS::beap<int> b(store.get(), n);
	if (g.flip()) b.set_top_k(n);
	b.make_beap();
	size_t steps = g.size(0, 60), changes = 0;
	auto look = [&](const std::string &when)
		{
		std::vector<int> now(store.get(), store.get() + n);
		REQUIRE(beap_order(now), "bi-parental order broken " << when << " " << pbt::show_list(now, 60));
		REQUIRE(b.isbeap(), "isbeap() is false " << when);
		EQUAL(now[0], *m.begin(), "the root is not the minimum " << when);
		REQUIRE(std::multiset<int>(now.begin(), now.end()) == m, "elements lost, invented or duplicated " << when << " " << pbt::show_list(now, 60));
		};
	look("after make");
	for (size_t s = 0; s < steps; s++)
		{
		int key; auto it = m.begin(); std::advance(it, g.draw(m.size())); int old = *it;
		int64_t at = b.find(old);
		std::vector<int> now(store.get(), store.get() + n);
		REQUIRE(at >= 0 && (size_t)at < n && store[at] == old, "find(" << old << ") of a stored element gave " << at << " in " << pbt::show_list(now, 60));
		int absent = (int)g.draw(range + 20) - 5;
		g.note("n", n);
		if (!m.count(absent)) { g.note("absent", absent); g.note(pbt::show_list(now, 60)); g.label("find of an absent key"); EQUAL(b.find(absent), (int64_t)-1, "find(" << absent << ") of an absent element in " << pbt::show_list(now, 60)); }
		do key = (int)g.draw(range * 2) - range / 2; while (false);
		while (distinct && m.count(key) && key != old) key++;
		int64_t r = 0; size_t how = g.draw(4);
		if (how == 0) { old = *m.begin(); if (key < old) key = old; r = b.replace_smallest_with(key); }
		else if (how == 1) { if (key == old) r = b.guaranteed_replace_with_smaller(old, key); else r = b.replace(old, key); }
		else if (how == 2) r = key <= old ? b.guaranteed_replace_with_smaller(old, key) : b.guaranteed_replace_with_larger(old, key);
		else r = key <= old ? b.replace_with_smaller(old, key) : b.replace_with_larger(old, key);
		m.erase(m.find(old)); m.insert(key); changes++;
		std::ostringstream when; when << "after replacing " << old << " by " << key << " (step " << s << ")";
		look(when.str());
		REQUIRE(r >= 0 && (size_t)r < n && store[r] == key, "the returned position does not hold the new key " << when.str());
		}
	g.note("n", n); g.note("changes", changes); g.label("duplicates", !distinct); g.nontrivial(n > 3 && changes > 2);
	}

PROPERTY(top_k_heap_history, 60000, 2000000)
	{
	size_t k = g.size(1, 60);
	JASS::allocator_pool pool;
	JASS::top_k_heap<int> h(k, pool);
	std::vector<int> all; size_t steps = g.size(0, 200); int range = g.pick({3, 50, 100000});
	auto top = [&]() { auto t = all; std::sort(t.begin(), t.end(), std::greater<int>()); if (t.size() > k) t.resize(k); return t; };
	for (size_t s = 0; s < steps; s++)
		{
		switch (g.weighted({10, 1, 1}))
			{
			case 0: { int key = (int)g.draw(range); h.push_back(key); all.push_back(key); break; }
			case 1: if (!all.empty()) EQUAL((int)h.front(), top().back(), "front is not the smallest held after " << all.size() << " insertions"); break;
			default:
				{
				h.sort(); auto t = top(); std::vector<int> got(h.begin(), h.end());
				REQUIRE(got == t, "sorted content " << pbt::show_list(got) << " expected " << pbt::show_list(t));
				}
			}
		EQUAL(h.size(), std::min(all.size(), k), "size"); EQUAL(h.capacity(), k, "capacity");
		}
	h.sort(); auto t = top(); std::vector<int> got(h.begin(), h.end());
	REQUIRE(got == t, "final content " << pbt::show_list(got) << " expected " << pbt::show_list(t));
	g.note("k", k); g.note("insertions", all.size()); g.nontrivial(all.size() > k);
	}

PROPERTY(top_k_heap_promotion, 30000, 1000000)
	{
	size_t k = g.size(1, 20); size_t pool_size = k + g.size(0, 20);
	JASS::allocator_pool pool;
	std::unique_ptr<int[]> value(new int[pool_size]); std::vector<bool> inside(pool_size, false);
	JASS::top_k_heap<JASS::pointer_box<int>> h(k, pool);
	for (size_t i = 0; i < pool_size; i++) value[i] = (int)g.draw(50);
	/* fill, then promote members and offer others, as an accumulator does */
	auto less = [&](size_t x, size_t y) { return value[x] != value[y] ? value[x] < value[y] : x < y; };
	std::vector<size_t> held;
	size_t steps = k + g.size(0, 60), next = 0, promotions = 0;
	for (size_t s = 0; s < steps; s++)
		{
		size_t what = held.size() < k ? 0 : g.weighted({3, 4, 1, 1});
		if (what == 0)
			{
			if (next >= pool_size) continue;
			size_t x = next++;
			h.push_back(JASS::pointer_box<int>(&value[x]));
			if (held.size() < k) held.push_back(x);
			else
				{
				auto m = std::min_element(held.begin(), held.end(), less);
				if (less(*m, x)) *m = x;
				}
			}
		else if (what == 1)
			{
			size_t x = held[g.draw(held.size())];
			value[x] += 1 + (int)g.draw(30);
			h.promote(JASS::pointer_box<int>(&value[x])); promotions++;
			}
		else if (what == 2)
			{
			auto m = *std::min_element(held.begin(), held.end(), less);
			REQUIRE(h.front().pointer() == &value[m], "front is not the smallest after a promotion");
			}
		else h.sort();
		}
	h.sort();
	std::sort(held.begin(), held.end(), [&](size_t x, size_t y) { return less(y, x); });
	size_t i = 0;
	for (const auto &e : h) { REQUIRE(i < held.size() && e.pointer() == &value[held[i]], "content after promotions, position " << i); i++; }
	EQUAL(i, held.size(), "members");
	g.note("k", k); g.note("promotions", promotions); g.nontrivial(promotions > 0 && next > k);
	}

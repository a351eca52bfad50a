/*
	COLLECTION.H
	------------
	A generated collection: what every check of indexes, exports and search compares with.
*/
#pragma once
#include "pbt.h"
#include <memory>
#include <iostream>
#include "asan_allocator.h"
#include "index_manager.h"
#include "index_postings.h"

struct collection
	{
	struct list { std::string name; std::vector<uint32_t> docs, values; };				// ids 1..N increasing; values are counts or impacts
	size_t n = 0;
	std::vector<std::string> keys;								// keys[0] belongs to document 1
	std::vector<list> terms;									// in generated (not sorted) order
	std::vector<uint32_t> lengths;								// [0] unused

	size_t postings() const { size_t s = 0; for (auto &t : terms) s += t.docs.size(); return s; }
	};

struct shape
	{
	size_t max_documents = 3000, max_terms = 40;
	uint32_t max_value = 1024;
	bool odd_names = true;										// bytes of any value other than NUL in names and keys
	};

static std::string unique_name(pbt::gen &g, std::set<std::string> &used, bool odd, const char *alphabet, size_t serial)
	{
	std::string s;
	size_t how = g.draw(6);
	if (how == 5 && !used.empty())							// extends or differs in the last byte from one that exists
		{
		auto it = used.begin(); std::advance(it, g.draw(used.size())); s = *it;
		if (g.flip()) s += (char)g.range(1, odd ? 255 : 'z'); else s.back()++;
		if (!odd) for (auto &c : s) if (!isalnum((unsigned char)c)) c = 'q';
		}
	else if (how == 4 && odd) { size_t l = g.size(1, 12); for (size_t i = 0; i < l; i++) s += (char)g.range(1, 255); }
	else s = g.word(1, how == 3 ? 30 : 6, alphabet);
	if (s.empty() || s.find('\0') != s.npos || used.count(s)) s = (s.find('\0') != s.npos ? std::string("n") : s) + std::to_string(serial);
	while (used.count(s)) s += "x";
	used.insert(s);
	return s;
	}

static void fill_list(pbt::gen &g, pbt::prng &r, collection::list &t, size_t n, uint32_t max_value)
	{
	static const char *densities[] = {"one", "sparse", "half", "all", "run", "sqrt", "two ends"};
	size_t density = g.draw(7);
	size_t values = g.draw(7);
	size_t a = 1 + r.below(n), b = a + r.below(n - a + 1);
	uint64_t odds = density == 1 ? std::max<size_t>(2, n / 8) : density == 2 ? 2 : density == 5 ? std::max<size_t>(1, (size_t)sqrt((double)n)) : 1;
	for (size_t d = 1; d <= n; d++)
		if (density == 0 ? d == a : density == 4 ? d >= a && d <= b : density == 6 ? d == 1 || d == n : r.below(odds) == 0) t.docs.push_back((uint32_t)d);
	if (t.docs.empty()) t.docs.push_back((uint32_t)a);
	uint32_t constant = 1 + (uint32_t)r.below(max_value);
	for (size_t i = 0; i < t.docs.size(); i++)
		{
		uint32_t v;
		switch (values)
			{
			case 0: v = 1; break;
			case 1: v = 1 + (uint32_t)r.below(std::min(max_value, 3u)); break;
			case 2: v = constant; break;
			case 3: v = 1 + (uint32_t)r.below(max_value); break;
			case 4: { v = 1; while (v < max_value && r.below(2)) v++; break; }
			case 5: v = r.below(8) == 0 ? max_value : 1 + (uint32_t)r.below(std::min(max_value, 20u)); break;
			default: v = 1 + (uint32_t)(i % max_value); break;				// every value in turn
			}
		t.values.push_back(v);
		}
	}

static collection make_collection(pbt::gen &g, const shape &s)
	{
	collection c;
	c.n = g.size(1, s.max_documents);
	size_t terms = g.size(1, s.max_terms);
	pbt::prng r = g.stream();
	std::set<std::string> used, key_used;
	bool plain_keys = g.flip();
	for (size_t d = 0; d < c.n; d++)
		if (plain_keys || d >= 20) { std::string k = "D" + std::to_string(d * 7 + 1); while (key_used.count(k)) k += "+"; key_used.insert(k); c.keys.push_back(k); }
		else c.keys.push_back(unique_name(g, key_used, s.odd_names, "abcXYZ019-_./: ", d));
	c.lengths.assign(c.n + 1, 0);
	for (size_t t = 0; t < terms; t++)
		{
		collection::list l;
		l.name = unique_name(g, used, s.odd_names, "abcdefgz0189", t);
		fill_list(g, r, l, c.n, s.max_value);
		for (size_t i = 0; i < l.docs.size(); i++) c.lengths[l.docs[i]] += l.values[i];
		c.terms.push_back(std::move(l));
		}
	return c;
	}

/* more documents, or more terms, than 16 bits can count */
static collection large_collection(pbt::gen &g)
	{
	collection c;
	pbt::prng r = g.stream();
	bool many_terms = g.chance(1, 3);
	c.n = many_terms ? 1 + g.draw(4) : g.edge(60000, 140000, {65535, 65536, 65537, 131071, 131073});
	for (size_t d = 0; d < c.n; d++) c.keys.push_back("D" + std::to_string(d * 7 + 1));
	c.lengths.assign(c.n + 1, 0);
	size_t terms = many_terms ? g.edge(60000, 70000, {65535, 65536, 65537}) : 1 + g.draw(3);
	uint32_t top = g.pick({1u, 2u, 40u, 1024u});
	size_t density = g.draw(5);
	for (size_t t = 0; t < terms; t++)
		{
		collection::list l;
		for (size_t x = t * 7 + 3; x; x /= 26) l.name += (char)('a' + x % 26);
		uint64_t odds = many_terms ? 2 : (density + t) % 5 == 0 ? 1 : (density + t) % 5 == 1 ? 2 : (density + t) % 5 == 2 ? 20 : 0;
		size_t a = 1 + r.below(c.n);
		for (size_t d = 1; d <= c.n; d++) if (odds ? r.below(odds) == 0 : (density + t) % 5 == 3 ? d == 1 || d == c.n : d >= a) l.docs.push_back((uint32_t)d);
		if (l.docs.empty()) l.docs.push_back((uint32_t)a);
		/* nearly all with one value, so that a segment is as long as it can be */
		uint32_t usual = 1 + (uint32_t)r.below(top);
		for (size_t i = 0; i < l.docs.size(); i++) { l.values.push_back(r.below(2000) == 0 ? 1 + (uint32_t)r.below(top) : usual); c.lengths[l.docs[i]] += l.values[i]; }
		c.terms.push_back(std::move(l));
		}
	for (auto &x : c.lengths) if (!x) x = 1;
	return c;
	}

/* an index manager without the 128 MB hash table, giving the terms in the order of the collection */
class fast_manager : public JASS::index_manager
	{
	public:
	asan_allocator memory;											// every block aligned: atomics that straddle cache lines take 100 times as long
	std::vector<std::pair<JASS::slice, std::unique_ptr<JASS::index_postings>>> lists;
	std::vector<JASS::slice> keys;
	explicit fast_manager(const collection &c)
		{
		std::vector<JASS::compress_integer::integer> lengths(c.lengths.begin(), c.lengths.end());
		set_document_length_vector(lengths);
		for (auto &k : c.keys) keys.push_back(JASS::slice(memory, k.data(), k.data() + k.size()));
		for (auto &t : c.terms)
			{
			std::unique_ptr<JASS::index_postings> p(new JASS::index_postings(memory));
			for (size_t i = 0; i < t.docs.size(); i++) p->push_back(t.docs[i], (JASS::index_postings_impact::impact_type)t.values[i]);
			lists.emplace_back(JASS::slice(memory, t.name.data(), t.name.data() + t.name.size()), std::move(p));
			}
		}
	template <typename LIST, typename KEY> void walk(LIST list, KEY key)
		{
		size_t n = get_highest_document_id();
		for (auto &[name, postings] : lists)
			{
			std::vector<uint8_t> temporary(n + 16);
			std::unique_ptr<JASS::compress_integer::integer[]> ids(new JASS::compress_integer::integer[n + 1]);
			std::unique_ptr<JASS::index_postings_impact::impact_type[]> tfs(new JASS::index_postings_impact::impact_type[n + 1]);
			auto df = postings->linearize(temporary.data(), n, ids.get(), tfs.get(), n);
			list(name, *postings, df, ids.get(), tfs.get());
			}
		key(0, JASS::slice("-"));
		for (size_t i = 0; i < keys.size(); i++) key(i + 1, keys[i]);
		}
	virtual void iterate(JASS::index_manager::delegate &callback)
		{
		walk([&](auto &a, auto &b, auto c, auto d, auto e) { callback(a, b, c, d, e); }, [&](size_t id, const JASS::slice &k) { callback(id, k); });
		}
	virtual void iterate(JASS::index_manager::quantizing_delegate &quantizer, JASS::index_manager::delegate &callback)
		{
		walk([&](auto &a, auto &b, auto c, auto d, auto e) { quantizer(callback, a, b, c, d, e); }, [&](size_t id, const JASS::slice &k) { quantizer(callback, id, k); });
		}
	};

/* a delegate that writes down what it is given */
class recorder : public JASS::index_manager::delegate
	{
	public:
	std::vector<collection::list> lists;
	std::vector<std::pair<size_t, std::string>> keys;
	size_t finished = 0;
	explicit recorder(size_t n) : JASS::index_manager::delegate(n) {}
	virtual void operator()(const JASS::slice &term, const JASS::index_postings &, JASS::compress_integer::integer df, JASS::compress_integer::integer *ids, JASS::index_postings_impact::impact_type *tf)
		{
		collection::list l;
		l.name.assign((const char *)term.address(), term.size());
		l.docs.assign(ids, ids + df); l.values.assign(tf, tf + df);
		lists.push_back(std::move(l));
		}
	virtual void operator()(size_t id, const JASS::slice &key) { keys.emplace_back(id, std::string((const char *)key.address(), key.size())); }
	virtual void finish() { finished++; }
	};

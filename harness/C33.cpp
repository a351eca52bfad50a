#include "pbt.h"
#include <memory>
#include "slice.h"
#include "allocator_pool.h"
#include "allocator_memory.h"

RULE("related byte strings (equal, prefix, one byte changed, unrelated; any byte value, any length 0..300); non-trivial: two strings of the set differ and neither is empty")

using JASS::slice;

/* every slice sits in an exactly sized heap block so that ASan sees any read past its end */
struct holder
	{
	std::unique_ptr<uint8_t[]> bytes; size_t n; slice s;
	explicit holder(const std::string &t) : bytes(new uint8_t[t.size()]), n(t.size()), s(bytes.get(), n) { memcpy(bytes.get(), t.data(), n); }
	};

static std::string base_string(pbt::gen &g)
	{
	size_t n = g.size(0, 300);
	switch (g.draw(4))
		{
		case 0: { std::string o; for (size_t i = 0; i < n; i++) o.push_back("ab"[g.draw(2)]); return o; }
		case 1: { std::string o; for (size_t i = 0; i < n; i++) o.push_back("\x00\x7f\x80\xff"[g.draw(4)]); return o; }
		case 2: return g.bytes(n);
		default: return std::string(n, (char)g.draw(256));
		}
	}

static std::vector<std::string> related(pbt::gen &g, size_t want)
	{
	std::vector<std::string> v; v.push_back(base_string(g));
	while (v.size() < want)
		{
		std::string x = v[g.draw(v.size())];
		switch (g.draw(6))
			{
			case 0: break;
			case 1: if (!x.empty()) x = x.substr(0, g.draw(x.size())); break;
			case 2: x += g.bytes(g.range(1, 3)); break;
			case 3: if (!x.empty()) x[g.draw(x.size())] = (char)g.draw(256); break;
			case 4: if (!x.empty()) x[x.size() - 1 - g.draw(std::min<size_t>(x.size(), 9))] ^= (char)(1 << g.draw(8)); break;
			default: x = base_string(g); break;
			}
		v.push_back(x);
		}
	return v;
	}

static int by_length(const std::string &a, const std::string &b)
	{
	if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
	for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
	return 0;
	}
static int dictionary(const std::string &a, const std::string &b)
	{
	for (size_t i = 0; i < a.size() && i < b.size(); i++) if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
	return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
	}

PROPERTY(comparison, 300000, 10000000)
	{
	auto v = related(g, 3);
	std::vector<std::unique_ptr<holder>> h;
	for (auto &x : v) { h.emplace_back(new holder(x)); g.note(pbt::show(x, 60)); }
	for (size_t i = 0; i < v.size(); i++)
		for (size_t j = 0; j < v.size(); j++)
			{
			slice a = h[i]->s, b = h[j]->s;
			int len = by_length(v[i], v[j]), dict = dictionary(v[i], v[j]);
			std::string what = pbt::show(v[i]) + " vs " + pbt::show(v[j]);
			g.equal(a == b, len == 0, "== of " + what);
			g.equal(a < b, len < 0, "< of " + what);
			g.equal(a > b, len > 0, "> of " + what);
			g.equal(slice::strict_weak_order_less_than(a, b), dict < 0, "dictionary order of " + what);
			g.nontrivial(i != j && len != 0 && !v[i].empty() && !v[j].empty());
			}
	}

PROPERTY(sorting, 8000, 300000)
	{
	auto v = related(g, g.range(2, 60));
	std::vector<std::unique_ptr<holder>> h; std::vector<slice> a, b;
	for (auto &x : v) { h.emplace_back(new holder(x)); a.push_back(h.back()->s); }
	b = a;
	std::sort(a.begin(), a.end());
	std::sort(b.begin(), b.end(), slice::strict_weak_order_less_than);
	auto want_a = v, want_b = v;
	std::sort(want_a.begin(), want_a.end(), [](const std::string &x, const std::string &y) { return by_length(x, y) < 0; });
	std::sort(want_b.begin(), want_b.end(), [](const std::string &x, const std::string &y) { return dictionary(x, y) < 0; });
	for (size_t i = 0; i < v.size(); i++)
		{
		g.check(std::string((char *)a[i].address(), a[i].size()) == want_a[i], "default order sorted position " + std::to_string(i));
		g.check(std::string((char *)b[i].address(), b[i].size()) == want_b[i], "dictionary order sorted position " + std::to_string(i));
		}
	g.nontrivial(v.size() > 4);
	}

static std::string text_of(const slice &s) { return std::string((char *)s.address(), s.size()); }

PROPERTY(copies, 60000, 2000000)
	{
	std::vector<uint8_t> region(4096);
	JASS::allocator_pool pool(1024 + g.draw(4096));
	JASS::allocator_memory memory(region.data(), region.size());
	JASS::allocator &a = g.flip() ? (JASS::allocator &)pool : (JASS::allocator &)memory;
	std::vector<std::pair<slice, std::string>> live;
	size_t n = g.range(1, 6);
	for (size_t i = 0; i < n; i++)
		{
		std::string t = base_string(g);
		std::string z = t.substr(0, t.find('\0'));
		std::vector<char> exact(t.begin(), t.end());
		char *from = exact.data(), *to = exact.data() + exact.size();
		std::vector<char> terminated(z.begin(), z.end()); terminated.push_back('\0');
		slice s; std::string want = t;
		size_t how = g.draw(9);
		switch (how)
			{
			case 0: s = slice(a, (void *)from, (void *)to); break;
			case 1: s = slice(a, (const char *)from, (const char *)to); break;
			case 2: s = slice(a, (const unsigned char *)from, (const unsigned char *)to); break;
			case 3: s = slice(a, (const char *)terminated.data()); want = z; break;
			case 4: s = slice(a, (const unsigned char *)terminated.data()); want = z; break;
			case 5: s = slice(a, slice(from, t.size())); break;
			case 6: { s = slice(a, t.size()); g.equal(s.size(), t.size(), "allocated size"); memcpy(s.address(), t.data(), t.size()); break; }
			case 7: { slice q((void *)from, (void *)to); g.check(q.address() == from && q.size() == t.size(), "non-copying slice from a pair"); s = slice(a, q); break; }
			default: { slice q(terminated.data()); g.check(q.address() == terminated.data() && q.size() == z.size(), "non-copying slice of a string"); want = z; s = slice(a, q); break; }
			}
		g.note("how", how);
		g.check(s.size() == want.size(), "length of a copy");
		g.check(text_of(s) == want, "bytes of a copy");
		if (!want.empty()) g.check((char *)s.address() + s.size() <= from || (char *)s.address() >= to, "copy aliases its source");
		if (how >= 1 && how <= 4) g.check(((char *)s.address())[s.size()] == '\0', "character copies are terminated");
		memset(exact.data(), 'X', exact.size());
		live.push_back({s, want});
		for (auto &l : live) g.check(text_of(l.first) == l.second, "an earlier copy changed");
		for (size_t k = 0; k < s.size(); k++) g.check(&s[k] == (uint8_t *)s.address() + k, "indexing");
		slice t2; t2 = s; g.check(t2 == s && t2.address() == s.address(), "assignment");
		if (s.size() > 0) { size_t k = g.draw(s.size()); t2.resize(k); g.check(t2.size() == k && s.size() == want.size(), "resize"); }
		t2.clear(); g.check(t2.size() == 0 && t2.address() == nullptr, "clear");
		std::ostringstream o; o << s; g.check(o.str() == want, "printing");
		g.nontrivial(want.size() > 1);
		}
	}

/* C11: parsed query terms against the document tokeniser and against an independent fold-and-count */
#include "pbt.h"
#include <map>
#include <memory>
#include "parser.h"
#include "parser_query.h"
#include "query.h"
#include "string_cpp.h"
#include "allocator_memory.h"
#include "allocator_pool.h"

RULE("queries of words and numbers in many scripts, upper and lower case, repeated, with punctuation and spaces of every kind between, in heap blocks of exactly their size, given as std::string and as the allocator's string; raw queries of any bytes; histories of parses into one query object; non-trivial: at least 3 words of which at least one is repeated or not ASCII (raw: at least 3 pieces)");
ASSUME_TEXT("query text is valid UTF-8 without '<' (which starts markup in a document) and words fit the document tokeniser's 1024-byte token; a raw query ends at a NUL");
using pbt::gen;

static void put(std::string &s, uint32_t c)
	{
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	}
static std::string word(gen &g)
	{
	static const uint32_t letters[] = {'a', 'B', 'c', 'Z', 0xC9, 0xE9, 0xDF, 0x130, 0x3A3, 0x3C2, 0x4E00, 0xAC00, 0x10400, 0x1E9E, 0x2160, 0xAB70, 0x13A0, 0xFB03, 0xFDFA};
	static const uint32_t digits[] = {'0', '1', '9', 0xB2, 0xBC, 0x660, 0x966, 0x2167, 0x1D7D8, 0xFF11};
	std::string s;
	size_t n = g.chance(1, 60) ? (size_t)g.range(100, 340) : g.size(1, 10);
	if (g.chance(4, 5)) { size_t pool = g.flip() ? 4 : n > 12 ? 14 : sizeof(letters) / sizeof(*letters); for (; n > 0; n--) put(s, letters[g.draw(pool)]); }
	else { bool ascii = g.flip(); for (; n > 0; n--) put(s, digits[g.draw(ascii ? 3 : sizeof(digits) / sizeof(*digits))]); }
	if (s.size() > 330 ) { s.resize(330); while (!s.empty() && (uint8_t)s.back() >= 0x80) s.pop_back(); if (s.empty()) s = "x"; }
	return s;
	}
static std::string query_text(gen &g, bool &interesting)
	{
	std::vector<std::string> vocabulary;
	std::string q;
	size_t words = g.size(0, 20), repeats = 0; bool high = false;
	auto gap = [&] { size_t n = g.size(1, 3); while (n-- > 0) { uint32_t c = g.pick({(uint32_t)' ', (uint32_t)'\t', (uint32_t)'\n', (uint32_t)',', (uint32_t)'.', (uint32_t)'-', (uint32_t)'\'', (uint32_t)'"', (uint32_t)'>', (uint32_t)'/', (uint32_t)'&', 0xA0u, 0x2014u, 0x3000u, 0x1F600u, 0x200Bu, 0u}); put(q, c); } };
	if (g.chance(1, 3)) gap();
	for (size_t k = 0; k < words; k++)
		{
		if (!vocabulary.empty() && g.chance(1, 3)) { q += g.pick(vocabulary); repeats++; }
		else { vocabulary.push_back(word(g)); q += vocabulary.back(); }
		for (char c : vocabulary.back()) high |= (uint8_t)c >= 0x80;
		if (k + 1 < words ? g.chance(9, 10) : g.chance(1, 3)) gap();
		}
	interesting = words >= 3 && (repeats || high);
	return q;
	}
typedef std::vector<std::pair<std::string, size_t>> terms;
static terms ordered(const std::map<std::string, size_t> &m)
	{
	terms t(m.begin(), m.end());
	std::sort(t.begin(), t.end(), [](auto &a, auto &b) { return a.first.size() != b.first.size() ? a.first.size() < b.first.size() : memcmp(a.first.data(), b.first.data(), a.first.size()) < 0; });
	return t;
	}
template <typename LIST> static void compare(LIST &list, const terms &want, const std::string &q)
	{
	size_t k = 0;
	EQUAL(list.size(), want.size(), "distinct terms in " << pbt::show(q));
	for (const auto &t : list)
		{
		std::string s((char *)t.token().address(), t.token().size());
		REQUIRE(s == want[k].first, "term " << k << " of " << pbt::show(q) << ": got " << pbt::show(s) << " expected " << pbt::show(want[k].first));
		EQUAL(t.frequency(), want[k].second, "frequency of " << pbt::show(s) << " in " << pbt::show(q));
		k++;
		}
	}
static terms document_terms(const std::string &q)
	{
	JASS::parser p; JASS::document d;
	std::unique_ptr<uint8_t[]> block(new uint8_t[q.size()]);
	memcpy(block.get(), q.data(), q.size());
	d.contents = JASS::slice((void *)block.get(), q.size());
	p.set_document(d);
	std::map<std::string, size_t> m;
	while (true)
		{
		const auto &t = p.get_next_token();
		if (t.type == JASS::parser::token::eof) break;
		if (t.type == JASS::parser::token::alpha || t.type == JASS::parser::token::numeric) m[std::string((char *)t.lexeme.address(), t.lexeme.size())]++;
		}
	return ordered(m);
	}
static terms raw_terms(const std::string &q)
	{
	std::map<std::string, size_t> m; std::string w;
	for (char c : q + " ")
		{
		if (c == '\0' || c == ' ' || (c >= 9 && c <= 13)) { if (!w.empty()) m[w]++; w.clear(); }
		else w += c;
		if (c == '\0') break;
		}
	return ordered(m);
	}
static std::string raw_text(gen &g, bool &interesting)
	{
	std::vector<std::string> vocabulary;
	std::string q; size_t n = g.size(0, 12);
	for (size_t k = 0; k < n; k++)
		{
		if (vocabulary.empty() || g.chance(2, 3))
			{
			std::string w = g.chance(1, 30) ? std::string((size_t)g.range(1000, 3000), 'w') : g.flip() ? g.word(1, 6, "abAB##12,.<") : g.bytes(1, 8);
			vocabulary.push_back(w);
			}
		q += g.pick(vocabulary);
		if (k + 1 < n || g.chance(1, 3)) q += g.pick({" ", "  ", "\t", "\n", "\r\n", " \v\f"});
		}
	if (!g.chance(1, 10)) for (auto &c : q) if (c == 0) c = '0';
	interesting = n >= 3;
	return q;
	}
/* the string in a block that ends exactly at its NUL */
static void parse(gen &g, JASS::parser_query &p, JASS::query_term_list &into, const std::string &q, JASS::parser_query::parser_type type)
	{
	if (g.flip()) { std::string copy(q.data(), q.size()); copy.reserve(q.size()); copy.shrink_to_fit(); p.parse(into, copy, type); }
	else
		{
		JASS::allocator_memory m(malloc(q.size() + 200), q.size() + 200);
		JASS::allocator_cpp<char> a(m);
		JASS::string s(q.data(), q.size(), a);
		p.parse(into, s, type);
		}
	}
PROPERTY(same_as_documents, 40000, 2000000)
	{
	bool interesting; std::string q = query_text(g, interesting);
	g.note(pbt::show(q)); g.nontrivial(interesting);
	JASS::allocator_pool pool(g.chance(1, 3) ? (size_t)g.range(64, 4096) : 1024 * 1024);
	JASS::parser_query p(pool);
	std::unique_ptr<JASS::query_term_list> list(new JASS::query_term_list);
	parse(g, p, *list, q, JASS::parser_query::query);
	compare(*list, document_terms(q), q);
	}
PROPERTY(raw, 20000, 1000000)
	{
	bool interesting; std::string q = raw_text(g, interesting);
	g.note(pbt::show(q)); g.nontrivial(interesting);
	JASS::allocator_pool pool(g.chance(1, 3) ? (size_t)g.range(64, 4096) : 1024 * 1024);
	JASS::parser_query p(pool);
	std::unique_ptr<JASS::query_term_list> list(new JASS::query_term_list);
	parse(g, p, *list, q, JASS::parser_query::raw);
	compare(*list, raw_terms(q), q);
	}
struct plain_query : JASS::query { };
PROPERTY(reused_query, 6000, 400000)
	{
	plain_query query;
	static const std::vector<std::string> keys;
	query.init(keys, 16, 10);
	size_t good = 0;
	std::vector<std::string> before; std::vector<terms> answers;
	for (size_t n = 1 + g.draw(5); n > 0; n--)
		{
		bool raw = g.flip(), interesting, again = !before.empty() && g.chance(1, 4);
		size_t which = again ? g.draw(before.size()) : 0;
		std::string q = again ? before[which] : raw ? raw_text(g, interesting) : query_text(g, interesting);
		g.note(std::string(raw ? "raw " : "") + pbt::show(q));
		query.rewind();
		query.parse(q, raw && !again ? JASS::parser_query::raw : JASS::parser_query::query);
		if (again) { compare(query.terms(), answers[which], q); good++; continue; }
		terms want = raw ? raw_terms(q) : document_terms(q);
		compare(query.terms(), want, q);
		if (!raw) { before.push_back(q); answers.push_back(want); }
		good += want.size() > 1;
		}
	g.nontrivial(good >= 2);
	}
PROPERTY(very_long, 10, 400)
	{
	/* up to and beyond the 65,535 terms a query can hold: the first 65,535 count */
	size_t words = (size_t)g.edge(100, 70000, {65535, 65536});
	size_t distinct = (size_t)g.range(1, 400);
	std::string q; std::map<std::string, size_t> m;
	pbt::prng r = g.stream();
	for (size_t k = 0; k < words; k++) { std::string w = std::to_string(r.below(distinct)); q += w + " "; if (k < 65535) m[w]++; }
	g.note("words", words); g.note("distinct", distinct); g.nontrivial();
	JASS::allocator_pool pool;
	JASS::parser_query p(pool);
	std::unique_ptr<JASS::query_term_list> list(new JASS::query_term_list);
	p.parse(*list, q, g.flip() ? JASS::parser_query::raw : JASS::parser_query::query);
	compare(*list, ordered(m), "a query of " + std::to_string(words) + " words");
	}

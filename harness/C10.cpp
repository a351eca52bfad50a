/* C10: the tokenisers against an independent restatement of their lexical rules */
#include "pbt.h"
#include <memory>
#include "parser.h"
#include "parser_fasta.h"
#include "parser_unicoil_json.h"
#include "unicode.h"
#include "ascii.h"

RULE("documents of words in several scripts, numbers, every kind of well-formed, unclosed and look-alike markup, malformed UTF-8 and random bytes, in heap blocks of exactly their size; FASTA documents for k-mers of 1 to 40; uniCOIL term lists; non-trivial: at least 3 tokens of at least 2 types (3 tokens for FASTA and uniCOIL)");
ASSUME_TEXT("the code point classes and case folding are the tables C24 checks; of a word longer than the 1024-byte token buffer only the prefix that fits is compared");
using pbt::gen;
static uint64_t D(gen &g, uint64_t last) { return g.draw(last + 1); }
typedef JASS::parser::token token;
struct tok { int type; std::string text; bool prefix; int count; };

/* an independent UTF-8 decoder */
static uint32_t decode(const std::string &s, size_t at, size_t &n)
	{
	n = 0;
	if (at >= s.size()) return 0xFFFD;
	auto b = [&](size_t k) { return at + k < s.size() ? (uint32_t)(uint8_t)s[at + k] : 0u; };
	uint32_t c = b(0); size_t need; uint32_t v, low;
	if (c < 0x80) { n = 1; return c; }
	else if (c >= 0xC0 && c < 0xE0) { need = 2; v = c & 0x1F; low = 0x80; }
	else if (c >= 0xE0 && c < 0xF0) { need = 3; v = c & 0x0F; low = 0x800; }
	else if (c >= 0xF0 && c < 0xF8) { need = 4; v = c & 0x07; low = 0x10000; }
	else return 0xFFFD;
	for (size_t k = 1; k < need; k++) { if ((b(k) & 0xC0) != 0x80) return 0xFFFD; v = v << 6 | (b(k) & 0x3F); }
	if (v < low || (v >= 0xD800 && v < 0xE000)) return 0xFFFD;
	n = need;
	return v > 0x10FFFF ? 0xFFFD : v;
	}
static void put(std::string &s, uint32_t c)
	{
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	}
static void fold(std::string &s, uint32_t c) { for (const uint32_t *f = JASS::unicode::tocasefold(c); *f; f++) put(s, *f); }

static std::vector<tok> reference(const std::string &d)
	{
	typedef JASS::unicode U;
	std::vector<tok> out;
	size_t at = 0, end = d.size();
	auto emit = [&](int type, std::string text) { bool cut = false; if (text.size() > 1024 && type != token::alpha && type != token::numeric) text.resize(1024); else if (text.size() > 1024) cut = true; out.push_back({type, text, cut, 1}); };
	auto upto = [&](size_t from, const std::string &what) { size_t f = d.find(what, from); return f == std::string::npos ? end : f; };
	while (true)
		{
		while (at < end && strchr(" \t\n\v\f\r", d[at]) && d[at]) at++;
		if (at >= end) break;
		size_t n; uint32_t c = decode(d, at, n);
		if ((uint8_t)d[at] >= 0x80)
			{
			/* leading Unicode spaces; whatever follows them is looked at as it is, spaces again at the next token */
			while (at < end && U::isspace(c)) { at += n; c = decode(d, at, n); }
			if (at >= end) break;
			}
		if (U::isalpha(c))
			{
			std::string w;
			while (at < end && U::isalpha(c)) { fold(w, c); at += n; c = decode(d, at, n); }
			emit(token::alpha, w);
			}
		else if (U::isdigit(c))
			{
			std::string w;
			while (at < end && U::isdigit(c)) { fold(w, c); at += n; c = decode(d, at, n); }
			emit(token::numeric, w);
			}
		else if (c != '<')
			{
			std::string w;
			if ((uint8_t)d[at] < 0x80) { w = d[at]; at++; }
			else { fold(w, c); at += n == 0 ? 1 : n; }
			emit(token::other, w);
			}
		else
			{
			at++;
			c = decode(d, at, n);
			if (U::isxmlnamestartchar(c))
				{
				size_t start = at;
				do { at += n; c = decode(d, at, n); } while (at < end && n && U::isxmlnamechar(c));
				size_t name_end = at;
				while (at < end && d[at] != '>')
					{
					if (d[at] == '"' || d[at] == '\'') at = d.find(d[at], at + 1);
					if (at == std::string::npos) at = end; else at++;
					}
				if (at > end) at = end;
				emit(d[at - 1] == '/' ? token::xml_empty_tag : token::xml_start_tag, d.substr(start, name_end - start));
				at++;
				}
			else if (c == '/')
				{
				if (U::isxmlnamestartchar(decode(d, at + 1, n))) { at++; size_t f = upto(at, ">"); emit(token::xml_end_tag, d.substr(at, f - at)); at = f + 1; }
				else emit(token::other, "<");
				}
			else if (c == '?') { at++; size_t f = upto(at, "?>"); emit(token::xml_processing_instruction, d.substr(at, f - at)); at = f + 2; }
			else if (c == '!')
				{
				at++;
				if (at + 4 < end && d.compare(at, 2, "--") == 0) { at += 2; size_t f = upto(at, "-->"); emit(token::xml_comment, d.substr(at, f - at)); at = f + 3; }
				else if (at < end && d[at] >= 'A' && d[at] <= 'Z') { size_t f = upto(at, ">"); emit(token::xml_definition, d.substr(at, f - at)); at = f + 1; }
				else if (at + 9 < end && d.compare(at, 7, "[CDATA[") == 0) { at += 7; size_t f = upto(at, "]]>"); emit(token::xml_cdata, d.substr(at, f - at)); at = f + 3; }
				else if (at + 4 < end && d[at] == '[') { at++; size_t f = upto(at, "["); emit(token::xml_conditional, d.substr(at, f - at)); at = f + 1; }
				else emit(token::other, "!");
				}
			else emit(token::other, "<");
			}
		}
	return out;
	}

static const uint32_t interesting[] = {'a', 'Z', 'z', '5', 0x41, 0xC0, 0xE9, 0xDF, 0x130, 0x149, 0x1F0, 0x2160, 0x2169, 0xBC, 0xB2, 0x660, 0x966, 0x4E00, 0x9FFF, 0xAC00, 0xD7A3, 0x10400, 0x1D7D8, 0x1F600, 0xFB03, 0xFF21, 0x3A3, 0x3C2, 0x300, 0x345, 0x200C, 0x2007, 0xA0, 0x3000, 0x2028, 0x85, 0xFFFD, 0xFFFE, 0xFEFF, 0x10FFFF, 0xE000, 0xFDFA, 0x13A0, 0xA640, 0xAB70, 0x1B3B, 0x2D, 0x2014};
static void codepoint(gen &g, std::string &s) { put(s, g.chance(3, 4) ? interesting[D(g, sizeof(interesting) / sizeof(*interesting) - 1)] : [&] { uint32_t c = (uint32_t)D(g, 0x10FFFF); return c >= 0xD800 && c < 0xE000 ? c - 0x800 : c; }()); }
static std::string name(gen &g) { std::string s = g.word(1, 6, "abDOCdoc:_"); if (g.chance(1, 5)) s += g.word(1, 3, "-.09"); if (g.chance(1, 8)) codepoint(g, s); return s; }
static std::string filler(gen &g) { return g.word(0, 8, "ab ><\"'/-]?[!"); }

static void piece(gen &g, std::string &s)
	{
	switch (g.weighted({8, 4, 6, 4, 4, 2, 2, 2, 2, 2, 2, 3, 3, 2, 1}))
		{
		case 0: s += g.word(1, 12, "abcXYZ"); break;
		case 1: s += g.word(1, 8, "0123456789"); break;
		case 2: s += g.word(1, 2, " \n\t\r\v\f"); break;
		case 3: for (size_t n = g.size(1, 6); n-- > 0;) codepoint(g, s); break;
		case 4: s += (char)D(g, 255); break;
		case 5: { s += "<" + name(g); if (g.flip()) { s += " a="; char q = "\"'"[D(g, 1)]; s += q + filler(g); if (g.chance(3, 4)) s += q; } if (g.flip()) s += "/"; if (g.chance(5, 6)) s += ">"; } break;
		case 6: s += "</" + name(g) + (g.chance(5, 6) ? ">" : ""); break;
		case 7: s += "<?" + filler(g) + (g.chance(5, 6) ? "?>" : "?"); break;
		case 8: s += "<!--" + filler(g) + (g.chance(5, 6) ? "-->" : "--"); break;
		case 9: s += "<![CDATA[" + filler(g) + (g.chance(5, 6) ? "]]>" : "]]"); break;
		case 10: s += "<![" + filler(g) + (g.chance(5, 6) ? "[" : ""); break;
		case 11: s += "<!" + g.word(0, 5, "DOCTYPEa-") + filler(g) + (g.chance(5, 6) ? ">" : ""); break;
		case 12: s += g.pick({"<", "<<", "< a>", "</", "</ a>", "<!", "<!-", "<![", "<!-- ", "<![CDATA", "<?", "&amp;", "<\xC3", "</\xC3>", "\xC3", "\xE2\x80", "\xF0\x9F\x98", "\xC0\x80", "\xED\xA0\x80", "\xF5\x80\x80\x80", "\xF4\x90\x80\x80"}); break;
		case 13: s += g.word(1, 4, "<>/!?-[]\"'.,;"); break;
		default: /* a long run */
			{
			size_t n = (size_t)g.edge(900, 1500, {1022, 1023, 1024, 1025, 1026});
			switch (D(g, 4))
				{
				case 0: s += std::string(n, 'q'); break;
				case 1: s += std::string(n, '7'); break;
				case 2: s += "<" + std::string(n, 'T') + ">"; break;
				case 3: s += "<!--" + std::string(n, '.') + "-->"; break;
				default: { s += std::string(n - n % 3, 'p').substr(0, D(g, 4)); for (size_t k = 0; k < n / 2; k++) put(s, 0xE9); } break;
				}
			}
		}
	}
static const char *type_name(int t)
	{
	static const char *names[] = {"alpha", "numeric", "start tag", "empty tag", "end tag", "comment", "cdata", "definition", "conditional", "processing instruction", "other", "end"};
	return names[t];
	}
static void compare(gen &g, JASS::parser &p, const std::vector<tok> &want, const std::string &doc)
	{
	std::set<int> types;
	for (size_t k = 0; ; k++)
		{
		const token &got = p.get_next_token();
		if (k == want.size())
			{
			REQUIRE(got.type == token::eof, "token " << k << " of " << pbt::show(doc) << ": got " << type_name(got.type) << " " << pbt::show(std::string((char *)got.lexeme.address(), got.lexeme.size())) << " expected the end");
			break;
			}
		REQUIRE(got.type == want[k].type, "token " << k << " of " << pbt::show(doc) << ": got " << type_name(got.type) << " expected " << type_name(want[k].type) << " " << pbt::show(want[k].text));
		std::string text((char *)got.lexeme.address(), got.lexeme.size());
		if (want[k].prefix)
			REQUIRE(text.size() <= token::max_token_length && text.size() > 1000 && want[k].text.compare(0, 1000, text, 0, 1000) == 0, "long token " << k << ": got " << text.size() << " bytes " << pbt::show(text.substr(0, 40)));
		else
			REQUIRE(text == want[k].text, "token " << k << " (" << type_name(got.type) << ") of " << pbt::show(doc) << ": got " << pbt::show(text) << " expected " << pbt::show(want[k].text));
		EQUAL((int)got.count, want[k].count, "count of token " << k << " " << pbt::show(text) << " of " << pbt::show(doc));
		REQUIRE(got.get() == got.lexeme, "get() is not the lexeme");
		types.insert(got.type);
		}
	for (size_t e = D(g, 2); e-- > 0;) REQUIRE(p.get_next_token().type == token::eof, "the end is not repeated");
	if (want.size() >= 3 && types.size() >= 2) g.nontrivial();
	}
/* the document in a block of exactly its size, so that AddressSanitizer sees any look beyond it */
struct holder
	{
	std::unique_ptr<uint8_t[]> block; JASS::document doc; std::string text; bool as_string;
	holder(gen &g, const std::string &d, bool may_be_string) : block(new uint8_t[d.size()]), text(d), as_string(may_be_string && g.chance(1, 8))
		{
		memcpy(block.get(), d.data(), d.size());
		doc.contents = JASS::slice((void *)block.get(), d.size());
		}
	void give(JASS::parser &p) { if (as_string) p.set_document(text); else p.set_document(doc); }
	};

PROPERTY(tokens, 60000, 4000000)
	{
	JASS::parser p;
	for (size_t docs = 1 + (g.chance(1, 5) ? D(g, 2) : 0); docs-- > 0;)
		{
		std::string d;
		for (size_t n = g.size(0, 14); n-- > 0;) piece(g, d);
		if (g.chance(1, 10) && d.size()) d.resize(D(g, d.size()));
		if (g.chance(1, 10) && d.size()) d[D(g, d.size() - 1)] = (char)D(g, 255);
		g.note(pbt::show(d));
		holder h(g, d, true);
		h.give(p);
		compare(g, p, reference(d), d);
		}
	}

PROPERTY(random_bytes, 20000, 2000000)
	{
	static const char set[] = "<>/!?-[]CDATA\"' a1\n\xC3\xA9\xE2\x80\x83\0\xFF"; static const std::string alphabet(set, sizeof(set) - 1);
	std::string d;
	bool any = g.chance(1, 4);
	for (size_t n = g.size(0, 60); n-- > 0;) d += any ? (char)D(g, 255) : alphabet[D(g, alphabet.size() - 1)];
	g.note(pbt::show(d));
	JASS::parser p; holder h(g, d, false); h.give(p);
	compare(g, p, reference(d), d);
	}

/* every code point on its own, between letters and between digits */
PROPERTY(every_codepoint, 1500, 60000)
	{
	uint32_t block = (uint32_t)(g.thorough ? D(g, 0x10FFFF >> 4) : g.chance(1, 2) ? D(g, 0x2FFF >> 4) : D(g, 0x10FFFF >> 4)) << 4;
	bool digits = g.flip();
	std::string d;
	for (uint32_t c = block; c < block + 16; c++)
		{
		if (c >= 0xD800 && c < 0xE000) continue;
		d += digits ? "12" : "Ab"; put(d, c); d += digits ? "3 " : "c "; put(d, c); d += " ";
		if (g.chance(1, 8)) { d += digits ? "a" : "1"; put(d, c); }
		}
	g.note("block " + std::to_string(block));
	JASS::parser p; holder h(g, d, true); h.give(p);
	compare(g, p, reference(d), d);
	}

PROPERTY(fasta, 30000, 2000000)
	{
	size_t k = (size_t)g.edge(1, 40, {1, 2, 3, 5});
	JASS::parser_fasta p(k);
	for (size_t docs = 1 + D(g, 2); docs-- > 0;)
		{
		std::string d;
		if (g.chance(5, 6)) d += ">";
		for (size_t n = g.size(0, 4); n-- > 0;) d += g.pick({"NR_118889", ".", "1", "strain", " ", "acgt", "<b>", "16S", "\xC3\xA9"});
		size_t header = d.size();
		bool body = g.chance(9, 10);
		if (body)
			{
			d += "\n";
			for (size_t n = g.size(0, 60); n-- > 0;)
				switch (g.weighted({16, 2, 1, 1}))
					{
					case 0: d += "ACGTacgt"[D(g, 7)]; break;
					case 1: d += g.pick({"\n", "\r\n", " ", "\t", "\n\n"}); break;
					case 2: d += "NXnx-*.>1\0\xFF"[D(g, 10)]; break;
					default: d += std::string(k > 1 ? k - 1 : 1, "ACGT"[D(g, 3)]); break;
					}
			}
		g.note("k=" + std::to_string(k) + " " + pbt::show(d));
		std::vector<tok> want = reference(d.substr(0, header));
		/* white space joins; anything else separates; then every window of k bases */
		std::string run;
		auto flush = [&] { for (size_t at = 0; at + k <= run.size(); at++) want.push_back({token::alpha, run.substr(at, k), false, 1}); run.clear(); };
		if (body)
			{
			for (size_t at = header + 1; at < d.size(); at++)
				if (strchr("ACGTacgt", d[at]) && d[at]) run += (char)(d[at] | 0x20);
				else if (!(d[at] && strchr(" \t\n\v\f\r", d[at]))) flush();
			flush();
			}
		holder h(g, d, false); h.give(p);
		compare(g, p, want, d);
		if (want.size() >= 3) g.nontrivial();
		}
	}

PROPERTY(unicoil, 20000, 1000000)
	{
	JASS::parser_unicoil_json p;
	std::string d;
	std::vector<tok> want;
	for (size_t n = g.size(0, 10); n-- > 0;)
		{
		std::string term, raw;
		size_t len = g.chance(1, 40) ? (size_t)g.edge(1000, 1100, {1023, 1024, 1025}) : g.size(1, 8);
		while (raw.size() < len)
			switch (g.weighted({8, 2, 1, 1, 1}))
				{
				case 0: raw += "abcdeXYZ#"[D(g, 8)]; break;
				case 1: raw += "0123456789"[D(g, 9)]; break;
				case 2: codepoint(g, raw); if (raw.back() == '"' || raw.back() == '\\') raw += "x"; break;
				case 3: raw += g.pick({"\\\"", "\\\\", "\\u00e9", "\\n"}); break;
				default: raw += " :,{}<>"[D(g, 6)]; break;
				}
		long long count = (long long)g.edge(0, 70000, {0, 1, 255, 1023, 1024, 1025, 65535, 65536});
		if (g.chance(2, 3)) count = 1 + count % 400;
		d += g.pick({"", " ", "\n"}) + std::string("\"") + raw + "\"" + g.pick({": ", ":", " : "}) + std::to_string(count) + g.pick({", ", ",", "}", "\n"});
		if (count > 0) want.push_back({token::alpha, raw, false, (int)std::min(count, 1024LL)});
		if (raw.size() > 1024 && count > 0) { want.back().text.resize(1024); }
		}
	if (g.chance(1, 3)) d += g.pick({"}", "}}", " } }\n", ","});
	g.note(pbt::show(d));
	holder h(g, d, false); h.give(p);
	compare(g, p, want, d);
	if (want.size() >= 3) g.nontrivial();
	}

/* whatever the bytes, the special parsers end, stay inside the document and never give an over-long token */
PROPERTY(any_bytes_end, 10000, 1000000)
	{
	std::string d;
	static const char set[] = "\"\\:,{}0123459aACGT>\n N"; static const std::string alphabet(set, sizeof(set) - 1);
	for (size_t n = g.size(0, 60); n-- > 0;) d += g.chance(1, 10) ? (char)D(g, 255) : alphabet[D(g, alphabet.size() - 1)];
	g.note(pbt::show(d));
	std::unique_ptr<JASS::parser> p;
	if (g.flip()) p.reset(new JASS::parser_unicoil_json); else p.reset(new JASS::parser_fasta(1 + D(g, 8)));
	holder h(g, d, false); h.give(*p);
	size_t count = 0;
	while (true)
		{
		const token &got = p->get_next_token();
		if (got.type == token::eof) break;
		REQUIRE(got.lexeme.size() <= token::max_token_length, "over-long token");
		REQUIRE(got.count >= 1 && got.count <= 1024, "count " << got.count);
		REQUIRE(++count <= d.size() + 1, "more tokens than bytes");
		}
	if (count >= 3) g.nontrivial();
	}

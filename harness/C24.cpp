/* C24: character tables against an independent reading of the Unicode data files; UTF-8 against an independent coder */
#include "pbt.h"
#include <ctype.h>
#include <fstream>
#include <map>
#include <memory>
#include "unicode.h"
#include "ascii.h"

RULE("every code point against an independent reading of UnicodeData, PropList and CaseFolding (one exhaustive pass and generated blocks); every byte against the C classes; byte strings of valid, truncated, overlong, surrogate, out-of-range and random sequences decoded in blocks of exactly their size; non-trivial: the block holds an assigned code point, or the bytes hold one above 0x7F");
ASSUME_TEXT("class definitions are the ones documented at the top of tools/unicode_database_to_c.cpp; the code points that UTF-8 encodes exclude surrogates");
using pbt::gen;

struct data
	{
	enum { ALPHA, ALNUM, UPPER, LOWER, CNTRL, DIGIT, GRAPH, PUNCT, SPACE, USPACE, XDIGIT, MARK, SYMBOL, NAMESTART, NAME, CLASSES };
	std::vector<uint32_t> bits = std::vector<uint32_t>(0x110000, 0);
	std::map<uint32_t, std::vector<uint32_t>> decomposition, folding;
	bool has(uint32_t c, int k) const { return bits[c] >> k & 1; }
	static std::vector<std::string> split(const std::string &s, char by) { std::vector<std::string> out; std::istringstream i(s); std::string p; while (std::getline(i, p, by)) out.push_back(p); return out; }
	static uint32_t hex(const std::string &s) { return (uint32_t)std::stoul(s, nullptr, 16); }
	static bool in(uint32_t c, std::initializer_list<std::pair<uint32_t, uint32_t>> r) { for (auto &p : r) if (c >= p.first && c <= p.second) return true; return false; }
	void set(uint32_t c, int k) { bits[c] |= 1u << k; }
	data()
		{
		const char *repo = getenv("VERIF_REPO");
		std::string dir = std::string(repo ? repo : "/repo") + "/external/Unicode/";
		std::string line; uint32_t first = 0;
		std::ifstream u(dir + "UnicodeData.txt");
		while (std::getline(u, line))
			{
			auto f = split(line, ';');
			if (f.size() < 6) continue;
			uint32_t c = hex(f[0]);
			auto ends = [&](const char *t) { return f[1].size() > strlen(t) && f[1].compare(f[1].size() - strlen(t), strlen(t), t) == 0; };
			if (ends(", First>")) first = c;
			for (uint32_t x = ends(", Last>") ? first : c; x <= c; x++) category(x, f[2]);
			std::string d = f[5];
			if (!d.empty() && d[0] == '<') d = d.substr(d.find('>') + 1);
			for (auto &h : split(d, ' ')) if (!h.empty()) decomposition[c].push_back(hex(h));
			}
		std::ifstream p(dir + "PropList.txt");
		while (std::getline(p, line))
			{
			line = line.substr(0, line.find('#'));
			if (line.find(';') == std::string::npos) continue;
			auto f = split(line, ';');
			uint32_t from = hex(f[0]), to = from;
			size_t dots = f[0].find("..");
			if (dots != std::string::npos) to = hex(f[0].substr(dots + 2));
			std::string what = f[1]; what.erase(0, what.find_first_not_of(' ')); what.erase(what.find_last_not_of(' ') + 1);
			for (uint32_t c = from; c <= to; c++)
				{
				if (what == "Other_Alphabetic" || what == "Other_Lowercase" || what == "Other_Uppercase") { set(c, ALPHA); set(c, ALNUM); }
				if (what == "Other_Lowercase") set(c, LOWER);
				if (what == "Other_Uppercase") set(c, UPPER);
				if (what == "Hex_Digit" || what == "ASCII_Hex_Digit") set(c, XDIGIT);
				if (what == "Dash" || what == "Terminal_Punctuation") set(c, PUNCT);
				}
			}
		std::ifstream k(dir + "CaseFolding.txt");
		while (std::getline(k, line))
			{
			if (line.empty() || line[0] == '#') continue;
			auto f = split(line, ';');
			if (f.size() < 3 || (f[1] != " C" && f[1] != " F")) continue;
			std::vector<uint32_t> to;
			for (auto &h : split(f[2], ' ')) if (!h.empty()) to.push_back(hex(h));
			folding[hex(f[0])] = to;
			}
		}
	void category(uint32_t c, const std::string &k)
		{
		char g = k[0];
		if (k == "Lu" || k == "Ll" || k == "Lt" || k == "Lm" || k == "Lo" || k == "Nl") { set(c, ALPHA); set(c, ALNUM); }
		if (g == 'N') { set(c, DIGIT); set(c, ALNUM); }
		if (k == "Lu") set(c, UPPER);
		if (k == "Ll") set(c, LOWER);
		if (k == "Cc") set(c, CNTRL);
		if (g == 'L' || g == 'M' || g == 'N' || g == 'P' || g == 'S' || k == "Zs") set(c, GRAPH);
		if (g == 'P') set(c, PUNCT);
		if (k == "Zs") set(c, USPACE);
		if (g == 'Z' || (c >= 9 && c <= 13) || c == 0x85) set(c, SPACE);
		if (g == 'M') set(c, MARK);
		if (g == 'S') set(c, SYMBOL);
		if (in(c, {{':', ':'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF}, {0x370, 0x37D}, {0x37F, 0x1FFF}, {0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF}, {0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF}})) { set(c, NAMESTART); set(c, NAME); }
		if (in(c, {{'-', '.'}, {'0', '9'}, {0xB7, 0xB7}, {0x300, 0x36F}, {0x203F, 0x2040}})) set(c, NAME);
		}
	void expand(uint32_t c, std::vector<uint32_t> &out, int depth = 0) const
		{
		auto d = decomposition.find(c);
		if (d != decomposition.end() && depth < 30) { for (uint32_t x : d->second) expand(x, out, depth + 1); return; }
		auto f = folding.find(c);
		if (f == folding.end()) { if (has(c, ALNUM) || c == 0x20) out.push_back(c); }
		else for (uint32_t x : f->second) if (has(x, ALNUM)) out.push_back(x);
		}
	std::vector<uint32_t> normal(uint32_t c) const
		{
		std::vector<uint32_t> out;
		expand(c, out);
		while (!out.empty() && out.front() == 0x20) out.erase(out.begin());
		while (!out.empty() && out.back() == 0x20) out.pop_back();
		return out;
		}
	};
static const data &unicode_data() { static data d; return d; }

static bool check_codepoint(uint32_t c)
	{
	typedef JASS::unicode U;
	static int (*const is[])(uint32_t) = {U::isalpha, U::isalnum, U::isupper, U::islower, U::iscntrl, U::isdigit, U::isgraph, U::ispunct, U::isspace, U::isuspace, U::isxdigit, U::ismark, U::issymbol, U::isxmlnamestartchar, U::isxmlnamechar};
	static const char *name[] = {"alpha", "alnum", "upper", "lower", "cntrl", "digit", "graph", "punct", "space", "uspace", "xdigit", "mark", "symbol", "xmlnamestartchar", "xmlnamechar"};
	const data &d = unicode_data();
	for (int k = 0; k < data::CLASSES; k++)
		REQUIRE((is[k](c) != 0) == d.has(c, k), "is" << name[k] << "(U+" << std::hex << c << "): got " << (is[k](c) != 0));
	std::vector<uint32_t> want = d.normal(c), got, also;
	for (const uint32_t *f = U::tocasefold(c); *f != 0; f++) got.push_back(*f);
	auto h = [](const std::vector<uint32_t> &v) { std::ostringstream o; for (auto x : v) o << " U+" << std::hex << x; return o.str(); };
	REQUIRE(got == want, "case folding of U+" << std::hex << c << ": got" << h(got) << " expected" << h(want));
	REQUIRE(got.size() <= U::max_casefold_expansion_factor, "case folding of U+" << std::hex << c << " is " << std::dec << got.size() << " long");
	U::tocasefold(also, c);
	REQUIRE(also == want, "tocasefold() into a vector of U+" << std::hex << c << " differs");
	return d.bits[c] != 0;
	}
static std::string encode(uint32_t c)
	{
	std::string s;
	if (c < 0x80) s += (char)c;
	else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
	return s;
	}
static void check_utf8(uint32_t c)
	{
	typedef JASS::unicode U;
	std::string want = encode(c);
	EQUAL(U::utf8_bytes(c), want.size(), "utf8_bytes(U+" << std::hex << c << ")");
	for (size_t room = 0; room <= 5; room++)
		{
		uint8_t buffer[8]; memset(buffer, 0xAA, sizeof(buffer));
		size_t n = U::codepoint_to_utf8(buffer, buffer + room, c);
		size_t expect = room >= want.size() ? want.size() : 0;
		EQUAL(n, expect, "encoding U+" << std::hex << c << " into " << room << " bytes");
		REQUIRE(memcmp(buffer, want.data(), n) == 0, "encoding of U+" << std::hex << c);
		for (size_t k = n; k < sizeof(buffer); k++) REQUIRE(buffer[k] == 0xAA, "encoding U+" << std::hex << c << " into " << room << " bytes wrote byte " << k);
		}
	size_t used = 99;
	EQUAL(U::utf8_to_codepoint(want.data(), want.data() + want.size(), used), c, "decoding U+" << std::hex << c);
	EQUAL(used, want.size(), "bytes consumed decoding U+" << std::hex << c);
	EQUAL(U::isutf8(want.data(), want.data() + want.size()), want.size(), "isutf8 of U+" << std::hex << c);
	EQUAL(U::utf8_bytes((const void *)want.data()), want.size(), "utf8_bytes of the first byte of U+" << std::hex << c);
	}

PROPERTY(every_codepoint, 1, 1, p.cpu_limit = 600)
	{
	for (uint32_t c = 0; c <= 0x10FFFF; c++) { check_codepoint(c); if (c < 0xD800 || c > 0xDFFF) check_utf8(c); }
	g.note("all 1,114,112 code points");
	g.nontrivial();
	}
PROPERTY(blocks, 4000, 40000)
	{
	uint32_t block = (uint32_t)(g.chance(1, 2) ? g.draw(0x3000 >> 4) : g.draw(0x110000 >> 4)) << 4;
	bool assigned = false;
	for (uint32_t c = block; c < block + 16; c++) { assigned |= check_codepoint(c); if (c < 0xD800 || c > 0xDFFF) check_utf8(c); }
	g.note("block", block);
	g.nontrivial(assigned);
	}
PROPERTY(ascii_classes, 1, 1)
	{
	typedef JASS::ascii A; typedef JASS::unicode U;
	auto same = [](int got, int want, const char *what, int c) { REQUIRE((got != 0) == (want != 0), what << " of byte " << c << ": got " << got); };
	for (int c = 0; c < 256; c++)
		{
		bool a = c < 128;
		same(A::isascii((uint8_t)c), a, "isascii", c);
		bool up = c >= 'A' && c <= 'Z', low = c >= 'a' && c <= 'z', dig = c >= '0' && c <= '9', sp = c == ' ' || (c >= 9 && c <= 13), ctl = c < 32 || c == 127;
		bool xd = dig || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'), pun = a && !ctl && !up && !low && !dig && c != ' ';
		same(A::isalpha((uint8_t)c), up || low, "isalpha", c);
		same(A::isalnum((uint8_t)c), up || low || dig, "isalnum", c);
		same(A::isdigit((uint8_t)c), dig, "isdigit", c);
		same(A::isupper((uint8_t)c), up, "isupper", c);
		same(A::islower((uint8_t)c), low, "islower", c);
		same(A::isspace((uint8_t)c), sp, "isspace", c);
		same(A::iscntrl((uint8_t)c), ctl && a, "iscntrl", c);
		same(A::ispunct((uint8_t)c), pun, "ispunct", c);
		same(A::isgraph((uint8_t)c), pun || up || low || dig, "isgraph", c);
		same(A::isxdigit((uint8_t)c), xd, "isxdigit", c);
		if (a) same(A::isprint((uint8_t)c), !ctl, "isprint", c);
		int l = up ? c + 32 : c, u = low ? c - 32 : c;
		same(A::isDNAbase((uint8_t)c), c && strchr("acgt", l) && a, "isDNAbase", c);
		same(A::isvowel((uint8_t)c), c && strchr("aeiou", l), "isvowel", c);
		same(A::isvowely((uint8_t)c), c && strchr("aeiouy", l), "isvowely", c);
		EQUAL((int)A::tolower((uint8_t)c), l, "tolower " << c);
		EQUAL((int)A::toupper((uint8_t)c), u, "toupper " << c);
		if (a)
			{
			same(U::isalpha(c), A::isalpha((uint8_t)c), "unicode isalpha", c);
			same(U::isalnum(c), A::isalnum((uint8_t)c), "unicode isalnum", c);
			same(U::isdigit(c), A::isdigit((uint8_t)c), "unicode isdigit", c);
			same(U::isupper(c), A::isupper((uint8_t)c), "unicode isupper", c);
			same(U::islower(c), A::islower((uint8_t)c), "unicode islower", c);
			same(U::isspace(c), A::isspace((uint8_t)c), "unicode isspace", c);
			same(U::iscntrl(c), A::iscntrl((uint8_t)c), "unicode iscntrl", c);
			same(U::isxdigit(c), A::isxdigit((uint8_t)c), "unicode isxdigit", c);
			if (A::isalnum((uint8_t)c)) EQUAL((int)*U::tocasefold(c), (int)A::tolower((uint8_t)c), "case folding of " << c);
			}
		}
	g.note("all 256 bytes");
	g.nontrivial();
	}

/* an independent decoder, straight from the table of well-formed sequences (Unicode 3-7), plus: 4-byte sequences beyond U+10FFFF are consumed whole and replaced */
static uint32_t reference(const std::string &s, size_t &n)
	{
	auto cont = [&](size_t k, int lo = 0x80, int hi = 0xBF) { return k < s.size() && (uint8_t)s[k] >= lo && (uint8_t)s[k] <= hi; };
	n = 0;
	if (s.empty()) return 0xFFFD;
	int a = (uint8_t)s[0];
	auto b = [&](size_t k) { return (uint32_t)((uint8_t)s[k] & 0x3F); };
	if (a < 0x80) { n = 1; return a; }
	if (a >= 0xC2 && a <= 0xDF && cont(1)) { n = 2; return (a & 31) << 6 | b(1); }
	if (a >= 0xE0 && a <= 0xEF && cont(1, a == 0xE0 ? 0xA0 : 0x80, a == 0xED ? 0x9F : 0xBF) && cont(2)) { n = 3; return (a & 15) << 12 | b(1) << 6 | b(2); }
	if (a >= 0xF0 && a <= 0xF7 && cont(1, a == 0xF0 ? 0x90 : 0x80) && cont(2) && cont(3))
		{
		n = 4;
		uint32_t c = (a & 7) << 18 | b(1) << 12 | b(2) << 6 | b(3);
		return c > 0x10FFFF ? 0xFFFD : c;
		}
	return 0xFFFD;
	}
PROPERTY(byte_sequences, 400000, 20000000)
	{
	std::string s;
	switch (g.weighted({4, 3, 2, 1}))
		{
		case 0: for (size_t n = g.draw(6); n-- > 0;) s += (char)g.pick({0x80, 0xBF, 0x9F, 0xA0, 0x8F, 0x90, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF, 0x41, 0x00, 0x7F}); break;
		case 1: s = g.bytes((size_t)g.draw(6)); break;
		case 2: { uint32_t c = (uint32_t)g.draw(0x110000); s = encode(c); if (g.flip()) s.resize(g.draw(s.size() + 1)); else s += (char)g.draw(256); } break;
		default: { s = encode((uint32_t)g.draw(0x110000)); s[g.draw(s.size())] = (char)g.draw(256); } break;
		}
	g.note(pbt::show(s));
	std::unique_ptr<uint8_t[]> block(new uint8_t[s.size()]);
	memcpy(block.get(), s.data(), s.size());
	size_t want_n, got_n = 99;
	uint32_t want = reference(s, want_n), got = JASS::unicode::utf8_to_codepoint(block.get(), block.get() + s.size(), got_n);
	EQUAL(got_n, want_n, "bytes consumed");
	EQUAL(got, want, "code point");
	EQUAL(JASS::unicode::isutf8(block.get(), block.get() + s.size()), want_n, "isutf8");
	bool high = false; for (char c : s) high |= (uint8_t)c >= 0x80;
	g.nontrivial(high);
	}

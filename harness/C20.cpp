#include "pbt.h"
#include "bitstring.h"
#include "bitstream.h"
#include <memory>

RULE("bitstring: operation histories over 1-4 bit strings of length 0..700 against a set model; bitstream: sequences of writes of any width into buffers around the exact size; non-trivial: a Boolean operation or a shrink after a set / at least two writes of different widths")

struct model
	{
	size_t length = 0;
	std::vector<bool> bits;
	void resize(size_t n) { bits.resize(n); length = n; }
	};

static void compare(pbt::gen &g, JASS::bitstring &b, const model &m, const std::string &when)
	{
	EQUAL(b.size(), m.length, "size " << when);
	size_t count = 0;
	for (size_t i = 0; i < m.length; i++)
		{
		EQUAL((bool)b.getbit(i), (bool)m.bits[i], "bit " << i << " " << when);
		count += m.bits[i];
		}
	for (size_t i = m.length; i < m.length + 130; i++)
		REQUIRE(!b.getbit(i), "a bit past the end reads as set " << when);
	EQUAL(b.popcount(), count, "population count " << when);
	size_t which = 0;
	for (size_t i = 0; i < m.length; i++)
		if (m.bits[i] && (++which < 4 || which % 43 == 0 || which + 2 > count))
			EQUAL(b.index(which), i, "position of set bit number " << which << " " << when);
	EQUAL(b.index(count + 1), std::numeric_limits<size_t>::max(), "position of a set bit that is not there " << when);
	size_t bytes; uint8_t *data = b.serialise(bytes);
	REQUIRE(bytes * 8 >= m.length, "serialised form is too short");
	for (size_t i = 0; i < bytes * 8; i++)
		EQUAL((bool)((data[i >> 3] >> (i & 7)) & 1), (i < m.length && m.bits[i]), "serialised bit " << i << " " << when);
	}

static size_t length(pbt::gen &g) { return g.edge(0, 700, {1, 8, 56, 64, 128, 192, 256, 512, 640}); }

PROPERTY(bitstring_model, 100000, 900000)
	{
	size_t n = g.range(1, 4);
	std::vector<JASS::bitstring> b(n); std::vector<model> m(n);
	for (size_t i = 0; i < n; i++) { size_t l = length(g); b[i].resize(l); m[i].resize(l); g.note("len", l); }
	size_t steps = g.size(1, 60); bool set_once = false;
	for (size_t s = 0; s < steps; s++)
		{
		size_t x = g.draw(n), op = g.weighted({8, 3, 2, 1, 1, 1, 3, 3, 3, 3, 3});
		std::string when = "after step " + std::to_string(s) + " op " + std::to_string(op);
		switch (op)
			{
			case 0: case 1: case 2:
				{
				size_t p = g.edge(0, m[x].length + 140, {0, 7, 8, 63, 64, m[x].length});
				if (op == 1) b[x].unsetbit(p); else b[x].setbit(p);
				if (p < m[x].length) { m[x].bits[p] = op != 1; set_once = set_once || op != 1; }
				break;
				}
			case 3: b[x].zero(); m[x].bits.assign(m[x].length, false); break;
			case 4: b[x].one(); m[x].bits.assign(m[x].length, true); set_once = set_once || m[x].length; break;
			case 5:
				{
				if (m[x].length == 0) break;
				auto p = g.stream(); uint64_t density = 1 + p.below(8);
				for (size_t i = 0; i < m[x].length; i++) if (p.below(density) == 0) { b[x].unsafe_setbit(i); m[x].bits[i] = true; } else if (p.below(4) == 0) { b[x].unsafe_unsetbit(i); m[x].bits[i] = false; }
				set_once = true;
				break;
				}
			case 6:
				{ size_t l = length(g); if (l < m[x].length) g.label("shrink"); g.nontrivial(l < m[x].length && set_once); b[x].resize(l); m[x].resize(l); break; }
			default:
				{
				size_t y = g.draw(n), z = g.draw(n);		/* may alias */
				/* operands and answer all get the length of the longer operand */
				size_t longest = std::max(m[x].length, m[y].length);
				model mx = m[x], my = m[y]; mx.resize(longest); my.resize(longest); m[x].resize(longest); m[y].resize(longest);
				model r; r.resize(longest);
				for (size_t i = 0; i < longest; i++)
					r.bits[i] = op == 7 ? mx.bits[i] | my.bits[i] : op == 8 ? mx.bits[i] != my.bits[i] : op == 9 ? mx.bits[i] & my.bits[i] : mx.bits[i] & !my.bits[i];
				if (op == 7) b[x].bit_or(b[z], b[y]); else if (op == 8) b[x].bit_xor(b[z], b[y]); else if (op == 9) b[x].bit_and(b[z], b[y]); else b[x].bit_and_not(b[z], b[y]);
				m[z] = r;
				g.nontrivial(set_once && longest > 0);
				g.label(op == 7 ? "or" : op == 8 ? "xor" : op == 9 ? "and" : "and not");
				if (z == x || z == y) g.label("aliased answer");
				}
			}
		if (s % 4 == 0 || s + 1 == steps)
			for (size_t i = 0; i < n; i++) compare(g, b[i], m[i], when);
		}
	for (size_t i = 0; i < n; i++) compare(g, b[i], m[i], "at the end");
	}

/* as many bits as a collection has documents */
PROPERTY(long_bitstrings, 200, 8000, p.cpu_limit = 60;)
	{
	JASS::bitstring b[3]; std::vector<bool> m[3];
	auto r = g.stream();
	for (size_t i = 0; i < 3; i++)
		{
		size_t l = g.edge(20000, 600000, {65535, 65536, 65537, 131072, 524288}); uint64_t density = g.pick({1, 2, 50, 5000});
		g.note("length", l);
		b[i].resize(l); m[i].assign(l, false);
		for (size_t x = 0; x < l; x++) if (r.below(density) == 0) { if (x & 1) b[i].setbit(x); else b[i].unsafe_setbit(x); m[i][x] = true; }
		}
	auto check = [&](size_t i, const char *when)
		{
		size_t count = 0, last = 0;
		for (size_t x = 0; x < m[i].size(); x++)
			{
			if (b[i].getbit(x) != m[i][x]) REQUIRE(false, "bit " << x << " of " << m[i].size() << " " << when);
			if (m[i][x]) { count++; last = x; }
			}
		EQUAL(b[i].popcount(), count, "population count " << when);
		if (count) { EQUAL(b[i].index(count), last, "position of the last set bit " << when); }
		size_t which = 0, wanted = count ? 1 + r.below(count) : 0;
		for (size_t x = 0; x < m[i].size() && wanted; x++) if (m[i][x] && ++which == wanted) { EQUAL(b[i].index(wanted), x, "position of set bit " << wanted << " " << when); break; }
		EQUAL(b[i].index(count + 1), std::numeric_limits<size_t>::max(), "position of a set bit that is not there " << when);
		};
	check(0, "to start with");
	size_t op = g.draw(4), longest = std::max(m[0].size(), m[1].size());
	m[0].resize(longest); m[1].resize(longest); m[2].assign(longest, false);
	for (size_t x = 0; x < longest; x++) m[2][x] = op == 0 ? m[0][x] | m[1][x] : op == 1 ? m[0][x] != m[1][x] : op == 2 ? m[0][x] & m[1][x] : m[0][x] & !m[1][x];
	if (op == 0) b[0].bit_or(b[2], b[1]); else if (op == 1) b[0].bit_xor(b[2], b[1]); else if (op == 2) b[0].bit_and(b[2], b[1]); else b[0].bit_and_not(b[2], b[1]);
	for (size_t i = 0; i < 3; i++) check(i, "after an operation");
	size_t l = r.below(longest + 100000); b[2].resize(l); m[2].resize(l); check(2, "after a change of length");
	b[2].zero(); m[2].assign(l, false); check(2, "after zero()"); b[2].one(); m[2].assign(l, true); check(2, "after one()");
	g.nontrivial();
	}

PROPERTY(word_popcounts, 500000, 5000000)
	{
	uint64_t v = g.flip() ? g.u64() : g.bits(64);
	size_t c64 = 0; for (int i = 0; i < 64; i++) c64 += (v >> i) & 1;
	size_t c32 = 0; for (int i = 0; i < 32; i++) c32 += (v >> i) & 1;
	size_t c16 = 0; for (int i = 0; i < 16; i++) c16 += (v >> i) & 1;
	size_t c8 = 0; for (int i = 0; i < 8; i++) c8 += (v >> i) & 1;
	g.note("value", v);
	g.equal(JASS::bitstring::popcount((uint64_t)v), c64, "64-bit popcount");
	g.equal(JASS::bitstring::popcount((uint32_t)v), c32, "32-bit popcount");
	g.equal(JASS::bitstring::popcount((uint16_t)v), c16, "16-bit popcount");
	g.equal(JASS::bitstring::popcount((uint8_t)v), c8, "8-bit popcount");
	g.nontrivial(v != 0);
	}

PROPERTY(bitstream_round_trip, 500000, 4000000)
	{
	size_t n = g.size(0, 120);
	struct item { int how; uint64_t value; size_t width; };
	std::vector<item> items; size_t total = 0; std::set<size_t> widths;
	for (size_t i = 0; i < n; i++)
		{
		item it; it.how = (int)g.weighted({1, 1, 2, 8});
		if (it.how == 0) { it.width = 1; it.value = 0; }
		else if (it.how == 1) { it.width = 1; it.value = 1; }
		else if (it.how == 2) { it.width = g.edge(0, 100, {31, 32, 33, 63, 64}); it.value = 0; }
		else { it.width = g.edge(0, 64, {1, 31, 32, 33, 63, 64}); it.value = g.flip() ? g.u64() : it.width ? g.bits((unsigned)it.width) : 0; }
		total += it.width; widths.insert(it.width);
		items.push_back(it);
		}
	if (g.chance(1, 3) && total % 32 != 0) { item it{3, g.u64(), 32 - total % 32}; total += it.width; items.push_back(it); }
	size_t words = (total + 31) / 32;
	/* the buffer: exact, larger, or too small by some words */
	size_t given = words, slack = g.draw(4);
	bool too_small = false;
	if (slack == 1) given += g.range(1, 5);
	else if (slack == 2 && words > 0) { given = g.draw(words); too_small = true; }
	std::unique_ptr<uint32_t[]> buffer(new uint32_t[given]);
	JASS::bitstream s;
	s.rewind(buffer.get(), given * sizeof(uint32_t));
	for (auto &it : items)
		switch (it.how)
			{
			case 0: s.push_zero(); break;
			case 1: s.push_one(); break;
			case 2: s.push_zeros(it.width); break;
			default: s.push_bits(it.value, it.width); break;
			}
	uint64_t bytes = s.eof();
	g.note("writes", items.size()); g.note("bits", total); g.note("words given", given);
	g.label(total % 32 == 0 ? "whole words" : "part word"); g.label("too small", too_small); g.label("exact buffer", slack != 1 && !too_small);
	if (too_small) { g.equal(bytes, 0ULL, "writing past the buffer must report failure"); g.nontrivial(); return; }
	g.equal(bytes, (uint64_t)((total + 7) / 8), "bytes reported");
	s.rewind(buffer.get(), given * sizeof(uint32_t));
	size_t at = 0;
	for (auto &it : items)
		{
		uint64_t want = it.width >= 64 ? it.value : it.value & ((1ULL << it.width) - 1);
		size_t width = it.width;
		if (width > 64) { for (size_t i = 0; i < width; i++) g.equal(s.get_bit(), 0, "zero bit"); }
		else if (width == 1 && g.flip()) EQUAL((uint64_t)s.get_bit(), want, "bit at " << at);
		else EQUAL(s.get_bits(width), want, "value of width " << width << " at bit " << at);
		at += width;
		}
	g.nontrivial(widths.size() > 1);
	}

/* C08: every codec decodes what it encoded, in the space it was given */
#include "pbt.h"
#include "lean.h"
#include <memory>
#include "compress_integer_all.h"
#include "compress_integer_lyck_16.h"
#include "compress_integer_nybble_8.h"

RULE("sequences of 1-700 integers, and of 20000-300000 made of repeats of those (mixtures of bit widths, runs, single exceptions, powers of two and their neighbours, all at one width, d-gaps) with lengths around every block size, in exactly-sized blocks, through every codec the registry names and the two it does not; destinations of every size from 0 to beyond what is needed; several sequences through one codec object; non-trivial: at least two different values, and (for the destination property) a destination within 64 bytes of the size needed");
ASSUME_TEXT("the codec's domain: integers up to its widest selector (28 bits for Simple-9, Simple-16, Relative-10 and their packed forms, 28 to 30 for Carryover-12, 16 for Lyck-16, 8 for Nybble-8, else 32); positive integers for the Elias codes without SIMD and the codecs with selectors for runs of ones (Simple-8b, Carry-8b); QMX JASS v1 at 16-byte aligned addresses; decoders may read up to 64 bytes past the encoding and write up to 1024 integers past the count, as the library's own buffers allow");

typedef JASS::compress_integer::integer integer;
struct description { const char *name; unsigned bits, never_above; bool zero; unsigned aligned; };
static const description codecs[] =
	{
	{"Carryover-12", 28, 30, true, 1}, {"Carry-8b", 32, 32, false, 1}, {"Elias delta", 32, 32, false, 1}, {"Elias delta with bit instuctions (slow)", 32, 32, false, 1},
	{"Group Elias Delta SIMD", 32, 32, true, 1}, {"Group Elias Gamma SIMD", 32, 32, true, 1}, {"Group Elias Delta SIMD with Variable Byte", 32, 32, true, 1},
	{"Elias gamma", 32, 32, false, 1}, {"Elias gamma with bit instuctions (slow)", 32, 32, false, 1}, {"None", 32, 32, true, 1},
	{"Optimal Packed Simple-9", 28, 28, true, 1}, {"Optimal Packed Simple-16", 28, 28, true, 1}, {"Optimal Packed Simple-8b", 32, 32, false, 1}, {"Relative-10", 28, 30, true, 1},
	{"Simple-9", 28, 28, true, 1}, {"Simple-16", 28, 28, true, 1}, {"Simple-8b", 32, 32, false, 1}, {"Variable Byte", 32, 32, true, 1}, {"Stream VByte", 32, 32, true, 1},
	{"QMX Improved", 32, 32, true, 1}, {"QMX Original", 32, 32, true, 1}, {"QMX JASS v1", 32, 32, true, 16},
	{"Binpack into 128-bit SIMD integers", 32, 32, true, 1}, {"Binpack into 256-bit SIMD integers", 32, 32, true, 1}, {"Binpack into 32-bit integers with 8 selectors", 32, 32, true, 1},
	{"Binpack into 64-bit integers", 32, 32, true, 1}, {"Lyck-16", 16, 16, true, 1}, {"Nybble-8", 8, 9, true, 1}
	};
static const size_t codec_count = sizeof(codecs) / sizeof(*codecs);

/* each is hundreds of megabytes of (mostly untouched) memory: one is made when it is first used */
static JASS::compress_integer &codec(size_t which)
	{
	static std::unique_ptr<JASS::compress_integer> all[codec_count];
	if (!all[which])
		{
		if (which == 26) all[which] = std::make_unique<JASS::compress_integer_lyck_16>();
		else if (which == 27) all[which] = std::make_unique<JASS::compress_integer_nybble_8>();
		else all[which] = JASS::compress_integer_all::get_by_name(codecs[which].name);
		give_back_zero_pages(dynamic_cast<void *>(all[which].get()));
		}
	return *all[which];
	}

static std::vector<integer> sequence(pbt::gen &g, const description &d, size_t longest)
	{
	size_t n = g.flip() ? g.size(1, longest) : g.edge(1, longest, {1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 27, 28, 29, 30, 31, 32, 33, 57, 60, 64, 119, 120, 121, 127, 128, 129, 180, 239, 240, 241, 255, 256, 257, 511, 512, 513});
	std::vector<integer> v(n);
	uint64_t lo = d.zero ? 0 : 1, limit = (1ULL << d.bits) - 1;
	size_t shape = g.draw(9);
	size_t bits = g.range(0, d.bits), odds = 2 + g.draw(60);
	auto r = g.stream();
	auto wide = [&](size_t b) -> uint64_t { return b == 0 ? 0 : (1ULL << (b - 1)) | r.below(1ULL << (b - 1)); };
	for (size_t i = 0; i < n; i++)
		{
		uint64_t x;
		switch (shape)
			{
			case 0: x = n <= 20 ? g.draw((1ULL << bits) + 1) : wide(bits); break;					// one width
			case 1: x = (1ULL << bits) - 1; break;												// the largest of one width
			case 2: x = wide(r.below(d.bits + 1)); break;										// every width
			case 3: x = wide(r.below(bits + 1)); break;
			case 4: x = r.below(odds) == 0 ? wide(r.below(d.bits + 1)) : wide(r.below(std::min<size_t>(bits, 4) + 1)); break;	// exceptions
			case 5: x = 1; break;
			case 6: x = i / odds % 2 ? 1 : wide(bits); break;									// runs of ones between runs of others
			case 7: x = (1ULL << r.below(d.bits)) + r.below(3) - 1; break;						// powers of two and their neighbours
			default: x = r.below(odds) == 0 ? limit - r.below(2) : r.below(2); break;
			}
		v[i] = (integer)std::min(std::max(x, lo), limit);
		}
	if (shape == 5 && g.flip()) v[g.draw(n)] = (integer)std::max<uint64_t>(lo, g.draw(limit));
	return v;
	}

struct block
	{
	uint8_t *base, *at; size_t size;
	block(size_t size, size_t aligned, size_t offset) : base((uint8_t *)malloc(size + offset + (aligned > 16 ? aligned : 0))), at(base + (aligned > 1 ? 0 : offset)), size(size)
		{
		if (aligned <= 1) return;
		free(base); base = (uint8_t *)nullptr; if (posix_memalign((void **)&base, std::max<size_t>(aligned, 16), size == 0 ? 1 : size)) abort(); at = base;
		}
	~block() { free(base); }
	};

/* decode and compare; the bytes after the encoding are noise */
static void decodes(pbt::gen &g, size_t which, const std::vector<integer> &want, const uint8_t *encoded, size_t used)
	{
	auto &d = codecs[which];
	size_t offset = g.draw(16);
	block copy(used + 64, d.aligned, offset);
	memcpy(copy.at, encoded, used);
	uint8_t noise = (uint8_t)g.pick({0, 0xff, 0xa5, 0x80});
	memset(copy.at + used, noise, 64);
	std::unique_ptr<integer[]> got(new integer[want.size() + 1024]);
	std::fill(got.get(), got.get() + want.size(), 0xdeadbeef);
	codec(which).decode(got.get(), want.size(), copy.at, used);
	for (size_t i = 0; i < want.size(); i++) EQUAL(got[i], want[i], d.name << ": integer " << i << " of " << want.size());
	}

/* known finding: Carry-8b refuses a sequence that fits wholly in its first codeword (57 bits of data) */
static bool carry_8b_first_word(size_t which, const std::vector<integer> &v)
	{
	static const size_t fits[][2] = {{1, 57}, {2, 28}, {3, 19}, {4, 14}, {5, 11}, {6, 9}, {7, 8}, {8, 7}, {9, 6}, {11, 5}, {14, 4}, {19, 3}, {28, 2}, {57, 1}};
	if (which != 1) return false;
	size_t bits = 1;
	for (auto x : v) while (bits < 32 && x >> bits) bits++;
	for (auto &f : fits) if (bits <= f[0]) return v.size() <= f[1];
	return false;
	}

static void describe(pbt::gen &g, const description &d, const std::vector<integer> &v)
	{
	std::ostringstream o;
	for (size_t i = 0; i < v.size() && i < 60; i++) o << v[i] << ' ';
	if (v.size() > 60) o << "... (" << v.size() << ")";
	g.note("codec", d.name); g.note("sequence", o.str());
	}

PROPERTY(decoding_gives_back_what_was_encoded, 60000, 1500000)
	{
	size_t which = g.draw(codec_count);
	auto &d = codecs[which];
	size_t rounds = 1 + g.draw(3);
	bool good = false;
	for (size_t r = 0; r < rounds; r++)
		{
		auto v = sequence(g, d, 700);
		describe(g, d, v);
		std::unique_ptr<integer[]> source(new integer[v.size()]);
		std::copy(v.begin(), v.end(), source.get());
		block room(v.size() * 16 + 1024, 64, 0);
		memset(room.at, 0x5a, room.size);
		size_t used = codec(which).encode(room.at, room.size, source.get(), v.size());
		REQUIRE(std::equal(v.begin(), v.end(), source.get()), d.name << " changed its input");
		if (used == 0 && carry_8b_first_word(which, v)) { g.label("known finding: Carry-8b refuses what fits in its first word"); continue; }
		REQUIRE(used != 0, d.name << " refused a sequence it can represent, with room to spare");
		REQUIRE(used <= room.size, d.name << " used " << used << " of " << room.size);
		decodes(g, which, v, room.at, used);
		/* encoding again gives the same */
		block again(room.size, 64, 0);
		memset(again.at, 0xa5, again.size);
		EQUAL(codec(which).encode(again.at, again.size, source.get(), v.size()), used, d.name << ": bytes used the second time");
		decodes(g, which, v, again.at, used);
		if (std::set<integer>(v.begin(), v.end()).size() > 1) good = true;
		}
	g.nontrivial(good); g.label(d.name);
	}

/* lists as long as a real index has */
PROPERTY(long_sequences, 250, 8000, p.cpu_limit = 60;)
	{
	size_t which = g.draw(codec_count);
	auto &d = codecs[which];
	auto v = sequence(g, d, 700);
	size_t n = g.edge(20000, 300000, {32767, 32768, 65535, 65536, 65537, 131072, 262144});
	auto r = g.stream();
	/* the pattern again and again, starting anywhere in it */
	std::vector<integer> all;
	all.reserve(n);
	while (all.size() < n) { size_t from = r.below(v.size()); all.insert(all.end(), v.begin() + from, v.begin() + from + std::min(v.size() - from, n - all.size())); }
	describe(g, d, v); g.note("length", n);
	block room(n * 16 + 1024, 64, 0);
	size_t used = codec(which).encode(room.at, room.size, all.data(), n);
	REQUIRE(used != 0 && used <= room.size, d.name << " used " << used << " of " << room.size);
	decodes(g, which, all, room.at, used);
	/* and a short one after it */
	block after(v.size() * 16 + 1024, 64, 0);
	used = codec(which).encode(after.at, after.size, v.data(), v.size());
	if (used == 0 && carry_8b_first_word(which, v)) return;
	REQUIRE(used != 0, d.name << " refused a sequence after a long one");
	decodes(g, which, v, after.at, used);
	g.nontrivial(std::set<integer>(v.begin(), v.end()).size() > 1); g.label(std::string("long: ") + d.name);
	}

/* whatever the destination: either it reports that it can't, or it has encoded; and it stays inside */
PROPERTY(the_destination_is_never_overrun, 60000, 1500000)
	{
	size_t which = g.draw(codec_count);
	auto &d = codecs[which];
	auto v = sequence(g, d, 400);
	describe(g, d, v);
	std::unique_ptr<integer[]> source(new integer[v.size()]);
	std::copy(v.begin(), v.end(), source.get());
	block room(v.size() * 16 + 1024, 64, 0);
	size_t needed = codec(which).encode(room.at, room.size, source.get(), v.size());
	if (needed == 0 && carry_8b_first_word(which, v)) { g.label("known finding: Carry-8b refuses what fits in its first word"); return; }
	REQUIRE(needed != 0, d.name << " refused a sequence it can represent, with room to spare");
	size_t size;
	switch (g.draw(5))
		{
		case 0: size = g.draw(needed + 1); break;
		case 1: size = needed - std::min<size_t>(needed, g.draw(64)); break;
		case 2: size = needed + g.draw(64); break;
		case 3: size = needed; break;
		default: size = g.draw(2 * needed + 64); break;
		}
	g.note("needs", needed); g.note("given", size);
	block destination(size, 1, g.flip() ? 0 : d.aligned == 1 ? g.draw(16) : 0);
	size_t used = codec(which).encode(destination.at, size, source.get(), v.size());
	REQUIRE(used <= size, d.name << " was given " << size << " bytes and says it used " << used);
	REQUIRE(std::equal(v.begin(), v.end(), source.get()), d.name << " changed its input");
	if (used) { EQUAL(used, needed, d.name << ": size of the encoding"); decodes(g, which, v, destination.at, used); }
	else REQUIRE(size < needed + 1024, d.name << " refused " << size << " bytes for what needs " << needed);
	g.nontrivial(size + 64 >= needed && size <= needed + 64); g.label(std::string(d.name) + (used ? ": fits" : ": refused"));
	}

/* integers too wide for the codec: reported, or encoded after all, never silently truncated */
PROPERTY(integers_that_do_not_fit_are_reported, 20000, 500000)
	{
	static const size_t limited[] = {0, 10, 11, 13, 14, 15, 26, 27};
	size_t which = limited[g.draw(8)];
	auto d = codecs[which];
	auto v = sequence(g, d, 200);
	size_t wide = 1 + g.draw(3);
	uint64_t biggest = 0;
	for (size_t i = 0; i < wide; i++)
		{
		size_t at = g.flip() ? g.draw(v.size()) : v.size() - 1;
		size_t bits = g.range(d.bits, 32);
		v[at] = (integer)(g.flip() || bits == 32 ? (1ULL << bits) - 1 : 1ULL << bits);
		biggest = std::max<uint64_t>(biggest, v[at]);
		}
	describe(g, d, v);
	std::unique_ptr<integer[]> source(new integer[v.size()]);
	std::copy(v.begin(), v.end(), source.get());
	block room(v.size() * 16 + 1024, 64, 0);
	size_t used = codec(which).encode(room.at, room.size, source.get(), v.size());
	g.nontrivial(biggest >> d.bits != 0); g.label(std::string(d.name) + (used ? ": encoded" : ": refused"));
	if (used) decodes(g, which, v, room.at, used);
	}

/* the registry: every codec can be asked for by its name and by its option, and they are the same codec */
PROPERTY(names_and_options_choose_the_codec, 60, 600)
	{
	size_t which = g.draw(JASS::compress_integer_all::compressors_size);
	std::array<bool, JASS::compress_integer_all::compressors_size> option = {};
	option[which] = true;
	for (size_t later = which + 1; later < option.size(); later++) if (g.chance(1, 8)) option[later] = true;
	std::string name = JASS::compress_integer_all::name(option);
	size_t mine = codec_count;
	for (size_t i = 0; i < codec_count; i++) if (name == codecs[i].name) mine = i;
	REQUIRE(mine < codec_count, "option " << which << " names the unknown codec " << name);
	auto by_option = JASS::compress_integer_all::compressor(option);
	auto by_name = JASS::compress_integer_all::get_by_name(name);
	REQUIRE(typeid(*by_option) == typeid(*by_name), name << ": the option gives " << typeid(*by_option).name() << ", the name " << typeid(*by_name).name());
	g.nontrivial(); g.label(name);
	for (size_t other = 0; other < option.size(); other++)
		{
		std::array<bool, JASS::compress_integer_all::compressors_size> single = {};
		single[other] = true;
		REQUIRE((JASS::compress_integer_all::name(single) == name) == (other == which), "options " << which << " and " << other << " have the same name");
		}
	auto v = sequence(g, codecs[mine], 100);
	block room(v.size() * 16 + 1024, 64, 0);
	size_t used = by_option->encode(room.at, room.size, v.data(), v.size());
	REQUIRE(used != 0, name << " refused");
	block copy(used + 64, 64, 0); memset(copy.at, 0, copy.size); memcpy(copy.at, room.at, used);
	std::vector<integer> got(v.size() + 1024);
	by_name->decode(got.data(), v.size(), copy.at, used);
	got.resize(v.size());
	REQUIRE(got == v, name << ": encoded by option, decoded by name");
	}

KNOWN_FINDING(C08_carry_8b_first_word, "Carry-8b refuses (returns 0 for) every sequence that fits in its first codeword, such as the single integer 1, whatever the size of the destination; the existing test relies on {0xFFFFFFFF} being refused")
	{
	block room(1024, 64, 0);
	for (std::vector<integer> v : {std::vector<integer>{1}, std::vector<integer>{3, 1, 2}, std::vector<integer>{0xFFFFFFF, 1}})
		REQUIRE(codec(1).encode(room.at, room.size, v.data(), v.size()) != 0, "refused " << v.size() << " integers");
	}

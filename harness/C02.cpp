/* C02: a version-2 index holds the same content */
#include "exports.h"
#include "compress_integer_variable_byte.h"

RULE("collections of 1-3000 documents and 1-60 terms (every density of list, every distribution of impacts over 1-1024, names and keys of any bytes), quantised by BM25, passed through, or given impacts directly; every posting codec; posting files that end exactly at the end of a page; variable byte headers of every width up to 64 bits; non-trivial: several terms, several impacts, a list of several documents");
ASSUME_TEXT("at least one document and one term; no NUL in terms and keys");

static exporter v1(codex with, int8_t alignment) { return [=](size_t n) { return std::unique_ptr<JASS::index_manager::delegate>(new JASS::serialise_jass_v1(n, with, alignment)); }; }
static exporter v2(codex with) { return [=](size_t n) { return std::unique_ptr<JASS::index_manager::delegate>(new JASS::serialise_jass_v2(n, with)); }; }

/* the lists in the order a reader meets them: terms, segments, documents */
static std::string dump(JASS::deserialised_jass_v1 &index)
	{
	std::ostringstream o;
	std::string name; int32_t d_ness;
	auto decoder = index.codex(name, d_ness);
	std::vector<std::string> nothing;
	decoder->init(nothing, (JASS::query::DOCID_TYPE)index.document_count(), 10);
	struct { std::ostringstream *o; void add_rsv(size_t id, unsigned) { *o << id << ' '; } } heard{&o};
	for (auto &m : index)
		{
		std::vector<JASS::deserialised_jass_v1::segment_header> segments(m.impacts + 1);
		uint32_t smallest, largest; JASS::query::DOCID_TYPE df; auto copy = m;
		o << m.term << ' ';
		for (size_t i = 0, n = index.get_segment_list(segments.data(), copy, 1, smallest, largest, df); i < n; i++)
			{
			o << '[' << segments[i].impact << ": ";
			decoder->decode_with_writer(heard, segments[i].segment_frequency, index.postings() + segments[i].offset, segments[i].end - segments[i].offset);
			o << ']';
			}
		o << " df " << df << ' ' << smallest << ' ' << largest << '\n';
		}
	for (auto &k : index.primary_keys()) o << k << '\n';
	return o.str();
	}

PROPERTY(a_version_2_index_is_the_collection, 1200, 24000)
	{
	shape s; s.max_documents = g.thorough ? 8000 : 3000; s.max_terms = 60; s.max_value = g.pick({3u, 30u, 255u, 1024u});
	auto c = make_collection(g, s);
	describe(g, c);
	codex with = all_codices[g.draw(5)];
	auto how = (how_quantized)g.draw(3);
	bool both = g.chance(1, 3);
	g.note("codec", std::string(1, (char)with)); g.note("quantised", (int)how);
	codex other = all_codices[g.draw(5)];
	std::string first;
	if (both)
		{
		inside scratch(g.scratch() + "/one");
		export_all(c, how, {v1(other, 16)});
		JASS::deserialised_jass_v1 index;
		REQUIRE(index.read_index() == 1, "the version 1 index can't be loaded");
		first = dump(index);
		}
	inside scratch(g.scratch() + "/two");
	c = export_all(c, how, {v2(with)});
	JASS::deserialised_jass_v2 index;
	REQUIRE(index.read_index(g.flip() ? "" : ".") == 1, "the index can't be loaded");
	check_index(c, index, g);
	if (both) { std::string second = dump(index); REQUIRE(first == second, "the version 1 and version 2 indexes differ"); }
	g.nontrivial(worth(c)); g.label(std::string("codec ") + (char)with);
	}

PROPERTY(a_large_version_2_index_is_the_collection, 10, 600)
	{
	auto c = large_collection(g);
	describe(g, c);
	codex with = all_codices[g.draw(5)];
	auto how = (how_quantized)g.draw(3);
	g.note("codec", std::string(1, (char)with)); g.note("quantised", (int)how);
	inside scratch(g.scratch() + "/large");
	c = export_all(c, how, {v2(with)});
	JASS::deserialised_jass_v2 index;
	REQUIRE(index.read_index("") == 1, "the index can't be loaded");
	check_index(c, index, g);
	g.nontrivial(true); g.label(c.n > 60000 ? "many documents" : "many terms");
	}

/* the file ends where a page ends: nothing may look beyond */
PROPERTY(a_file_that_fills_its_last_page, 160, 3000)
	{
	shape s; s.max_documents = 300; s.max_terms = 12; s.max_value = 255;
	auto c = make_collection(g, s);
	codex with = all_codices[g.draw(5)];
	g.note("codec", std::string(1, (char)with));
	auto how = given;
	inside scratch(g.scratch() + "/two");
	struct stat details;
	export_all(c, how, {v2(with)});
	if (stat("CIpostings.bin", &details)) abort();
	size_t was = details.st_size, serial = 0;
	auto filler = [&](uint32_t impact) { collection::list l; l.name = "\x01" "fill" + std::to_string(serial++); l.docs.push_back(1 + (uint32_t)(serial % c.n)); l.values.push_back(impact); c.terms.insert(c.terms.begin(), l); };
	/* the size of a list of one posting, by its impact */
	filler(1); export_all(c, how, {v2(with)}); if (stat("CIpostings.bin", &details)) abort();
	size_t small = details.st_size - was; was = details.st_size;
	filler(200); export_all(c, how, {v2(with)}); if (stat("CIpostings.bin", &details)) abort();
	size_t large = details.st_size - was; was = details.st_size;
	size_t missing = 4096 - was % 4096, b = 0;
	if (missing < 1000) missing += 4096;
	while (b < small && (missing - b * large) % small != 0) b++;
	if (b >= small || b * large > missing) { g.label("can't be made to fit"); return; }
	for (size_t i = 0; i < b; i++) filler(200);
	for (size_t i = 0; i < (missing - b * large) / small; i++) filler(1);
	export_all(c, how, {v2(with)});
	if (stat("CIpostings.bin", &details)) abort();
	describe(g, c); g.note("bytes", details.st_size);
	JASS::deserialised_jass_v2 index;
	REQUIRE(index.read_index() == 1, "the index can't be loaded");
	check_index(c, index, g);
	g.nontrivial(details.st_size % 4096 == 0); g.label(details.st_size % 4096 == 0 ? std::string("full page, codec ") + (char)with : "not a full page");
	}

/* the headers' numbers, of 32 and 64 bits */
PROPERTY(headers_hold_any_number, 60000, 1000000)
	{
	size_t n = g.size(1, 12);
	std::vector<std::pair<bool, uint64_t>> v;
	size_t expected = 0;
	for (size_t i = 0; i < n; i++) { bool wide = g.flip(); uint64_t x = g.bits(wide ? 64 : 32); if (!wide) x = (uint32_t)x; v.push_back({wide, x}); g.note(wide ? "64" : "32", x); size_t b = wide ? JASS::compress_integer_variable_byte::bytes_needed_for(x) : JASS::compress_integer_variable_byte::bytes_needed_for((uint32_t)x); expected += b; size_t bits = 1; while (bits < 64 && x >> bits) bits++; EQUAL(b, (bits + 6) / 7, "bytes needed for " << x); }
	std::unique_ptr<uint8_t[]> buffer(new uint8_t[expected]);
	uint8_t *into = buffer.get();
	for (auto &x : v) if (x.first) JASS::compress_integer_variable_byte::compress_into(into, x.second); else JASS::compress_integer_variable_byte::compress_into(into, (uint32_t)x.second);
	EQUAL((size_t)(into - buffer.get()), expected, "bytes used");
	const uint8_t *from = buffer.get();
	for (auto &x : v)
		if (x.first) { uint64_t y; JASS::compress_integer_variable_byte::decompress_into(&y, from); EQUAL(y, x.second, "64-bit number"); }
		else { uint32_t y; JASS::compress_integer_variable_byte::decompress_into(&y, from); EQUAL((uint64_t)y, x.second, "32-bit number"); }
	EQUAL((size_t)(from - buffer.get()), expected, "bytes read");
	g.nontrivial(n > 1); g.label(n < 4 ? "under 4" : "4 or more");
	}

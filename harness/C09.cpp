/* C09: difference coding inverts, the fused decoders deliver exactly the segment, the vector helpers equal their scalar definitions */
#include "pbt.h"
#include "lean.h"
#include <memory>
#include "compress_integer_all.h"
#include "compress_integer_none.h"
#include "simd.h"
#include "serialise_jass_v1.h"

RULE("document id lists of 0-900 ids of every density and id range, gaps 1-63, segments encoded by every codec and decoded into a listener and into a live top-k processor (several segments of one processor, several queries); vectors of every lane content, index arrays with repeats, array lengths not a multiple of the register width; non-trivial: lists of at least two ids that are not consecutive numbers, at least two distinct lane values");
ASSUME_TEXT("identifiers within the codec's width once differenced (28 bits); gaps not longer than the list, as the interface copies the first n integers; first gaps of 0 only for codecs that can represent 0 (the others are given lists without document 0)");
ASSUME_TEXT("vector gathers may read, and scatters rewrite unchanged, up to 3 bytes beyond the last element; cumulative sums work on whole registers");

typedef JASS::compress_integer::integer integer;
static const char *names[] =
	{
	"Carryover-12", "Carry-8b", "Elias delta", "Elias delta with bit instuctions (slow)", "Group Elias Delta SIMD", "Group Elias Gamma SIMD", "Group Elias Delta SIMD with Variable Byte",
	"Elias gamma", "Elias gamma with bit instuctions (slow)", "None", "Optimal Packed Simple-9", "Optimal Packed Simple-16", "Optimal Packed Simple-8b", "Relative-10", "Simple-9", "Simple-16",
	"Simple-8b", "Variable Byte", "Stream VByte", "QMX Improved", "QMX Original", "QMX JASS v1", "Binpack into 128-bit SIMD integers", "Binpack into 256-bit SIMD integers",
	"Binpack into 32-bit integers with 8 selectors", "Binpack into 64-bit integers"
	};
static const size_t codec_count = sizeof(names) / sizeof(*names);
static bool zero_is_codable(size_t which) { return which != 1 && which != 2 && which != 3 && which != 7 && which != 8 && which != 12 && which != 16; }

static JASS::compress_integer &codec(size_t which)
	{
	static std::unique_ptr<JASS::compress_integer> all[codec_count];
	if (!all[which]) { all[which] = JASS::compress_integer_all::get_by_name(names[which]); give_back_zero_pages(dynamic_cast<void *>(all[which].get())); }
	return *all[which];
	}

static std::vector<integer> increasing(pbt::gen &g, size_t longest, uint64_t limit, bool strictly = true, uint64_t first = 0)
	{
	size_t n = g.flip() ? g.size(1, longest) : g.edge(1, longest, {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 513});
	std::vector<integer> v;
	size_t shape = g.draw(5);
	uint64_t room = std::max<uint64_t>(1, (limit - first) / n), step = 1 + g.draw(room), id = first + (g.flip() ? 0 : g.draw(room));
	auto r = g.stream();
	for (size_t i = 0; i < n && id < limit; i++)
		{
		v.push_back((integer)id);
		uint64_t gap = shape == 0 ? 1 : shape == 1 ? step : shape == 2 ? 1 + r.below(step) : shape == 3 ? (r.below(20) ? 1 + r.below(3) : 1 + r.below(room)) : 1 + r.below(room);
		if (!strictly && r.below(4) == 0) gap = 0;
		id += gap;
		}
	return v;
	}
static void describe(pbt::gen &g, const char *what, const std::vector<integer> &v)
	{
	std::ostringstream o;
	for (size_t i = 0; i < v.size() && i < 40; i++) o << v[i] << ' ';
	if (v.size() > 40) o << "... (" << v.size() << ")";
	g.note(what, o.str());
	}
static bool scattered(const std::vector<integer> &v) { return v.size() >= 2 && v.back() - v.front() != v.size() - 1; }

/* d1 and dn: inverse, and by their definition; exactly-sized arrays; the decoder also in place */
PROPERTY(difference_coding_inverts, 60000, 1500000)
	{
	auto v = increasing(g, 400, 0xFFFFFFFFull, g.flip());
	bool unsorted = g.chance(1, 5);
	if (unsorted) for (auto &x : v) x = (integer)g.bits(32);			// wraps around, and back
	size_t n = v.size();
	describe(g, "list", v);
	std::unique_ptr<integer[]> source(new integer[n]), encoded(new integer[n]), decoded(new integer[n]);
	std::copy(v.begin(), v.end(), source.get());
	EQUAL(JASS::compress_integer::d1_encode(encoded.get(), source.get(), n), n, "d1_encode's count");
	for (size_t i = 0; i < n; i++) EQUAL(encoded[i], (integer)(v[i] - (i ? v[i - 1] : 0)), "gap " << i);
	REQUIRE(std::equal(v.begin(), v.end(), source.get()), "d1_encode changed its input");
	EQUAL(JASS::compress_integer::d1_decode(decoded.get(), encoded.get(), n), n, "d1_decode's count");
	for (size_t i = 0; i < n; i++) EQUAL(decoded[i], v[i], "d1 element " << i);
	EQUAL(JASS::compress_integer::d1_decode(encoded.get(), encoded.get(), n), n, "d1_decode's count");
	for (size_t i = 0; i < n; i++) EQUAL(encoded[i], v[i], "d1 in place, element " << i);

	size_t gap = 1 + g.draw(std::min<size_t>(n, 63));
	g.note("gap", gap);
	EQUAL(JASS::compress_integer::dn_encode(encoded.get(), source.get(), n, gap), n, "dn_encode's count");
	for (size_t i = 0; i < n; i++) EQUAL(encoded[i], (integer)(i < gap ? v[i] : v[i] - v[i - gap]), "d" << gap << " gap " << i);
	REQUIRE(std::equal(v.begin(), v.end(), source.get()), "dn_encode changed its input");
	std::fill(decoded.get(), decoded.get() + n, 0xdeadbeef);
	EQUAL(JASS::compress_integer::dn_decode(decoded.get(), encoded.get(), n, gap), n, "dn_decode's count");
	for (size_t i = 0; i < n; i++) EQUAL(decoded[i], v[i], "d" << gap << " element " << i);
	g.nontrivial(scattered(v)); g.label(gap == 1 ? "d1" : gap < 8 ? "d2..7" : "d8 and more");
	}

struct listener
	{
	std::vector<std::pair<size_t, unsigned>> heard;
	void add_rsv(size_t id, unsigned impact) { heard.push_back({id, impact}); }
	};

struct segment { std::vector<integer> ids; unsigned impact; std::vector<uint8_t> bytes; size_t used; };

static segment make_segment(pbt::gen &g, size_t which, std::vector<integer> ids, unsigned impact)
	{
	segment s{ids, impact, {}, 0};
	std::vector<integer> gaps(ids.size());
	JASS::compress_integer::d1_encode(gaps.data(), ids.data(), ids.size());
	s.bytes.resize(ids.size() * 16 + 1088);
	s.used = codec(which).encode(s.bytes.data(), s.bytes.size() - 64, gaps.data(), gaps.size());
	uint8_t noise = (uint8_t)g.pick({0, 0xff, 0xa5});
	std::fill(s.bytes.begin() + s.used, s.bytes.end(), noise);
	return s;
	}

/* lists as long as a real index has */
PROPERTY(long_lists, 120, 4000, p.cpu_limit = 60;)
	{
	size_t which = g.draw(codec_count), documents = 400000;
	auto &c = codec(which);
	static std::vector<std::string> keys;
	static std::set<size_t> prepared;
	if (prepared.insert(which).second) c.init(keys, documents, 10);
	size_t n = g.edge(20000, 200000, {32767, 32768, 65535, 65536, 65537, 131072});
	auto r = g.stream();
	std::vector<integer> ids;
	size_t odds = 1 + g.draw(10);
	for (size_t id = zero_is_codable(which) ? 0 : 1; id < documents && ids.size() < n; id += 1 + (r.below(odds + 1) == 0) * r.below(4)) ids.push_back((integer)id);
	n = ids.size();
	describe(g, "ids", ids); g.note("codec", names[which]);
	std::vector<integer> gaps(n), back(n);
	size_t gap = 1 + g.draw(63);
	EQUAL(JASS::compress_integer::dn_encode(gaps.data(), ids.data(), n, gap), n, "dn_encode's count");
	EQUAL(JASS::compress_integer::dn_decode(back.data(), gaps.data(), n, gap), n, "dn_decode's count");
	REQUIRE(back == ids, "d" << gap << " of " << n << " ids does not invert");
	unsigned impact = (unsigned)g.range(1, 255);
	auto s = make_segment(g, which, ids, impact);
	REQUIRE(s.used != 0, names[which] << " refused to encode");
	listener l;
	c.set_impact(impact);
	c.decode_with_writer(l, n, s.bytes.data(), s.used);
	EQUAL(l.heard.size(), n, names[which] << ": ids delivered");
	for (size_t j = 0; j < n; j++) if (l.heard[j].first != ids[j] || l.heard[j].second != impact) REQUIRE(false, names[which] << ": id " << j << " is " << l.heard[j].first << " not " << ids[j]);
	g.nontrivial(scattered(ids)); g.label(std::string("long: ") + names[which]);
	}

/* a segment decoded straight into a listener: each id once, in order, with the impact */
PROPERTY(a_listener_hears_exactly_the_segment, 40000, 800000)
	{
	size_t which = g.draw(codec_count), documents = g.pick({1000, 5000, 100000});
	auto &c = codec(which);
	static std::vector<std::string> keys;
	static std::map<size_t, size_t> prepared;
	if (prepared[which] < 100000) { c.init(keys, 100000, 10); prepared[which] = 100000; }
	size_t segments = 1 + g.draw(3);
	bool good = false;
	for (size_t i = 0; i < segments; i++)
		{
		auto ids = increasing(g, 900, documents, true, zero_is_codable(which) ? 0 : 1);
		unsigned impact = (unsigned)g.edge(1, 255, {1, 2, 254, 255});
		describe(g, "ids", ids); g.note("codec", names[which]); g.note("impact", impact);
		auto s = make_segment(g, which, ids, impact);
		if (s.used == 0 && which == 1) continue;								// C08's known finding: Carry-8b refuses what fits in its first word
		REQUIRE(s.used != 0, names[which] << " refused to encode");
		listener l;
		c.set_impact(impact);
		c.decode_with_writer(l, ids.size(), s.bytes.data(), s.used);
		EQUAL(l.heard.size(), ids.size(), names[which] << ": ids delivered");
		for (size_t j = 0; j < ids.size(); j++)
			{
			EQUAL(l.heard[j].first, ids[j], names[which] << ": id " << j << " of " << ids.size());
			EQUAL(l.heard[j].second, impact, names[which] << ": impact of id " << j);
			}
		if (scattered(ids)) good = true;
		}
	g.nontrivial(good); g.label(names[which]);
	}

/* segments decoded straight into the live top-k processor: every document ends with the sum of its impacts; k covers every document touched */
PROPERTY(a_processor_scores_exactly_the_segments, 12000, 200000)
	{
	size_t which = g.draw(codec_count), documents = g.edge(1000, 60000, {1000, 1024, 4096, 50000});
	auto &c = codec(which);
	static std::vector<std::string> keys;
	size_t width = 1 + g.draw(14);
	c.init(keys, documents, 1000, width);
	g.note("codec", names[which]); g.note("documents", documents); g.note("width", width);
	size_t queries = 1 + g.draw(3);
	bool good = false;
	for (size_t q = 0; q < queries; q++)
		{
		c.rewind(1, 1, 255);
		std::map<size_t, unsigned> want;
		size_t segments = g.draw(6);
		for (size_t i = 0; i < segments; i++)
			{
			auto ids = increasing(g, 160, documents, true, zero_is_codable(which) ? 0 : 1);
			if (i && g.flip()) { std::set<integer> some; for (auto &w : want) if (g.stream().below(2)) some.insert((integer)w.first); if (!some.empty()) ids.assign(some.begin(), some.end()); if (ids.size() > 160) ids.resize(160); }
			unsigned impact = 1 + (unsigned)g.draw(255 / 6);
			describe(g, "ids", ids); g.note("impact", impact);
			auto s = make_segment(g, which, ids, impact);
			if (s.used == 0 && which == 1) continue;
			REQUIRE(s.used != 0, names[which] << " refused to encode");
			c.decode_and_process(impact, ids.size(), s.bytes.data(), s.used);
			for (auto id : ids) want[id] += impact;
			if (scattered(ids) && segments > 1) good = true;
			}
		c.sort();
		std::map<size_t, unsigned> got;
		for (auto result : c) REQUIRE(got.insert({result.document_id, result.rsv}).second, "document " << result.document_id << " is listed twice");
		for (auto &w : want) { auto it = got.find(w.first); REQUIRE(it != got.end(), names[which] << ": document " << w.first << " has score " << w.second << " but is not in the results (" << got.size() << " of " << want.size() << ")"); EQUAL(it->second, w.second, names[which] << ": score of document " << w.first); }
		EQUAL(got.size(), want.size(), names[which] << ": documents found");
		}
	g.nontrivial(good); g.label(names[which]);
	}

/* every codec an index names in its first byte decodes what the serialiser's compressor of that byte encodes */
PROPERTY(the_index_codecs_agree, 3000, 60000)
	{
	typedef JASS::serialise_jass_v1::jass_v1_codex codex;
	static const codex all[] = {codex::elias_gamma_simd_vb, codex::elias_delta_simd, codex::elias_gamma_simd, codex::qmx, codex::uncompressed};
	static std::unique_ptr<JASS::compress_integer> writers[5], readers[5];
	size_t which = g.draw(5);
	std::string name; int32_t d;
	if (!writers[which]) { writers[which] = JASS::serialise_jass_v1::get_compressor(all[which], name, d); readers[which] = JASS::serialise_jass_v1::get_compressor(all[which], name, d); readers[which]->init({}, 100000, 10); }
	auto ids = increasing(g, 900, 100000);
	describe(g, "ids", ids); g.note("codec byte", std::string(1, (char)all[which]));
	std::vector<integer> gaps(ids.size());
	JASS::compress_integer::d1_encode(gaps.data(), ids.data(), ids.size());
	uint8_t *into; if (posix_memalign((void **)&into, 64, ids.size() * 16 + 2048)) abort();
	std::unique_ptr<uint8_t, void (*)(void *)> keep(into, free);
	size_t used = writers[which]->encode(into, ids.size() * 16 + 1024, gaps.data(), gaps.size());
	REQUIRE(used != 0, "refused to encode");
	listener l;
	readers[which]->set_impact(7);
	readers[which]->decode_with_writer(l, ids.size(), into, used);
	EQUAL(l.heard.size(), ids.size(), "ids delivered");
	for (size_t j = 0; j < ids.size(); j++) REQUIRE(l.heard[j].first == ids[j] && l.heard[j].second == 7, "id " << j << ": got " << l.heard[j].first << " with " << l.heard[j].second << " expected " << ids[j]);
	g.nontrivial(scattered(ids)); g.label(std::string("codec ") + (char)all[which]);
	}

template <typename T, size_t lanes> struct reg;
template <> struct reg<uint32_t, 8> { typedef __m256i type; static type load(const uint32_t *p) { return _mm256_loadu_si256((const __m256i *)p); } static void store(uint32_t *p, type v) { _mm256_storeu_si256((__m256i *)p, v); } };
#ifdef __AVX512F__
template <> struct reg<uint32_t, 16> { typedef __m512i type; static type load(const uint32_t *p) { return _mm512_loadu_si512(p); } static void store(uint32_t *p, type v) { _mm512_storeu_si512(p, v); } };
#endif

template <typename T, size_t lanes> static void gather_scatter(pbt::gen &g)
	{
	typedef reg<uint32_t, lanes> R;
	size_t n = g.flip() ? g.size(1, 40) : g.size(1, 5000);
	const size_t slack = 4 / sizeof(T);															// 3 bytes, rounded up to elements
	std::unique_ptr<T[]> array(new T[n + slack]), model(new T[n + slack]);
	auto r = g.stream();
	for (size_t i = 0; i < n + slack; i++) model[i] = array[i] = (T)r.below(0x100000000ull);
	uint32_t index[lanes], value[lanes], got[lanes];
	bool close = g.flip();
	size_t base = g.draw(n);
	std::map<uint32_t, uint32_t> chosen;
	for (size_t i = 0; i < lanes; i++)
		{
		index[i] = (uint32_t)(close ? std::min<size_t>(n - 1, base + g.draw(12)) : g.draw(n));
		value[i] = (uint32_t)(g.flip() ? g.draw(300) : g.bits(32)) & (uint32_t)(T)~(T)0;
		value[i] = chosen.insert({index[i], value[i]}).first->second;							// lanes that name one element agree on it
		g.note("index", index[i]); g.note("value", value[i]);
		}
	R::store(got, JASS::simd::gather(array.get(), R::load(index)));
	for (size_t i = 0; i < lanes; i++) EQUAL(got[i], (uint32_t)model[index[i]], "gathered lane " << i << " (element " << index[i] << " of " << n << ", " << sizeof(T) * 8 << " bits)");
	JASS::simd::scatter(array.get(), R::load(index), R::load(value));
	for (size_t i = 0; i < lanes; i++) model[index[i]] = (T)value[i];
	for (size_t i = 0; i < n + slack; i++) EQUAL((uint64_t)array[i], (uint64_t)model[i], "element " << i << " of " << n << " after the scatter (" << sizeof(T) * 8 << " bits, " << lanes << " lanes)");
	g.nontrivial(chosen.size() > 1); g.label(std::to_string(sizeof(T) * 8) + " bits, " + std::to_string(lanes) + " lanes" + (close ? ", neighbours" : ""));
	}

PROPERTY(gather_and_scatter_touch_the_elements_named, 60000, 1500000)
	{
	size_t which = g.draw(6);
	switch (which)
		{
		case 0: gather_scatter<uint8_t, 8>(g); break;
		case 1: gather_scatter<uint16_t, 8>(g); break;
		case 2: gather_scatter<uint32_t, 8>(g); break;
#ifdef __AVX512F__
		case 3: gather_scatter<uint8_t, 16>(g); break;
		case 4: gather_scatter<uint16_t, 16>(g); break;
		default: gather_scatter<uint32_t, 16>(g); break;
#else
		default: break;
#endif
		}
	/* the four-lane scatters */
	uint32_t index[4], value[4]; size_t n = 4 + g.draw(100);
	std::vector<uint8_t> a8(n), m8(n); std::vector<uint16_t> a16(n), m16(n); std::vector<uint32_t> a32(n), m32(n);
	std::map<uint32_t, uint32_t> chosen;
	for (size_t i = 0; i < 4; i++) { index[i] = (uint32_t)g.draw(n); value[i] = chosen.insert({index[i], (uint32_t)g.draw(256)}).first->second; m8[index[i]] = value[i]; m16[index[i]] = value[i]; m32[index[i]] = value[i]; }
	__m128i vi = _mm_loadu_si128((__m128i *)index), vv = _mm_loadu_si128((__m128i *)value);
	JASS::simd::scatter(a8.data(), vi, vv); JASS::simd::scatter(a16.data(), vi, vv); JASS::simd::scatter(a32.data(), vi, vv);
	REQUIRE(a8 == m8, "8-bit scatter of four"); REQUIRE(a16 == m16, "16-bit scatter of four"); REQUIRE(a32 == m32, "32-bit scatter of four");
	}

PROPERTY(vector_sums_counts_and_clears, 40000, 1000000)
	{
	size_t n = g.flip() ? g.size(1, 600) : g.edge(1, 600, {1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 256, 257});
	size_t room = (n + 15) / 16 * 16;
	auto r = g.stream();
	size_t width = g.range(1, 32);
	std::unique_ptr<uint32_t[]> a(new uint32_t[room]), b(new uint32_t[room]);
	for (size_t i = 0; i < room; i++) a[i] = b[i] = (uint32_t)r.below(1ULL << width);
	std::vector<uint32_t> want(room); uint32_t sum = 0;
	for (size_t i = 0; i < room; i++) want[i] = sum += a[i];
	g.note("n", n); g.note("width", width);
	JASS::simd::cumulative_sum_256(a.get(), n);
	for (size_t i = 0; i < n; i++) EQUAL(a[i], want[i], "sum_256 element " << i << " of " << n);
#ifdef __AVX512F__
	std::unique_ptr<uint32_t[]> c(new uint32_t[room]);
	std::copy(b.get(), b.get() + room, c.get());
	JASS::simd::cumulative_sum_512(c.get(), n);
	for (size_t i = 0; i < n; i++) EQUAL(c[i], want[i], "sum_512 element " << i << " of " << n);
	uint32_t lanes[16];
	_mm512_storeu_si512(lanes, JASS::simd::popcount(_mm512_loadu_si512(b.get())));
	for (size_t i = 0; i < 16; i++) EQUAL(lanes[i], (uint32_t)__builtin_popcount(b[i]), "bits set in lane " << i << " (" << b[i] << ")");
	std::ostringstream o; { using JASS::operator<<; o << _mm512_loadu_si512(b.get()); }
	std::ostringstream w; w << "["; for (size_t i = 0; i < 16; i++) w << (i ? ", " : "") << b[i]; w << "]";
	EQUAL(o.str(), w.str(), "printed register");
#endif
	uint32_t eight[8];
	_mm256_storeu_si256((__m256i *)eight, JASS::simd::cumulative_sum(_mm256_loadu_si256((__m256i *)b.get())));
	for (size_t i = 0; i < 8; i++) EQUAL(eight[i], want[i], "sum of eight, lane " << i);
	size_t blocks = g.draw(20);
	uint8_t *block; if (posix_memalign((void **)&block, 64, (blocks + 1) * 64)) abort();
	std::unique_ptr<uint8_t, void (*)(void *)> keep(block, free);
	memset(block, 0xa7, (blocks + 1) * 64);
	JASS::simd::bzero64(block, (uint32_t)blocks);
	for (size_t i = 0; i < (blocks + 1) * 64; i++) EQUAL((int)block[i], i < blocks * 64 ? 0 : 0xa7, "byte " << i << " after clearing " << blocks << " blocks");
	g.nontrivial(n >= 2 && width > 1); g.label(n % 16 ? "not a multiple of 16" : "a multiple of 16");
	}

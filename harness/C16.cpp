#include "pbt.h"
#include <memory>
#include "asan_allocator.h"
#include "allocator_pool.h"
#include "index_postings.h"
#include "index_postings_impact.h"

RULE("histories of (document, occurrences) additions with repeats, gaps of every byte width and counts around the cap, plus bulk additions as an importer makes them; one impact-ordering object reused for several lists; non-trivial: at least 3 documents with at least 2 different counts")
ASSUME_TEXT("document ids start at 1 (0 for bulk additions) and never decrease; occurrence counts are at least 1");

typedef JASS::compress_integer::integer integer;
typedef JASS::index_postings_impact::impact_type impact_type;
static constexpr uint32_t CAP = 1024;

struct list_case { std::vector<uint32_t> ids; std::vector<uint32_t> tf; };
static void check_ordered(JASS::index_postings_impact &out, const std::vector<uint32_t> &ids, const std::vector<uint32_t> &tf)
	{
	std::map<uint32_t, std::vector<uint32_t>, std::greater<uint32_t>> want;
	for (size_t i = 0; i < ids.size(); i++) want[tf[i]].push_back(ids[i]);
	EQUAL(out.impact_size(), want.size(), "number of impacts");
	size_t total = 0;
	auto w = want.begin();
	if (ids.size())
		for (auto it = out.rbegin(); it != out.rend(); ++it, ++w)
			{
			REQUIRE(w != want.end(), "too many segments");
			auto &segment = *it;
			EQUAL((uint32_t)segment.impact_score, w->first, "impact of a segment");
			EQUAL((size_t)segment.size(), w->second.size(), "size of the segment with impact " << w->first);
			REQUIRE(std::equal(segment.begin(), segment.end(), w->second.begin()), "documents of the segment with impact " << w->first);
			total += segment.size();
			}
	REQUIRE(w == want.end(), "a segment is missing");
	EQUAL(total, ids.size(), "sum of the segment sizes");
	/* forward iteration gives the same, lowest first */
	auto r = want.rbegin();
	for (const auto &segment : out) { REQUIRE(r != want.rend(), "too many segments forward"); EQUAL((uint32_t)segment.impact_score, r->first, "forward iteration"); EQUAL((size_t)segment.size(), r->second.size(), "forward size"); ++r; }
	std::ostringstream text, expect; text << out;
	expect << "{["; for (auto x = want.rbegin(); x != want.rend(); ++x) { expect << x->first << ":"; for (auto d : x->second) expect << d << " "; } expect << "]}";
	EQUAL(text.str(), expect.str(), "text form");
	}

static void one_list(pbt::gen &g, JASS::allocator &pool, JASS::index_postings_impact *ordered, size_t documents, bool &interesting)
	{
	JASS::index_postings postings(pool);
	std::vector<uint32_t> ids, tf;
	bool bulk = g.chance(1, 4);
	uint32_t at = bulk ? 0 : 1;
	size_t n = g.size(0, 200);
	bool few = g.flip();
	if (bulk)
		{
		std::vector<JASS::posting> data;
		for (size_t i = 0; i < n; i++)
			{
			uint32_t gap = i == 0 ? g.draw(3) : 1 + (g.chance(1, 6) ? g.edge(0, 1ULL << 28, {126, 127, 128, 16383, 16384, 1 << 21}) : g.draw(4));
			if (ordered ? at + gap > documents - 1 : (uint64_t)at + gap >= (1ULL << 32)) break;
			at += gap;
			uint32_t f = 1 + (few ? g.draw(3) : g.edge(0, 70000, {CAP - 1, CAP, CAP + 1, 255, 65535, 65536}));
			JASS::posting p; p.docid = gap; p.term_frequency = f;
			data.push_back(p); ids.push_back(at); tf.push_back(std::min(f, CAP));
			}
		postings.push_back(data);
		}
	else
		for (size_t i = 0; i < n; i++)
			{
			if (i != 0 && !g.chance(1, 4))
				{
				uint32_t gap = 1 + (g.chance(1, 6) ? g.edge(0, 1ULL << 28, {126, 127, 128, 16383, 16384, 1 << 21, (1 << 28) - 1}) : g.draw(4));
				if (ordered ? at + gap > documents : (uint64_t)at + gap >= (1ULL << 32)) break;
				at += gap;
				}
			else if (i == 0) at += ordered ? g.draw(documents) : g.bits(31);
			uint32_t f = g.flip() ? 1 : few ? 1 + g.draw(3) : 1 + g.edge(0, 65534, {CAP - 2, CAP - 1, CAP, CAP + 1, 255, 511});
			if (f == 1 && g.flip()) postings.push_back(at); else postings.push_back(at, (impact_type)f);
			if (ids.empty() || ids.back() != at) { ids.push_back(at); tf.push_back(std::min(f, CAP)); }
			else tf.back() = std::min<uint32_t>(tf.back() + f, CAP);
			}
	g.note(bulk ? "bulk" : "postings", ids.size());
	interesting |= ids.size() >= 3 && std::set<uint32_t>(tf.begin(), tf.end()).size() >= 2;

	/* read back, into exactly enough room and into too little */
	size_t bytes = 0; uint32_t prior = 0;
	for (size_t i = 0; i < ids.size(); i++) { uint32_t gap = ids[i] - prior; prior = ids[i]; bytes += gap < (1 << 7) ? 1 : gap < (1 << 14) ? 2 : gap < (1 << 21) ? 3 : gap < (1 << 28) ? 4 : 5; }
	size_t room_t = bytes, room = ids.size();
	bool tight_t = false, tight = false;
	if (g.chance(1, 4) && bytes) { room_t = g.draw(bytes); tight_t = true; }
	else if (g.chance(1, 4) && room) { room = g.draw(room); tight = true; }
	std::unique_ptr<uint8_t[]> t(new uint8_t[room_t]); std::unique_ptr<integer[]> d(new integer[room]); std::unique_ptr<impact_type[]> f(new impact_type[room]);
	integer got = postings.linearize(t.get(), room_t, d.get(), f.get(), room);
	if (tight || tight_t) EQUAL(got, (integer)0, "linearize() into too little room");
	else
		{
		EQUAL((size_t)got, ids.size(), "linearize() list length");
		for (size_t i = 0; i < ids.size(); i++) { EQUAL((uint32_t)d[i], ids[i], "document " << i); EQUAL((uint32_t)f[i], tf[i], "count of document " << ids[i]); }
		}
	std::ostringstream text, expect; text << postings;
	for (size_t i = 0; i < ids.size(); i++) expect << '<' << ids[i] << ',' << tf[i] << '>';
	EQUAL(text.str(), expect.str(), "text form");
	if (ordered)
		{
		if (g.flip()) { postings.impact_order(documents, *ordered); check_ordered(*ordered, ids, tf); }
		else
			{
			/* the quantiser's way: the caller's own ids and impacts */
			std::vector<integer> di(ids.begin(), ids.end()); std::vector<impact_type> im(ids.size()); std::vector<uint32_t> iw(ids.size());
			for (size_t i = 0; i < im.size(); i++) iw[i] = im[i] = 1 + (few ? g.draw(4) : g.edge(0, CAP - 1, {0, CAP - 1, 254, 255}));
			di.reserve(1); im.reserve(1);
			postings.impact_order(documents, *ordered, (integer)ids.size(), di.data(), im.data());
			check_ordered(*ordered, ids, iw);
			}
		}
	}
PROPERTY(accumulate, 20000, 1500000)
	{
	asan_allocator pool; bool interesting = false;
	one_list(g, pool, nullptr, 0, interesting);
	g.nontrivial(interesting);
	}
PROPERTY(impact_order, 20000, 1500000)
	{
	asan_allocator pool; bool interesting = false;
	size_t documents = g.flip() ? g.size(1, 500) : g.edge(1, 40000, {127, 128, 129, 16384, 255, 256});
	g.note("documents", documents);
	JASS::index_postings_impact ordered(documents, pool);
	size_t lists = 1 + g.draw(4);
	for (size_t i = 0; i < lists; i++) one_list(g, pool, &ordered, documents, interesting);
	g.nontrivial(interesting); g.label("reused", lists > 1);
	}
/* a list as long as that of a common word in a real collection */
PROPERTY(long_lists, 40, 3000, p.cpu_limit = 60;)
	{
	asan_allocator pool;
	size_t documents = g.edge(40000, 200000, {65535, 65536, 65537, 131072}), n = 0;
	JASS::index_postings_impact ordered(documents, pool);
	size_t lists = 1 + g.draw(3);
	g.note("documents", documents);
	for (size_t i = 0; i < lists; i++)
		{
		JASS::index_postings postings(pool);
		std::vector<uint32_t> ids, tf;
		auto r = g.stream();
		size_t gap = g.pick({1, 2, 3, 40}), counts = g.pick({1, 3, 300});
		for (size_t at = 1 + r.below(gap); at <= documents; at += 1 + r.below(gap))
			{
			uint32_t f = 1 + r.below(counts);
			ids.push_back((uint32_t)at); tf.push_back(std::min(f, CAP));
			if (r.below(2)) postings.push_back((uint32_t)at, (impact_type)std::min<uint32_t>(f, 65535)); 
			else if (f <= 8) for (uint32_t x = 0; x < f; x++) postings.push_back((uint32_t)at);
			else { postings.push_back((uint32_t)at); postings.push_back((uint32_t)at, (impact_type)(f - 1)); }
			}
		n = std::max(n, ids.size()); g.note("postings", ids.size());
		size_t bytes = 0; uint32_t prior = 0;
		for (auto id : ids) { bytes += id - prior < (1 << 7) ? 1 : id - prior < (1 << 14) ? 2 : 3; prior = id; }
		std::unique_ptr<uint8_t[]> t(new uint8_t[bytes]); std::unique_ptr<integer[]> d(new integer[ids.size()]); std::unique_ptr<impact_type[]> f(new impact_type[ids.size()]);
		EQUAL((size_t)postings.linearize(t.get(), bytes, d.get(), f.get(), (integer)ids.size()), ids.size(), "linearize() list length");
		for (size_t x = 0; x < ids.size(); x++) if ((uint32_t)d[x] != ids[x] || (uint32_t)f[x] != tf[x]) REQUIRE(false, "posting " << x << " is <" << d[x] << "," << (uint32_t)f[x] << "> not <" << ids[x] << "," << tf[x] << ">");
		postings.impact_order(documents, ordered);
		check_ordered(ordered, ids, tf);
		}
	g.nontrivial(n > 32768); g.label("more than 65536 postings", n > 65536);
	}

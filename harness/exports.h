/*
	EXPORTS.H
	---------
	Writing a generated collection through the library's serialisers and reading the index back.
*/
#pragma once
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "collection.h"
#include "quantize.h"
#include "quantize_none.h"
#include "ranking_function_none.h"
#include "ranking_function_atire_bm25.h"
#include "serialise_jass_v1.h"
#include "serialise_jass_v2.h"
#include "deserialised_jass_v1.h"
#include "deserialised_jass_v2.h"

typedef JASS::serialise_jass_v1::jass_v1_codex codex;
static const codex all_codices[] = {codex::elias_gamma_simd, codex::elias_gamma_simd_vb, codex::elias_delta_simd, codex::qmx, codex::uncompressed};
typedef std::function<std::unique_ptr<JASS::index_manager::delegate>(size_t documents)> exporter;

/* run in a directory of its own: the serialisers write to the current one */
struct inside
	{
	char was[4096];
	explicit inside(const std::string &directory) { if (!getcwd(was, sizeof(was))) abort(); mkdir(directory.c_str(), 0755); if (chdir(directory.c_str())) abort(); }
	~inside() { if (chdir(was)) abort(); }
	};

struct forwarder : JASS::index_manager::delegate
	{
	JASS::index_manager::delegate &to;
	forwarder(JASS::index_manager::delegate &to, size_t n) : JASS::index_manager::delegate(n), to(to) {}
	void operator()(const JASS::slice &a, const JASS::index_postings &b, JASS::compress_integer::integer c, JASS::compress_integer::integer *d, JASS::index_postings_impact::impact_type *e) { to(a, b, c, d, e); }
	void operator()(size_t id, const JASS::slice &key) { to(id, key); }
	void finish() { to.finish(); }
	};

/* export the collection with each of the exporters; returns what a quantised collection looks like (values are the impacts) */
enum how_quantized { given, none, bm25, scaled };
static collection export_all(const collection &c, how_quantized how, const std::vector<exporter> &exporters)
	{
	fast_manager index(c);
	size_t n = index.get_highest_document_id();
	if (how == given)
		{
		for (auto &e : exporters) { auto s = e(n); index.iterate(*s); s->finish(); }
		return c;
		}
	recorder truth(n);
	std::vector<std::unique_ptr<JASS::index_manager::delegate>> serialisers;
	for (auto &e : exporters) serialisers.push_back(e(n));
	serialisers.emplace_back(new forwarder(truth, n));
	if (how == none)
		{
		auto ranker = std::make_shared<JASS::ranking_function_none>();
		JASS::quantize_none<JASS::ranking_function_none> quantizer(n, ranker);
		index.iterate(quantizer);
		quantizer.serialise_index(index, serialisers);
		}
	else if (how == scaled)
		{
		auto ranker = std::make_shared<JASS::ranking_function_none>();
		JASS::quantize<JASS::ranking_function_none> quantizer(n, ranker);
		index.iterate(quantizer);
		quantizer.serialise_index(index, serialisers);
		}
	else
		{
		std::vector<JASS::compress_integer::integer> lengths(c.lengths.begin(), c.lengths.end());
		auto ranker = std::make_shared<JASS::ranking_function_atire_bm25>(0.9, 0.4, lengths);
		JASS::quantize<JASS::ranking_function_atire_bm25> quantizer(n, ranker);
		index.iterate(quantizer);
		quantizer.serialise_index(index, serialisers);
		}
	collection out = c;
	REQUIRE(truth.lists.size() == c.terms.size(), "lists given to the serialisers");
	for (size_t t = 0; t < c.terms.size(); t++) { REQUIRE(truth.lists[t].docs == c.terms[t].docs, "documents of list " << t << " as given to the serialisers"); out.terms[t].values = truth.lists[t].values; }
	return out;
	}

static void check_segments(const collection &c, const collection::list &t, JASS::deserialised_jass_v1 &index, const JASS::deserialised_jass_v1::metadata &details, JASS::compress_integer &decoder, size_t postings_bytes, const uint8_t *postings)
	{
	struct { std::vector<uint32_t> ids; void add_rsv(size_t id, unsigned) { ids.push_back((uint32_t)id); } } heard;
	std::map<uint32_t, std::vector<uint32_t>, std::greater<uint32_t>> want;
	for (size_t i = 0; i < t.docs.size(); i++) want[t.values[i]].push_back(t.docs[i] - 1);
	EQUAL((size_t)details.impacts, want.size(), "number of impacts of term " << pbt::show(t.name));
	std::vector<JASS::deserialised_jass_v1::segment_header> segments(details.impacts + 1);
	uint32_t smallest = 77777, largest = 77777; JASS::query::DOCID_TYPE df = 77777;
	auto copy = details;
	size_t weight = 1 + t.name.size() % 3;								// how often the term is in the query
	EQUAL(index.get_segment_list(segments.data(), copy, weight, smallest, largest, df), want.size(), "segments of term " << pbt::show(t.name));
	EQUAL((size_t)df, t.docs.size(), "document frequency of term " << pbt::show(t.name));
	EQUAL(largest, want.begin()->first * weight, "largest impact of term " << pbt::show(t.name));
	EQUAL(smallest, want.rbegin()->first * weight, "smallest impact of term " << pbt::show(t.name));
	size_t s = 0;
	std::map<uint64_t, uint64_t> used;
	for (auto &w : want)
		{
		auto &segment = segments[s++];
		EQUAL((size_t)segment.impact, w.first * weight, "impact of segment " << s << " of term " << pbt::show(t.name));
		EQUAL((size_t)segment.segment_frequency, w.second.size(), "postings in segment " << s << " (impact " << w.first << ") of term " << pbt::show(t.name));
		REQUIRE(segment.offset < segment.end && segment.end <= postings_bytes, "segment " << s << " is at " << segment.offset << " to " << segment.end << " of a file of " << postings_bytes);
		used[segment.offset] = segment.end;
		heard.ids.clear();
		decoder.set_impact(1);
		decoder.decode_with_writer(heard, w.second.size(), postings + segment.offset, segment.end - segment.offset);
		EQUAL(heard.ids.size(), w.second.size(), "documents delivered");
		for (size_t i = 0; i < w.second.size(); i++) EQUAL(heard.ids[i], w.second[i], "document " << i << " of the segment with impact " << w.first << " of term " << pbt::show(t.name));
		}
	uint64_t last = 0;
	for (auto &u : used) { REQUIRE(u.first >= last, "segments overlap in the file"); last = u.second; }
	}

/* the posting file as it is when mapped, at the end of what is mapped: nothing beyond its last page can be read */
struct alone
	{
	uint8_t *at; size_t size;
	alone(const uint8_t *from, size_t bytes) : size((bytes + 4095) / 4096 * 4096)
		{
		at = (uint8_t *)mmap(nullptr, size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (at == MAP_FAILED) abort();
		memcpy(at, from, bytes);
		if (mprotect(at + size, 4096, PROT_NONE) || mprotect(at, size, PROT_READ)) abort();
		}
	~alone() { munmap(at, size + 4096); }
	};

/* the loaded index holds the collection and nothing else */
static void check_index(const collection &c, JASS::deserialised_jass_v1 &index, pbt::gen &g)
	{
	std::string name; int32_t d_ness;
	auto decoder = index.codex(name, d_ness);
	REQUIRE(decoder != nullptr, "no codec");
	std::vector<std::string> nothing;
	decoder->init(nothing, (JASS::query::DOCID_TYPE)c.n, 10);
	EQUAL(index.document_count(), c.n, "document count");
	EQUAL(index.primary_keys().size(), c.n, "number of primary keys");
	for (size_t i = 0; i < c.n; i++) EQUAL(index.primary_keys()[i], c.keys[i], "primary key of document " << i + 1);
	struct stat details; if (stat("CIpostings.bin", &details)) abort();
	alone mapped(index.postings(), details.st_size);
	std::map<std::string, const collection::list *> want;
	for (auto &t : c.terms) want[t.name] = &t;
	size_t terms = 0;
	for (auto &m : index)
		{
		std::string term((const char *)m.term.address(), m.term.size());
		auto it = want.find(term);
		REQUIRE(it != want.end(), "the vocabulary holds " << pbt::show(term) << ", which is not a term or is there twice");
		check_segments(c, *it->second, index, m, *decoder, details.st_size, mapped.at);
		want.erase(it);
		terms++;
		}
	EQUAL(terms, c.terms.size(), "terms in the vocabulary");
	for (auto &t : c.terms)
		{
		JASS::deserialised_jass_v1::metadata m;
		JASS::query_term q(JASS::slice((void *)t.name.data(), t.name.size()), 1);
		REQUIRE(index.postings_details(m, q), "looking up " << pbt::show(t.name) << " does not find it");
		REQUIRE(std::string((const char *)m.term.address(), m.term.size()) == t.name, "looking up " << pbt::show(t.name) << " found another term");
		}
	std::set<std::string> there;
	for (auto &t : c.terms) there.insert(t.name);
	for (size_t i = 0; i < 12; i++)
		{
		std::string s = c.terms[g.draw(c.terms.size())].name;
		switch (g.draw(4)) { case 0: s += (char)g.range(1, 255); break; case 1: s.back()++; break; case 2: s.pop_back(); break; default: s.insert(s.begin(), (char)g.range(1, 255)); }
		if (there.count(s)) continue;
		JASS::deserialised_jass_v1::metadata m;
		JASS::query_term q(JASS::slice((void *)s.data(), s.size()), 1);
		REQUIRE(!index.postings_details(m, q), "looking up " << pbt::show(s) << ", which is not a term, finds " << pbt::show(std::string((const char *)m.term.address(), m.term.size())));
		}
	}

static bool worth(const collection &c)
	{
	std::set<uint32_t> values; size_t most = 0;
	for (auto &t : c.terms) { values.insert(t.values.begin(), t.values.end()); most = std::max(most, t.docs.size()); }
	return c.terms.size() > 1 && values.size() > 1 && most > 1;
	}
static void describe(pbt::gen &g, const collection &c)
	{
	std::ostringstream o;
	size_t shown = 0;
	for (auto &t : c.terms)
		{
		if (++shown > 6) { o << "..."; break; }
		o << pbt::show(t.name) << '(';
		for (size_t i = 0; i < t.docs.size() && i < 8; i++) o << t.docs[i] << ':' << t.values[i] << ' ';
		o << (t.docs.size() > 8 ? "...) " : ") ");
		}
	g.note("documents", c.n); g.note("terms", c.terms.size()); g.note("lists", o.str());
	}

/* C03: the forward index, the integer postings and the compilable source hold the same quantised collection */
#include "exports.h"
#include "serialise_ci.h"
#include "serialise_integers.h"
#include "serialise_forward_index.h"
#include "file.h"

RULE("collections of 1-1500 documents and 1-40 terms (every density of list, every distribution of impacts over 1-1024, alphanumeric names that extend each other), exported to any subset of the five formats in any order in one pass, quantised by BM25, passed through, or given impacts directly; non-trivial: several terms, several impacts, a list of several documents");
ASSUME_TEXT("at least one document and one term; names and keys of letters and digits, as the source export puts them in identifiers and string literals");

typedef std::map<std::string, std::map<uint32_t, uint32_t>> triples;		// term -> document -> impact
static triples expected(const collection &c)
	{
	triples t;
	for (auto &l : c.terms) for (size_t i = 0; i < l.docs.size(); i++) t[l.name][l.docs[i]] = l.values[i];
	return t;
	}
static void compare(const triples &got, const triples &want, const char *what)
	{
	for (auto &t : want)
		{
		auto it = got.find(t.first);
		REQUIRE(it != got.end(), what << ": term " << pbt::show(t.first) << " is missing");
		for (auto &p : t.second) { auto d = it->second.find(p.first); REQUIRE(d != it->second.end(), what << ": term " << pbt::show(t.first) << " lacks document " << p.first); EQUAL(d->second, p.second, what << ": impact of " << pbt::show(t.first) << " in document " << p.first); }
		EQUAL(it->second.size(), t.second.size(), what << ": postings of " << pbt::show(t.first));
		}
	EQUAL(got.size(), want.size(), what << ": terms");
	}

/* a reader that fails at the first byte out of place */
struct reader
	{
	std::string text; size_t at = 0; const char *name;
	explicit reader(const char *file) : name(file) { JASS::file::read_entire_file(std::string(file), text); }
	bool more() const { return at < text.size(); }
	bool see(const std::string &s) { if (text.compare(at, s.size(), s) != 0) return false; at += s.size(); return true; }
	void expect(const std::string &s) { REQUIRE(see(s), name << ": expected " << pbt::show(s) << " at byte " << at << " but it is " << pbt::show(text.substr(at, 60))); }
	std::string until(char c) { size_t e = text.find(c, at); REQUIRE(e != text.npos, name << ": no " << c << " after byte " << at); std::string s = text.substr(at, e - at); at = e + 1; return s; }
	uint64_t number(char end) { std::string s = until(end); REQUIRE(!s.empty() && s.size() < 12 && s.find_first_not_of("0123456789") == s.npos, name << ": not a number: " << pbt::show(s)); return std::stoull(s); }
	void skip_line() { until('\n'); }
	};

static void check_forward(const collection &c)
	{
	reader r("JASS_forward.index");
	triples got;
	uint64_t last = 0;
	while (r.more())
		{
		r.expect("<DOC><DOCNO>");
		uint64_t id = r.number('<');
		r.expect("/DOCID>");
		REQUIRE(id > last && id <= c.n, "document " << id << " after " << last);
		last = id;
		size_t n = 0;
		while (!r.see("</DOC>\n"))
			{
			std::string term = r.until(':');
			uint64_t impact = r.number(' ');
			REQUIRE(got[term].insert({(uint32_t)id, (uint32_t)impact}).second, "forward index: document " << id << " has " << pbt::show(term) << " twice");
			n++;
			}
		REQUIRE(n != 0, "document " << id << " is there but has no terms");
		}
	compare(got, expected(c), "forward index");
	}

static void check_integers(const collection &c)
	{
	std::string text;
	JASS::file::read_entire_file("postings.bin", text);
	size_t at = 0;
	auto next = [&]() { REQUIRE(at + 4 <= text.size(), "integers: the file ends at " << text.size()); uint32_t x; memcpy(&x, text.data() + at, 4); at += 4; return x; };
	for (auto &t : c.terms)
		{
		std::map<uint32_t, std::vector<uint32_t>, std::greater<uint32_t>> segments;
		for (size_t i = 0; i < t.docs.size(); i++) segments[t.values[i]].push_back(t.docs[i] - 1);
		for (auto &s : segments)
			{
			EQUAL((size_t)next(), s.second.size(), "integers: length of the list of impact " << s.first << " of " << pbt::show(t.name));
			for (auto d : s.second) EQUAL(next(), d, "integers: document in the list of impact " << s.first << " of " << pbt::show(t.name));
			}
		}
	EQUAL(at, text.size(), "integers: bytes used");
	}

static void check_source(const collection &c)
	{
	{
	reader r("JASS_postings.cpp");
	triples got;
	r.expect("/* Generated by "); r.skip_line();
	while (!r.see("using namespace JASS;\n")) { r.expect("#include"); r.skip_line(); r.see("\n"); }
	while (r.more())
		{
		r.expect("void T_");
		std::string term = r.until('(');
		r.expect("query_heap &q)\n{\n");
		REQUIRE(got.count(term) == 0, "source: two functions for " << pbt::show(term));
		auto &list = got[term];
		while (!r.see("}\n"))
			{
			r.expect("q.add_rsv(");
			uint64_t d = r.number(','), impact = r.number(')');
			r.expect(";\n");
			REQUIRE(list.insert({(uint32_t)d, (uint32_t)impact}).second, "source: document " << d << " twice in " << pbt::show(term));
			}
		}
	compare(got, expected(c), "source");
	}
	{
	reader r("JASS_postings.h");
	std::multiset<std::string> declared, want;
	for (auto &t : c.terms) want.insert(t.name);
	while (!r.see("using namespace JASS;\n")) r.skip_line();
	while (r.more()) { r.expect("void T_"); declared.insert(r.until('(')); r.expect("query_heap &);\n"); }
	REQUIRE(declared == want, "source: the functions declared (" << declared.size() << ") are not the terms (" << want.size() << ")");
	}
	{
	reader r("JASS_vocabulary.cpp");
	std::multiset<std::string> listed, want;
	for (auto &t : c.terms) want.insert(t.name);
	while (!r.see("JASS_ci_vocab dictionary[] = {\n")) r.skip_line();
	while (!r.see("};\n")) { r.expect("{\""); std::string term = r.until('"'); r.expect(",T_"); EQUAL(r.until('}'), term, "source: function of a vocabulary entry"); r.expect(",\n"); listed.insert(term); }
	REQUIRE(listed == want, "source: the vocabulary (" << listed.size() << ") is not the terms (" << want.size() << ")");
	r.expect("uint64_t dictionary_length = ");
	EQUAL(r.number(';'), (uint64_t)c.terms.size(), "source: dictionary_length");
	}
	reader r("JASS_primary_keys.cpp");
	while (!r.see("std::vector<std::string> primary_key =\n{\n")) r.skip_line();
	r.expect("\"-\",\n");									// document 0 does not exist
	for (size_t i = 0; i < c.n; i++) { r.expect("\""); EQUAL(r.until('"'), c.keys[i], "source: primary key of document " << i + 1); r.expect(",\n"); }
	r.expect("};\n");
	REQUIRE(!r.more(), "source: text after the primary keys");
	}

PROPERTY(large_exports_are_the_same_collection, 5, 200)
	{
	auto c = large_collection(g);
	describe(g, c);
	auto how = (how_quantized)g.draw(3);
	size_t which = g.draw(3);
	g.note("quantised", (int)how); g.note("format", "fis"[which]);
	inside scratch(g.scratch() + "/large");
	for (auto f : {"JASS_forward.index", "postings.bin", "JASS_postings.cpp", "JASS_postings.h", "JASS_vocabulary.cpp", "JASS_primary_keys.cpp"}) unlink(f);
	c = export_all(c, how, {[=](size_t n) -> std::unique_ptr<JASS::index_manager::delegate>
		{
		if (which == 0) return std::make_unique<JASS::serialise_forward_index>(n);
		if (which == 1) return std::make_unique<JASS::serialise_integers>(n);
		return std::make_unique<JASS::serialise_ci>(n);
		}});
	if (which == 0) check_forward(c); else if (which == 1) check_integers(c); else check_source(c);
	g.nontrivial(true); g.label(c.n > 60000 ? "many documents" : "many terms");
	}

PROPERTY(every_export_is_the_same_collection, 1500, 30000)
	{
	shape s; s.max_documents = 1500; s.max_terms = 40; s.odd_names = false; s.max_value = g.pick({3u, 30u, 255u, 1024u});
	auto c = make_collection(g, s);
	for (auto &k : c.keys) for (auto &ch : k) if (ch == '"' || ch == '\\') ch = '_';
	describe(g, c);
	auto how = (how_quantized)g.draw(3);
	g.note("quantised", (int)how);
	inside scratch(g.scratch() + "/exports");
	for (auto f : {"JASS_forward.index", "postings.bin", "JASS_postings.cpp", "JASS_postings.h", "JASS_vocabulary.cpp", "JASS_primary_keys.cpp", "CIpostings.bin"}) unlink(f);
	std::vector<size_t> order;
	for (size_t i = 0; i < 5; i++) if (i < 3 ? !g.chance(1, 4) : g.chance(1, 6)) order.insert(order.begin() + g.draw(order.size() + 1), i);
	if (std::count(order.begin(), order.end(), 3) && std::count(order.begin(), order.end(), 4)) order.erase(std::find(order.begin(), order.end(), 4));	// one file name
	std::vector<exporter> exporters;
	for (auto which : order)
		exporters.push_back([=](size_t n) -> std::unique_ptr<JASS::index_manager::delegate>
			{
			if (which == 0) return std::make_unique<JASS::serialise_forward_index>(n);
			if (which == 1) return std::make_unique<JASS::serialise_integers>(n);
			if (which == 2) return std::make_unique<JASS::serialise_ci>(n);
			if (which == 3) return std::make_unique<JASS::serialise_jass_v1>(n);
			return std::make_unique<JASS::serialise_jass_v2>(n);
			});
	c = export_all(c, how, exporters);
	std::string formats;
	for (auto which : order)
		{
		formats += "fis12"[which];
		switch (which)
			{
			case 0: check_forward(c); break;
			case 1: check_integers(c); break;
			case 2: check_source(c); break;
			case 3: { JASS::deserialised_jass_v1 index; REQUIRE(index.read_index() == 1, "the index can't be loaded"); check_index(c, index, g); break; }
			case 4: { JASS::deserialised_jass_v2 index; REQUIRE(index.read_index() == 1, "the index can't be loaded"); check_index(c, index, g); break; }
			}
		}
	g.note("formats", formats);
	g.nontrivial(worth(c) && !order.empty()); g.label(std::to_string(order.size()) + " formats at once");
	}

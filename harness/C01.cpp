/* C01: an exported version-1 index is exactly the collection */
#include "exports.h"

RULE("collections of 1-3000 documents and 1-60 terms (every density of list from one document to all, every distribution of impacts over 1-1024, names and keys of any bytes or extending each other), quantised by BM25, passed through, or given impacts directly; every posting codec; alignments; non-trivial: several terms, several impacts, a list of several documents");
ASSUME_TEXT("at least one document and one term; no NUL in terms and keys; the QMX codec is written with the 16-byte alignment it needs");

PROPERTY(a_version_1_index_is_the_collection, 1500, 30000)
	{
	shape s; s.max_documents = g.thorough ? 8000 : 3000; s.max_terms = 60; s.max_value = g.pick({3u, 30u, 255u, 1024u});
	auto c = make_collection(g, s);
	describe(g, c);
	codex with = all_codices[g.draw(5)];
	int8_t alignment = with == codex::qmx ? 16 : g.pick({1, 1, 2, 4, 8, 16});
	auto how = (how_quantized)g.draw(3);
	g.note("codec", std::string(1, (char)with)); g.note("alignment", (int)alignment); g.note("quantised", (int)how);
	inside scratch(g.scratch() + "/index");
	c = export_all(c, how, {[&](size_t n) { return std::unique_ptr<JASS::index_manager::delegate>(new JASS::serialise_jass_v1(n, with, alignment)); }});
	JASS::deserialised_jass_v1 index;
	REQUIRE(index.read_index(g.flip() ? "" : ".") == 1, "the index can't be loaded");
	check_index(c, index, g);
	g.nontrivial(worth(c)); g.label(std::string("codec ") + (char)with);
	}

PROPERTY(a_large_version_1_index_is_the_collection, 12, 600)
	{
	auto c = large_collection(g);
	describe(g, c);
	codex with = all_codices[g.draw(5)];
	int8_t alignment = with == codex::qmx ? 16 : 1;
	auto how = (how_quantized)g.draw(3);
	g.note("codec", std::string(1, (char)with)); g.note("quantised", (int)how);
	inside scratch(g.scratch() + "/index");
	c = export_all(c, how, {[&](size_t n) { return std::unique_ptr<JASS::index_manager::delegate>(new JASS::serialise_jass_v1(n, with, alignment)); }});
	JASS::deserialised_jass_v1 index;
	REQUIRE(index.read_index("") == 1, "the index can't be loaded");
	check_index(c, index, g);
	g.nontrivial(true); g.label(c.n > 60000 ? "many documents" : "many terms");
	}

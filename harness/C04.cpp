/* C04: without a budget a search returns exactly the best k documents */
#include "engine.h"

RULE("indexes of 1-1500 documents and 1-30 terms in either version and any codec, an engine with any k up to 1000 and any accumulator width, and 1-25 queries of known, unknown and repeated words, some so long that scores are scaled; non-trivial when a query matches more documents than k with at least two terms");
ASSUME_TEXT("at most 200 different words in a query; query words are plain letters or digits, or anything without white space with the ASCII parser");

PROPERTY(the_best_k, 1600, 60000)
	{
	inside dir(g.scratch());
	auto w = make_world(g);
	JASS_anytime_api engine;
	size_t k = g.chance(2, 3) ? 1 + g.draw(12) : g.edge(1, 1000, {w->c.n, w->c.n + 1, w->c.n - 1, 999, 1000});
	size_t width = g.draw(13);
	g.note("k", k); g.note("width", width);
	EQUAL((int)engine.set_top_k(k), (int)JASS_ERROR_OK, "set_top_k");
	EQUAL((int)engine.set_accumulator_width(width), (int)JASS_ERROR_OK, "set_accumulator_width");
	EQUAL((int)engine.load_index(w->version, ""), (int)JASS_ERROR_OK, "load_index");
	EQUAL((size_t)engine.get_document_count(), w->c.n, "document count");
	bool raw = g.flip();
	if (raw) engine.use_ascii_parser();
	bool interesting = false;
	int direction = 0;
	size_t queries = g.size(1, 25);
	for (size_t i = 0; i < queries; i++)
		{
		auto q = make_query(g, *w, raw, "q" + std::to_string(i), g.chance(1, 10) ? 100 : 12);
		show_query(g, q);
		if (std::set<std::string>(q.words.begin(), q.words.end()).size() > 200) continue;
		auto answer = engine.search(q.text);
		auto pieces = pieces_of(*w, q);
		auto scores = scores_of(*w, pieces);
		EQUAL(answer.query_id, q.id, "query id");
		auto hits = hits_of(*w, q.id, answer.results_list);
		auto wrong = compare(hits, scores, k, &direction);
		REQUIRE(wrong.empty(), wrong << " for query " << pbt::show(q.text));
		size_t total = 0; for (auto &p : pieces) total += p.docs->size();
		EQUAL(answer.postings_processed, total, "postings processed");
		size_t scored = std::count_if(scores.begin(), scores.end(), [](uint32_t s) { return s != 0; });
		if (scored > k && pieces.size() > 1 && std::set<std::string>(q.words.begin(), q.words.end()).size() > 1) interesting = true;
		for (auto &p : pieces) if (p.scaled != p.impact) { g.label("scaled"); break; }
		if (q.words.empty()) g.label("empty query"); else if (pieces.empty()) g.label("no term known");
		}
	if (interesting) g.nontrivial();
	}

PROPERTY(the_best_k_of_a_large_index, 8, 400)
	{
	inside dir(g.scratch());
	world w;
	w.c = large_collection(g);
	how_quantized how = g.flip() ? bm25 : given;
	if (how == given) for (auto &t : w.c.terms) for (auto &v : t.values) v = v % 100 + 1;
	w.version = 1 + (int)g.draw(2);
	w.with = all_codices[g.draw(5)];
	w.c = export_all(w.c, how, {w.version == 1
		? exporter([&](size_t n) { return std::unique_ptr<JASS::index_manager::delegate>(new JASS::serialise_jass_v1(n, w.with, 16)); })
		: exporter([&](size_t n) { return std::unique_ptr<JASS::index_manager::delegate>(new JASS::serialise_jass_v2(n, w.with)); })});
	w.prepare();
	describe(g, w.c);
	g.note("version", w.version); g.note("codec", (char)w.with);
	JASS_anytime_api engine;
	size_t k = g.chance(2, 3) ? 1 + g.draw(20) : g.edge(1, 1000, {999, 1000});
	size_t width = g.draw(13);
	g.note("k", k); g.note("width", width);
	EQUAL((int)engine.set_top_k(k), (int)JASS_ERROR_OK, "set_top_k");
	EQUAL((int)engine.set_accumulator_width(width), (int)JASS_ERROR_OK, "set_accumulator_width");
	EQUAL((int)engine.load_index(w.version, ""), (int)JASS_ERROR_OK, "load_index");
	int direction = 0;
	for (size_t i = 0; i < 4; i++)
		{
		asked q; q.id = "q" + std::to_string(i);
		size_t words = 1 + g.draw(4);
		for (size_t x = 0; x < words; x++) q.words.push_back(w.c.terms[g.draw(w.c.terms.size())].name);
		q.text = q.id;
		for (auto &x : q.words) q.text += " " + x;
		show_query(g, q);
		auto answer = engine.search(q.text);
		auto pieces = pieces_of(w, q);
		size_t total = 0; for (auto &p : pieces) total += p.docs->size();
		EQUAL(answer.postings_processed, total, "postings processed");
		auto wrong = compare(hits_of(w, q.id, answer.results_list), scores_of(w, pieces), k, &direction);
		REQUIRE(wrong.empty(), wrong << " for query " << pbt::show(q.text));
		}
	g.nontrivial(true); g.label(w.c.n > 60000 ? "many documents" : "many terms");
	}

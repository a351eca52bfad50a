/* C06: what a search returns does not depend on threads, on the rest of the batch, or on what was searched before */
#ifdef SCHED
	#include "fibre.h"
#endif
#include "engine.h"
#include <fstream>

RULE("histories of batches of queries with distinct identifiers (empty, unknown, repeated words and repeated queries among them) on one engine with 1-6 threads, with budgets, parser and oracle scores changing between batches; interleavings of threads taking queries; non-trivial when a batch of at least four queries is shared by two or more threads, or two searches of the same query are compared");
ASSUME_TEXT("distinct query identifiers within a batch; at least one thread; settings change between searches, not during them; sequentially consistent interleavings for the generated schedules; ThreadSanitizer for data races on real threads");

#ifdef SCHED
PROPERTY(every_query_taken_once, 6000, 300000)
	{
	size_t queries = g.draw(7), threads = 2 + g.draw(3);
	std::vector<JASS_anytime_query> list;
	for (size_t i = 0; i < queries; i++) list.push_back(JASS_anytime_query(g.chance(1, 6) ? "" : "q" + std::to_string(i)));
	std::vector<std::string> text;
	for (auto &q : list) text.push_back(q.query);
	std::vector<std::vector<size_t>> got(threads);
	std::vector<std::function<void()>> bodies;
	for (size_t t = 0; t < threads; t++)
		bodies.push_back([&, t]()
			{
			size_t next = 0;
			for (std::string q = JASS_anytime_query::get_next_query(list, next); next < list.size(); q = JASS_anytime_query::get_next_query(list, next))
				{
				EQUAL(q, text[next], "text of query " << next);
				got[t].push_back(next);
				}
			});
	sched::run(bodies, [&](uint64_t k) { return g.draw(k); }, g.pick({2, 3, 5, 12}));
	std::vector<size_t> taken(queries, 0);
	size_t takers = 0;
	for (auto &t : got) { takers += !t.empty(); for (auto i : t) taken[i]++; }
	for (size_t i = 0; i < queries; i++) EQUAL(taken[i], (size_t)1, "times query " << i << " was taken by " << threads << " threads");
	if (takers > 1 && queries > 2) g.nontrivial();
	}
#else

PROPERTY(batches, 500, 20000, p.nondet = NONDET;)
	{
	inside dir(g.scratch());
	auto w = make_world(g, 800, 20);
	size_t k = g.chance(2, 3) ? 1 + g.draw(12) : g.edge(1, 1000, {w->c.n, 1000});
	g.note("k", k);
	std::unique_ptr<JASS_anytime_api> engine;
	auto fresh = [&]()
		{
		std::unique_ptr<JASS_anytime_api> e(new JASS_anytime_api);
		EQUAL((int)e->set_top_k(k), (int)JASS_ERROR_OK, "set_top_k");
		EQUAL((int)e->load_index(w->version, ""), (int)JASS_ERROR_OK, "load_index");
		return e;
		};
	engine = fresh();
	bool raw = false;
	size_t budget = SIZE_MAX; double relative = 1; int oracle = 0;
	if (g.chance(2, 5))
		for (int f = 1; f <= 2; f++)
			{
			std::ofstream file("oracle" + std::to_string(f));
			for (int i = 0; i < 1 + (int)g.draw(20); i++) file << "q" << i << ' ' << (g.chance(1, 4) ? g.draw(3) : g.draw(256)) << '\n';
			}
	bool has_oracle = access("oracle1", R_OK) == 0;
	/*
		a query of these words with these settings has one answer
	*/
	struct answer { std::string results, query; size_t postings; };
	std::map<std::string, answer> known;
	size_t alone = 0;
	bool interesting = false;
	std::vector<asked> pool;
	for (size_t i = 0, n = g.size(1, 15); i < n; i++) pool.push_back(make_query(g, *w, false, "q" + std::to_string(i), 8));
	auto check = [&](const asked &q, const JASS_anytime_result &r)
		{
		std::ostringstream key; key << q.text << '|' << raw << '|' << (relative == 1 ? budget : 0) << '|' << relative << '|' << oracle;
		EQUAL(r.query_id, q.id, "query id");
		auto before = known.find(key.str());
		if (before != known.end())
			{
			EQUAL(r.results_list, before->second.results, "results of " << pbt::show(q.text) << " searched again");
			EQUAL(r.postings_processed, before->second.postings, "postings processed for " << pbt::show(q.text) << " searched again");
			EQUAL(r.query, before->second.query, "text of query " << pbt::show(q.text) << " searched again");
			interesting = true;
			return;
			}
		known[key.str()] = {r.results_list, r.query, r.postings_processed};
		if (!oracle && budget == SIZE_MAX && relative == 1)
			{
			auto pieces = pieces_of(*w, q);
			auto wrong = compare(hits_of(*w, q.id, r.results_list), scores_of(*w, pieces), k);
			REQUIRE(wrong.empty(), wrong << " for query " << pbt::show(q.text));
			}
		if (alone < 3)
			{
			alone++;
			auto e = fresh();
			if (raw) e->use_ascii_parser();
			if (budget != SIZE_MAX) e->set_postings_to_process(budget);
			if (relative != 1) e->set_postings_to_process_relative(relative * 100);
			if (oracle) EQUAL((int)e->load_oracle_scores("oracle" + std::to_string(oracle)), (int)JASS_ERROR_OK, "load_oracle_scores");
			auto a = e->search(q.text);
			EQUAL(r.results_list, a.results_list, "results of " << pbt::show(q.text) << " searched by itself (expected) and with others");
			EQUAL(r.postings_processed, a.postings_processed, "postings for " << pbt::show(q.text) << " searched by itself and with others");
			}
		};
	size_t steps = g.size(1, 8);
	for (size_t s = 0; s < steps; s++)
		{
		switch (g.weighted({8, 1, 1, 1, 1}))
			{
			case 1: raw = !raw; if (raw) engine->use_ascii_parser(); else engine->use_query_parser(); break;
			case 2: budget = g.chance(1, 3) ? SIZE_MAX : g.draw(2000); engine->set_postings_to_process(budget); break;
			case 3: relative = g.flip() ? 1 : g.draw(100) / 100.0; engine->set_postings_to_process_relative(relative * 100); relative = relative * 100 / 100.0; break;
			case 4: if (has_oracle) { oracle = 1 + (int)g.draw(2); EQUAL((int)engine->load_oracle_scores("oracle" + std::to_string(oracle)), (int)JASS_ERROR_OK, "load_oracle_scores"); } break;
			default: break;
			}
		if (g.chance(1, 4))
			{
			const auto &q = pool[g.draw(pool.size())];
			g.note("search", pbt::show(q.text));
			check(q, engine->search(q.text));
			continue;
			}
		/*
			a batch: some of the pool in any order
		*/
		auto batch = pool;
		for (size_t i = 0; i + 1 < batch.size(); i++) std::swap(batch[i], batch[i + g.draw(batch.size() - i)]);
		batch.resize(g.chance(1, 2) ? batch.size() : g.draw(batch.size() + 1));
		std::vector<std::string> text;
		for (auto &q : batch) text.push_back(q.text);
		size_t threads = 1 + g.draw(g.chance(1, 5) ? 6 : 3);
		std::ostringstream note; for (auto &q : batch) note << q.id << ' ';
		g.note("threads", threads); g.note("batch", note.str());
		std::vector<JASS_anytime_thread_result> out;
		if (g.chance(2, 3)) out = engine->threaded_search(text, threads);
		else
			{
			std::vector<JASS_anytime_query> list;
			for (auto &t : text) list.push_back(JASS_anytime_query(t));
			EQUAL((int)engine->search(out, list, threads), (int)JASS_ERROR_OK, "search");
			}
		EQUAL(out.size(), threads, "results of threads");
		std::map<std::string, size_t> times;
		size_t busy = 0;
		for (auto &t : out)
			{
			busy += !t.results.empty();
			for (auto &r : t)
				{
				times[r.first]++;
				auto q = std::find_if(batch.begin(), batch.end(), [&](const asked &a) { return a.id == r.first; });
				REQUIRE(q != batch.end(), "results for " << pbt::show(r.first) << ", which was not asked");
				check(*q, r.second);
				}
			}
		for (auto &q : batch) EQUAL(times[q.id], (size_t)1, "answers to query " << q.id);
		if (threads > 1 && batch.size() >= 4) { interesting = true; g.label("threads"); }
		if (busy > 1) g.label("work shared");
		if (oracle) g.label("oracle"); 
		if (relative != 1) g.label("relative budget");
		if (batch.empty()) g.label("empty batch");
		}
	if (interesting) g.nontrivial();
	}
#endif

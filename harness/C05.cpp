/* C05: a budget of postings is respected, and spent on the most valuable postings first */
#include "engine.h"

RULE("indexes of 1-1500 documents, queries of known, unknown and repeated words, and before each search a budget set in one of three ways, mostly at or next to the sums of the leading segments; non-trivial when a budget cuts a query of two or more terms after some but not all of its segments");
ASSUME_TEXT("budgets in percent from 0 to 10000; segments with equal impacts and lengths may be taken in either order");

static size_t total_of(const std::vector<piece> &p) { size_t n = 0; for (auto &x : p) n += x.docs->size(); return n; }

PROPERTY(budgets, 1500, 60000)
	{
	inside dir(g.scratch());
	auto w = make_world(g);
	JASS_anytime_api engine;
	size_t k = g.chance(2, 3) ? 1 + g.draw(12) : g.edge(1, 1000, {w->c.n, 999, 1000});
	g.note("k", k);
	EQUAL((int)engine.set_top_k(k), (int)JASS_ERROR_OK, "set_top_k");
	if (g.flip()) engine.set_accumulator_width(g.draw(13));
	size_t absolute = (std::numeric_limits<size_t>::max)();
	double relative = 1;
	if (g.chance(1, 8)) { absolute = g.edge(0, 5000, {0, 1}); engine.set_postings_to_process(absolute); }	// before the index is there
	EQUAL((int)engine.load_index(w->version, ""), (int)JASS_ERROR_OK, "load_index");
	bool raw = g.flip();
	if (raw) engine.use_ascii_parser();
	size_t queries = g.size(1, 25);
	bool interesting = false;
	for (size_t i = 0; i < queries; i++)
		{
		auto q = make_query(g, *w, raw, "q" + std::to_string(i), 12);
		show_query(g, q);
		auto pieces = pieces_of(*w, q);
		size_t total = total_of(pieces);
		/*
			the sums of the leading segments, where budgets are interesting
		*/
		std::vector<uint64_t> sums{0, total};
		size_t sum = 0;
		for (auto &p : pieces) { sum += p.docs->size(); if (sums.size() < 200) sums.push_back(sum); }
		if (g.chance(1, 5)) engine.set_postings_to_process_minimum(g.draw(2000));		// has a meaning only with oracle scores
		if (g.chance(1, 10)) EQUAL((int)engine.set_postings_to_process_proportion_minimum((double)g.draw(200)), (int)JASS_ERROR_OK, "proportion minimum");
		switch (g.weighted({6, 2, 2, 1, 1}))
			{
			case 0:
				absolute = sums[g.draw(sums.size())];
				if (g.chance(1, 2)) absolute += g.pick({0, 1, -1});
				if (absolute == SIZE_MAX) absolute = 0;
				g.note("absolute", absolute);
				EQUAL((int)engine.set_postings_to_process(absolute), (int)JASS_ERROR_OK, "set_postings_to_process");
				break;
			case 1:
				{
				double percent = g.flip() ? (double)g.draw(101) : g.flip() ? g.draw(10001) / 7.0 : sums[g.draw(sums.size())] * 100.0 / w->c.n;
				g.note("percent of documents", percent);
				EQUAL((int)engine.set_postings_to_process_proportion(percent), (int)JASS_ERROR_OK, "set_postings_to_process_proportion");
				absolute = (size_t)((double)w->c.n * percent / 100.0);
				break;
				}
			case 2:
				{
				double percent = g.flip() ? (double)g.draw(101) : g.flip() ? g.draw(10001) / 50.0 : total ? sums[g.draw(sums.size())] * 100.0 / total : 50;
				g.note("percent of postings", percent);
				EQUAL((int)engine.set_postings_to_process_relative(percent), (int)JASS_ERROR_OK, "set_postings_to_process_relative");
				relative = percent / 100.0;
				break;
				}
			case 3:
				EQUAL((int)engine.set_postings_to_process_relative(100), (int)JASS_ERROR_OK, "set_postings_to_process_relative");
				relative = 1;
				break;
			default: break;				/* as the query before */
			}
		EQUAL((uint64_t)engine.get_postings_to_process(), (uint64_t)std::min<uint64_t>(absolute, 0xFFFFFFFF), "get_postings_to_process");
		size_t budget = relative == 1 ? absolute : (size_t)(total * relative);
		JASS_anytime_result answer;
		if (g.chance(3, 4)) answer = engine.search(q.text);
		else
			{
			std::vector<std::string> one{q.text};
			auto all = engine.threaded_search(one, 1);
			REQUIRE(all.size() == 1 && all[0].results.size() == 1, "one query answered");
			answer = all[0].results.begin()->second;
			}
		/*
			which segments, up to ties
		*/
		std::vector<piece> sure, maybe;
		size_t done = 0, of_ties = 0, at = 0;
		while (at < pieces.size())
			{
			size_t end = at, length = pieces[at].docs->size();
			while (end < pieces.size() && pieces[end].impact == pieces[at].impact && pieces[end].docs->size() == length) end++;
			size_t fit = budget < done ? 0 : std::min((budget - done) / length, end - at);
			done += fit * length;
			if (fit == end - at) { sure.insert(sure.end(), pieces.begin() + at, pieces.begin() + end); at = end; continue; }
			maybe.assign(pieces.begin() + at, pieces.begin() + end);
			of_ties = fit;
			break;
			}
		REQUIRE(answer.postings_processed <= budget, answer.postings_processed << " postings with a budget of " << budget);
		EQUAL(answer.postings_processed, done, "postings processed with a budget of " << budget << " of " << total);
		EQUAL(answer.query_id, q.id, "query id");
		auto hits = hits_of(*w, q.id, answer.results_list);
		std::string wrong;
		if (of_ties == 0) wrong = compare(hits, scores_of(*w, sure), k);
		else
			{
			/* some of a group of equals */
			g.label("budget within equals");
			std::vector<bool> mask(maybe.size(), false);
			std::fill(mask.begin(), mask.begin() + of_ties, true);
			size_t tries = 0;
			do
				{
				auto these = sure;
				for (size_t m = 0; m < maybe.size(); m++) if (mask[m]) these.push_back(maybe[m]);
				wrong = compare(hits, scores_of(*w, these), k);
				}
			while (!wrong.empty() && ++tries < 3000 && std::prev_permutation(mask.begin(), mask.end()));
			if (tries >= 3000) { wrong = ""; g.label("too many equals"); }
			}
		REQUIRE(wrong.empty(), wrong << " with a budget of " << budget << " of " << total << " for query " << pbt::show(q.text));
		std::set<std::string> known;
		for (auto &x : q.words) if (w->terms.count(x)) known.insert(x);
		if (known.size() > 1 && done > 0 && done < total) interesting = true;
		if (relative != 1) g.label("relative");
		if (budget >= total) g.label("enough"); else if (budget == done) g.label("exactly at a boundary");
		if (done == 0 && total) g.label("nothing processed");
		}
	if (interesting) g.nontrivial();
	}

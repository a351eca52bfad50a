/* C31: the known score of the k-th result */
#include "engine.h"
#include "top_k_limit.h"
#include <fstream>

RULE("indexes of 1-1500 documents, any k, up to 20 queries, and a file of bounds made of the true score of the k-th result, its neighbours, scores of other documents, small and unreachable ones, for some of the queries and for identifiers that are prefixes of one another; non-trivial when a bound over 1 is reached by k or more documents of a query with at least two segments");
ASSUME_TEXT("bounds from 0 to 255, the largest score; one line for each query in the bounds file; the minimum number of postings is not set together with a bound");

/* one file of bounds read back */
PROPERTY(bounds_file, 4000, 200000)
	{
	std::map<std::string, uint32_t> want;
	std::vector<std::string> lines;
	size_t n = g.size(0, 60);
	for (size_t i = 0; i < n; i++)
		{
		std::string id = g.chance(1, 3) ? g.word(1, 12, "abcXYZ019-_.:#") : std::string(g.flip() ? "q" : "") + std::to_string(g.draw(30));
		if (want.count(id)) continue;
		uint32_t v = g.flip() ? g.draw(256) : g.flip() ? g.draw(4) : (uint32_t)g.edge(0, 0xFFFFFFFFu, {0xFFFFFFFFu, 255, 256});
		want[id] = v;
		std::string spaces(1 + (g.chance(1, 5) ? g.draw(4) : 0), ' ');
		lines.push_back(id + spaces + (g.chance(1, 8) ? "000" : "") + std::to_string(v) + (g.chance(1, 8) ? " trailing" : g.chance(1, 8) ? " " : ""));
		}
	std::string end = g.flip() ? "\n" : "\r\n", text;
	for (size_t i = 0; i < lines.size(); i++)
		{
		text += lines[i];
		if (i + 1 < lines.size() || g.chance(4, 5)) text += end;
		if (g.chance(1, 10)) text += end;
		}
	g.note("file", pbt::show(text));
	std::string name = g.scratch() + "/bounds";
	{ std::ofstream o(name); o << text; }
	if (want.size() > 3) g.nontrivial();
	if (text.empty()) return;
	JASS::top_k_limit table(name);
	EQUAL(table.empty(), want.empty(), "empty");
	for (auto &x : want) EQUAL(table[x.first], x.second, "bound of " << pbt::show(x.first));
	for (size_t i = 0; i < 20; i++)
		{
		std::string id = want.size() && g.flip() ? want.begin()->first + "0" : "z" + std::to_string(g.draw(9));
		if (!want.count(id)) EQUAL(table[id], 0u, "bound of " << pbt::show(id) << ", which has none");
		}
	EQUAL(table.empty(), want.empty(), "empty after asking for bounds that are not there");
	}

PROPERTY(search_with_bounds, 1400, 60000)
	{
	inside dir(g.scratch());
	auto w = make_world(g);
	size_t k = g.chance(3, 4) ? 1 + g.draw(12) : g.edge(1, 1000, {w->c.n, w->c.n + 1});
	g.note("k", k);
	JASS_anytime_api engine;
	EQUAL((int)engine.set_top_k(k), (int)JASS_ERROR_OK, "set_top_k");
	if (g.flip()) engine.set_accumulator_width(g.draw(13));
	EQUAL((int)engine.load_index(w->version, ""), (int)JASS_ERROR_OK, "load_index");
	size_t queries = g.size(1, 20);
	std::vector<asked> all;
	std::map<std::string, uint32_t> bounds;
	std::vector<std::vector<piece>> pieces;
	for (size_t i = 0; i < queries; i++)
		{
		const char *names[] = {"q", "q1", "", "1"};
		auto q = make_query(g, *w, false, std::string(names[i % 4]) + std::to_string(i / 4 + 1) + (i % 4 == 2 ? "x" : ""), 8);
		bool again = false; for (auto &a : all) again |= a.id == q.id;
		if (again) continue;
		show_query(g, q);
		all.push_back(q);
		pieces.push_back(pieces_of(*w, q));
		auto scores = scores_of(*w, pieces.back());
		std::sort(scores.rbegin(), scores.rend());
		uint32_t at_k = k <= scores.size() ? scores[k - 1] : 0, b = 0;
		switch (g.weighted({4, 2, 2, 2, 1, 1}))
			{
			case 0: b = at_k; break;
			case 1: b = at_k + g.pick({1, -1, 2, -2}); break;
			case 2: b = scores[g.draw(scores.size())]; break;
			case 3: b = 2 + g.draw(254); break;
			case 4: b = g.draw(2); break;
			default: continue;					/* no bound for this query */
			}
		if (b > 255) b = 255;
		bounds[q.id] = b;
		}
	std::ofstream file("bounds");
	std::vector<std::pair<std::string, uint32_t>> order(bounds.begin(), bounds.end());
	if (g.flip()) std::reverse(order.begin(), order.end());
	if (g.flip()) order.push_back({"someother", 1 + g.draw(255)});
	for (auto &x : order) file << x.first << ' ' << x.second << '\n';
	file.close();
	bool given = !order.empty();
	if (given) EQUAL((int)engine.load_oracle_scores("bounds"), (int)JASS_ERROR_OK, "load_oracle_scores");
	bool interesting = false;
	for (size_t i = 0; i < all.size(); i++)
		{
		const auto &q = all[i];
		auto it = bounds.find(q.id);
		uint32_t b = it == bounds.end() ? 0 : it->second;
		g.note("bound", b);
		auto answer = engine.search(q.text);
		auto hits = hits_of(*w, q.id, answer.results_list);
		auto scores = scores_of(*w, pieces[i]);
		size_t total = 0; for (auto &p : pieces[i]) total += p.docs->size();
		size_t reach = b > 1 ? std::count_if(scores.begin(), scores.end(), [&](uint32_t s) { return s >= b; }) : 0;
		std::string about = " for query " + pbt::show(q.text) + " with a bound of " + std::to_string(b) + ", reached by " + std::to_string(reach);
		if (reach < k)
			{
			/* no bound, or one that too few documents reach: as if it was not there */
			auto wrong = compare(hits, scores, k);
			REQUIRE(wrong.empty(), wrong << about);
			EQUAL(answer.postings_processed, total, "postings processed" << about);
			g.label(b > 1 ? "bound too high" : it == bounds.end() ? "no bound for the query" : "bound of nothing");
			continue;
			}
		EQUAL(hits.size(), k, "results" << about);
		std::set<uint32_t> seen;
		for (size_t h = 0; h < hits.size(); h++)
			{
			REQUIRE(seen.insert(hits[h].doc).second, "document " << hits[h].doc << " twice" << about);
			REQUIRE(hits[h].score >= b, "document " << hits[h].doc << " with a score of " << hits[h].score << about);
			REQUIRE(scores[hits[h].doc] >= hits[h].score, "document " << hits[h].doc << " has a score of " << hits[h].score << ", and never more than " << scores[hits[h].doc] << about);
			if (h) REQUIRE(hits[h].score <= hits[h - 1].score, "results in order of score" << about);
			if (reach == k) REQUIRE(scores[hits[h].doc] >= b, "document " << hits[h].doc << " is not among the best " << k << about);
			}
		/*
			the search stops after the segment with which k documents reach the bound; segments with the same impact and
			length may come in any order
		*/
		std::vector<uint32_t> now(w->c.n, 0);
		size_t reached = 0, done = 0, before = 0;
		for (size_t at = 0; at < pieces[i].size() && reached < k; )
			{
			size_t end = at;
			before = done;
			while (end < pieces[i].size() && pieces[i][end].impact == pieces[i][at].impact && pieces[i][end].docs->size() == pieces[i][at].docs->size()) end++;
			for (; at < end; at++)
				{
				for (auto d : *pieces[i][at].docs)
					{
					uint32_t was = now[d];
					now[d] += pieces[i][at].scaled;
					if (was < b && now[d] >= b) reached++;
					}
				done += pieces[i][at].docs->size();
				}
			}
		REQUIRE(answer.postings_processed > before && answer.postings_processed <= done, answer.postings_processed << " postings processed, where " << k << " documents reach the bound between " << before << " and " << done << about);
		if (pieces[i].size() > 1) interesting = true;
		if (done < total) g.label("stopped early");
		if (reach == k) g.label("exact bound");
		}
	if (interesting) g.nontrivial();
	}

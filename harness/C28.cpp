/* C28: the search API against a model of its state, over any sequence of calls */
#include "engine.h"
#include <fstream>
#include <cmath>

RULE("sequences of 1-60 API calls on one or two engines, with valid and invalid arguments, and with good, missing and incomplete indexes and oracle score files; non-trivial when a sequence has at least three refused calls of different kinds and a search that finds something");
ASSUME_TEXT("an index directory is good, or files are missing, empty or not files; percentages from 0 to 10000; accumulator widths over 20 are loaded rarely (they clear gigabytes)");

struct model
	{
	const world *loaded = nullptr;
	size_t k = 10, width = 0, budget = SIZE_MAX, minimum = 0;
	double relative = 1;
	bool raw = false;
	std::map<std::string, uint32_t> oracle; std::string oracle_file;
	};

static bool fits(size_t documents, size_t width)
	{
	if (width == 0) return true;
	size_t page = (size_t)1 << width;
	return page * ((documents + page - 1) / page) <= 155000000 + 155000000 / 2;
	}

static void check_getters(JASS_anytime_api &engine, const model &m, bool schemes)
	{
	EQUAL((size_t)engine.get_top_k(), m.k, "get_top_k");
	EQUAL((size_t)engine.get_max_top_k(), (size_t)1000, "get_max_top_k");
	EQUAL((size_t)engine.get_document_count(), m.loaded ? m.loaded->c.n : 0, "get_document_count");
	EQUAL((uint64_t)engine.get_postings_to_process(), (uint64_t)std::min<uint64_t>(m.budget, 0xFFFFFFFF), "get_postings_to_process");
	if (m.loaded && !schemes) return;				// each look allocates a gigabyte of accumulators
	std::string name = "unchanged"; int32_t d = 77;
	int code = engine.get_encoding_scheme(name, d);
	if (m.loaded)
		{
		static std::map<char, std::pair<std::string, int32_t>> all;
		if (all.find((char)m.loaded->with) == all.end())
			{
			auto &one = all[(char)m.loaded->with];
			JASS::serialise_jass_v1::get_compressor(m.loaded->with, one.first, one.second);
			}
		std::string want = all[(char)m.loaded->with].first; int32_t want_d = all[(char)m.loaded->with].second;
		EQUAL(code, (int)JASS_ERROR_OK, "get_encoding_scheme");
		EQUAL(name, want, "encoding scheme"); EQUAL(d, want_d, "d-ness");
		EQUAL(engine.get_encoding_scheme_name(), want, "get_encoding_scheme_name");
		EQUAL(engine.get_encoding_scheme_d(), want_d, "get_encoding_scheme_d");
		}
	else
		{
		EQUAL(code, (int)JASS_ERROR_NO_INDEX, "get_encoding_scheme before an index is loaded");
		EQUAL(name, "unchanged", "encoding scheme before an index is loaded"); EQUAL(d, 77, "d-ness before an index is loaded");
		EQUAL(engine.get_encoding_scheme_name(), "", "get_encoding_scheme_name before an index is loaded");
		EQUAL(engine.get_encoding_scheme_d(), (int32_t)JASS_ERROR_NO_INDEX, "get_encoding_scheme_d before an index is loaded");
		}
	}

PROPERTY(call_sequences, 700, 30000, p.cpu_limit = 60;)
	{
	inside dir(g.scratch());
	std::unique_ptr<world> worlds[2];
	for (int i = 0; i < 2; i++)
		{
		inside here(i ? "b" : "a");
		worlds[i] = make_world(g, i ? 300 : 40, 12);
		}
	const char *files[] = {"CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin", "CIdoclist.bin"};
	/* an index some of whose files are missing, empty or directories */
	size_t damage = g.weighted({1, 1, 1, 1, 1});
	size_t how = g.draw(3);
	mkdir("c", 0755);
	for (size_t f = 0; f < 4; f++)
		{
		std::string from = std::string(g.flip() ? "a/" : "b/") + files[f], to = std::string("c/") + files[f];
		if (damage < 4) from = std::string("a/") + files[f];
		if (f != damage && !(damage == 4 && how != 0)) std::filesystem::copy_file(from, to);
		else if (how == 1) std::ofstream{to};
		else if (how == 2) mkdir(to.c_str(), 0755);
		if (damage == 4 && how == 0) std::filesystem::remove(std::string("c/") + files[g.draw(f + 1)]);
		}
	g.note("damage", damage); g.note("kind", how);
	/* oracle score files */
	std::map<std::string, uint32_t> tables[2];
	for (int i = 0; i < 2; i++)
		{
		std::ofstream o(i ? "o2" : "o1");
		for (size_t q = 0; q < 8; q++)
			if (g.flip() || q == 0)
				{
				uint32_t v = g.chance(1, 3) ? g.draw(3) : g.draw(256);
				o << "q" << q << (g.chance(1, 5) ? "  " : " ") << v << (g.chance(1, 5) ? "\r\n" : "\n");
				tables[i]["q" + std::to_string(q)] = v;
				}
		}
	{ std::ofstream o("o3"); if (g.flip()) o << "q1 17\n"; o << "q1\n"; if (g.flip()) o << "q2 3\n"; }		// a line without a score
	std::ofstream("o4");																												// empty

	size_t engines = 1 + g.draw(2);
	std::unique_ptr<JASS_anytime_api> engine[2];
	model state[2];
	for (size_t e = 0; e < engines; e++) engine[e].reset(new JASS_anytime_api);
	std::set<int> refused;
	bool found = false;
	auto expect = [&](int got, int want, const char *what, int kind)
		{
		if (want != JASS_ERROR_OK) refused.insert(kind * 100 + want);
		EQUAL(got, want, what);
		};
	for (size_t s = 0, steps = g.size(1, 60); s < steps; s++)
		{
		size_t e = g.draw(engines);
		auto &api = *engine[e]; auto &m = state[e];
		size_t what = g.weighted({4, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 2, 6, 1, 1});
		switch (what)
			{
			case 0:	/* load */
				{
				size_t which = g.weighted({3, 3, 2, 1, 1});
				const char *places[] = {"a", "b", "c", "missing", "a/CIvocab.bin"};
				std::string place = places[which];
				if (g.flip() && which < 4) place += "/";
				if (g.chance(1, 4)) place = "./" + place;
				size_t version = which < 2 ? worlds[which]->version : which == 2 ? worlds[0]->version : 1 + g.draw(2);
				bool bad_version = g.chance(1, 6);
				if (bad_version) version = g.pick({(size_t)0, (size_t)3, (size_t)100, SIZE_MAX, (size_t)1 << 32 | 1});
				g.note("load", place); g.note("version", version);
				int want;
				if (m.loaded) want = JASS_ERROR_INDEX_ALREADY_LOADED;
				else if (bad_version) want = JASS_ERROR_BAD_INDEX_VERSION;
				else if (which >= 2 || !fits(worlds[which]->c.n, m.width)) want = JASS_ERROR_FAIL;
				else want = JASS_ERROR_OK;
				expect(api.load_index(version, place), want, "load_index", which >= 2 ? 0 : 1);
				if (want == JASS_ERROR_OK) m.loaded = worlds[which].get();
				break;
				}
			case 1:	/* top k */
				{
				size_t k = g.flip() ? g.draw(20) : g.edge(0, 2000, {999, 1000, 1001});
				if (g.chance(1, 10)) k = g.pick({SIZE_MAX, (size_t)1 << 32, ((size_t)1 << 32) + 5});
				g.note("set_top_k", k);
				int want = m.loaded ? JASS_ERROR_INDEX_ALREADY_LOADED : k > 1000 ? JASS_ERROR_TOO_LARGE : JASS_ERROR_OK;
				expect(api.set_top_k(k), want, "set_top_k", 2);
				if (want == JASS_ERROR_OK) m.k = k;
				break;
				}
			case 2:	/* width */
				{
				size_t width = g.chance(5, 6) ? g.draw(12) : g.chance(1, 3) ? 12 + g.draw(10) : g.edge(28, 40, {32, 33});
				if (g.chance(1, 20)) width = SIZE_MAX;
				g.note("set_accumulator_width", width);
				int want = m.loaded ? JASS_ERROR_INDEX_ALREADY_LOADED : width > 32 ? JASS_ERROR_TOO_LARGE : JASS_ERROR_OK;
				expect(api.set_accumulator_width(width), want, "set_accumulator_width", 3);
				if (want == JASS_ERROR_OK) m.width = width;
				break;
				}
			case 3:
				{
				size_t budget = g.chance(1, 3) ? SIZE_MAX : g.edge(0, 3000, {0, 1});
				if (g.chance(1, 6)) budget = g.pick({(size_t)0xFFFFFFFF, (size_t)1 << 32, ((size_t)1 << 32) + 3, SIZE_MAX - 1});
				g.note("set_postings_to_process", budget);
				expect(api.set_postings_to_process(budget), JASS_ERROR_OK, "set_postings_to_process", 4);
				m.budget = budget;
				break;
				}
			case 4:
				{
				double percent = g.flip() ? (double)g.draw(101) : g.draw(100001) / 10.0;
				g.note("set_postings_to_process_proportion", percent);
				expect(api.set_postings_to_process_proportion(percent), m.loaded ? JASS_ERROR_OK : JASS_ERROR_NO_INDEX, "set_postings_to_process_proportion", 5);
				if (m.loaded) m.budget = (size_t)((double)m.loaded->c.n * percent / 100.0);
				break;
				}
			case 5:
				{
				double percent = g.flip() ? (double)g.draw(101) : g.draw(100001) / 10.0;
				g.note("set_postings_to_process_proportion_minimum", percent);
				expect(api.set_postings_to_process_proportion_minimum(percent), m.loaded ? JASS_ERROR_OK : JASS_ERROR_NO_INDEX, "set_postings_to_process_proportion_minimum", 6);
				if (m.loaded) m.minimum = (size_t)((double)m.loaded->c.n * percent / 100.0);
				break;
				}
			case 6:
				m.minimum = g.draw(3000);
				g.note("set_postings_to_process_minimum", m.minimum);
				expect(api.set_postings_to_process_minimum(m.minimum), JASS_ERROR_OK, "set_postings_to_process_minimum", 7);
				break;
			case 7:
				{
				double percent = g.chance(2, 3) ? 100 : (double)g.draw(201);
				g.note("set_postings_to_process_relative", percent);
				expect(api.set_postings_to_process_relative(percent), JASS_ERROR_OK, "set_postings_to_process_relative", 8);
				m.relative = percent / 100.0;
				break;
				}
			case 8: g.note("parser", "ascii"); expect(api.use_ascii_parser(), JASS_ERROR_OK, "use_ascii_parser", 9); m.raw = true; break;
			case 9: g.note("parser", "query"); expect(api.use_query_parser(), JASS_ERROR_OK, "use_query_parser", 9); m.raw = false; break;
			case 10: case 11: case 12:
				{
				const char *names[] = {"o1", "o2", "", "o3", "o4", "missing", "a"};
				size_t which = g.weighted({3, 3, 2, 2, 2, 2, 1});
				g.note("load_oracle_scores", names[which]);
				expect(api.load_oracle_scores(names[which]), which <= 2 ? JASS_ERROR_OK : JASS_ERROR_FAIL, "load_oracle_scores", 10);
				if (which <= 2) { m.oracle = which < 2 ? tables[which] : std::map<std::string, uint32_t>(); m.oracle_file = names[which]; }
				break;
				}
			case 13: case 14:
				{
				const world &w = m.loaded ? *m.loaded : *worlds[0];
				auto q = make_query(g, w, m.raw, "q" + std::to_string(g.draw(8)), 6);
				show_query(g, q);
				JASS_anytime_result r;
				size_t by = g.draw(3), threads = 1 + g.draw(3);
				if (by == 0) r = api.search(q.text);
				else
					{
					std::vector<JASS_anytime_thread_result> out;
					if (by == 1) { std::vector<std::string> t{q.text}; out = api.threaded_search(t, threads); }
					else
						{
						std::vector<JASS_anytime_query> list; list.push_back(JASS_anytime_query(q.text));
						expect(api.search(out, list, threads), m.loaded ? JASS_ERROR_OK : JASS_ERROR_NO_INDEX, "search", 11);
						}
					EQUAL(out.size(), m.loaded ? threads : 0, "threads that answered");
					size_t answers = 0;
					for (auto &t : out) for (auto &x : t) { answers++; r = x.second; }
					EQUAL(answers, (size_t)(m.loaded ? 1 : 0), "answers");
					}
				if (!m.loaded)
					{
					refused.insert(1200);
					EQUAL(r.query_id, "", "query id before an index is loaded"); EQUAL(r.results_list, "", "results before an index is loaded");
					EQUAL(r.postings_processed, (size_t)0, "postings processed before an index is loaded");
					break;
					}
				EQUAL(r.query_id, q.id, "query id");
				auto hits = hits_of(w, q.id, r.results_list);
				if (!hits.empty()) found = true;
				if (m.k == 0) g.label("k of 0");
				if (m.width >= 12) g.label("wide accumulators");
				REQUIRE(hits.size() <= m.k, hits.size() << " results with a k of " << m.k);
				auto bound = m.oracle.find(q.id);
				uint32_t at_k = bound == m.oracle.end() ? 0 : bound->second;
				auto pieces = pieces_of(w, q);
				size_t total = 0; for (auto &p : pieces) total += p.docs->size();
				size_t limit = m.relative == 1 ? m.budget : (size_t)(total * m.relative);
				if (limit >= total && at_k <= 1)
					{
					auto wrong = compare(hits, scores_of(w, pieces), m.k);
					REQUIRE(wrong.empty(), wrong << " for query " << pbt::show(q.text));
					EQUAL(r.postings_processed, total, "postings processed");
					}
				else
					{
					/* an engine given these settings and nothing else */
					JASS_anytime_api other;
					other.set_top_k(m.k); other.set_accumulator_width(m.width);
					EQUAL((int)other.load_index(w.version, &w == worlds[0].get() ? "a" : "b"), (int)JASS_ERROR_OK, "load_index of a new engine");
					other.set_postings_to_process(m.budget); other.set_postings_to_process_minimum(m.minimum); other.set_postings_to_process_relative(m.relative * 100);
					if (m.raw) other.use_ascii_parser();
					if (!m.oracle_file.empty()) EQUAL((int)other.load_oracle_scores(m.oracle_file), (int)JASS_ERROR_OK, "load_oracle_scores of a new engine");
					auto want = other.search(q.text);
					EQUAL(r.results_list, want.results_list, "results (expected: of a new engine with these settings)");
					EQUAL(r.postings_processed, want.postings_processed, "postings processed (expected: of a new engine with these settings)");
					REQUIRE(r.postings_processed <= limit, r.postings_processed << " postings with a budget of " << limit);
					g.label("settings matter");
					}
				break;
				}
			case 15:
				{
				std::vector<std::string> none;
				g.note("search", "nothing");
				auto out = api.threaded_search(none, 2);
				EQUAL(out.size(), (size_t)(m.loaded ? 2 : 0), "threads");
				for (auto &t : out) REQUIRE(t.results.empty(), "results without a query");
				break;
				}
			default:
				if (g.chance(1, 2)) { g.note("engine", "replaced"); engine[e].reset(new JASS_anytime_api); m = model(); }
				break;
			}
		check_getters(*engine[e], m, g.chance(1, 12));
		}
	if (refused.size() >= 3 && found) g.nontrivial();
	}

/*
	ENGINE.H
	--------
	A generated index, loaded into the search engine, and what a direct evaluation of the collection gives for a query.
*/
#pragma once
#include "exports.h"
#include "query.h"
#include "JASS_anytime_api.h"

struct world
	{
	collection c;												// with the impacts as values
	int version;
	codex with;
	std::map<std::string, const collection::list *> terms;
	std::map<std::string, std::map<uint32_t, std::vector<uint32_t>, std::greater<uint32_t>>> segments;	// impact -> 0-based documents
	std::vector<std::string> words;							// terms the ordinary query parser takes as one word

	void prepare()
		{
		for (auto &t : c.terms)
			{
			terms[t.name] = &t;
			auto &s = segments[t.name];
			for (size_t i = 0; i < t.docs.size(); i++) s[t.values[i]].push_back(t.docs[i] - 1);
			bool alpha = true, digit = true;
			for (unsigned char x : t.name) { alpha &= x >= 'a' && x <= 'z'; digit &= x >= '0' && x <= '9'; }
			if (alpha || digit) words.push_back(t.name);
			}
		}
	};

/* write an index of a generated collection in the current directory */
static std::unique_ptr<world> make_world(pbt::gen &g, size_t max_documents = 1500, size_t max_terms = 30)
	{
	std::unique_ptr<world> w(new world);
	shape s; s.max_documents = max_documents; s.max_terms = max_terms; s.odd_names = false;
	/* small impacts leave room for sums below the largest score; large ones make the engine scale */
	s.max_value = (uint32_t)g.pick({3, 12, 40, 100, 255, 256, 1023});
	w->c = make_collection(g, s);
	std::set<std::string> used;
	for (auto &t : w->c.terms) used.insert(t.name);
	size_t serial = 0;
	for (auto &t : w->c.terms)
		if (g.chance(2, 3))
			{
			std::string name;
			if (g.chance(1, 5)) name = std::to_string(1000 + 7 * serial);
			else for (size_t x = serial + 1; x; x /= 5) name += "qaetz"[x % 5];
			serial++;
			if (used.count(name)) continue;
			used.erase(t.name); used.insert(name); t.name = name;
			}
	how_quantized how = g.weighted({4, 1}) ? bm25 : given;
	w->version = 1 + (int)g.draw(2);
	w->with = all_codices[g.draw(5)];
	exporter e = w->version == 1
		? exporter([&](size_t n) { return std::unique_ptr<JASS::index_manager::delegate>(new JASS::serialise_jass_v1(n, w->with, 1)); })
		: exporter([&](size_t n) { return std::unique_ptr<JASS::index_manager::delegate>(new JASS::serialise_jass_v2(n, w->with)); });
	w->c = export_all(w->c, how, {e});
	w->prepare();
	describe(g, w->c);
	g.note("version", w->version); g.note("codec", (char)w->with);
	return w;
	}

struct asked
	{
	std::string id, text;								// text as given to the engine: the id, a separator and the words (or just words)
	std::vector<std::string> words;						// in order, with repeats
	};

/* a query of words the parser in use takes apart in the obvious way */
static asked make_query(pbt::gen &g, const world &w, bool raw, const std::string &id, size_t most = 12)
	{
	asked q; q.id = id;
	size_t n = g.weighted({8, 1}) ? g.draw(most * 4) + 1 : 1 + g.draw(std::min<size_t>(most, 6));
	if (g.chance(1, 30)) n = 0;
	for (size_t i = 0; i < n; i++)
		{
		if (g.chance(1, 6)) q.words.push_back(g.flip() ? std::string("zzunknown") : std::string("yy") + (char)('a' + g.draw(26)));
		else if (!q.words.empty() && g.chance(1, 5)) q.words.push_back(q.words[g.draw(q.words.size())]);
		else if (raw) q.words.push_back(w.c.terms[g.draw(w.c.terms.size())].name);
		else if (w.words.size()) q.words.push_back(w.words[g.draw(w.words.size())]);
		}
	q.text = id;
	const char *separators[] = {" ", "\t", ":", "  ", " \t:"};
	q.text += separators[g.weighted({6, 1, 1, 1, 1})];
	for (size_t i = 0; i < q.words.size(); i++)
		{
		if (i) q.text += g.chance(1, 8) ? "  " : " ";
		q.text += q.words[i];
		}
	return q;
	}

struct piece { uint32_t impact, scaled; const std::vector<uint32_t> *docs; };

/* the segments of a query from the most to the least valuable, and shorter ones first among equals */
static std::vector<piece> pieces_of(const world &w, const asked &q)
	{
	std::vector<piece> all;
	std::map<std::string, uint32_t> count;
	for (auto &x : q.words) count[x]++;
	uint32_t largest = 0;
	for (auto &x : count)
		{
		auto it = w.segments.find(x.first);
		if (it == w.segments.end()) continue;
		largest += it->second.begin()->first * x.second;
		for (auto &s : it->second) all.push_back({s.first * x.second, 0, &s.second});
		}
	for (auto &p : all)
		p.scaled = largest <= 255 ? p.impact : (uint8_t)((double)p.impact / (double)largest * (255.0 - (double)count.size()) + 1);
	std::stable_sort(all.begin(), all.end(), [](const piece &a, const piece &b) { return a.impact != b.impact ? a.impact > b.impact : a.docs->size() < b.docs->size(); });
	return all;
	}

struct hit { uint32_t doc, score; std::string key; };

static std::vector<uint32_t> scores_of(const world &w, const std::vector<piece> &pieces)
	{
	std::vector<uint32_t> scores(w.c.n, 0);
	for (auto &p : pieces) for (auto d : *p.docs) scores[d] += p.scaled;
	return scores;
	}

/* read the results of a query as the engine writes them */
static std::vector<hit> hits_of(const world &w, const std::string &id, const std::string &results)
	{
	std::vector<hit> hits;
	std::istringstream lines(results);
	std::string line;
	while (std::getline(lines, line))
		{
		auto mark = line.rfind("JASSv2(ID:");
		REQUIRE(mark != line.npos, "result line " << pbt::show(line));
		unsigned long doc; unsigned score;
		REQUIRE(sscanf(line.c_str() + mark, "JASSv2(ID:%lu->%u)", &doc, &score) == 2, "result line " << pbt::show(line));
		REQUIRE(doc < w.c.n, "document " << doc << " of " << w.c.n);
		std::ostringstream want;
		want << id << " Q0 " << w.c.keys[doc] << ' ' << hits.size() + 1 << ' ' << score << " JASSv2(ID:" << doc << "->" << score << ")";
		EQUAL(line, want.str(), "result line " << hits.size() + 1);
		hits.push_back({(uint32_t)doc, score, w.c.keys[doc]});
		}
	return hits;
	}

/* empty if the hits are the k best by these scores, else what is wrong */
static std::string compare(const std::vector<hit> &hits, const std::vector<uint32_t> &scores, size_t k, int *direction = nullptr)
	{
	std::ostringstream o;
	std::vector<uint32_t> best;
	for (auto s : scores) if (s) best.push_back(s);
	std::sort(best.rbegin(), best.rend());
	size_t there = best.size();
	if (best.size() > k) best.resize(k);
	if (hits.size() != best.size()) { o << hits.size() << " results, not " << best.size() << " (" << there << " documents score, k " << k << ")"; return o.str(); }
	std::set<uint32_t> seen;
	for (size_t i = 0; i < hits.size(); i++)
		{
		if (hits[i].score != scores[hits[i].doc]) { o << "document " << hits[i].doc << " has score " << hits[i].score << ", not " << scores[hits[i].doc]; return o.str(); }
		if (hits[i].score != best[i]) { o << "score at rank " << i + 1 << " is " << hits[i].score << ", not " << best[i]; return o.str(); }
		if (!seen.insert(hits[i].doc).second) { o << "document " << hits[i].doc << " twice"; return o.str(); }
		if (i && hits[i].score == hits[i - 1].score)
			{
			int now = hits[i].doc < hits[i - 1].doc ? -1 : 1;
			if (direction) { if (*direction == 0) *direction = now; if (*direction != now) { o << "documents with equal scores in no order: " << hits[i - 1].doc << " before " << hits[i].doc; return o.str(); } }
			}
		}
	return "";
	}

static void show_query(pbt::gen &g, const asked &q) { g.note("query", pbt::show(q.text)); }

/* C15: BM25 against its formula; quantised impacts against the scores they come from */
#include "collection.h"
#include "quantize.h"
#include "quantize_none.h"
#include "ranking_function_none.h"
#include "ranking_function_atire_bm25.h"

RULE("collections of up to 4000 documents and 40 terms with every density and count distribution, k1 and b drawn from their ranges, document lengths equal, one or many apart from the counts, one to three serialisers; single (tf, length, df, N) points; non-trivial: at least two different scores among at least 10 postings");
ASSUME_TEXT("every document has a length of at least 0 and the mean length is positive; a document frequency is between 1 and the number of documents; float rounding of the length correction allowed for: 1e-6 relative");

typedef JASS::compress_integer::integer integer;
typedef JASS::index_postings_impact::impact_type impact_type;

static double bm25(double k1, double b, double tf, double length, double mean, double df, double n) { return log(n / df) * (tf * (k1 + 1)) / (tf + k1 * (1 - b + b * length / mean)); }
static double draw_k1(pbt::gen &g) { static const double v[] = {0.9, 1.2, 2, 0.01, 10}; return g.flip() ? v[g.draw(5)] : (1 + g.draw(4000)) / 1000.0; }
static double draw_b(pbt::gen &g) { static const double v[] = {0.4, 0.75, 0, 1}; return g.flip() ? v[g.draw(4)] : g.draw(1001) / 1000.0; }
static double mean_of(const std::vector<integer> &v) { double s = 0; for (size_t i = 1; i < v.size(); i++) s += v[i]; return s / (v.size() - 1); }
static std::vector<integer> lengths(pbt::gen &g, const collection &c)
	{
	std::vector<integer> v(c.lengths.begin(), c.lengths.end());
	switch (g.draw(5))
		{
		case 0: case 1: break;
		case 2: for (size_t i = 1; i < v.size(); i++) v[i]++; break;
		case 3: { integer all = (integer)g.range(1, 100000); for (size_t i = 1; i < v.size(); i++) v[i] = all; break; }
		case 4: { auto r = g.stream(); for (size_t i = 1; i < v.size(); i++) v[i] = (integer)(v[i] + r.below(r.below(20) == 0 ? 3000000 : 200)); break; }
		}
	v[0] = 0;
	uint64_t sum = 0; for (auto x : v) sum += x;
	if (sum == 0) v[1] = 1;
	return v;
	}

PROPERTY(bm25_formula, 60000, 2000000)
	{
	double k1 = draw_k1(g), b = draw_b(g);
	std::vector<integer> v(1, 0);
	size_t n = g.size(1, 40);
	uint64_t longest = g.pick({2000000ULL, 2000000ULL, 4294967295ULL});
	for (size_t i = 0; i < n; i++) v.push_back((integer)g.edge(0, longest, {0, 1, 2, 65535, 65536, longest}));
	if (mean_of(v) == 0) v[1] = 1;
	std::vector<integer> copy = v;
	double mean = mean_of(v);
	JASS::ranking_function_atire_bm25 ranker(k1, b, copy);
	uint64_t collection = g.edge(n, 4000000000ULL, {n, n + 1, 100000, 2147483648ULL}); if (collection < n) collection = n;
	double score = 0; bool first = true; double last = 0;
	size_t probes = g.size(1, 20);
	for (size_t p = 0; p < probes; p++)
		{
		integer df = (integer)std::min<uint64_t>(collection, std::max<uint64_t>(1, g.edge(1, collection, {1, 2, collection, collection / 2})));
		ranker.compute_idf_component(df, (integer)collection);
		size_t tfs = g.size(1, 5);
		for (size_t i = 0; i < tfs; i++)
			{
			impact_type tf = (impact_type)std::max<uint64_t>(1, g.edge(1, 1024, {1, 2, 255, 256, 1023, 1024}));
			size_t doc = 1 + g.draw(n);
			ranker.compute_tf_component(tf);
			score = ranker.compute_score((integer)doc, tf);
			double want = bm25(k1, b, tf, v[doc], mean, df, (double)collection);
			REQUIRE(std::isfinite(score) && fabs(score - want) <= 1e-6 * fabs(want) + 1e-12, "tf " << tf << " length " << v[doc] << " mean " << mean << " df " << df << " N " << collection << " k1 " << k1 << " b " << b << ": " << score << " rather than " << want);
			if (!first && score != last) g.nontrivial();
			first = false; last = score;
			}
		}
	REQUIRE(copy == v, "the document lengths were changed");
	}

template <typename QUANTIZER, typename RANKER>
static std::vector<std::unique_ptr<recorder>> run(pbt::gen &g, fast_manager &index, QUANTIZER &quantizer)
	{
	index.iterate(quantizer);
	size_t n = g.size(1, 3);
	struct forward : JASS::index_manager::delegate
		{
		recorder &to;
		forward(recorder &to, size_t n) : JASS::index_manager::delegate(n), to(to) {}
		void operator()(const JASS::slice &a, const JASS::index_postings &b, integer c, integer *d, impact_type *e) { to(a, b, c, d, e); }
		void operator()(size_t id, const JASS::slice &key) { to(id, key); }
		void finish() { to.finish(); }
		};
	std::vector<std::unique_ptr<recorder>> out;
	std::vector<std::unique_ptr<JASS::index_manager::delegate>> serialisers;
	for (size_t i = 0; i < n; i++) { out.emplace_back(new recorder(index.get_highest_document_id())); serialisers.emplace_back(new forward(*out.back(), index.get_highest_document_id())); }
	quantizer.serialise_index(index, serialisers);
	return out;
	}
static void same_shape(const collection &c, const recorder &r)
	{
	EQUAL(r.finished, (size_t)1, "times finish() was called");
	EQUAL(r.lists.size(), c.terms.size(), "number of lists");
	for (size_t t = 0; t < c.terms.size(); t++)
		{
		EQUAL(r.lists[t].name, c.terms[t].name, "name of list " << t);
		REQUIRE(r.lists[t].docs == c.terms[t].docs, "documents of list " << t);
		}
	EQUAL(r.keys.size(), c.n + 1, "number of primary keys");
	for (size_t i = 0; i <= c.n; i++) { EQUAL(r.keys[i].first, i, "document number"); EQUAL(r.keys[i].second, i == 0 ? std::string("-") : c.keys[i - 1], "primary key of document " << i); }
	}

template <typename RANKER, typename SCORE> static void impacts(pbt::gen &g, const collection &c, const std::vector<integer> &v, std::shared_ptr<RANKER> ranker, fast_manager &index, SCORE score_of)
	{
	JASS::quantize<RANKER> quantizer(c.n, ranker);
	g.note("documents", c.n); g.note("terms", c.terms.size()); g.note("postings", c.postings());
	auto out = run<decltype(quantizer), RANKER>(g, index, quantizer);
	double lo = 1e300, hi = -1;
	std::vector<std::pair<double, int>> all;
	for (auto &r : out) same_shape(c, *r);
	for (size_t t = 0; t < c.terms.size(); t++)
		for (size_t i = 0; i < c.terms[t].docs.size(); i++)
			{
			double score = score_of(c.terms[t], i);
			lo = std::min(lo, score); hi = std::max(hi, score);
			int impact = (int)out[0]->lists[t].values[i];
			for (auto &r : out) EQUAL((int)r->lists[t].values[i], impact, "serialisers are given different impacts for document " << c.terms[t].docs[i] << " of list " << t);
			all.emplace_back(score, impact);
			}
	double smallest, largest;
	quantizer.get_bounds(smallest, largest);
	REQUIRE(fabs(smallest - lo) <= 1e-6 * fabs(lo) + 1e-12, "the smallest score is " << lo << " rather than " << smallest);
	if (hi > 0) REQUIRE(fabs(largest - hi) <= 1e-6 * fabs(hi) + 1e-12, "the largest score is " << hi << " rather than " << largest);
	std::sort(all.begin(), all.end());
	for (auto &[score, impact] : all) REQUIRE(impact >= 1 && impact <= 1024, "impact " << impact << " for a score of " << score << " between " << lo << " and " << hi);
	double noise = 4e-6 * (fabs(hi) + 1e-9);
	if (hi - lo > 100 * noise)
		{
		int highest_so_far = 0; size_t trailing = 0; int trailing_highest = 0;
		for (auto &[score, impact] : all)
			{
			for (; trailing < all.size() && all[trailing].first < score - noise; trailing++) trailing_highest = std::max(trailing_highest, all[trailing].second);
			REQUIRE(impact >= trailing_highest, "a score of " << score << " has impact " << impact << " but a lower one has " << trailing_highest);
			double want = (score - lo) / (hi - lo) * 1023 + 1, slack = noise / (hi - lo) * 1023 + 1e-6;
			REQUIRE(impact >= want - 1 - slack && impact <= want + slack, "score " << score << " in " << lo << ".." << hi << " has impact " << impact << ", a linear scale gives " << want);
			}
		EQUAL(all.front().second, 1, "impact of the lowest score");
		REQUIRE(all.back().second >= (hi - lo > 1000 * noise * 10 ? 1023 : 1000), "impact of the highest score: " << all.back().second);
		int top = 0; for (auto &x : all) top = std::max(top, x.second);
		EQUAL(top, 1024, "the largest impact of the collection");
		if (all.size() >= 10) g.nontrivial();
		g.label("a range of scores");
		}
	else g.label(all.size() == 1 ? "one posting" : "equal scores");
	}

PROPERTY(impacts_of_bm25, 1500, 40000)
	{
	shape s; s.max_documents = 4000;
	collection c = make_collection(g, s);
	double k1 = draw_k1(g), b = draw_b(g);
	auto v = lengths(g, c);
	fast_manager index(c);
	index.set_document_length_vector(v);
	auto ranker = std::make_shared<JASS::ranking_function_atire_bm25>(k1, b, index.get_document_length_vector());
	double mean = mean_of(v);
	impacts(g, c, v, ranker, index, [&](const collection::list &t, size_t i) { return bm25(k1, b, t.values[i], v[t.docs[i]], mean, (double)t.docs.size(), (double)c.n); });
	}

PROPERTY(impacts_of_counts, 500, 10000)
	{
	shape s; s.max_documents = 2000;
	collection c = make_collection(g, s);
	fast_manager index(c);
	std::vector<integer> v(c.lengths.begin(), c.lengths.end());
	impacts(g, c, v, std::make_shared<JASS::ranking_function_none>(), index, [&](const collection::list &t, size_t i) { return (double)t.values[i]; });
	}

PROPERTY(pass_through, 400, 8000)
	{
	shape s; s.max_documents = 1500;
	collection c = make_collection(g, s);
	fast_manager index(c);
	auto ranker = std::make_shared<JASS::ranking_function_none>();
	JASS::quantize_none<JASS::ranking_function_none> quantizer(c.n, ranker);
	auto out = run<decltype(quantizer), JASS::ranking_function_none>(g, index, quantizer);
	for (auto &r : out)
		{
		same_shape(c, *r);
		for (size_t t = 0; t < c.terms.size(); t++) REQUIRE(r->lists[t].values == c.terms[t].values, "the values of list " << t << " changed");
		}
	if (c.postings() >= 10) g.nontrivial();
	}

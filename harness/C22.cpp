/* C22: every evaluation metric against its definition */
#include "pbt.h"
#include <memory>
#include <limits>
#include <iomanip>
#include "maths.h"
#include "ref_evaluate.h"
#include "evaluate.h"
#include "evaluate_f.h"
#include "evaluate_map.h"
#include "evaluate_recall.h"
#include "evaluate_precision.h"
#include "evaluate_buying_power.h"
#include "evaluate_buying_power4k.h"
#include "evaluate_selling_power.h"
#include "evaluate_relevant_returned.h"
#include "evaluate_cheapest_precision.h"
#include "evaluate_mean_reciprocal_rank.h"
#include "evaluate_mean_reciprocal_rank4k.h"
#include "evaluate_rank_biased_precision.h"
#include "evaluate_expected_search_length.h"
#include "evaluate_price_based_normalized_discounted_cumulative_gain.h"
#include "evaluate_buying_power_normalized_discounted_cumulative_gain.h"

RULE("assessment files of 1-6 queries with related ids over a pool of up to 80 documents, graded, zero and negative judgements, shuffled, with irregular spacing; prices with ties; result lists of distinct judged, unjudged and unknown documents, empty and long; every depth around the list length, 0 and none; non-trivial: at least one relevant document retrieved and the list at least 2 long");
ASSUME_TEXT("a document is relevant when its judgement is not zero; each (query, document) is judged once; result lists do not repeat a document; prices are positive; with nothing relevant, recall (like average precision, and the price metrics) is 1; with a depth and nothing found the expected search length is the depth");

static void same(const char *what, double got, double want, const oracle &o, bool bounded)
	{
	REQUIRE(std::isfinite(got) && fabs(got - want) <= 1e-9 * std::max(1.0, fabs(want)), what << " is " << got << " rather than " << want << " for query " << o.q << ", depth " << o.depth << ", list of " << o.l.size() << " with " << o.found() << " of " << o.w.relevant(o.q) << " relevant");
	if (bounded) REQUIRE(got >= 0 && got <= 1 + 1e-12, what << " is " << got << ", outside 0..1");
	}

PROPERTY(metrics, 120000, 4000000)
	{
	world w = make(g);
	g.note("queries", w.queries.size()); g.note("documents", w.docs.size());
	std::shared_ptr<JASS::evaluate> assessments(new JASS::evaluate), prices(new JASS::evaluate);
	std::string copy = w.qrels; 
	if (g.chance(1, 200))
		{
		std::string name = g.scratch() + "/qrels"; FILE *f = fopen(name.c_str(), "w"); fwrite(copy.data(), 1, copy.size(), f); fclose(f);
		assessments->load_assessments_trec_qrels(name);
		}
	else assessments->decode_assessments_trec_qrels(copy);
	copy = w.prices; prices->decode_assessments_trec_qrels(copy);
	size_t judged = 0, queries = 0; for (auto &[q, m] : w.judged) { judged += m.size(); queries += !m.empty(); }
	EQUAL(assessments->assessments.size(), judged, "number of assessments read");
	EQUAL(assessments->query_count(), queries, "number of queries assessed");
	std::ostringstream dump, want_dump; dump << *assessments;
	for (auto &[q, m] : w.judged) for (auto &[d, s] : m) want_dump << q << " 0 " << d << " " << s << "\n";
	EQUAL(dump.str(), want_dump.str(), "the assessments written out again");
	long double p = g.flip() ? 0.95L : (long double)g.draw(101) / 100;
	size_t k = g.size(1, 6);
	JASS::evaluate_precision precision(assessments); JASS::evaluate_recall recall(assessments); JASS::evaluate_f f(assessments); JASS::evaluate_map map(assessments);
	JASS::evaluate_mean_reciprocal_rank mrr(assessments); JASS::evaluate_mean_reciprocal_rank4k mrr4k(k, assessments); JASS::evaluate_rank_biased_precision rbp(p, assessments);
	JASS::evaluate_expected_search_length esl(assessments); JASS::evaluate_relevant_returned returned(assessments);
	JASS::evaluate_buying_power bp(prices, assessments); JASS::evaluate_buying_power4k bp4k(k, prices, assessments); JASS::evaluate_selling_power sp(prices, assessments);
	JASS::evaluate_cheapest_precision cheapest(prices, assessments);
	JASS::evaluate_price_based_normalized_discounted_cumulative_gain pb(prices, assessments); JASS::evaluate_buying_power_normalized_discounted_cumulative_gain bpn(prices, assessments);
	auto ask = w.queries; ask.push_back("nobody"); if (g.flip()) ask.push_back("");
	for (auto &q : ask)
		{
		list l = results(g, w);
		if (g.chance(1, 12)) l.clear();
		size_t tries = g.size(1, 3);
		for (size_t t = 0; t < tries; t++)
			{
			size_t depth = g.chance(1, 3) ? NONE : g.chance(1, 10) ? 0 : g.edge(1, l.size() + 5, {1, 2, 5, 10, l.size(), l.size() + 1, std::max<size_t>(1, w.relevant(q))});
			oracle o{w, q, l, depth};
			if (o.found() > 0 && l.size() > 1) g.nontrivial();
			EQUAL(assessments->relevance_count(q), w.relevant(q), "relevant documents of query " << q);
			same("precision", precision.compute(q, l, depth), o.precision(), o, true);
			same("recall", recall.compute(q, l, depth), o.recall(), o, true);
			same("F", f.compute(q, l, depth), o.f(), o, true);
			same("average precision", map.compute(q, l, depth), o.ap(), o, true);
			same("reciprocal rank", mrr.compute(q, l, depth), o.rr(), o, true);
			same("reciprocal rank for k", mrr4k.compute(q, l, depth), o.rr4k(k), o, true);
			same("rank biased precision", rbp.compute(q, l, depth), o.rbp(p), o, true);
			same("expected search length", esl.compute(q, l, depth), o.esl(), o, false);
			same("relevant returned", returned.compute(q, l, depth), o.found(), o, false);
			same("buying power", bp.compute(q, l, depth), o.bp(), o, true);
			same("buying power for k", bp4k.compute(q, l, depth), o.bp4k(k), o, true);
			same("selling power", sp.compute(q, l, depth), o.sp(), o, false);
			same("cheapest precision", cheapest.compute(q, l, depth), o.cheapest(), o, true);
			same("buying power nDCG", bpn.compute(q, l, depth), o.bpndcg(), o, true);
			bool close = false; double want = o.pbndcg(close);
			if (!close) same("price based nDCG", pb.compute(q, l, depth), want, o, true);
			if (depth == NONE)			// the default
				{
				same("precision (default depth)", precision.compute(q, l), o.precision(), o, true);
				same("average precision (default depth)", map.compute(q, l), o.ap(), o, true);
				same("recall (default depth)", recall.compute(q, l), o.recall(), o, true);
				}
			}
		}
	}

KNOWN_FINDING(C22_selling_power_over_one, "selling power exceeds 1 (its documentation guarantees it cannot): relevant items priced 100 then 1 score 50.005")
	{
	std::shared_ptr<JASS::evaluate> assessments(new JASS::evaluate), prices(new JASS::evaluate);
	std::string a = "1 0 dear 1\n1 0 cheap 1\n", b = "PRICE 0 dear 100\nPRICE 0 cheap 1\n";
	assessments->decode_assessments_trec_qrels(a); prices->decode_assessments_trec_qrels(b);
	JASS::evaluate_selling_power sp(prices, assessments);
	double got = sp.compute("1", {"dear", "cheap"}, 2);
	REQUIRE(got <= 1, "selling power " << got);
	}

/* C07: every top-k strategy, accumulator layout and final sort ranks the same */
#include "pbt.h"
#include <sys/mman.h>
#include "query.h"
/* query.h chooses one configuration; here it is chosen by the build (LAYOUT_, ORDER_ and so on) */
#ifdef LAYOUT
	#undef ACCUMULATOR_STRATEGY_2D
	#define ACCUMULATOR_STRATEGY_2D_OFF
	#if LAYOUT == 0
		#define ACCUMULATOR_STRATEGY_2D
	#elif LAYOUT == 1
		#define ACCUMULATOR_COUNTER_8
	#elif LAYOUT == 2
		#define ACCUMULATOR_COUNTER_4
	#elif LAYOUT == 3
		#define ACCUMULATOR_COUNTER_INTERLEAVED_8
	#elif LAYOUT == 4
		#define ACCUMULATOR_COUNTER_INTERLEAVED_8_1
	#elif LAYOUT == 5
		#define ACCUMULATOR_COUNTER_INTERLEAVED_4
	#endif
#endif
#ifndef FINAL_SORT
	#define FINAL_SORT 0
#endif
#ifdef FINAL_SORT
	#undef JASS_TOPK_SORT
	#if FINAL_SORT == 0
		#define JASS_TOPK_SORT
	#elif FINAL_SORT == 1
		#define CPP_TOPK_SORT
	#elif FINAL_SORT == 2
		#define CPP_SORT
	#elif FINAL_SORT == 3
		#define AVX512_SORT
	#endif
#endif
#include "query_heap.h"
#include "query_heap_clean.h"
#include "query_bucket.h"
#include "query_maxblock.h"
#include "query_maxblock_heap.h"

RULE("histories of init and rewind on one processor, each followed by segments of (document, impact) updates delivered one at a time, as a difference-encoded list, or in vectors, for collections of 1-5000 documents and of 30,000-140,000, any accumulator width and k up to 1000; non-trivial when more documents score than k, some scored in more than one segment, and the processor had been used before");
ASSUME_TEXT("scores stay within 1-255, the range of an accumulator, and document ids are below the collection size, as for an index read by the search engine");

typedef JASS::query::DOCID_TYPE docid;
typedef JASS::query::ACCUMULATOR_TYPE score_t;

template <typename STRATEGY> class processor : public STRATEGY
	{
	public:
		virtual void decode(docid *decoded, size_t integers, const void *source, size_t length) { memcpy(decoded, source, integers * sizeof(docid)); (void)length; }
	};

/* the processors are gigabytes long, so put them in fresh pages that are only touched as needed */
template <typename T> class large
	{
	void *raw;
	public:
		T *object;
		large() : raw(mmap(nullptr, sizeof(T) + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0))
			{
			if (raw == MAP_FAILED) abort();
			object = new (raw) T;			/* T() would clear all of it first */
			}
		~large() { object->~T(); munmap(raw, sizeof(T) + 64); }
	};

struct pair_of { uint64_t rsv; uint64_t id; bool operator==(const pair_of &o) const { return rsv == o.rsv && id == o.id; } };

/* what a strategy is like to use */
template <typename S> struct traits { static constexpr bool scalar_d1 = false, vector_d1 = false, heaps = true, buckets = false; };
template <> struct traits<JASS::query_maxblock> { static constexpr bool scalar_d1 = false, vector_d1 = false, heaps = false, buckets = false; };
template <> struct traits<JASS::query_heap> { static constexpr bool scalar_d1 = true, vector_d1 = true, heaps = true, buckets = false; };
template <> struct traits<JASS::query_heap_clean> { static constexpr bool scalar_d1 = true, vector_d1 = false, heaps = true, buckets = false; };
/* the vector additions of the buckets add the vector of impacts, which is only set with SIMD_JASS */
#if defined(ACCUMULATOR_STRATEGY_2D) && defined(SIMD_JASS)
template <> struct traits<JASS::query_bucket> { static constexpr bool scalar_d1 = true, vector_d1 = true, heaps = false, buckets = true; };
#else
template <> struct traits<JASS::query_bucket> { static constexpr bool scalar_d1 = true, vector_d1 = false, heaps = false, buckets = true; };
#endif

struct segment { score_t impact; std::vector<docid> ids; };

template <typename STRATEGY> static void histories(pbt::gen &g, bool large_collection = false)
	{
	typedef traits<STRATEGY> how;
	large<processor<STRATEGY>> holder;
	auto &q = *holder.object;
	std::vector<std::string> keys;
	bool worth = false;
	size_t inits = 1 + g.weighted({5, 2, 1});
	for (size_t i = 0; i < inits; i++)
		{
		size_t n = large_collection ? g.edge(30000, 140000, {32767, 32768, 65535, 65536, 65537, 131072}) : g.flip() ? 1 + g.draw(80) : g.size(1, g.thorough ? 5000 : 3000);
		size_t most = how::buckets ? 256 : JASS::query::MAX_TOP_K;
		size_t k = g.chance(2, 3) ? 1 + g.draw(std::min<size_t>(most, 12)) : g.edge(1, most, {n, n - 1, n + 1, most});
		size_t width = g.draw(13);
		g.note("documents", n); g.note("top_k", k); g.note("width", width);
		keys.resize(n);
		for (size_t d = 0; d < n; d++) keys[d] = "K" + std::to_string(d);
		q.init(keys, n, k, width);
		size_t rounds = !large_collection && g.chance(1, 40) ? 20 + g.draw(300) : 1 + g.weighted({3, 3, 2, 1});
		for (size_t r = 0; r < rounds; r++)
			{
			/* the updates */
			std::vector<uint32_t> want(n, 0);
			std::vector<uint8_t> hits(n, 0);
			std::vector<segment> segments;
			size_t count = rounds > 10 ? g.draw(3) : g.weighted({1, 3, 4, 4, 3, 2, 2}) * (g.chance(1, 6) ? 4 : 1);
			auto s = g.stream();
			unsigned ceiling = g.chance(1, 4) ? 255 : 1 + g.draw(12);
			bool same = g.chance(1, 4);					/* all the impacts the same, so ties galore */
			for (size_t c = 0; c < count; c++)
				{
				segment one;
				one.impact = same ? ceiling : 1 + s.below(ceiling);
				size_t density = 1 + s.below(s.below(2) ? 4 : 40);
				for (size_t d = s.below(density); d < n; d += 1 + s.below(2 * density - 1))
					if (want[d] + one.impact <= 255)
						{ want[d] += one.impact; hits[d]++; one.ids.push_back(d); }
				if (one.ids.size()) segments.push_back(one);
				}
			if (g.flip())
				std::stable_sort(segments.begin(), segments.end(), [](auto &a, auto &b) { return a.impact > b.impact; });
			uint32_t largest = 0, smallest = 255;
			for (auto &one : segments) smallest = std::min<uint32_t>(smallest, one.impact);
			for (auto x : want) largest = std::max(largest, x);
			if (segments.empty()) smallest = g.flip();
			/* the engine's bounds: the smallest impact of any segment and the sum of the terms' largest */
			if (g.flip()) largest = std::min<uint32_t>(255, largest + g.draw(100));
			q.rewind(smallest, 1, largest);
			for (auto &one : segments)
				{
				unsigned way = g.weighted({3, 3, 2, 2, 2});
				g.note("impact", (unsigned)one.impact); g.note("ids", one.ids.size()); g.note("way", way);
				std::vector<docid> gaps(one.ids.size() + 1);
				for (size_t x = 0; x < one.ids.size(); x++) gaps[x] = one.ids[x] - (x ? one.ids[x - 1] : 0);
				if (way == 1)
					q.decode_and_process(one.impact, one.ids.size(), gaps.data(), one.ids.size() * sizeof(docid));
				else if (way == 2)
					{
					/* in no order */
					auto ids = one.ids;
					for (size_t x = ids.size(); x > 1; x--) std::swap(ids[x - 1], ids[s.below(x)]);
					for (auto d : ids) q.add_rsv(d, one.impact);
					}
				else if (way == 3)
					{
					/* through a listener that hands them on */
					struct { processor<STRATEGY> *q; void add_rsv(docid id, score_t rsv) { q->add_rsv(id, rsv); } } listener{&q};
					q.set_impact(one.impact); q.init_add_rsv();
					q.STRATEGY::decode_with_writer(listener, one.ids.size(), gaps.data(), one.ids.size() * sizeof(docid));
					}
				else if (way == 4)
					{
					bool done = false;
					if constexpr (how::scalar_d1)
						{
						q.set_impact(one.impact); q.init_add_rsv();
						size_t x = 0;
#ifdef __AVX512F__
						if constexpr (how::vector_d1)
							if (g.flip())
								for (; x + 16 <= one.ids.size(); x += 16)
									q.add_rsv_d1(_mm512_loadu_si512(gaps.data() + x));
#endif
						for (; x < one.ids.size(); x++)
							q.add_rsv_d1(gaps[x]);
						done = true;
						}
					if (!done)
						for (auto d : one.ids) q.add_rsv(d, one.impact);
					}
				else
					for (auto d : one.ids) q.add_rsv(d, one.impact);
				}
			/* the answer */
			std::vector<pair_of> got, backwards;
			size_t guard = 0;
			auto at = q.begin();
			for (auto last = q.end(); at != last; ++at)
				{
				REQUIRE(++guard <= k, "more than " << k << " results");
				auto one = *at;
				REQUIRE(one.document_id < n, "document " << one.document_id << " of " << n);
				EQUAL(one.primary_key, keys[one.document_id], "primary key of document " << one.document_id);
				got.push_back({one.rsv, one.document_id});
				}
			guard = 0;
			auto back = q.rbegin();
			for (auto first = q.rend(); back != first; ++back)
				{
				REQUIRE(++guard <= k, "more than " << k << " results backwards");
				auto one = *back;
				backwards.push_back({one.rsv, one.document_id});
				}
			std::reverse(backwards.begin(), backwards.end());
			REQUIRE(got == backwards, "reading the results backwards gives others");
			for (size_t x = 1; x < got.size(); x++)
				if (got[x].rsv != got[x - 1].rsv)
					REQUIRE((got[x].rsv > got[x - 1].rsv) == (got.back().rsv > got.front().rsv), "results not in order of score: " << got[x - 1].rsv << " then " << got[x].rsv);
			if (how::heaps && got.size() && got.front().rsv != got.back().rsv)
				REQUIRE((got.front().rsv < got.back().rsv) == true, "results run the wrong way");
			std::vector<uint32_t> best;
			for (auto x : want) if (x) best.push_back(x);
			std::sort(best.rbegin(), best.rend());
			size_t scored = best.size();
			if (best.size() > k) best.resize(k);
			EQUAL(got.size(), best.size(), "number of results of " << scored << " documents that score, k " << k);
			std::vector<uint32_t> theirs;
			std::set<uint64_t> seen;
			for (auto &x : got)
				{
				theirs.push_back(x.rsv);
				EQUAL(x.rsv, (uint64_t)want[x.id], "score of document " << x.id);
				REQUIRE(seen.insert(x.id).second, "document " << x.id << " twice");
				}
			std::sort(theirs.rbegin(), theirs.rend());
			REQUIRE(theirs == best, "top " << k << " scores of " << scored << " differ");
			size_t multi = std::count_if(hits.begin(), hits.end(), [](unsigned h) { return h > 1; });
			if (scored > k && multi && r) worth = true;
			if (best.size() && best.back() == best.front()) g.label("all the same score");
			if (best.size() && best.front() == 255) g.label("largest score there is");
			if (scored < k) g.label("fewer than k");
			}
		}
	if (worth) g.nontrivial();
	}

PROPERTY(heap, 4000, 120000) { histories<JASS::query_heap>(g); }
PROPERTY(large_heap, 60, 3000, p.cpu_limit = 60;) { histories<JASS::query_heap>(g, true); }
#ifdef DEFAULT_STRATEGY
PROPERTY(heap_clean, 6000, 200000) { histories<JASS::query_heap_clean>(g); }
PROPERTY(large_heap_clean, 60, 3000, p.cpu_limit = 60;) { histories<JASS::query_heap_clean>(g, true); }
#endif
PROPERTY(bucket, 4000, 120000) { histories<JASS::query_bucket>(g); }
PROPERTY(large_bucket, 60, 3000, p.cpu_limit = 60;) { histories<JASS::query_bucket>(g, true); }
#if FINAL_SORT != 0
PROPERTY(maxblock, 4000, 120000) { histories<JASS::query_maxblock>(g); }
PROPERTY(large_maxblock, 60, 3000, p.cpu_limit = 60;) { histories<JASS::query_maxblock>(g, true); }
#endif
PROPERTY(maxblock_heap, 4000, 120000) { histories<JASS::query_maxblock_heap>(g); }
PROPERTY(large_maxblock_heap, 60, 3000, p.cpu_limit = 60;) { histories<JASS::query_maxblock_heap>(g, true); }

#ifdef DEFAULT_STRATEGY
/* the scores a processor returns for one posting list of impact by document */
template <typename STRATEGY> static std::multiset<unsigned> answer(const std::vector<unsigned> &scores, size_t k)
	{
	large<processor<STRATEGY>> holder;
	auto &q = *holder.object;
	std::vector<std::string> keys(scores.size(), "key");
	q.init(keys, scores.size(), k, 7);
	q.rewind(1, 1, 255);
	for (size_t d = 0; d < scores.size(); d++)
		if (scores[d]) q.add_rsv(d, scores[d]);
	std::multiset<unsigned> got;
	auto at = q.begin();
	for (auto last = q.end(); at != last; ++at) got.insert((*at).rsv);
	return got;
	}
KNOWN_FINDING(C07_maxblock_address_order, "query_maxblock with JASS_TOPK_SORT (the default) returns the k documents with the lowest ids rather than the highest scores: documents scoring 1, 2, 3 with k = 2 give scores 1 and 2; its unit test expects just that")
	{
	auto got = answer<JASS::query_maxblock>({1, 2, 3}, 2);
	REQUIRE(got == (std::multiset<unsigned>{2, 3}), "the two documents with the lowest ids");
	}
KNOWN_FINDING(C07_bucket_256, "query_bucket remembers only the last 256 documents to enter each bucket, so with k = 300 and 300 documents that score 1 it returns 256")
	{
	auto got = answer<JASS::query_bucket>(std::vector<unsigned>(300, 1), 300);
	EQUAL(got.size(), (size_t)300, "results");
	}
#endif

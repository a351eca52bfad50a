#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the wording)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "source/"
prop("C01", "An exported version-1 index is exactly the indexed collection",
 "For every collection of documents, indexing it, exporting a version-1 index and loading that index back gives a vocabulary holding exactly the collection's distinct terms, and for each term exactly one posting per document containing it, carrying that document's quantised impact. Each posting list is a sequence of impact segments from highest to lowest impact with strictly increasing document ids inside each segment, whichever posting codec was chosen at export. The primary keys come back in indexing order and the reported document count is right.",
 ["inputs", "configurations"], "every collection (terms, within-document frequencies, list lengths across codec block sizes, document id gaps), every version-1 codec and both quantisers",
 "The unit tests export one ten-document collection and compare file checksums; no list is longer than ten postings, so no codec block boundary, gap size, or many-segment list is ever reached, and nothing compares the loaded index with the documents.",
 [S+"index_manager_sequential.h", S+"index_postings.h", S+"index_postings_impact.h", S+"quantize.h", S+"serialise_jass_v1.cpp", S+"deserialised_jass_v1.cpp"],
 [("posting accumulation", S+"index_postings.h"), ("impact ordering", S+"index_postings_impact.h"), ("writer", S+"serialise_jass_v1.cpp"), ("reader", S+"deserialised_jass_v1.cpp")],
 observe=["contents of the loaded index: vocabulary lookup, postings decoded through the codec named in the index, primary keys"])
prop("C02", "A version-2 index holds the same content as a version-1 index",
 "For every collection of documents, exporting a version-2 index and loading it back gives the same vocabulary, the same postings with the same impacts in the same order, the same primary keys and the same document count as the collection itself and as the version-1 export of it. This holds for every posting codec a version-2 index may be written with.",
 ["inputs", "configurations"], "every collection and every version-2 codec choice",
 "The version-2 writer has no unit test at all, and the reader is only exercised through its constructor.",
 [S+"serialise_jass_v2.cpp", S+"serialise_jass_v2.h", S+"deserialised_jass_v2.cpp", S+"serialise_jass_v1.cpp"],
 [("version-2 posting header encoding", S+"serialise_jass_v2.cpp"), ("version-2 vocabulary reading", S+"deserialised_jass_v2.cpp")])
prop("C03", "Every export format describes the same quantised collection",
 "For every collection, the forward index, the plain integer postings file and the compilable source export each contain exactly the same (term, document, impact) triples as the collection, with nothing dropped, duplicated or re-attributed, when read back according to their format. Document identifiers in the exports are the collection's identifiers in indexing order.",
 ["inputs"], "every collection, including long posting lists and terms or identifiers with awkward characters the format supports",
 "Unit tests compare checksums of each export for one ten-document collection.",
 [S+"serialise_forward_index.cpp", S+"serialise_integers.cpp", S+"serialise_ci.cpp"],
 [("forward index export", S+"serialise_forward_index.cpp"), ("integer export", S+"serialise_integers.cpp"), ("compiled export", S+"serialise_ci.cpp")])
prop("C04", "Unbudgeted search returns the exact top-k ranking",
 "With no postings budget, for every loaded index, every query and every k, the results are exactly the k highest-scoring documents containing at least one query term (all of them if fewer), in order of decreasing score, where a document's score is the sum over query terms of impact times the number of times the term occurs in the query, as scaled when the total could exceed the score range. No document is repeated, every returned document has a positive score, documents with equal scores are ordered by document id consistently, and terms not in the index contribute nothing.",
 ["inputs", "configurations"], "every index (both versions), query, k and accumulator width",
 "No existing test runs a query against an index end to end; the query classes are unit tested on a handful of hand-written scores.",
 ["anytime/JASS_anytime_api.cpp", S+"query_heap.h", S+"query_heap_clean.h", S+"accumulator_2d.h", S+"top_k_qsort.cpp", S+"query.h"],
 [("score accumulation and top-k maintenance", S+"query_heap_clean.h"), ("segment ordering and scaling", "anytime/JASS_anytime_api.cpp")])
prop("C05", "An anytime budget is respected and spends on the best postings first",
 "With a postings budget, absolute or as a percentage of the collection, a query processes whole impact segments in decreasing impact order across all its terms (shorter segments first on equal impact) and stops before the first segment that would take it past the budget, so the number of postings processed never exceeds the budget. The results are exactly the top-k ranking over the postings processed, a budget no smaller than the query's total postings changes nothing, and the reported number of postings processed is exact.",
 ["inputs", "configurations"], "every index, query, k and budget, including budgets at segment boundaries",
 "No existing test uses a budget.",
 ["anytime/JASS_anytime_api.cpp", "anytime/JASS_anytime_api.h"],
 [("segment loop and early stop", "anytime/JASS_anytime_api.cpp")])
prop("C06", "Search results do not depend on threads, batching or history",
 "The results of a query are the same whatever the number of worker threads, whatever other queries are in the batch and in whatever order, and whatever was searched earlier on the same engine. Every query in a batch is answered exactly once under its own query identifier, and concurrent workers do not race on shared data.",
 ["schedules", "histories", "inputs"], "every batch of queries, number of threads, thread schedule and sequence of earlier searches and parameter changes",
 "No existing test starts the engine's worker threads or reuses an engine across searches.",
 ["anytime/JASS_anytime_api.cpp", "anytime/JASS_anytime_query.h", "anytime/JASS_anytime_thread_result.h", S+"query.h"],
 [("per-thread query processors and result maps", "anytime/JASS_anytime_api.cpp"), ("query list iterator", "anytime/JASS_anytime_query.h")])
prop("C07", "All top-k strategies and accumulator layouts rank identically",
 "For every sequence of score updates, collection size, k and accumulator width, each of the interchangeable top-k strategies, accumulator layouts and final-sort choices returns the same top-k scores: exactly the k highest accumulated scores in decreasing order, and exactly the right documents wherever a score is above the k-th. A reused query processor behaves like a fresh one.",
 ["inputs", "histories", "configurations"], "every update sequence over several rewinds and every build-time configuration of query strategy, accumulator and sort",
 "Only the default configuration is compiled by the build, and its unit tests apply about ten updates.",
 [S+"query.h", S+"query_heap.h", S+"query_heap_clean.h", S+"query_bucket.h", S+"query_maxblock.h", S+"query_maxblock_heap.h", S+"beap.h", S+"heap.h"],
 [("alternative strategies", S+"query_heap.h, query_bucket.h, query_maxblock.h, query_maxblock_heap.h"), ("accumulators", S+"accumulator_2d.h, accumulator_counter.h, accumulator_counter_interleaved.h")])
prop("C08", "Every integer codec decodes what it encoded",
 "For every codec and every sequence of integers in the codec's domain, encoding into a large enough buffer and decoding gives back the same sequence, and the reported encoded length is the number of bytes written. If the destination is too small, the encoder reports that it cannot encode (zero) and never writes beyond the size it was given; decoding writes no more than the documented overrun past the requested count.",
 ["inputs"], "every codec reachable by name, every sequence length including block boundaries, every mixture of bit widths and exceptions, every destination size",
 "The unit tests encode runs of identical power-of-two-minus-one values in one length, so mixtures of widths, selector boundaries and tail lengths are mostly unreached.",
 [S+"compress_integer_all.cpp"] + [S+"compress_integer_%s.cpp" % n for n in ("variable_byte","stream_vbyte","simple_9","simple_9_packed","simple_16","simple_16_packed","simple_8b","simple_8b_packed","carry_8b","carryover_12","relative_10","elias_gamma","elias_gamma_simd","elias_gamma_simd_vb","elias_delta","elias_delta_simd","bitpack_32_reduced","bitpack_64","bitpack_128","bitpack_256","qmx_original","qmx_improved","qmx_jass_v1","nybble_8","lyck_16","none")],
 [("codec registry", S+"compress_integer_all.cpp"), ("per-codec encode and decode", S+"compress_integer_*.cpp")])
prop("C09", "Difference encoding and fused decode-and-score equal plain decoding",
 "For every increasing document id list and every gap distance, difference encoding followed by its inverse is the identity. Decoding a posting segment straight into the scorer delivers exactly the segment's document ids, each exactly once with the segment's impact, for every codec an index may use; the vector helper operations (prefix sum, gather, scatter, popcount and the like) equal their scalar definitions on all inputs.",
 ["inputs"], "every list, length (including not a multiple of the vector width), gap and codec",
 "Unit tests use a few fixed vectors.",
 [S+"compress_integer.h", S+"compress_integer.cpp", S+"simd.h", S+"query.h", S+"compress_integer_elias_gamma_simd_vb.cpp"],
 [("differencing", S+"compress_integer.cpp, compress_integer.h"), ("vector helpers", S+"simd.h"), ("decode with writer", S+"compress_integer.h, "+S+"query.h")])
prop("C10", "The document tokeniser follows its lexical rules and stays inside the document",
 "For every byte string given as a document, the tokeniser ends with exactly one end marker and produces the tokens its rules define: maximal runs of letters, maximal runs of digits, markup (tags, comments, processing instructions and so on), with alphabetic tokens case-folded and normalised, over-long tokens truncated, everything else skipped. Tokens depend only on the bytes of the document: no byte outside the document influences them. The uniCOIL tokeniser yields exactly the listed terms, each as often as its count, and the FASTA tokeniser exactly the overlapping k-mers of the sequence.",
 ["inputs"], "every byte string: ASCII, multi-byte and malformed UTF-8, unterminated markup, tokens around the length limit, documents ending mid-token",
 "Unit tests tokenise one fixed text and one fixed XML text, both in buffers followed by other memory.",
 [S+"parser.cpp", S+"parser.h", S+"unicode.h", S+"ascii.h"],
 [("tokeniser", S+"parser.cpp"), ("character classes and normalisation", S+"unicode.h, "+S+"ascii.h")])
prop("C11", "Query text becomes the same terms as document text",
 "For every well-formed UTF-8 query text made of words (no markup, no word beyond the tokeniser's length limit), the parsed query terms are the same normalised words the document tokeniser produces for that text, each distinct term once with its number of occurrences, in a deterministic order. In raw mode terms are exactly the white-space separated pieces of the text, unnormalised; over-long terms are handled without corrupting their neighbours and the same parsed query is obtained when a query object is reused.",
 ["inputs", "histories"], "every query string and every sequence of parses into a reused query",
 "Unit tests parse a handful of fixed queries.",
 [S+"parser_query.cpp", S+"query_term_list.h", S+"query_term.h", S+"query.h"],
 [("query parser", S+"parser_query.cpp"), ("term list sort and unique", S+"query_term_list.h")])
prop("C12", "Document readers split the input into exactly its documents",
 "For every well-formed TREC, FASTA, WARC, HTML-per-file or uniCOIL-JSON input, the reader yields every document exactly once, in order, with its exact content (for WARC, the Content-Length bytes after the header) and its exact identifier, and then reports end of input. The result does not depend on how the underlying stream is chunked or where internal buffer boundaries fall, for documents that fit the buffer.",
 ["inputs", "configurations"], "every sequence of documents, every size relation between documents and internal buffer, every chunking of the source",
 "Unit tests read three documents per format out of one small in-memory buffer.",
 [S+"instream_document_trec.cpp", S+"instream_document_fasta.cpp", S+"instream_document_warc.cpp", S+"instream_document_unicoil_json.cpp", S+"instream_document_html.h"],
 [("tag scanning and buffer refill", S+"instream_document_trec.cpp"), ("record scanning", S+"instream_document_warc.cpp, instream_document_unicoil_json.cpp, instream_document_fasta.cpp")])
prop("C13", "Byte streams and general compressors deliver the bytes unchanged",
 "For every byte string, reading it through a file, memory or gzip stream in any sequence of read sizes gives exactly those bytes, then end of input; reading a directory or file list gives each file's content exactly once. The general purpose compressors return the original bytes after a round trip and report failure rather than overrunning when the destination is too small.",
 ["inputs", "histories"], "every byte string and read-size sequence, including empty input, and every destination size",
 "Unit tests read one small string in one or two chunk sizes; the gzip stream and the zstd compressor have no test that decodes.",
 [S+"instream_file.cpp", S+"instream_memory.cpp", S+"instream_deflate.cpp", S+"instream_directory_iterator.cpp", S+"compress_general_zlib.cpp", S+"compress_general_zstd.cpp"],
 [("stream reads", S+"instream_*.cpp"), ("block inflate", S+"instream_deflate.cpp"), ("round trip", S+"compress_general_zlib.cpp")])
prop("C14", "Files and channels return what was written",
 "For every sequence of writes of any sizes, the bytes later read from a file or channel are exactly the concatenation of what was written, whatever the internal buffering, and seeking and telling refer to the true file position. Line reading on a channel returns the lines in order without losing or inventing bytes, and splitting a buffer into lines gives exactly its non-empty lines.",
 ["inputs", "histories"], "every sequence of write, read, seek and line-read operations and sizes around the buffer size",
 "Unit tests write and read a few fixed strings much smaller than or equal to one buffer.",
 [S+"file.h", S+"file.cpp", S+"channel_file.cpp", S+"channel_buffer.cpp", S+"channel.h"],
 [("write buffering", S+"file.h"), ("line splitting", S+"file.cpp"), ("channel block and line operations", S+"channel_file.cpp, channel_buffer.cpp")])
prop("C15", "Quantised impacts preserve the ranking function and stay in range",
 "For every collection, quantised impacts are integers within the legal impact range, the lowest scoring posting gets the smallest impact and the highest scoring posting the largest, and a posting with a higher ranking-function score never gets a lower impact. The ranking function itself equals its published BM25 formula for every term frequency, document length and document frequency, and the pass-through quantiser leaves values unchanged.",
 ["inputs"], "every collection and every (tf, document length, df, N) tuple",
 "Unit tests check a few constants and one collection's checksum.",
 [S+"quantize.h", S+"quantize_none.h", S+"ranking_function_atire_bm25.h", S+"ranking_function_none.h"],
 [("linear quantisation", S+"quantize.h"), ("BM25", S+"ranking_function_atire_bm25.h")])
prop("C16", "Postings accumulate correct counts and impact-order correctly",
 "For every sequence of (document, occurrences) additions in document order, a posting list holds each document once with the total of its occurrences, capped at the maximum, and reports the right length. Impact ordering the list yields, from the highest impact to the lowest, every document exactly once under its own impact, documents increasing within each impact, with segment sizes that add up to the list length.",
 ["inputs", "histories"], "every addition sequence, including many occurrences in one document, id gaps needing any number of bytes, and any number of distinct impacts up to the limit",
 "Unit tests add about ten postings.",
 [S+"index_postings.h", S+"index_postings_impact.h", S+"dynamic_array.h"],
 [("posting accumulation", S+"index_postings.h"), ("impact segments", S+"index_postings_impact.h")])
prop("C17", "The hash table and its trees keep every key under concurrency",
 "Under any interleaving of threads looking up and inserting keys in the hash table or binary tree, each distinct key ends up stored exactly once, every thread that asks for a key gets the same value object, nothing is lost, and iteration visits every key exactly once (in key order for a tree). Values never change identity once handed out.",
 ["schedules", "inputs", "histories"], "every set of keys (including equal hashes, prefixes, empty and binary keys), number of threads and schedule",
 "One unit test inserts from a few threads into one tree and only checks the printed result.",
 [S+"hash_table.h", S+"binary_tree.h", S+"hash_pearson.h"],
 [("compare-and-swap insertion", S+"binary_tree.h"), ("bucket creation", S+"hash_table.h")])
prop("C18", "The append-only array keeps every element under concurrency",
 "Under any interleaving of threads appending to the growable array, after the appends every appended element is present exactly once, elements appended by one thread keep their relative order, and size, iteration, indexing of the last element and copying out all agree. Elements already appended never move or change.",
 ["schedules", "inputs", "histories"], "every initial size and growth factor, number of appends and threads",
 "One unit test appends a few hundred integers with one growth setting.",
 [S+"dynamic_array.h"],
 [("node allocation by compare-and-swap", S+"dynamic_array.h")])
prop("C19", "Allocators hand out disjoint, aligned, stable memory",
 "Every block returned by an allocator is aligned as requested, at least as large as requested, disjoint from every other live block, and keeps its contents until the allocator is rewound; a fixed-memory allocator never returns memory outside the region it was given and fails cleanly when it is full. This holds for every sequence of requests and, for the pool allocator, for concurrent requesters; used and capacity figures are consistent with the requests.",
 ["histories", "inputs", "schedules"], "every sequence of sizes, alignments and rewinds, including requests at and above the block size, from one or more threads",
 "Unit tests make a handful of allocations from one thread plus one fixed parallel run.",
 [S+"allocator_pool.cpp", S+"allocator_pool.h", S+"allocator_memory.cpp", S+"allocator_memory.h", S+"allocator.h", S+"allocator_cpp.h"],
 [("chunk list and compare-and-swap bump pointer", S+"allocator_pool.cpp"), ("bounded bump pointer", S+"allocator_memory.cpp")])
prop("C20", "Bit strings and bit streams behave as sets and sequences of bits",
 "For every sequence of set, clear and Boolean operations, a bit string answers exactly like a set of positions of its declared length, including its population count and equality. Writing any sequence of values of any bit widths to a bit stream and reading them back with the same widths gives the same values and the reported bit counts are exact.",
 ["inputs", "histories"], "every length (including not a multiple of the word size), every operation sequence, every width sequence",
 "Unit tests use one or two fixed bit patterns.",
 [S+"bitstring.cpp", S+"bitstring.h", S+"bitstream.h"],
 [("word-wise Boolean operations", S+"bitstring.cpp"), ("bit packing", S+"bitstream.h")])
prop("C21", "Partial sorts and priority queues keep exactly the largest elements",
 "For every array and every k, the partial sort leaves the first k positions equal to the first k of a full sort and the whole array a permutation of the input; the vectorised sort sorts. The heap and the bi-parental heap hold, after any sequence of insertions and replacements, exactly the elements a reference priority queue holds, and always report the right minimum and find stored elements.",
 ["inputs", "histories"], "every array (duplicates, already sorted, reversed, constant), length and k, and every operation sequence",
 "Unit tests sort fixed small arrays.",
 [S+"top_k_qsort.cpp", S+"top_k_qsort.h", S+"sort512_uint64_t.h", S+"heap.h", S+"beap.h", S+"top_k_heap.h"],
 [("partial quicksort", S+"top_k_qsort.h"), ("heap maintenance", S+"heap.h, "+S+"beap.h"), ("vector sort", S+"sort512_uint64_t.h")])
prop("C22", "Evaluation metrics equal their published definitions",
 "For every set of relevance judgements, every ranked list and every depth, each evaluation metric (precision, recall, F, average precision, reciprocal rank, rank-biased precision, expected search length and the commerce metrics) equals its definition computed naively. Metrics depend only on the judgements of that query and the list down to the depth, bounded metrics stay within bounds, and unknown queries and empty lists are handled.",
 ["inputs"], "every judgement set, ranked list, depth and metric parameter",
 "Unit tests check a few fixed lists per metric.",
 [S+"evaluate.cpp", S+"evaluate.h"] + [S+"evaluate_%s.cpp" % n for n in ("precision","recall","f","map","mean_reciprocal_rank","mean_reciprocal_rank4k","rank_biased_precision","expected_search_length","relevant_returned","buying_power","buying_power4k","selling_power","cheapest_precision")],
 [("judgement lookup and per-metric compute", S+"evaluate*.cpp")])
prop("C23", "The stemmer is the Porter stemmer for every word",
 "For every lower-case word, the stemmer produces exactly the stem the published Porter algorithm gives, is deterministic, never lengthens the word by more than the algorithm allows, and never reads or writes outside the word and its buffer.",
 ["inputs"], "every word over the alphabet, in particular all combinations of Porter suffixes and vowel/consonant patterns",
 "Unit tests stem a fixed vocabulary sample.",
 [S+"stem_porter.cpp", S+"stem_porter.h", S+"stem.h"],
 [("Porter steps", S+"stem_porter.cpp")])
prop("C24", "Character tables and UTF-8 conversion agree with Unicode",
 "For every code point, the character-class predicates and case folding/normalisation agree with the Unicode data files shipped with the source, and for code points below 128 the letter, digit, case, white-space, control and hexadecimal predicates agree with the ASCII classes. UTF-8 encoding followed by decoding is the identity for every code point, decoding rejects every malformed sequence without consuming more than it may, and no read crosses the end of the given buffer.",
 ["inputs"], "every code point and every byte string",
 "Unit tests check a few code points per class and a few sequences.",
 [S+"unicode.h", S+"ascii.h", "tools/unicode_database_to_c.cpp", "tools/ascii_database_to_c.cpp"],
 [("generated tables", "tools/unicode_database_to_c.cpp, tools/ascii_database_to_c.cpp"), ("UTF-8 conversion", S+"unicode.h")])
prop("C25", "Command-line parsing assigns exactly what was given",
 "For every sequence of valid options in either spelling and either value style, in any order, each bound variable ends with the last value given for it and every variable not mentioned keeps its default. Unknown options, out-of-range numbers and missing values are reported as errors rather than silently accepted or crashing.",
 ["inputs"], "every argument vector over every parameter type",
 "Unit tests parse a few fixed argument vectors.",
 [S+"commandline.h"],
 [("option matching and value conversion", S+"commandline.h")])
prop("C26", "Exported runs list the results exactly in TREC format",
 "For every result list, the exported TREC run has one line per result in rank order holding the query id, the document's primary key, the rank, the score and the run tag, ranks numbered consecutively and scores non-increasing, and reading the run back recovers the ranking. Nothing is listed beyond the results found or beyond k.",
 ["inputs"], "every result list, run tag, query id and k",
 "One unit test exports one fixed result list.",
 [S+"run_export.h", S+"run_export_trec.h"],
 [("run formatting", S+"run_export_trec.h")])
prop("C27", "Importing a CIFF index preserves it",
 "For every well-formed CIFF file, importing it produces an index of the requested version with exactly the file's terms, postings, document identifiers and document count: with pass-through the frequencies become the impacts unchanged, otherwise impacts are the quantised scores. A file that is cut short, or whose records are damaged so that it is no longer a well-formed sequence of CIFF records, is reported rather than crashing the import or being imported as if it were whole.",
 ["inputs", "configurations"], "every CIFF file content and import mode",
 "There is no test of the CIFF reader or importer.",
 ["tools/ciff_to_JASS.cpp", "tools/ciff_lin.h", "tools/protobuf.h", S+"index_manager_sequential.h"],
 [("protocol buffer decoding", "tools/protobuf.h"), ("CIFF structure", "tools/ciff_lin.h"), ("import", "tools/ciff_to_JASS.cpp")])
prop("C28", "The search API keeps its state contract under any call sequence",
 "For every sequence of API calls, each call either takes effect as documented or returns its documented error and changes nothing: searching or querying statistics before an index is loaded, loading a missing or incomplete index (files absent or empty), loading twice, and out-of-range parameters are all reported. Getters reflect the accepted setters, a failed load leaves the engine able to load a good index, and no sequence of calls crashes.",
 ["histories", "inputs"], "every sequence of API calls with valid and invalid arguments, with good, missing and incomplete index directories",
 "There is no test of the API.",
 ["anytime/JASS_anytime_api.cpp", "anytime/JASS_anytime_api.h", S+"deserialised_jass_v1.cpp"],
 [("argument and state checks", "anytime/JASS_anytime_api.cpp")])
prop("C29", "Statistics, checksums and arithmetic helpers equal their definitions",
 "For every input, the statistical functions (t distribution, paired t-test, Pearson, Spearman, fractional ranks), the checksum, the hash functions and the arithmetic helpers (bit scans, logarithms, powers, min/max) equal a direct computation of their definition, within floating-point tolerance where real-valued. The checksum of data does not depend on how it is delivered (buffer or file).",
 ["inputs"], "every vector of samples, byte string and integer",
 "Unit tests check a few constants each.",
 [S+"statistics.cpp", S+"checksum.cpp", S+"maths.h", S+"maths.cpp", S+"hash_pearson.cpp", S+"reverse.h"],
 [("formulae", S+"statistics.cpp"), ("Fletcher checksum", S+"checksum.cpp"), ("bit tricks", S+"maths.h")])
prop("C30", "The index dump tools print exactly what the index holds",
 "For every exported index of either version, dumping it prints exactly its vocabulary in order, every posting of every term with its document and impact, and its primary keys in order; the dictionary-only mode prints exactly the vocabulary. Dumping an integer postings file prints exactly its lists.",
 ["inputs", "configurations"], "every exported index, codec and dump option",
 "There is no test of the dump tools.",
 ["tools/JASSv1_to_human.cpp", "tools/bin_to_human.cpp", S+"deserialised_jass_v1.cpp", S+"deserialised_jass_v2.cpp"],
 [("index walk", "tools/JASSv1_to_human.cpp")])
prop("C31", "A bound on the k-th score binds only its own query, and only with k results",
 "A bound on the score of the k-th result given for one query has no effect on other queries, and a bound of 0 or 1 has no effect at all. With a bound that fewer than k documents reach, the search returns exactly the top k as if no bound had been given. With a bound that k or more documents reach, the search stops after the segment in which the k-th of them reaches it and returns k different documents, best first, each of which truly scores at least the bound (so when exactly k documents reach the bound, the documents returned are exactly the top k). Reading bounds from a file attaches each bound to its own query, and a query without a line has no bound.",
 ["inputs", "configurations"], "every query, index, k, bound up to the largest score and bounds file",
 "The bound file reader has one fixed unit test; no test searches with a bound.",
 ["anytime/JASS_anytime_api.cpp", S+"top_k_limit.cpp", S+"top_k_limit.h", S+"query_heap_clean.h"],
 [("early admission threshold", S+"query_heap_clean.h"), ("bound file", S+"top_k_limit.cpp")])
prop("C32", "The command-line indexer and searcher agree with the collection",
 "For every collection in a supported input format, running the indexer program and then the search program over queries gives the run a direct evaluation of the collection gives: the documents containing the query words, ranked by summed impact. The indexer's outputs for the same input are the same whatever the combination of other exports requested, and re-running gives identical files.",
 ["inputs", "configurations"], "every collection, option combination and query file",
 "No test runs the programs.",
 ["tools/JASS_index.cpp", "anytime/JASS_anytime.cpp", S+"parser.cpp", S+"index_manager_sequential.h"],
 [("indexing loop", "tools/JASS_index.cpp"), ("search main loop", "anytime/JASS_anytime.cpp")])
prop("C33", "Slices compare as consistent total orders and copy exactly",
 "Slices have a default order (shorter first, then unsigned byte order) and a dictionary order (unsigned byte order, a proper prefix first); each is a total order consistent with equality, and equality is byte equality. Less-than and greater-than are mirror images, sorting or searching with either order gives the order's unique answer, and every way of copying a slice into an allocator preserves its bytes and length, including empty slices and embedded zero bytes where a length is given.",
 ["inputs"], "every pair and triple of byte strings, every construction",
 "Unit tests compare a few fixed strings.",
 [S+"slice.h", S+"allocator_pool.cpp"],
 [("comparison operators", S+"slice.h"), ("copying constructors", S+"slice.h")])
prop("C34", "Topic files and judged runs are read faithfully by the command-line tools",
 "For every TREC topic file (each topic starting on a line of its own), the topic reader yields one query per topic consisting of the topic number followed by exactly the requested fields' text, in order. For every assessments file and run file, the evaluation program's reported metrics, per query and averaged, equal the naive computation from those files, whatever the order of the lines of the run, and its t-test and correlation tables give one readable value per pair of runs or metrics, which is that of the textbook definition.",
 ["inputs", "configurations"], "every topic file and field selection; every judgement file, run file and evaluation option",
 "One fixed topic file is unit tested; the evaluation program is untested.",
 [S+"channel_trec.cpp", "tools/trec_to_query.cpp", "tools/JASS_eval.cpp", S+"evaluate.cpp"],
 [("topic parsing", S+"channel_trec.cpp"), ("run reading and averaging", "tools/JASS_eval.cpp")])
prop("C35", "Accumulator arrays read as zero until written after every rewind",
 "For every accumulator layout, collection size, width and sequence of rewinds, reads and updates, each accumulator reads as the sum written since the last rewind, with no value leaking from an earlier query or from a neighbouring accumulator. The mapping between an accumulator and its index is exact.",
 ["histories", "inputs", "configurations"], "every layout, size, width and operation history, including more rewinds than the clean-marker can count",
 "Unit tests touch every accumulator after a single rewind.",
 [S+"accumulator_2d.h", S+"accumulator_counter.h", S+"accumulator_counter_interleaved.h"],
 [("dirty flags", S+"accumulator_2d.h"), ("clean identifiers", S+"accumulator_counter.h, accumulator_counter_interleaved.h")])
prop("C36", "The eCommerce, codec-report and checksum tools account for everything given",
 "For every well-formed price list, judgement table and result table, whatever the order of rows and columns and the values of the identifiers, the judgement converter prints one price line per item in order and every non-zero judgement exactly once, sorted by query and item, as relevant exactly when it is 1; the result converter prints for each query, in column order, exactly the items returned that have no non-zero judgement in the training table, cheapest first (ties by identifier), with ranks and scores that follow that order. The codec checker reports on the lists of each length, the longest included; putting several of its reports together gives for each length the smallest, mean, median, largest and all of the times reported. The checksum program prints the Fletcher-16 checksum of each file given, in order.",
 ["inputs", "configurations"], "every table, report and file, in every order",
 "No test runs these programs.",
 ["tools/ECOM19_to_JASS_eval.cpp", "tools/ECOM19_to_run.cpp", "tools/test_integer_compress.cpp", "tools/test_integer_compress_average.cpp", "tools/hash.cpp", S+"checksum.cpp", S+"file.cpp"],
 [("table reading", "tools/ECOM19_to_run.cpp"), ("report of each length", "tools/test_integer_compress.cpp, tools/test_integer_compress_average.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))

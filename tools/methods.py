"""Per property: (technique, what is generated, oracle, bounds and assumptions, why this reaches what the tests cannot).
tools/make_manifest.py writes MANIFEST.json and the per-property section of DESIGN.md from this table and checks.py."""
M = {
"C10": ("differential property-based testing against an independent tokeniser, under ASan",
  "documents of words in many scripts, numbers, well-formed, unclosed and look-alike markup, malformed UTF-8 and random bytes, in heap blocks of exactly their size; every code point between letters and digits; FASTA bodies with k from 1 to 40; uniCOIL term lists with counts around every limit",
  "an independent restatement of the lexical rules with its own UTF-8 decoder; windows of k bases; the generating term list", "code point classes and folding are taken from the tables C24 checks; of words over 1024 bytes only the prefix that fits is compared", "the unit tests tokenise about ten fixed strings; buffer ends, truncation and malformed markup need unusual documents"),
"C11": ("differential property-based testing against an independent query parser", "query strings of words in many scripts, numbers, punctuation, separators and repeats, with and without ids, raw and parsed, with every stemmer choice, one parser reused for many queries",
  "independent tokenising, folding, stemming and counting: exactly the set of (term, count) pairs", "valid UTF-8, no '<', words of at most 1024 bytes", "unit tests parse a couple of fixed queries"),
"C24": ("exhaustive comparison with an independent reading of the Unicode data files, plus generated byte sequences", "every code point (one exhaustive pass), every byte, and generated valid, truncated, overlong, surrogate and random byte sequences in exactly-sized blocks",
  "independent parser of UnicodeData/PropList/CaseFolding; well-formedness table of the Unicode standard", "class definitions as documented in unicode_database_to_c.cpp", "unit tests look at a handful of code points"),
"C12": ("property-based testing: generated collections, printer/reader round trip, chunking differential",
  "collections of 0-12 documents in each format (content full of partial and look-alike markers, arbitrary bytes, generated ids, junk between documents), read through memory, file and gzip streams with internal buffers from exactly the largest document upwards, with and without reuse of the document object",
  "the generating collection itself: every document once, in order, with its content and id, then end of input for ever",
  "well-formed input, non-empty documents; documents up to tens of kilobytes (uniCOIL boundary cases cross the 16 MB buffer)",
  "buffer boundaries fall on every byte of a marker; the unit tests use one input and one buffer size"),
"C13": ("property-based testing: round trips and read-size differentials under ASan",
  "byte strings up to 200,000 bytes; read-size sequences; gzip files with several members and levels; directories; compressor destinations of generated sizes",
  "the original bytes (zlib itself makes the compressed input); a destination that is too small must be reported, never overrun",
  "names end in .gz exactly for gzip files", "unit tests read in one size"),
"C14": ("stateful property-based testing against a byte-array model of a file",
  "histories of writes, seeks, reads, tells and flushes with stdio buffers from 1 byte up; channel operator histories; texts to split into lines",
  "model: bytes + position; independent line splitter", "direction changes at a seek, as C streams require; scratch directory only", "unit tests perform one fixed history"),
"C16": ("stateful model-based property testing",
  "histories of (document, occurrences) additions with repeats, gaps of every varbyte width and counts around the cap; bulk additions as an importer makes them; one impact-ordering object reused for many lists",
  "std::map from document to capped total; impact order recomputed naively; serialised forms decoded by hand", "document ids do not decrease", "unit tests add a handful of postings"),
"C17": ("model-based testing plus generated schedules (cooperative fibres switching at every atomic operation) plus ThreadSanitizer on real threads",
  "look-up programs for 1-4 threads over colliding, equal, prefix and NUL-holding keys, and a generated interleaving",
  "std::map; same key -> same object in every thread; iteration equals the key set", "interleavings are sequentially consistent; races judged by TSan on real threads", "the tests' threads hardly ever meet at the same node; the schedule is generated input here and shrinks"),
"C18": ("model-based testing plus generated schedules plus ThreadSanitizer", "append programs for 1-5 threads with any initial size and growth factor, with a generated interleaving",
  "multiset of appended values, per-thread order, agreement of size, iteration, back and serialise", "growth factor >= 1", "as C17"),
"C19": ("stateful property testing plus generated schedules plus ThreadSanitizer", "request histories (size, alignment, rewind) on the pool and fixed-memory allocators, 1-4 requesters with a generated interleaving",
  "interval disjointness, alignment, every block filled with its own pattern and re-read at the end, all inside the region; the harness's malloc stand-in sees every overrun under ASan", "sizes up to 64 KiB, alignments up to 4096", "as C17"),
"C20": ("stateful model-based property testing", "operation histories over bit strings of length 0-700; sequences of writes of any width into buffers around the exact size",
  "std::set<position> and a vector of bits; ASan for bounds", "lengths up to 700 bits", "unit tests use one fixed pattern"),
"C21": ("property-based testing against std::sort / multiset", "arrays up to 3000 values of seven shapes with any k; heap, beap and top-k heap operation histories", "std::sort, std::multiset, permutation check, heap order after each step",
  "vectorised sort: keys below 2^63, as documented", "unit tests sort one array"),
"C23": ("differential property-based testing against an independent Porter stemmer", "words built from syllables and Porter suffixes, and random letters, up to hundreds of letters", "ref_porter.h, written from the published algorithm; exactly-sized heap blocks under ASan",
  "lower-case ASCII words", "1.2 million generated words per quick run reach rule interactions the fixed vocabulary list does not"),
"C25": ("property-based testing: generated option tables and command lines against a reference parser", "option sets of every type with names that extend one another; values at and beyond type limits; attached and separate values; repeats, unknown options, missing last value",
  "reference parser: last value wins, longest name wins, errors reported", "numeric text well formed", "unit tests parse two fixed command lines"),
"C29": ("property-based testing against direct definitions", "values of every bit width, samples with ties and constant runs, byte strings delivered in every way",
  "numeric integration, naive ranks and correlations, bitwise loops, textbook CRC/Fletcher and hash definitions", "2e-6 for CDF approximations, 1e-6 relative for correlations", "unit tests compute single values"),
"C33": ("property-based testing of algebraic laws and against memcmp", "related byte strings (equal, prefix, one byte changed, unrelated), sorted vectors, every way of copying", "unsigned byte order computed independently; order laws; byte equality of copies", "lengths 0-300", "unit tests compare a few ASCII strings"),
"C35": ("stateful model-based property testing", "histories of init, up to 700 rewinds (every flag width wraps), scalar and vector reads and updates on every accumulator layout", "a plain array", "collection sizes up to a few thousand accumulators", "no test rewinds often enough for a flag to wrap"),
"C15": ("property-based testing: independent evaluation of the ranking and quantisation formulas over generated collections",
  "collections of up to 4000 documents and 40 terms of every density and count distribution, k1 and b over their ranges, document lengths equal or apart from the counts, one to three serialisers; single (tf, length, df, N) points",
  "the published formulas evaluated naively in double precision; monotonicity, range 1..largest and end points of the quantised impacts", "float rounding allowed one quantum at a bucket edge", "unit tests index ten fixed documents"),
"C22": ("property-based testing: each metric against a naive definition over generated judged rankings",
  "judgements (with graded and negative relevance, prices, unjudged and unreturned documents, empty queries) and rankings of generated lengths and depths, for every metric",
  "naive definitions; bounds, extreme values, invariance under changes below the cut-off", "1e-9 relative", "unit tests compute each metric on one fixed ranking"),
"C08": ("property-based testing: round trips in exactly-sized memory under AddressSanitizer", "sequences of 1-700 integers (some of 20,000-300,000) of mixed widths, runs, exceptions and gaps at every block boundary, through all 28 codecs; destinations of every size around what is needed; integers too wide for the codec",
  "the sequence itself; never a byte beyond the given destination; refusal or a correct encoding; the same answer twice", "each codec's documented domain of values; decoders may over-read 64 bytes and over-write 1024 integers as the library's buffers allow", "unit tests encode runs of 2^k-1 in one length and never a destination that is nearly large enough"),
"C26": ("property-based testing against a reference formatter, and through the real top-k processors", "result lists with ties, ascending or descending, text or numeric ids; result lists exported after several rewinds of one processor",
  "TREC run format parsed back field by field", "lists of up to 40 results, top-k up to 50", "unit tests export two fixed lists"),
"C01": ("property-based testing: generated collections through the version 1 serialiser and back through the reader", "collections of up to 3000 documents and 60 terms, some of 140000 documents or 70000 terms, of every density of list and distribution of impacts, terms and primary keys of any bytes; quantised, passed through or given impacts; every index codec",
  "the quantised collection itself: every term found, every posting with its impact and document exactly once, segments in descending impact order, unknown terms absent", "at least one document and one term; no NUL in names", "unit tests deserialise one fixed ten-document index"),
"C02": ("differential property-based testing: version 2 export against the collection and the version 1 export, in mapped files with guard pages", "as C01, and collections of over 64K documents or terms; indexes grown until the posting file exactly fills its last page; variable byte headers of any value",
  "the collection, the version 1 export, guard pages around the mapped file", "as C01", "unit tests load one fixed index from a file that is never page sized"),
"C03": ("differential property-based testing: three export formats against the collection", "as C01 (with collections of over 64K documents or terms), exported as forward index, integer postings and compilable source", "each format parsed by an independent reader and compared with the collection", "no quotes or NUL in terms for the compilable export", "unit tests compare one export with a fixed checksum"),
"C07": ("model-based property testing of every strategy, layout and final sort over generated histories", "histories of init and rewind on one processor, each with segments delivered one at a time in any order, difference encoded through the virtual decoder, through a listener, or in vectors; collections of up to 5000 documents, any width, k up to 1000, enough rewinds to wrap every counter",
  "a plain array of scores and a sort; exact scores, exact number, no repeats, iteration in both directions", "scores within 1-255; nine configurations of layout and sort out of the possible combinations; k up to 256 for the bucket strategy and not query_maxblock with the top-k sort (known findings)", "unit tests add five scores and build one configuration"),
"C09": ("differential property-based testing: fused decoding and vector helpers against plain loops", "increasing id lists (some of up to 200,000) of every gap distribution and gap distance 1-16, segments through every codec into a listener and into the real query processor, arrays of every length and index pattern for the vector helpers", "the ids written, each heard exactly once; naive loops; ASan-bounded memory", "lists up to a few thousand ids", "unit tests use one length per routine"),
"C04": ("differential property-based testing of the whole engine against direct evaluation of the collection", "generated indexes in both versions and every codec, any k and accumulator width, over up to 140000 documents, up to 25 queries on one engine of known, unknown and repeated words, with and without score scaling",
  "per document sums of the quantised impacts computed from the collection, sorted; result lines parsed back; postings counted", "at most 200 different words in a query; indexes up to 1500 documents", "unit tests run three queries over one ten-document index"),
"C05": ("property-based testing of the whole engine against direct evaluation of the leading segments", "generated indexes and queries, budgets absolute, in percent of documents and in percent of the query's postings, at and next to every sum of leading segments, changed between the searches of one engine",
  "the leading segments from the collection; every choice among segments of equal impact and length; postings processed and results exact", "percentages 0-10000; at most 3000 choices among equals", "no test sets a budget"),
"C06": ("property-based testing over generated interleavings, histories and real threads", "interleavings of 2-4 threads taking queries from a batch, under a deterministic scheduler; histories of batches and single searches on one engine with 1-6 threads and changing budgets, parsers and oracle scores, under AddressSanitizer and ThreadSanitizer",
  "every query answered exactly once; the same answer as a fresh engine, as every earlier time and as the collection says; no data race", "distinct query identifiers in a batch; sequentially consistent interleavings", "no test starts a second search thread"),
"C28": ("model-based property testing of call sequences", "sequences of up to 60 calls on one or two engines, over good, missing and incomplete indexes and oracle files and arguments on both sides of every limit",
  "a model of the state the calls leave; documented error codes; every getter after every call; results against the collection, or against a new engine given the settings of the model and nothing else", "damage is limited to files that are missing, empty or not files; percentages 0-10000", "no test uses the API"),
"C31": ("property-based testing of the whole engine against direct evaluation of the collection, and of the bounds file against a map", "generated indexes and queries with bounds at, next to and far from the true score of the k-th result, for some of the queries and for identifiers that are prefixes of one another; bounds files with every line ending and spacing",
  "the ranking without a bound; which documents reach the bound and after which segment, from the collection", "bounds up to 255, the largest score; not together with a minimum number of postings", "no test searches with a bound"),
"C30": ("property-based testing of the dump programs against the collection", "generated collections exported in version 1 (with generated codec) and version 2 and as integer postings, dumped by the programs with either option set and text of any bytes",
  "the exact expected output, computed from the collection", "impacts 1-1023 for version 1 listings", "no test runs the dump programs"),
"C36": ("property-based testing of whole programs against direct conversion", "price lists of 1-60 items with consecutive, small or sparse identifiers; judgement and result tables of 1-8 queries in any order of rows and columns and any line ending; up to 5 reports of the codec checker averaged; files of up to 200,000 bytes checksummed",
  "a direct conversion of the tables, averages and checksums computed directly; the programs run under AddressSanitizer and UndefinedBehaviorSanitizer", "rows have a cell per column; identifiers under 2^31; the codec checker itself is run on its known finding only, as every run of it shows that defect", "nothing tests these programs"),
"C34": ("property-based testing of the topic reader and the evaluation program against reference readers and naive metrics", "topic files with any layout of fields, white space and tag case; assessment and run files in any line order with ties, unjudged documents, missing and extra queries, prices and options, up to five runs compared with t-tests and correlations",
  "reference topic reader; naive metrics of ref_evaluate.h", "a topic starts on its own line; ranks distinct within a query; prices come before judgements", "one fixed topic file is tested, no test runs the evaluation program"),
"C27": ("property-based testing of the CIFF importer, with structured corruption", "CIFF files built byte by byte (fields in any order, unknown fields, gaps and varints of any width), imported in both versions and either quantisation, and the same files truncated or damaged",
  "the collection read back with the library's reader; a reported error and a normal exit for damaged files", "damage that leaves a well-formed file with other values is not expected to be noticed", "no test runs the importer"),
"C32": ("end-to-end property-based testing of the indexer and searcher programs against direct evaluation of the collection", "TREC, FASTA and uniCOIL collections, every combination of indexer options, queries in both file formats, every searcher option",
  "a naive tokeniser, BM25 and quantisation, and ranking; byte comparison of files from repeated and differently combined runs", "ASCII words; one of -I1 and -I2 at a time (both write the same files); queries given already stemmed", "no test runs the programs"),
}
PLANNED = {}

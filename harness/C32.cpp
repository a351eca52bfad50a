/* C32: the indexer and search programs, run over generated collections, against a direct evaluation of the collection */
#include "spawn.h"
#include "engine.h"
#include "ref_porter.h"
#include <zlib.h>
#include <dirent.h>
#include <filesystem>

RULE("collections of 1-60 documents in the TREC, FASTA and uniCOIL formats (the last gzipped or as a directory of files), indexed by the indexer program with every combination of options and searched by the search program with 1-12 queries in either query file format; non-trivial when at least two queries have results and one of them more than one, and the collection has more than two documents");
ASSUME_TEXT("documents have at least one term; words are ASCII letters or digits; one of the two search index versions is asked for at a time; with stemming the queries are given stemmed (the search program does not stem); k-mer and uniCOIL terms are searched with the ASCII parser");

typedef std::map<std::string, uint32_t> bag;
struct made { std::string text; std::vector<std::string> keys; std::vector<bag> counts; std::vector<uint32_t> lengths; };

static std::vector<std::string> vocabulary(pbt::gen &g, bool digits)
	{
	std::vector<std::string> v; std::set<std::string> used;
	auto r = g.stream();
	size_t n = g.size(1, 40);
	for (size_t i = 0; i < n; i++)
		{
		static const char *english[] = {"running", "runs", "ponies", "caresses", "agreed", "national", "sky", "be", "as", "relational", "hopping", "hop", "ties", "adoption"};
		std::string w;
		if (r.below(4) == 0) w = english[r.below(14)];
		else if (digits && r.below(4) == 0) w = std::to_string(r.below(3000));
		else for (size_t l = 1 + r.below(r.below(8) ? 5 : 20); l-- > 0;) w += (char)('a' + r.below(6));
		if (used.insert(w).second) v.push_back(w);
		}
	return v;
	}
static std::string shout(pbt::prng &r, std::string w) { if (r.below(4) == 0) for (auto &c : w) c = (char)toupper(c); else if (r.below(4) == 0) w[0] = (char)toupper(w[0]); return w; }
/* letters and digits, apart: the tokens of a key */
static void key_tokens(const std::string &key, std::vector<std::string> &into)
	{
	for (size_t at = 0; at < key.size();)
		{
		bool a = isalpha((unsigned char)key[at]), d = isdigit((unsigned char)key[at]);
		if (!a && !d) { at++; continue; }
		std::string w;
		while (at < key.size() && (a ? isalpha((unsigned char)key[at]) : isdigit((unsigned char)key[at]))) w += (char)tolower(key[at++]);
		into.push_back(w);
		}
	}
static std::string make_key(pbt::gen &g, std::set<std::string> &used, const char *alphabet)
	{
	std::string k = g.word(1, 8, alphabet);
	while (k.empty() || !used.insert(k).second) k += std::to_string(used.size());
	return k;
	}
static std::string stemmed(bool stem, const std::string &w) { return stem && w.size() > 2 && isalpha((unsigned char)w[0]) ? ref_porter::stem(w) : w; }

static made trec(pbt::gen &g, bool stem, std::vector<std::string> &words)
	{
	made m; auto r = g.stream(); std::set<std::string> used;
	auto v = vocabulary(g, true);
	size_t n = g.size(1, 60), longest = g.pick({(size_t)3, (size_t)30, (size_t)200});
	if (g.chance(1, 4)) m.text += "\n";
	for (size_t d = 0; d < n; d++)
		{
		std::string key = make_key(g, used, "ABCWSJ0123-");
		std::vector<std::string> tokens;
		m.text += "<DOC>" + g.pick({std::string("\n"), std::string(" "), std::string("")}) + "<DOCNO>" + g.pick({std::string(" "), std::string("")}) + key + g.pick({std::string(" "), std::string("")}) + "</DOCNO>\n";
		key_tokens(key, tokens);
		size_t length = (size_t)r.below(longest + 1);
		for (size_t i = 0; i < length; i++)
			{
			const std::string &w = v[r.below(r.below(3) ? v.size() : 1 + v.size() / 4)];
			tokens.push_back(w);
			m.text += shout(r, w);
			static const char *gaps[] = {" ", " ", " ", "\n", ", ", ". ", "<b>", "</b>", "<p class=\"zzz\">", "<!-- hidden words -->", "(", "; ", "<br/>", "&"};
			m.text += gaps[r.below(14)];
			if (r.below(40) == 0) m.text += " <TEXT> ";
			}
		m.text += "</DOC>\n";
		if (tokens.empty()) { m.text.insert(m.text.size() - 7, " zed "); tokens.push_back("zed"); }
		m.keys.push_back(key);
		bag b; for (auto &t : tokens) b[stemmed(stem, t)]++;
		m.counts.push_back(b); m.lengths.push_back((uint32_t)tokens.size());
		}
	if (g.chance(1, 4)) m.text.pop_back();
	words = v; words.push_back("zed");
	return m;
	}
static made fasta(pbt::gen &g, size_t k, std::vector<std::string> &words)
	{
	made m; auto r = g.stream(); std::set<std::string> used, kmers;
	size_t n = g.size(1, 30), longest = g.pick({(size_t)20, (size_t)200});
	for (size_t d = 0; d < n; d++)
		{
		std::string key = make_key(g, used, "abn0123.-"), run;
		std::vector<std::string> tokens;
		key_tokens(key, tokens);
		m.text += ">" + key + "\n";
		auto flush = [&] { for (size_t at = 0; at + k <= run.size(); at++) { tokens.push_back(run.substr(at, k)); kmers.insert(tokens.back()); } run.clear(); };
		size_t length = 1 + (size_t)r.below(longest);
		for (size_t i = 0; i < length; i++)
			{
			if (r.below(60) == 0) { m.text += "N"; flush(); }
			char c = "acgt"[r.below(d % 3 ? 4 : 2)];
			run += c; m.text += r.below(2) ? c : (char)toupper(c);
			if (r.below(30) == 0) m.text += "\n";
			}
		m.text += "\n";
		flush();
		if (tokens.empty()) { std::string w(k, 'a'); m.text += "N" + w + "\n"; tokens.push_back(w); kmers.insert(w); }
		m.keys.push_back(">" + key);
		bag b; for (auto &t : tokens) b[t]++;
		m.counts.push_back(b); m.lengths.push_back((uint32_t)tokens.size());
		}
	words.assign(kmers.begin(), kmers.end());
	if (words.empty()) words.push_back("acgt");
	return m;
	}
static made unicoil(pbt::gen &g, std::vector<std::string> &words)
	{
	made m; auto r = g.stream(); std::set<std::string> used;
	auto v = vocabulary(g, true); v.push_back("##ing"); v.push_back("\xC3\xA9t\xC3\xA9");
	size_t n = g.size(1, 40), most = g.pick({(size_t)1, (size_t)10, (size_t)40}); uint32_t high = g.pick({1u, 30u, 255u, 300u, 1023u});
	for (size_t d = 0; d < n; d++)
		{
		std::string key = make_key(g, used, "abD0123-_"), list; bag b;
		for (size_t t = 1 + r.below(most); t-- > 0;)
			{
			const std::string &w = v[r.below(v.size())];
			if (b.count(w)) continue;
			b[w] = 1 + (uint32_t)r.below(high);
			list += (list.empty() ? "" : ", ") + ("\"" + w + "\": ") + std::to_string(b[w]);
			if (r.below(10) == 0) list += ", \"unused\": 0";
			}
		m.text += "{\"id\": \"" + key + "\", \"contents\": \"some " + (r.below(4) ? "" : "} text ") + "\", \"vector\": {" + list + "}}\n";
		m.keys.push_back(key); m.counts.push_back(b); m.lengths.push_back((uint32_t)b.size());
		}
	words = v;
	return m;
	}

static std::map<std::string, std::string> files_in(const std::string &directory)
	{
	std::map<std::string, std::string> all;
	if (DIR *d = opendir(directory.c_str())) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') all[e->d_name] = read_file(directory + "/" + e->d_name); closedir(d); }
	return all;
	}
static void gz(const std::string &name, const std::string &text) { gzFile f = gzopen(name.c_str(), "wb"); gzwrite(f, text.data(), (unsigned)text.size()); gzclose(f); }

PROPERTY(index_and_search, 120, 6000, p.cpu_limit = 120;)
	{
	enum { TREC, FASTA, UNICOIL };
	int format = (int)g.weighted({3, 1, 2});
	bool stem = format != UNICOIL && g.chance(1, 3), atire = g.chance(1, 3);
	size_t k = 1 + g.draw(g.flip() ? 3 : 12);
	std::vector<std::string> words;
	made m = format == TREC ? trec(g, stem, words) : format == FASTA ? fasta(g, k, words) : unicoil(g, words);
	if (stem && format == FASTA) for (auto &b : m.counts) { bag s; for (auto &x : b) s[stemmed(true, x.first)] += x.second; b = s; }
	std::string home = g.scratch() + "/data";
	mkdir(home.c_str(), 0755);
	std::string input = home + "/docs";
	size_t how = format == UNICOIL ? 1 + g.draw(3) : 0;
	if (how == 0) write_file(input, m.text);
	else if (how == 1) { input += ".gz"; gz(input, m.text); }
	else
		{
		/* a directory: the documents come in the order the directory gives its files */
		mkdir(input.c_str(), 0755);
		std::vector<std::vector<size_t>> part(1 + g.draw(3));
		size_t at = 0, each = m.keys.size() / part.size() + 1;
		std::vector<std::string> lines; { std::istringstream in(m.text); std::string l; while (getline(in, l)) lines.push_back(l + "\n"); }
		std::map<std::string, size_t> named;
		for (size_t p = 0; p < part.size(); p++)
			{
			std::string text;
			for (size_t i = 0; i < each && at < m.keys.size(); i++) { part[p].push_back(at); text += lines[at++]; }
			if (text.empty()) continue;
			std::string name = "part" + std::to_string(p * 7 % 5) + std::to_string(p) + (how == 3 ? ".json.gz" : ".json");
			named[name] = p;
			if (how == 3) gz(input + "/" + name, text); else write_file(input + "/" + name, text);
			}
		made n; n.text = m.text;
		for (auto &e : std::filesystem::directory_iterator(input))
			for (size_t i : part[named[e.path().filename().string()]]) { n.keys.push_back(m.keys[i]); n.counts.push_back(m.counts[i]); n.lengths.push_back(m.lengths[i]); }
		m = n;
		}
	/*
		the indexer
	*/
	int version = 1 + (int)g.draw(2);
	std::vector<std::vector<std::string>> options = {{version == 1 ? (g.flip() ? "-I1" : "--index_jass_v1") : (g.flip() ? "-I2" : "--index_jass_v2")}, {g.flip() ? "-f" : "--filename", input}};
	if (format == FASTA) options.push_back({g.flip() ? "-IF" : "--index_FASTA", std::to_string(k)});
	if (format == UNICOIL) options.push_back({g.flip() ? "-djc" : "--document_JSON_uniCOIL"});
	if (format == TREC && g.chance(1, 4)) options.push_back({"-dt"});
	if (stem) options.push_back({g.flip() ? "-tp" : "--term_steming_porter"});
	if (atire) options.push_back({g.flip() ? "-A" : "--atire"});
	auto alone = options;
	bool quiet = g.flip(), often = g.chance(1, 4);
	if (quiet) options.push_back({g.flip() ? "-q" : "--nologo"});
	if (often) options.push_back({"-N", std::to_string(1 + g.draw(5))});
	bool binary = g.chance(1, 3), compiled = g.chance(1, 4), forward = g.chance(1, 3);
	if (binary) options.push_back({"-Ib"});
	if (compiled) options.push_back({"-Ic"});
	if (forward) options.push_back({"-If"});
	auto shuffled = [&](std::vector<std::vector<std::string>> o)
		{
		auto r = g.stream();
		if (g.flip()) for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
		std::vector<std::string> a; for (auto &x : o) for (auto &y : x) a.push_back(y);
		return a;
		};
	auto arguments = shuffled(options);
	std::string shown; for (auto &a : arguments) shown += a.substr(a.rfind('/') + 1) + " ";
	g.note("indexer", shown); g.note("input", pbt::show(m.text));
	std::string one = g.scratch() + "/one", two = g.scratch() + "/two";
	mkdir(one.c_str(), 0755);
	auto r = run_program(program("indexer"), arguments, one);
	FINE(r, "the indexer");
	uint64_t total = 0; for (auto x : m.lengths) total += x;
	REQUIRE(r.out.find("Documents:" + std::to_string(m.keys.size()) + "\n") != std::string::npos, "the indexer does not report " << m.keys.size() << " documents: " << pbt::show(r.out));
	REQUIRE(r.out.find("Terms    :" + std::to_string(total) + "\n") != std::string::npos, "the indexer does not report " << total << " terms: " << pbt::show(r.out));
	auto first = files_in(one);
	for (const char *n : {"CIvocab.bin", "CIvocab_terms.bin", "CIpostings.bin", "CIdoclist.bin"}) REQUIRE(first.count(n), "no file " << n);
	EQUAL(first.count("postings.bin"), (size_t)binary, "postings.bin");
	EQUAL(first.count("JASS_forward.index"), (size_t)forward, "JASS_forward.index");
	size_t again = g.draw(3);
	if (again)
		{
		/* over what is there, or elsewhere with nothing else asked for */
		std::string where = again == 1 ? one : two;
		mkdir(where.c_str(), 0755);
		r = run_program(program("indexer"), shuffled(again == 1 ? options : alone), where);
		FINE(r, "the indexer, again");
		auto second = files_in(where);
		for (auto &f : second) REQUIRE(first.count(f.first), "file " << f.first << " was not written the first time");
		if (again == 1) EQUAL(second.size(), first.size(), "number of files");
		for (auto &f : second) SAME_TEXT(f.second, first[f.first], "file " + f.first + (again == 1 ? " when indexed again" : " with no other exports"));
		}
	/*
		what it should hold
	*/
	world w; w.version = version;
	w.c.n = m.keys.size(); w.c.keys = m.keys; w.c.lengths.assign(1, 0);
	std::map<std::string, collection::list> lists;
	for (size_t d = 0; d < m.keys.size(); d++)
		{
		w.c.lengths.push_back(m.lengths[d] + atire);
		for (auto &x : m.counts[d]) { auto &l = lists[x.first]; l.name = x.first; l.docs.push_back((uint32_t)d + 1); l.values.push_back(x.second); }
		}
	for (auto &l : lists) w.c.terms.push_back(l.second);
	w.c = export_all(w.c, format == UNICOIL ? given : bm25, {});
	w.prepare();
	/*
		the searcher
	*/
	bool raw = format != TREC || g.chance(1, 4);
	size_t queries = g.size(1, 12), top = g.chance(1, 2) ? 10 : (size_t)g.edge(1, 100, {1, 2, w.c.n, w.c.n + 1}), threads = g.flip() ? 1 : 1 + g.draw(4), width = g.chance(1, 3) ? 1 + g.draw(10) : 0;
	bool topics = !raw && g.chance(1, 3);
	std::string file; std::vector<asked> all; std::set<std::string> ids;
	if (topics && g.flip()) file += "\n";
	for (size_t i = 0; i < queries; i++)
		{
		asked q;
		q.id = std::to_string(g.chance(1, 5) ? g.draw(100000) : i + 1) + (topics || g.chance(3, 4) ? "" : g.word(1, 3, "a-_"));
		if (!ids.insert(q.id).second) continue;
		size_t n = g.draw(8) + 1;
		for (size_t j = 0; j < n; j++)
			{
			std::string x = g.chance(1, 8) ? std::string("zzunknown") : words[g.draw(words.size())];
			q.words.push_back(stemmed(stem, x));
			}
		q.text = q.id; q.text += g.chance(1, 5) ? (g.flip() ? ":" : "\t") : " ";
		std::string body; auto r = g.stream();
		for (auto &x : q.words) body += (body.empty() ? "" : " ") + (raw ? x : shout(r, x));
		q.text += body;
		show_query(g, q);
		if (topics) file += "<top>\n<num> Number: " + q.id + "\n<title> " + body + "\n\n<desc> Description:\nnot this\n</top>\n";
		else file += q.text + (g.chance(1, 6) ? " " : "") + "\n";
		all.push_back(q);
		}
	if (!topics && g.chance(1, 4)) file.pop_back();
	write_file(home + "/queries", file);
	options.clear();
	options.push_back({g.flip() ? "-q" : "--queryfile", home + "/queries"});
	if (version == 2) options.push_back({g.flip() ? "-2" : "--v2_index"});
	if (raw) options.push_back({g.flip() ? "-a" : "--asciiparser"});
	if (top != 10 || g.chance(1, 4)) options.push_back({g.flip() ? "-k" : "--top-k", std::to_string(top)});
	if (threads != 1 || g.chance(1, 4)) options.push_back({g.flip() ? "-t" : "--threads", std::to_string(threads)});
	if (width) options.push_back({g.flip() ? "-w" : "--width", std::to_string(width)});
	if (g.chance(1, 8)) options.push_back({"-R", std::to_string(w.c.postings() + g.draw(2))});
	arguments = shuffled(options);
	shown.clear(); for (auto &a : arguments) shown += a.substr(a.rfind('/') + 1) + " ";
	g.note("searcher", shown);
	r = run_program(program("searcher"), arguments, one);
	FINE(r, "the searcher");
	std::map<std::string, std::string> by_query;
	{
	std::istringstream in(read_file(one + "/ranking.txt")); std::string l, last; std::set<std::string> done;
	while (getline(in, l))
		{
		std::string id = l.substr(0, l.find(' '));
		if (id != last) REQUIRE(done.insert(id).second, "the results of query " << id << " are not together");
		last = id;
		by_query[id] += l + "\n";
		}
	}
	size_t with_results = 0, many = 0;
	for (auto &q : all)
		{
		auto hits = hits_of(w, q.id, by_query[q.id]);
		auto wrong = compare(hits, scores_of(w, pieces_of(w, q)), top);
		REQUIRE(wrong.empty(), "query " << pbt::show(q.text) << ": " << wrong);
		with_results += !hits.empty(); many += hits.size() > 1;
		by_query.erase(q.id);
		}
	REQUIRE(by_query.empty(), "results of a query that was not asked: " << by_query.begin()->first);
	/* the statistics list each query once */
	std::string stats = read_file(one + "/JASSv2Stats.txt");
	for (auto &q : all)
		{
		std::string mark = "<id>" + q.id + "</id>"; size_t at = stats.find(mark);
		REQUIRE(at != std::string::npos && stats.find(mark, at + 1) == std::string::npos, "query " << q.id << " in " << pbt::show(stats));
		}
	g.label(format == TREC ? "TREC" : format == FASTA ? "FASTA" : how == 1 ? "uniCOIL gz" : "uniCOIL directory");
	if (with_results > 1 && many && w.c.n > 2) g.nontrivial();
	}

/* C30: the dump programs print what the index holds */
#include "spawn.h"
#include "exports.h"

RULE("indexes of 1-600 documents and 1-25 terms with any bytes in terms and keys, in either version and every codec, dumped with every combination of options; files of 0-40 lists of integers of any value; non-trivial when an index has a term with several impacts, one of them over 255 or for the first document, or a file has at least three lists, one empty or with a value over a million");
ASSUME_TEXT("no NUL in terms and primary keys");

PROPERTY(index_dump, 260, 12000, p.cpu_limit = 60;)
	{
	std::string home = g.scratch() + "/index";
	collection c;
	shape s; s.max_documents = 600; s.max_terms = 25;
	s.max_value = (uint32_t)g.pick({3, 40, 255, 256, 1023});
	c = make_collection(g, s);
	size_t version = 1 + g.draw(2);
	codex with = all_codices[g.draw(5)];
	{
	inside dir(home);
	exporter e = version == 1
		? exporter([&](size_t n) { return std::unique_ptr<JASS::index_manager::delegate>(new JASS::serialise_jass_v1(n, with, 1)); })
		: exporter([&](size_t n) { return std::unique_ptr<JASS::index_manager::delegate>(new JASS::serialise_jass_v2(n, with)); });
	c = export_all(c, g.weighted({2, 1}) ? bm25 : given, {e});
	}
	describe(g, c);
	bool atire = g.flip(), dictionary = g.chance(1, 3);
	g.note("version", version); g.note("codec", (char)with); g.note("-A", atire); g.note("-d", dictionary);
	std::vector<std::string> arguments;
	if (version == 2) arguments.push_back(g.flip() ? "-2" : "--index_v2");
	if (atire) arguments.push_back(g.flip() ? "-A" : "--ATIRE");
	if (dictionary) arguments.push_back(g.flip() ? "-d" : "--dictionary");
	if (arguments.size() > 1 && g.flip()) std::reverse(arguments.begin(), arguments.end());
	/*
		what it should print
	*/
	std::ostringstream want;
	if (!atire) want << (dictionary ? "\nDICTIONARY\n----------\n" : "\nPOSTINGS LISTS\n-------------\n");
	std::map<std::string, const collection::list *> sorted;
	for (auto &t : c.terms) sorted[t.name] = &t;
	bool interesting = false;
	for (auto &t : sorted)
		{
		want << t.first;
		std::map<uint32_t, std::vector<uint32_t>, std::greater<uint32_t>> segments;
		for (size_t i = 0; i < t.second->docs.size(); i++) segments[t.second->values[i]].push_back(t.second->docs[i] - 1);
		if (!dictionary)
			{
			want << ' ';
			for (auto &x : segments) for (auto d : x.second) want << '<' << d << ',' << x.first << '>';
			}
		want << '\n';
		if (segments.size() > 1 && (segments.begin()->first > 255 || t.second->docs[0] == 1)) interesting = true;
		}
	if (!atire && !dictionary)
		{
		want << "\nPRIMARY KEY LIST\n----------------\n";
		for (auto &k : c.keys) want << k << '\n';
		}
	auto r = run_program(program("dump"), arguments, home);
	FINE(r, "the dump program");
	SAME_TEXT(r.out, want.str(), "index dump");
	if (interesting) g.nontrivial();
	}

PROPERTY(integers_dump, 120, 6000, p.cpu_limit = 60;)
	{
	std::string home = g.scratch();
	size_t lists = g.size(0, 40);
	std::string file;
	auto put = [&](uint32_t v) { file.append((const char *)&v, 4); };
	std::ostringstream want;
	std::string name = g.flip() ? "postings.bin" : "other file";
	want << "Using:" << name << '\n';
	bool wide = false, empty = false;
	pbt::prng random = g.stream();
	for (size_t l = 0; l < lists; l++)
		{
		size_t n = g.chance(1, 6) ? 0 : g.size(1, 400);
		int bits = (int)g.range(1, 32);
		put((uint32_t)n);
		want << n << ':';
		for (size_t i = 0; i < n; i++)
			{
			uint32_t v = (uint32_t)(random.below(1ull << bits));
			if (i == 0 && g.chance(1, 8)) v = 0xFFFFFFFF;
			if (v > 1000000) wide = true;
			put(v);
			want << v << ' ';
			}
		empty |= n == 0;
		want << '\n';
		}
	g.note("lists", lists);
	write_file(home + "/" + name, file);
	auto r = run_program(program("integers"), {name}, home);
	FINE(r, "the dump program");
	SAME_TEXT(r.out, want.str(), "dump of integers");
	if (lists >= 3 && (wide || empty)) g.nontrivial();
	}

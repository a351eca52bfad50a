/* C36: the eCommerce converters and the codec checker's reports */
#include "spawn.h"
#include <set>

RULE("up to 5 reports of 1-200 lengths each, and 1-6 files of up to 200,000 bytes to checksum (non-trivial when a length has an even and another an odd number of times, or a file is over 10,000 bytes); price lists of 1-60 items, and tables of judgements and of results with 1-8 queries over some of the items, in any order of rows and columns, with any line ending; non-trivial when an item has two different judgements or a result is also in the training data");
ASSUME_TEXT("every row has one cell for each column; identifiers under 2^31; the first column is not a query; the codec checker has a known finding that every run of it shows, so it is run on that input only");

struct table { std::vector<int> queries, documents; std::map<std::pair<int, int>, int> cells; std::string text; };

static std::string line_end(pbt::gen &g) { return g.pick({std::string("\n"), std::string("\n"), std::string("\r\n"), std::string("\n\n")}); }
static std::vector<int> some_ids(pbt::gen &g, size_t n, int shape)
	{
	std::set<int> s; std::vector<int> out;
	auto r = g.stream();
	while (s.size() < n)
		{
		int id = shape == 0 ? (int)s.size() + 1 : shape == 1 ? (int)r.below(200) : (int)r.below(1 + r.below(0x7fffffff));
		if (s.insert(id).second) out.push_back(id);
		}
	if (g.flip()) for (size_t i = out.size(); i > 1; i--) std::swap(out[i - 1], out[r.below(i)]);
	return out;
	}
static table make_table(pbt::gen &g, const std::vector<int> &queries, const std::vector<int> &documents, size_t ones, size_t minus)
	{
	table t;
	t.queries = queries; t.documents = documents;
	std::string end = line_end(g);
	auto r = g.stream();
	t.text = "docid";
	for (auto q : queries) t.text += "\t" + std::to_string(q);
	t.text += end;
	for (size_t i = 0; i < documents.size(); i++)
		{
		t.text += std::to_string(documents[i]);
		for (auto q : queries)
			{
			size_t x = r.below(10);
			int v = x < ones ? 1 : x < ones + minus ? -1 : 0;
			t.text += "\t" + std::to_string(v);
			if (v) t.cells[{documents[i], q}] = v;
			}
		if (i + 1 < documents.size() || g.flip()) t.text += end;
		}
	return t;
	}

struct price_list { std::vector<int> ids; std::map<int, double> price; std::map<int, std::string> said; std::string text; };
static price_list make_prices(pbt::gen &g)
	{
	price_list p;
	p.ids = some_ids(g, g.size(1, 60), (int)g.draw(3));
	std::string end = line_end(g);
	auto r = g.stream();
	bool few = g.flip();
	p.text = "docid\tprice\ttitle" + end;
	for (auto id : p.ids)
		{
		uint64_t cents = few ? 100 * (1 + r.below(4)) : r.below(10000000);
		char s[64]; snprintf(s, sizeof(s), "%llu.%02llu", (unsigned long long)cents / 100, (unsigned long long)cents % 100);
		p.said[id] = s; p.price[id] = (double)cents;
		std::string shown = s;
		if (r.below(3) == 0) while (shown.back() == '0' || shown.back() == '.') { bool dot = shown.back() == '.'; shown.pop_back(); if (dot) break; }
		p.text += std::to_string(id) + "\t" + shown + (g.chance(1, 4) ? "" : "\ta 3 kg box\t9.99") + end;
		}
	return p;
	}

PROPERTY(judgements, 400, 20000, p.cpu_limit = 60;)
	{
	auto prices = make_prices(g);
	std::vector<int> documents;
	for (auto id : prices.ids) if (g.chance(9, 10)) documents.push_back(id);
	auto queries = some_ids(g, g.size(1, 8), (int)g.draw(3));
	auto t = make_table(g, queries, documents, g.draw(5), g.draw(5));
	g.note("prices", pbt::show(prices.text)); g.note("judgements", pbt::show(t.text));
	std::string home = g.scratch() + "/work";
	mkdir(home.c_str(), 0755);
	write_file(home + "/documents", prices.text); write_file(home + "/judgements", t.text);
	std::string want;
	for (auto id : prices.ids) want += "PRICE 0 " + std::to_string(id) + " " + prices.said[id] + "\n";
	std::sort(queries.begin(), queries.end()); std::sort(documents.begin(), documents.end());
	bool both = false, yes = false, no = false;
	for (auto q : queries)
		for (auto d : documents)
			{
			auto x = t.cells.find({d, q});
			if (x == t.cells.end()) continue;
			want += std::to_string(q) + " 0 " + std::to_string(d) + (x->second == 1 ? " 1\n" : " 0\n");
			(x->second == 1 ? yes : no) = true;
			}
	both = yes && no;
	auto r = run_program(program("assessments"), {"documents", "judgements"}, home);
	FINE(r, "the converter of judgements");
	SAME_TEXT(r.out, want, "judgements");
	g.nontrivial(both);
	}

PROPERTY(results, 400, 20000, p.cpu_limit = 60;)
	{
	auto prices = make_prices(g);
	std::vector<int> documents;
	for (auto id : prices.ids) if (g.chance(9, 10)) documents.push_back(id);
	auto queries = some_ids(g, g.size(1, 8), (int)g.draw(3));
	auto run = make_table(g, queries, documents, 1 + g.draw(8), g.draw(2));
	std::vector<int> training_documents, training_queries;
	for (auto d : prices.ids) if (g.flip()) training_documents.push_back(d);
	for (auto q : queries) if (g.chance(3, 4)) training_queries.push_back(q);
	auto training = make_table(g, training_queries, training_documents, g.draw(4), g.draw(4));
	g.note("prices", pbt::show(prices.text)); g.note("run", pbt::show(run.text)); g.note("training", pbt::show(training.text));
	std::string home = g.scratch() + "/work", name = g.word(1, 12, "abcXYZ019_-");
	mkdir(home.c_str(), 0755);
	write_file(home + "/documents", prices.text); write_file(home + "/training", training.text); write_file(home + "/run", run.text);
	std::string want; bool removed = false;
	for (auto q : queries)
		{
		std::vector<std::pair<double, int>> found;
		for (auto d : documents)
			{
			auto x = run.cells.find({d, q});
			if (x == run.cells.end() || x->second != 1) continue;
			if (training.cells.count({d, q})) removed = true; else found.push_back({prices.price[d], d});
			}
		std::sort(found.begin(), found.end());
		for (size_t i = 0; i < found.size(); i++) want += std::to_string(q) + " Q0 " + std::to_string(found[i].second) + " " + std::to_string(i + 1) + " " + std::to_string(found.size() - i) + " " + name + "\n";
		}
	auto r = run_program(program("run"), {"documents", "training", "run", name}, home);
	FINE(r, "the converter of results");
	SAME_TEXT(r.out, want, "run");
	g.nontrivial(removed && want.size());
	}

/* every run of the codec checker has these defects (see DESIGN.md), so only this input is tried */
KNOWN_FINDING(C36_checker_longest_list, "the codec checker writes past its arrays for the longest list and leaves it out of its report: one list holding 1, 2, 3")
	{
	std::string home = g.scratch() + "/work";
	mkdir(home.c_str(), 0755);
	uint32_t list[] = {3, 1, 2, 3};
	write_file(home + "/postings", std::string((char *)list, sizeof(list)));
	auto out = run_program(program("check"), {"-f", "postings", "-cn", "-t", "1"}, home, "", 120);
	FINE(out, "the codec checker");
	REQUIRE(out.out.find("\n3 ") != std::string::npos, "no line for the lists of 3 documents: " << pbt::show(out.out));
	}

/* several of its reports put together */
PROPERTY(averages, 400, 12000)
	{
	std::string home = g.scratch() + "/work";
	mkdir(home.c_str(), 0755);
	std::map<size_t, std::vector<uint64_t>> times; std::map<size_t, size_t> bytes;
	size_t reports = 1 + g.draw(5);
	std::vector<std::string> arguments;
	uint64_t most = g.pick({(uint64_t)3, (uint64_t)1000, (uint64_t)1 << 40});
	auto r = g.stream();
	g.note("reports", reports); g.note("most", most);
	for (size_t i = 0; i < reports; i++)
		{
		std::string end = line_end(g), text = g.chance(1, 4) ? "Total terms:17" + end : "";
		text += "length DecompressTimeInNanoseconds CompressedSizeInBytes" + end;
		size_t lines = g.size(0, 200), spread = 1 + g.draw(300);
		for (size_t l = 0; l < lines; l++)
			{
			size_t length = 1 + r.below(spread) * (1 + r.below(3));
			uint64_t t = r.below(most);
			size_t size = bytes.emplace(length, 1 + r.below(5 * length)).first->second;
			times[length].push_back(t);
			text += std::to_string(length) + " " + std::to_string(t) + " " + std::to_string(size) + (l + 1 == lines && g.flip() ? "" : end);
			}
		if (g.chance(1, 4)) text += (text.back() == '\n' ? "" : end) + "DONE" + end;
		std::string name = "report" + std::to_string(i);
		write_file(home + "/" + name, text); arguments.push_back(name);
		}
	std::ostringstream want; bool odd = false, even = false;
	want << "length Bytes MinNano MeanNano MedNano MaxNano SortedRawNano...\n";
	for (auto &[length, t] : times)
		{
		std::sort(t.begin(), t.end());
		unsigned __int128 sum = 0; for (auto x : t) sum += x;
		size_t n = t.size(); (n % 2 ? odd : even) = true;
		want << length << ' ' << bytes[length] << ' ' << t[0] << ' ' << (uint64_t)(sum / n) << ' ' << (n % 2 ? t[n / 2] : (t[n / 2 - 1] + t[n / 2]) / 2) << ' ' << t[n - 1];
		for (auto x : t) want << ' ' << x;
		want << '\n';
		}
	auto out = run_program(program("average"), arguments, home);
	FINE(out, "averaging the reports");
	SAME_TEXT(out.out, want.str(), "the averages");
	g.nontrivial(odd && even);
	}

PROPERTY(checksums, 300, 12000)
	{
	std::string home = g.scratch() + "/work", want = "Fletcher 16 Checksum\n";
	mkdir(home.c_str(), 0755);
	size_t files = 1 + g.draw(6); bool big = false;
	std::vector<std::string> arguments;
	auto r = g.stream();
	for (size_t i = 0; i < files; i++)
		{
		size_t n = g.edge(0, 200000, {0, 1, 20, 255, 256, 5801, 5802, 5803, 65536}); unsigned kind = (unsigned)g.draw(3);
		g.note("length", n);
		std::string s(n, '\xff');
		for (auto &c : s) if (kind) c = (char)(kind == 1 ? r.below(256) : 'a' + r.below(20));
		uint64_t a = 0, b = 0;
		for (uint8_t c : s) { a = (a + c) % 255; b = (b + a) % 255; }
		std::string name = "f" + std::to_string(i);
		write_file(home + "/" + name, s); arguments.push_back(name);
		char line[100]; snprintf(line, sizeof(line), "0x%04X : %s\n", (unsigned)(b << 8 | a), name.c_str());
		want += line; big = big || n > 10000;
		}
	auto out = run_program(program("hash"), arguments, home);
	FINE(out, "checksumming");
	SAME_TEXT(out.out, want, "the checksums");
	g.nontrivial(big);
	}

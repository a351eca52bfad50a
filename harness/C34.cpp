/* C34: topic files and judged runs, as the command-line tools read them */
#include "spawn.h"
#include "ref_evaluate.h"
#include "parser.h"
#include "channel_trec.h"
#include <boost/math/distributions/students_t.hpp>
#include "channel_file.h"
#include "channel_buffer.h"

RULE("topic files of 0-12 topics in both TREC layouts, with fields on one line or many, closed or not, and any of the field sets; assessment files and 1-3 run files in any line order, with and without prices, through every reporting option; non-trivial when at least two topics have text in a field that is asked for and in one that is not, or at least two queries have a relevant document found");
ASSUME_TEXT("tags are lower case and a topic starts on a line of its own; ranks within a query of a run are distinct; every run has at least one line and there is at least one assessment");

/*
	topics
*/
static std::string number_text(pbt::gen &g, uint64_t n) { return (g.chance(1, 6) ? std::string(g.size(1, 3), '0') : "") + std::to_string(n); }
/* words that the query is made of, and how they look in the file */
static std::string text(pbt::gen &g, std::string &into, bool lines, bool digits)
	{
	std::string out;
	auto r = g.stream();
	size_t words = g.size(0, 12);
	for (size_t i = 0; i < words; i++)
		{
		std::string w;
		if (digits && r.below(5) == 0) w = std::to_string(r.below(r.below(2) ? 100 : 100000000));
		else for (size_t n = 1 + r.below(8); n-- > 0;) { char c = (char)('a' + r.below(26)); w += c; }
		bool accents = r.below(20) == 0;
		into += accents ? "ete " : w + " ";				// accents are folded away
		if (accents) w = "\xC3\xA9t\xC3\x89";
		if (r.below(3) == 0 && w[0] >= 'a' && w[0] <= 'z') w[0] = (char)(w[0] - 32);
		if (r.below(30) == 0) out += "\"";
		out += w;
		static const char *gaps[] = {" ", " ", " ", " ", ", ", ".  ", "-", "\t", "? ", " (", ") ", "; "};
		if (lines && r.below(8) == 0) out += r.below(3) ? "\n" : "\n\n  ";
		else out += gaps[r.below(12)];
		}
	return out;
	}

struct topics { std::string file; std::vector<std::string> queries; size_t mixed = 0; };
static topics make_topics(pbt::gen &g, const std::string &tags)
	{
	topics t;
	size_t n = g.size(0, 12);
	bool clueweb = g.flip(), closed = g.flip(), one_line = g.chance(1, 4), digits = g.flip();
	std::string indent = g.chance(1, 4) ? "\t" : "";
	uint64_t number = g.pick({(uint64_t)1, (uint64_t)51, (uint64_t)701, (uint64_t)20202020, (uint64_t)4000000000ull});
	if (g.chance(1, 6)) t.file += "\n";
	if (clueweb && g.flip()) t.file += "<webtrack2009>\n\n";
	std::string gap = one_line ? " " : "\n";
	for (size_t i = 0; i < n; i++)
		{
		number += g.chance(1, 4) ? g.draw(1000) : 1;
		std::string answer = std::to_string(number) + " ";
		if (clueweb)
			t.file += indent + "<topic number=\"" + number_text(g, number) + "\"" + g.pick({std::string(""), std::string(" type=\"faceted\""), std::string(" type='single'")}) + ">" + gap;
		else
			{
			if (!one_line || g.flip()) t.file += indent + "<top>" + gap;
			t.file += indent + g.pick({std::string("<num> Number: "), std::string("<num>"), std::string("<num> "), std::string("<num> Topic no. ")}) + number_text(g, number) + (closed ? " </num>" : "") + gap;
			}
		std::vector<std::pair<std::string, char>> fields;
		if (clueweb) fields = {{"query", 'q'}, {"description", 'd'}};
		else fields = {{"title", 't'}, {"desc", 'd'}, {"narr", 'n'}};
		if (g.chance(1, 4)) fields.push_back({g.pick({std::string("subtopic number=\"1\" type=\"nav\""), std::string("con"), std::string("smry"), std::string("titles"), std::string("numb"), std::string("t"), std::string("que")}), '-'});
		if (g.chance(1, 4)) { auto r = g.stream(); for (size_t k = fields.size(); k > 1; k--) std::swap(fields[k - 1], fields[r.below(k)]); }
		if (g.chance(1, 8)) fields.pop_back();
		bool wanted = false, unwanted = false;
		for (auto &f : fields)
			{
			bool asked = tags.find(f.second) != std::string::npos;
			std::string words, shown;
			if (f.second == 'd' && !clueweb && g.flip()) { shown += "Description: "; words += "description "; }
			if (f.second == 't' && g.chance(1, 4)) { shown += "Topic: "; words += "topic "; }
			shown += text(g, words, !one_line, digits && !(clueweb && one_line));
			(asked ? wanted : unwanted) |= !words.empty();
			if (asked) answer += words;
			t.file += indent + "<" + f.first + ">" + (one_line || g.flip() ? " " : "\n") + shown;
			if (closed) t.file += "</" + f.first.substr(0, f.first.find(' ')) + ">";
			t.file += gap;
			}
		t.mixed += wanted && unwanted;
		if (closed || g.flip()) t.file += indent + (clueweb ? "</topic>" : "</top>");
		t.file += g.flip() ? "\n\n" : "\n";
		t.queries.push_back(answer);
		}
	if (!t.file.empty() && g.chance(1, 4)) while (!t.file.empty() && t.file.back() == '\n') t.file.pop_back();
	g.note("tags", tags); g.note("file", pbt::show(t.file));
	if (t.mixed >= 2) g.nontrivial();
	return t;
	}

PROPERTY(topic_reader, 20000, 1000000)
	{
	std::string tags;
	for (char c : std::string("tdnq")) if (g.flip()) tags += c;
	if (tags.empty()) tags = g.pick({std::string("t"), std::string("tq"), std::string("q"), std::string("")});
	auto t = make_topics(g, tags);
	std::unique_ptr<JASS::channel> from;
	if (g.chance(1, 8)) { std::string name = g.scratch() + "/topics"; write_file(name, t.file); from.reset(new JASS::channel_file(name)); }
	else
		{
		std::shared_ptr<char> copy(new char[t.file.size() + 1], [](char *p) { delete [] p; });
		memcpy(copy.get(), t.file.c_str(), t.file.size() + 1);
		from.reset(new JASS::channel_buffer(copy));
		}
	JASS::channel_trec reader(from, tags);
	std::string line;
	for (size_t i = 0; i < t.queries.size(); i++)
		{
		reader.gets(line);
		EQUAL(pbt::show(line), pbt::show(t.queries[i]), "topic " << i);
		}
	for (int i = 0; i < 2; i++) { reader.gets(line); EQUAL(pbt::show(line), pbt::show(""), "after the last topic"); }
	}

PROPERTY(topic_program, 150, 5000, p.cpu_limit = 60;)
	{
	auto t = make_topics(g, "t");
	std::string home = g.scratch() + "/run";
	mkdir(home.c_str(), 0755);
	write_file(home + "/topics", t.file);
	auto r = run_program(program("topics"), {"topics"}, home);
	FINE(r, "trec_to_query");
	std::string want;
	for (auto &q : t.queries) want += q + "\n";
	SAME_TEXT(r.out, want + "\n", "queries");
	}

/*
	runs
*/
static const std::vector<std::string> names = {"Mean Reciprocal Rank (MRR)", "Mean Reciprocal Rank for k(MRR4K)", "Precision (P)", "Recall (R)", "Expected Search Length (ESL)", "F1 (F1)",
	"Precision at 5 (P@5)", "Precision at 10 (P@10)", "Precision at 15 (P@15)", "Precision at 20 (P@20)", "Precision at 30 (P@30)", "Precision at 100 (P@100)", "Precision at 200 (P@200)", "Precision at 500 (P@500)", "Precision at 1000 (P@1000)",
	"Recall at 5 (R@5)", "Recall at 10 (R@10)", "Recall at 15 (R@15)", "Recall at 20 (R@20)", "Recall at 30 (R@30)", "Recall at 100 (R@100)", "Recall at 200 (R@200)", "Recall at 500 (R@500)", "Recall at 1000 (R@1000)",
	"F1 at 5 (F1@5)", "F1 at 10 (F1@10)", "F1 at 15 (F1@15)", "F1 at 20 (F1@20)", "F1 at 30 (F1@30)", "F1 at 100 (F1@100)", "F1 at 200 (F1@200)", "F1 at 500 (F1@500)", "F1 at 1000 (F1@1000)",
	"Mean Average Precision (MAP)", "Rank Biased Precision (RBP)", "Geometric MAP (GMAP)", "Cheapest Precision (PC)", "Selling Power (SP)", "Buying Power (BP)", "Buying Power for k (BP4K)",
	"Price Based Normalized Discounted Cumulative Gain (PBnDCG)", "Buying Power Normalized Discounted Cumulative Gain (BPnDCG)"};
static const size_t GMAP = 35, PBNDCG = 40, SP = 37, MRR4K = 1;

struct report { std::string query, run; std::vector<long long> counts; std::vector<double> scores; bool close = false; };
static bool parse_reports(const std::string &out, std::vector<report> &into, std::string &why)
	{
	std::istringstream in(out); std::string line;
	auto value = [&](const std::string &name, std::string &v)
		{
		size_t at = line.find(": ", name.size());
		if (line.compare(0, name.size(), name) != 0 || at == std::string::npos || line.find_first_not_of(' ', name.size()) != at) { why = "expected " + name + " in " + line; return false; }
		v = line.substr(at + 2);
		return true;
		};
	while (getline(in, line))
		{
		report r; std::string v;
		if (!value("QUERY ID", r.query)) return false;
		getline(in, line); if (!value("RUN ID", r.run)) return false;
		for (const char *n : {"Number of Queries", "Number Relevant", "Number of Results Returned", "Number Relevant Returned"})
			{ getline(in, line); if (!value(n, v)) return false; r.counts.push_back(atoll(v.c_str())); }
		for (auto &n : names) { getline(in, line); if (!value(n, v)) return false; r.scores.push_back(atof(v.c_str())); }
		getline(in, line); if (!line.empty()) { why = "expected a blank line, got " + line; return false; }
		into.push_back(r);
		}
	return true;
	}

PROPERTY(eval_program, 500, 20000, p.cpu_limit = 60;)
	{
	world w = make(g);
	if (w.qrels.empty()) return g.label("nothing judged");
	bool prices = g.flip();
	std::string home = g.scratch() + "/eval";
	mkdir(home.c_str(), 0755);
	std::string qrels = w.qrels;
	if (prices) qrels = w.prices + (w.prices.back() == '\n' ? "" : "\n") + qrels;
	write_file(home + "/qrels", qrels);
	if (!prices) w.price.clear();
	/*
		options
	*/
	size_t depth = g.chance(1, 2) ? NONE : g.pick({(size_t)1, (size_t)2, (size_t)5, (size_t)10, (size_t)15, (size_t)20, (size_t)30, (size_t)100, (size_t)200, (size_t)500, (size_t)1000});
	size_t k = g.chance(1, 2) ? 10 : 1 + g.draw(4);
	double patience = g.chance(1, 2) ? 0.95 : g.pick({0.5, 0.8, 0.25, 0.99});
	bool each = g.flip(), zeroless = g.chance(1, 3);
	/*
		runs
	*/
	bool test = g.chance(1, 3), correlate = g.chance(1, 3);
	size_t how_many = 1 + (test || correlate ? 1 + g.draw(4) : g.weighted({4, 1, 1})), found_queries = 0;
	std::vector<std::string> files;
	std::map<std::string, std::map<std::string, list>> runs;
	std::map<std::string, std::string> tag;
	bool tied = false;
	for (size_t n = 0; n < how_many; n++)
		{
		std::string name = "run" + std::to_string(n) + g.word(0, 2, "ab.");
		while (runs.count(name)) name += "x";
		files.push_back(name);
		tag[name] = g.pick({std::string("JASSv2"), std::string("JASSv2(ID:0->12)"), std::string("my run"), std::string("x")});
		std::vector<std::string> lines;
		size_t order = g.weighted({3, 2, 2}), column = g.weighted({4, 1});
		auto r = g.stream();
		for (auto &q : w.queries)
			{
			list l = results(g, w);
			if (g.chance(1, 8)) l.clear();
			if (l.empty()) continue;
			runs[name][q] = l;
			size_t base = r.below(2), step = column ? 1 + r.below(3) : 1;
			double score = 1000 + (double)r.below(1000);
			for (size_t i = 0; i < l.size(); i++)
				{
				score -= (double)r.below(3);
				std::ostringstream o;
				std::string gap = r.below(20) ? " " : "  ";
				o << (r.below(30) ? "" : " ") << q << gap << "Q0" << gap << l[i] << gap << base + i * step << gap << score << gap << tag[name];
				lines.push_back(o.str());
				}
			}
		if (lines.empty()) { runs[name][w.queries[0]] = {w.docs[0]}; lines.push_back(w.queries[0] + " Q0 " + w.docs[0] + " 1 5 " + tag[name]); }
		if (order == 1) for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[r.below(i)]);
		if (order == 2) std::reverse(lines.begin(), lines.end());
		g.label(order == 0 ? "run in order" : order == 1 ? "run shuffled" : "run reversed");
		std::string text;
		for (auto &l : lines) text += l + (r.below(50) ? "\n" : "\n\n");
		if (g.chance(1, 5)) while (text.back() == '\n') text.pop_back();
		write_file(home + "/" + name, text);
		g.note("run", name); g.note("lines", pbt::show(text));
		}
	(void)tied;
	std::vector<std::string> arguments = {g.flip() ? "-a" : "--assesmentfile", "qrels", g.flip() ? "-r" : "--runfile"};
	std::string joined; for (auto &f : files) joined += (joined.empty() ? "" : ",") + f;
	arguments.push_back(joined);
	if (depth != NONE) { arguments.push_back("-n"); arguments.push_back(std::to_string(depth)); }
	if (k != 10) { arguments.push_back("-k"); arguments.push_back(std::to_string(k)); }
	if (patience != 0.95) { arguments.push_back("-P"); std::ostringstream o; o << patience; arguments.push_back(o.str()); }
	if (each) arguments.push_back("-p");
	if (zeroless) arguments.push_back("-Z");
	if (test) arguments.push_back(g.flip() ? "-t" : "--ttest");
	if (correlate) arguments.push_back(g.flip() ? "-s" : "--spearman");
	std::string command; for (auto &a : arguments) command += a + " ";
	g.note("arguments", command); g.note("assessments", pbt::show(qrels));
	/*
		what it should say
	*/
	std::vector<report> want_each, want_mean;
	std::sort(files.begin(), files.end());
	for (auto &f : files)
		{
		report mean; mean.query = "Averages"; mean.run = tag[f];
		mean.query = f; mean.counts.assign(4, 0); mean.scores.assign(names.size(), 0);
		for (auto &[q, l] : runs[f])
			{
			report one; one.query = q; one.run = tag[f];
			oracle o{w, q, l, depth};
			one.counts = {1, (long long)w.relevant(q), (long long)l.size(), (long long)oracle{w, q, l, NONE}.found()};
			if (one.counts[3] > 0) found_queries++;
			oracle all{w, q, l, NONE};
			one.scores = {o.rr(), o.rr4k(k), all.precision(), all.recall(), o.esl(), all.f()};
			const size_t cuts[] = {5, 10, 15, 20, 30, 100, 200, 500, 1000};
			for (size_t c : cuts) one.scores.push_back(oracle{w, q, l, c}.precision());
			for (size_t c : cuts) one.scores.push_back(oracle{w, q, l, c}.recall());
			for (size_t c : cuts) one.scores.push_back(oracle{w, q, l, c}.f());
			one.scores.push_back(o.ap());
			one.scores.push_back(o.rbp(patience));
			one.scores.push_back(o.ap() == 0 ? 0 : log(o.ap()));
			if (prices) { bool close = false; for (double s : {o.cheapest(), o.sp(), o.bp(), o.bp4k(k), o.pbndcg(close), o.bpndcg()}) one.scores.push_back(s); one.close = close; mean.close |= close; }
			else for (int i = 0; i < 6; i++) one.scores.push_back(0);
			for (size_t i = 0; i < 4; i++) mean.counts[i] += one.counts[i];
			for (size_t i = 0; i < names.size(); i++) mean.scores[i] += one.scores[i];
			want_each.push_back(one);
			}
		double over = zeroless ? (double)runs[f].size() : (double)w.judged.size();
		for (auto &s : mean.scores) s /= over;
		mean.scores[GMAP] = exp(mean.scores[GMAP]);
		want_mean.push_back(mean);
		}
	if (found_queries >= 2) g.nontrivial();
	auto r = run_program(program("eval"), arguments, home);
	FINE(r, "JASS_eval");
	std::vector<report> got; std::string why;
	std::string text = r.out, tables;
	size_t tables_at = std::min(text.find("t-test"), text.find("Spearman"));
	if (tables_at != std::string::npos) { tables = text.substr(tables_at); text.resize(tables_at); }
	REQUIRE(parse_reports(text, got, why), "report not understood: " << why);
	std::vector<report> want;
	if (each) want = want_each;
	for (auto &m : want_mean) want.push_back(m);
	EQUAL(got.size(), want.size(), "number of reports");
	for (size_t n = 0; n < want.size(); n++)
		{
		bool mean = n >= want.size() - want_mean.size();
		std::string where = (mean ? "averages of " : "query ") + want[n].query;
		/* the averages are labelled with the file and the word Averages, or the run: not pinned down */
		if (!mean) { EQUAL(got[n].query, want[n].query, "query id of report " << n); EQUAL(got[n].run, want[n].run, "run id of report " << n); }
		for (size_t i = 0; i < 4; i++) EQUAL(got[n].counts[i], want[n].counts[i], "count " << i << " of " << where);
		for (size_t i = 0; i < names.size(); i++)
			{
			if (i == PBNDCG && want[n].close) continue;
			double tolerance = 0.0001 + 1e-9 * fabs(want[n].scores[i]);
			REQUIRE(fabs(got[n].scores[i] - want[n].scores[i]) <= tolerance, names[i] << " of " << where << ": got " << got[n].scores[i] << " expected " << want[n].scores[i]);
			}
		}
	/*
		the tables that compare the runs
	*/
	std::istringstream in(tables); std::string line;
	auto packed = [](const std::string &t) { std::string o; for (char c : t) if (c != ' ') o += c; return o; };
	auto row = [&](const std::string &name, std::vector<std::string> &cells)
		{
		REQUIRE(bool(getline(in, line)), "the row of " << name << " is missing");
		size_t at = line.find_first_not_of(' ');
		REQUIRE(at != std::string::npos && line.compare(at, name.size(), name) == 0, "expected the row of " << name << ", got " << pbt::show(line));
		std::istringstream rest(line.substr(at + name.size())); std::string cell;
		cells.clear(); while (rest >> cell) cells.push_back(cell);
		};
	std::string heads; for (auto &f : files) heads += packed(tag[f]);
	if (test && files.size() > 1)
		{
		std::vector<std::pair<std::string, size_t>> metrics = {{names[0], 0}, {names[5], 5}, {names[28], 28}, {names[33], 33}};
		if (prices) for (size_t i : {36, 37, 38, 39}) metrics.push_back({names[i], i});
		std::map<std::string, std::map<std::string, const report *>> by;
		size_t n = 0;
		for (auto &f : files) for (auto &[q, l] : runs[f]) by[f][q] = &want_each[n++];
		for (auto &[name, m] : metrics)
			{
			REQUIRE(bool(getline(in, line)), "the t-test of " << name << " is missing");
			EQUAL(line, "t-test (1-tail, paired) matrix of p values for " + name, "title of the t-test");
			REQUIRE(bool(getline(in, line)), "no column names");
			EQUAL(packed(line), heads, "column names of the t-test");
			std::vector<std::string> cells;
			for (auto &a : files)
				{
				row(tag[a], cells);
				EQUAL(cells.size(), files.size(), "columns of the t-test of " << name << ": " << pbt::show(line));
				for (size_t c = 0; c < files.size(); c++)
					{
					auto &b = files[c];
					std::vector<double> one, two; bool close = false;
					for (auto &[q, x] : by[a]) { auto y = by[b].find(q); if (y != by[b].end()) { one.push_back(x->scores[m]); two.push_back(y->second->scores[m]); close |= x->close | y->second->close; } }
					size_t pairs = one.size();
					char *end; double said = strtod(cells[c].c_str(), &end);
					if (pairs < 2) { REQUIRE(*end == 0 && said == 1, "p value of " << pairs << " pairs is " << cells[c] << " not 1"); continue; }
					long double mean = 0, var = 0, most = 0;
					for (size_t i = 0; i < pairs; i++) { mean += one[i] - two[i]; most = std::max(most, (long double)fabs(one[i] - two[i])); }
					mean /= pairs;
					for (size_t i = 0; i < pairs; i++) var += (one[i] - two[i] - mean) * (one[i] - two[i] - mean);
					var /= pairs - 1;
					if (a == b) { EQUAL(cells[c], "-", "p value of a run and itself"); continue; }
					if (!close && var > 1e-9)
						{
						double p = boost::math::cdf(boost::math::complement(boost::math::students_t_distribution<double>((double)pairs - 1), (double)fabsl(mean / sqrtl(var / pairs))));
						REQUIRE(*end == 0 && fabs(said - p) < 1e-4, "t-test of " << name << " over " << pairs << " queries of " << a << " and " << b << ": got " << cells[c] << " expected " << p);
						g.label("t-test");
						}
					}
				}
			REQUIRE(bool(getline(in, line)) && line.empty(), "no blank line after a t-test");
			}
		}
	if (correlate && files.size() > 1)
		{
		std::vector<size_t> over = {5, 33};
		const size_t cuts[] = {5, 10, 15, 20, 30, 100, 200, 500, 1000};
		size_t cut = std::find(cuts, cuts + 9, depth) - cuts;
		for (size_t x : cut < 9 ? std::vector<size_t>{6 + cut, 15 + cut, 24 + cut} : std::vector<size_t>{2, 3, 5}) over.push_back(x);
		if (prices) for (size_t x : {36, 37, 38, 39, 0, 1, 4, 34}) over.push_back(x);
		REQUIRE(bool(getline(in, line)), "the correlations are missing");
		EQUAL(line, "Spearman Correlation across metrics", "title of the correlations");
		std::string columns; for (auto x : over) columns += packed(names[x]);
		REQUIRE(bool(getline(in, line)), "no column names");
		EQUAL(packed(line), columns, "column names of the correlations");
		/* the ranks of a metric's averages, when no two are within rounding of each other (0 is exact) */
		auto ranked = [&](size_t m, std::vector<long double> &r)
			{
			bool same = true; r.clear();
			for (auto &x : want_mean)
				{
				long double less = 0, equal = 0;
				for (auto &y : want_mean)
					{
					double a = x.scores[m], b = y.scores[m];
					if (x.close || y.close) return false;
					if (&x == &y || (a == 0 && b == 0)) { equal++; continue; }
					if (fabs(a - b) <= 1e-9 * (1 + fabs(a))) return false;
					less += b < a;
					same = false;
					}
				r.push_back(less + (equal + 1) / 2);
				}
			return !same;
			};
		for (auto x : over)
			{
			std::vector<std::string> cells;
			row(names[x], cells);
			EQUAL(cells.size(), over.size(), "columns of the correlations: " << pbt::show(line));
			std::vector<long double> one, two;
			if (!ranked(x, one)) continue;
			for (size_t c = 0; c < over.size(); c++)
				{
				if (!ranked(over[c], two)) continue;
				long double ma = 0, mb = 0, ab = 0, aa = 0, bb = 0; size_t n = one.size();
				for (size_t i = 0; i < n; i++) { ma += one[i] / n; mb += two[i] / n; }
				for (size_t i = 0; i < n; i++) { ab += (one[i] - ma) * (two[i] - mb); aa += (one[i] - ma) * (one[i] - ma); bb += (two[i] - mb) * (two[i] - mb); }
				double rho = (double)(ab / sqrtl(aa * bb));
				char *end; double said = strtod(cells[c].c_str(), &end);
				REQUIRE(*end == 0 && fabs(said - rho) < 2e-4, "correlation of " << names[x] << " and " << names[over[c]] << ": got " << cells[c] << " expected " << rho);
				g.label("correlation");
				}
			}
		}
	REQUIRE(!getline(in, line), "more output: " << pbt::show(line));
	}

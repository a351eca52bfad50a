/* C26: the TREC run written from a result list, read back */
#include "pbt.h"
#include <sstream>
#include <memory>
#include "run_export.h"
#include "compress_integer_none.h"

RULE("result lists of 0-40 generated (id, key, score) rows with ties, given ascending or descending, with text or numeric query ids and generated tags; and updates of up to 2000 documents through a real top-k processor whose result list is exported after several rewinds; non-trivial: at least two results, not all of one score");
ASSUME_TEXT("query ids, keys and tags hold no white space; a processor is not exported for more than its number of documents; processors are initialised with k of at least 1");

struct row { size_t document_id; std::string primary_key; uint8_t rsv; };

class listed
	{
	public:
	std::vector<row> rows;
	auto begin() { return rows.begin(); }
	auto end() { return rows.end(); }
	auto rbegin() { return rows.rbegin(); }
	auto rend() { return rows.rend(); }
	};

static std::vector<std::vector<std::string>> read_back(const std::string &text)
	{
	std::vector<std::vector<std::string>> lines;
	size_t at = 0;
	while (at < text.size())
		{
		size_t end = text.find('\n', at);
		REQUIRE(end != text.npos, "the run does not end with a newline: " << pbt::show(text.substr(at)));
		std::vector<std::string> fields(1);
		for (size_t i = at; i < end; i++)
			if (text[i] == ' ') fields.push_back(""); else fields.back() += text[i];
		lines.push_back(fields);
		at = end + 1;
		}
	return lines;
	}

static void check(const std::string &text, const std::string &id, const std::vector<row> &want, const std::string &tag, bool internal)
	{
	auto lines = read_back(text);
	EQUAL(lines.size(), want.size(), "lines in the run");
	for (size_t i = 0; i < lines.size(); i++)
		{
		auto &f = lines[i];
		EQUAL(f.size(), (size_t)6, "columns in line " << i + 1 << " " << pbt::show(text));
		EQUAL(f[0], id, "query id in line " << i + 1);
		EQUAL(f[1], std::string("Q0"), "second column in line " << i + 1);
		EQUAL(f[2], want[i].primary_key, "document in line " << i + 1);
		EQUAL(f[3], std::to_string(i + 1), "rank in line " << i + 1);
		EQUAL(f[4], std::to_string((unsigned)want[i].rsv), "score in line " << i + 1);
		std::string t = tag;
		if (internal) t += "(ID:" + std::to_string(want[i].document_id) + "->" + std::to_string((unsigned)want[i].rsv) + ")";
		EQUAL(f[5], t, "tag in line " << i + 1);
		}
	}

static const char *printable = "abcXYZ0123456789-_.:/()\"%\\<>$*";

template <typename T> static std::string run(bool direct, const T &id, auto &list, const std::string &tag, bool internal, bool ascending, bool c_tag)
	{
	std::ostringstream out;
	if (direct) { if (c_tag) JASS::run_export_trec(out, id, list, tag.c_str(), internal, ascending); else JASS::run_export_trec(out, id, list, tag, internal, ascending); }
	else { if (c_tag) JASS::run_export(JASS::run_export::TREC, out, id, list, tag.c_str(), internal, ascending); else JASS::run_export(JASS::run_export::TREC, out, id, list, tag, internal, ascending); }
	return out.str();
	}

static std::string any_run(pbt::gen &g, const std::string &id, bool numeric, auto &list, const std::string &tag, bool internal, bool ascending)
	{
	bool direct = g.flip(), c_tag = g.flip();
	if (numeric) return run(direct, std::stoull(id), list, tag, internal, ascending, c_tag);
	if (g.flip()) return run(direct, id.c_str(), list, tag, internal, ascending, c_tag);
	return run(direct, id, list, tag, internal, ascending, c_tag);
	}

static std::string make_id(pbt::gen &g, bool &numeric)
	{
	numeric = g.flip();
	return numeric ? std::to_string(g.flip() ? g.draw(1000) : g.u64()) : g.word(1, 12, printable);
	}

PROPERTY(a_result_list_is_written_line_by_line, 30000, 400000)
	{
	listed l;
	size_t n = g.size(0, 40);
	std::set<std::string> keys;
	for (size_t i = 0; i < n; i++)
		{
		row r;
		r.document_id = g.flip() ? g.draw(1000) : g.draw(155000000);
		r.primary_key = g.word(1, 20, printable);
		r.rsv = (uint8_t)(g.flip() ? 1 + g.draw(3) : g.edge(1, 255, {1, 2, 9, 10, 13, 32, 99, 100, 127, 128, 255}));
		l.rows.push_back(r);
		}
	std::stable_sort(l.rows.begin(), l.rows.end(), [](auto &a, auto &b) { return a.rsv > b.rsv; });
	auto want = l.rows;
	bool ascending = g.flip(), internal = g.flip(), numeric;
	if (ascending) std::reverse(l.rows.begin(), l.rows.end());
	std::string id = make_id(g, numeric), tag = g.word(1, 15, printable);
	g.note("results", n); g.note("ascending", ascending);
	g.nontrivial(n >= 2 && want.front().rsv != want.back().rsv); g.label(n == 0 ? "empty" : n < 10 ? "under 10" : "10 or more");
	check(any_run(g, id, numeric, l, tag, internal, ascending), id, want, tag, internal);
	check(any_run(g, id, numeric, l, tag, internal, ascending), id, want, tag, internal);		// exporting does not use the list up
	}

/* the real result list: what the processor holds is what is written, nothing beyond what was found, nothing beyond k */
PROPERTY(a_processor_exports_its_top_k, 1500, 15000)
	{
	size_t n = g.size(1, 2000), k = g.flip() ? g.size(1, 20) : g.edge(1, 1000, {1, 2, 10, n, n > 1 ? n - 1 : 1, n + 1, 999, 1000});
	static std::unique_ptr<JASS::compress_integer_none> processor(new JASS::compress_integer_none);
	std::vector<std::string> keys;
	for (size_t i = 0; i < n; i++) keys.push_back("K" + std::to_string(i * 31 % 1009) + "." + std::to_string(i));
	processor->init(keys, n, k);
	size_t queries = 1 + g.draw(4);
	auto r = g.stream();
	bool good = false;
	for (size_t q = 0; q < queries; q++)
		{
		processor->rewind(1, 1, 255);
		std::map<size_t, unsigned> scores;
		size_t updates = g.size(0, g.flip() ? 30 : 3000);
		for (size_t u = 0; u < updates; u++)
			{
			size_t d = r.below(g.flip() ? n : std::min<size_t>(n, 25));
			unsigned s = 1 + r.below(20);
			if (scores[d] + s > 255) continue;
			scores[d] += s;
			uint32_t id = d;
			processor->decode_and_process(s, 1, &id, sizeof(id));
			}
		std::vector<unsigned> best;
		for (auto &p : scores) if (p.second) best.push_back(p.second);
		std::sort(best.rbegin(), best.rend());
		if (best.size() > k) best.resize(k);
		bool internal = g.flip(), numeric;
		std::string id = make_id(g, numeric), tag = g.word(1, 15, printable);
		std::string text = any_run(g, id, numeric, *processor, tag, internal, true);
		auto lines = read_back(text);
		EQUAL(lines.size(), best.size(), "lines in the run (k " << k << ", found " << scores.size() << ")");
		std::vector<row> want;
		std::set<size_t> seen;
		for (size_t i = 0; i < lines.size(); i++)
			{
			REQUIRE(lines[i].size() == 6, "columns: " << pbt::show(text));
			auto dot = lines[i][2].find('.');
			size_t d = dot == std::string::npos ? n : std::stoull(lines[i][2].substr(dot + 1));
			REQUIRE(d < n && keys[d] == lines[i][2], "document " << lines[i][2] << " is not in the collection");
			REQUIRE(seen.insert(d).second, "document " << d << " is listed twice");
			auto it = scores.find(d);
			REQUIRE(it != scores.end(), "document " << d << " was not found by the query but is listed");
			EQUAL(it->second, best[i], "score at rank " << i + 1);
			want.push_back({d, keys[d], (uint8_t)it->second});
			}
		check(text, id, want, tag, internal);
		if (lines.size() >= 2 && best.front() != best.back()) good = true;
		}
	g.nontrivial(good); g.label(k < 10 ? "k < 10" : "k >= 10");
	}

/* C27: importing a CIFF file gives the index the file describes */
#include "spawn.h"
#include "exports.h"

RULE("CIFF files of 1-400 documents and 1-25 terms (any bytes in terms and keys, fields in or out of order, default values written or left out, any header), imported in each mode into each index version; and the same with a field that is not in the format, a document out of order, a length that is too long, or cut short at any byte; non-trivial when several terms have several postings and there is more than one impact");
ASSUME_TEXT("frequencies from 1 to 1024, the largest impact; the header's number of documents and total are the same; no NUL in terms and keys");

static void varint(std::string &to, uint64_t v) { while (v >= 128) { to += (char)(v & 127 | 128); v >>= 7; } to += (char)v; }
struct message
	{
	bool terse; bool shuffle; pbt::prng &r;
	std::vector<std::string> fields;
	void number(int field, uint64_t v) { if (v == 0 && terse) return; std::string f; varint(f, field << 3); varint(f, v); fields.push_back(f); }
	void real(int field, double v) { std::string f; varint(f, field << 3 | 1); f.append((char *)&v, 8); fields.push_back(f); }
	void blob(int field, const std::string &v) { if (v.empty() && terse) return; std::string f; varint(f, field << 3 | 2); varint(f, v.size()); fields.push_back(f + v); }
	/* repeated fields stay in order among themselves */
	std::string bytes(size_t loose)
		{
		if (shuffle) for (size_t i = std::min(loose, fields.size()); i > 1; i--) std::swap(fields[i - 1], fields[r.below(i)]);
		std::string s; for (auto &f : fields) s += f;
		return s;
		}
	std::string delimited(size_t loose = 99) { std::string b = bytes(loose), s; varint(s, b.size()); return s + b; }
	};
enum wrong { nothing, header_field, list_field, posting_field, record_field, record_order, cut_short, overrun };

static std::string ciff(pbt::gen &g, const collection &c, wrong fault = nothing)
	{
	auto r = g.stream();
	bool terse = g.weighted({3, 1}) == 0, shuffle = g.chance(1, 4);
	g.note("fields", std::string(terse ? "defaults left out" : "all written") + (shuffle ? ", shuffled" : ""));
	auto make = [&] { return message{terse, shuffle, r, {}}; };
	/* a field the format does not have */
	auto spoil = [&](message &m)
		{
		switch (r.below(3))
			{
			case 0: m.number(9 + (int)r.below(7), 1 + r.below(1000)); break;
			case 1: { std::string f; varint(f, 2 << 3 | 5); m.fields.push_back(f + "abcd"); break; }
			default: m.number(12, 1ull << r.below(64)); break;
			}
		};
	std::string file;
	/* a string that says it is longer than what it is in */
	auto stretch = [&](message &m) { std::string f; varint(f, (m.fields.empty() ? 1 : 2) << 3 | 2); varint(f, r.below(2) ? 5 + r.below(100) : 1ull << (20 + r.below(44))); m.fields.push_back(f + "abc"); m.shuffle = false; };
	message h = make();
	h.number(1, g.pick({0, 1, 2})); h.number(2, c.terms.size()); h.number(3, c.n); h.number(4, g.flip() ? c.terms.size() : (uint64_t)g.draw(1000000)); h.number(5, c.n);
	uint64_t total = 0; for (auto l : c.lengths) total += l;
	h.number(6, g.flip() ? total : g.bits(62)); h.real(7, (double)total / (double)c.n);
	h.blob(8, g.pick({std::string(""), std::string("an index"), std::string(300, 'd')}));
	if (fault == header_field) spoil(h);
	size_t place = r.below(3);
	if (fault == overrun && place == 0) { std::string f; varint(f, 8 << 3 | 2); varint(f, 5 + r.below(1 << 20)); h.fields.push_back(f + "abc"); h.shuffle = false; }
	file += h.delimited();
	size_t where = fault == nothing ? 0 : g.draw(4) ? 0 : 1;
	size_t bad_list = where ? c.terms.size() - 1 : g.draw(c.terms.size());
	for (size_t t = 0; t < c.terms.size(); t++)
		{
		auto &l = c.terms[t];
		message m = make();
		uint64_t cf = 0; for (auto v : l.values) cf += v;
		m.blob(1, l.name); m.number(2, l.docs.size()); m.number(3, r.below(8) ? cf : cf + (1ull << 40));
		size_t before = m.fields.size();
		uint32_t last = 1;
		size_t bad = r.below(l.docs.size());
		for (size_t i = 0; i < l.docs.size(); i++)
			{
			message p = make();
			p.number(1, l.docs[i] - last); p.number(2, l.values[i]);
			if (fault == posting_field && t == bad_list && i == bad) spoil(p);
			last = l.docs[i];
			m.blob(4, p.bytes(99));
			if (m.fields.size() == before + i) { std::string f; varint(f, 4 << 3 | 2); m.fields.push_back(f + '\0'); }
			}
		if (fault == list_field && t == bad_list) spoil(m);
		if (fault == overrun && place == 1 && t == bad_list) stretch(m);
		file += m.delimited(before);
		}
	size_t bad_record = where ? c.n - 1 : g.draw(c.n);
	for (size_t d = 0; d < c.n; d++)
		{
		message m = make();
		size_t id = d;
		if (fault == record_order && d == bad_record) id = d + 1 + r.below(3);
		m.number(1, id); m.blob(2, c.keys[d]); m.number(3, c.lengths[d + 1]);
		if (fault == record_field && d == bad_record) spoil(m);
		if (fault == overrun && place == 2 && d == bad_record) stretch(m);
		file += m.delimited();
		}
	return file;
	}

static collection content(pbt::gen &g, size_t documents)
	{
	shape s; s.max_documents = documents; s.max_terms = 25; s.max_value = (uint32_t)g.pick({3, 40, 255, 256, 1023, 1024});
	return make_collection(g, s);
	}
static const char *how_names[] = {"", "-passthrough", "-scalepassthrough"};

PROPERTY(import, 200, 10000, p.cpu_limit = 90;)
	{
	auto c = content(g, 400);
	size_t mode = g.draw(3); int version = 1 + (int)g.draw(2);
	if (mode == 0 && g.chance(1, 3)) { auto r = g.stream(); for (size_t d = 1; d <= c.n; d++) c.lengths[d] = 1 + (uint32_t)r.below(r.below(4) ? 500 : 100000); }
	std::string home = g.scratch() + "/import";
	mkdir(home.c_str(), 0755);
	write_file(home + "/in.ciff", ciff(g, c));
	std::vector<std::string> arguments;
	if (mode) arguments.push_back(how_names[mode]);
	if (version == 2) arguments.push_back("-2");
	if (g.flip()) std::reverse(arguments.begin(), arguments.end());
	arguments.insert(arguments.begin(), "in.ciff");
	g.note("mode", *how_names[mode] ? how_names[mode] : "BM25"); g.note("version", version);
	describe(g, c);
	auto r = run_program(program("import"), arguments, home);
	FINE(r, "ciff_to_JASS");
	REQUIRE(r.out.find("DONE\n") != std::string::npos, "ciff_to_JASS did not finish: " << pbt::show(r.out));
	std::string before = home + "x";
	collection want;
	{ inside dir(before); want = export_all(c, mode == 0 ? bm25 : mode == 1 ? given : scaled, {}); }
	g.nontrivial(worth(want));
	inside dir(home);
	if (version == 1)
		{
		JASS::deserialised_jass_v1 index;
		REQUIRE(index.read_index() == 1, "the index can't be loaded");
		check_index(want, index, g);
		}
	else
		{
		JASS::deserialised_jass_v2 index;
		REQUIRE(index.read_index() == 1, "the index can't be loaded");
		check_index(want, index, g);
		}
	}

PROPERTY(malformed, 120, 4000, p.cpu_limit = 60;)
	{
	auto c = content(g, 60);
	wrong fault = (wrong)g.pick({(int)header_field, (int)list_field, (int)posting_field, (int)record_field, (int)record_order, (int)cut_short, (int)cut_short, (int)cut_short, (int)overrun});
	const char *names[] = {"", "a field of the header", "a field of a postings list", "a field of a posting", "a field of a document record", "a document out of order", "the end", "a length"};
	std::string home = g.scratch() + "/import";
	mkdir(home.c_str(), 0755);
	std::string file = ciff(g, c, fault);
	if (fault == cut_short)
		{
		size_t keep = g.flip() ? g.draw(file.size()) : file.size() - 1 - g.draw(std::min<size_t>(file.size(), 40));
		g.note("bytes kept", keep);
		file.resize(keep);
		}
	write_file(home + "/in.ciff", file);
	describe(g, c); g.note("wrong", names[fault]); g.label(names[fault]);
	size_t mode = g.draw(3);
	std::vector<std::string> arguments = {"in.ciff"};
	if (mode) arguments.push_back(how_names[mode]);
	if (g.flip()) arguments.push_back("-2");
	auto r = run_program(program("import"), arguments, home);
	REQUIRE(r.signal == 0 && r.exit_code != 99, names[fault] << " crashes the import: " << pbt::show(r.err.substr(0, 900)));
	REQUIRE(r.out.find("DONE\n") == std::string::npos, names[fault] << " is not noticed");
	REQUIRE(r.out.find(fault == record_order ? "Document IDs must be ordered" : "not in the correct format") != std::string::npos || (file.empty() && r.out.find("Can't read file") != std::string::npos), names[fault] << " is not reported: " << pbt::show(r.out.size() > 200 ? r.out.substr(r.out.size() - 200) : r.out));
	g.nontrivial();
	}

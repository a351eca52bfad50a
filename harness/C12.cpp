#include "pbt.h"
#include <memory>
#include <zlib.h>
#include "instream_memory.h"
#include "instream_file.h"
#include "instream_deflate.h"
#include "instream_document_trec.h"
#include "instream_document_html.h"
#include "instream_document_fasta.h"
#include "instream_document_warc.h"
#include "instream_document_unicoil_json.h"

RULE("collections of 0 to 12 generated documents in each format (content with look-alike and partial markers, any bytes, generated identifiers, white space and junk between documents), read through memory, file and gzip streams with internal buffers from exactly the largest document upwards, reusing or not the document object; non-trivial: at least 2 documents and, where the buffer can be set, more data than one buffer holds")
ASSUME_TEXT("well-formed input: no document contains its own start or end marker, every document has some content; the underlying stream delivers what is asked for unless at end of input, as every stream of the repository does; the content of a WARC document is the Content-Length bytes after the Content-Length header line, which is what the repository's unit test pins down (see the known finding)");
using pbt::gen;

struct item { std::string key, content; };

struct trec_small : JASS::instream_document_trec { trec_small(std::shared_ptr<JASS::instream> &s, size_t n, const std::string &d, const std::string &k) : JASS::instream_document_trec(s, n, d, k) {} };
struct html_small : JASS::instream_document_trec { html_small(std::shared_ptr<JASS::instream> &s, size_t n) : JASS::instream_document_trec(s, n, "html", "title") { document_start_tag = "<html"; } };
struct fasta_small : JASS::instream_document_fasta { fasta_small(std::shared_ptr<JASS::instream> &s, size_t n) : JASS::instream_document_fasta(s, n) {} };

static std::string gz(const std::string &s)
	{
	z_stream z; memset(&z, 0, sizeof(z)); deflateInit2(&z, 1, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
	std::string out(deflateBound(&z, s.size()) + 64, '\0');
	z.next_in = (Bytef *)s.data(); z.avail_in = (uInt)s.size(); z.next_out = (Bytef *)&out[0]; z.avail_out = (uInt)out.size();
	deflate(&z, Z_FINISH); out.resize(z.total_out); deflateEnd(&z); return out;
	}
/* text keeps what the stream reads from alive */
static std::shared_ptr<JASS::instream> open(gen &g, const std::string &text, std::string &keep)
	{
	switch (g.weighted({6, 1, 1}))
		{
		case 0: keep = text; return std::shared_ptr<JASS::instream>(new JASS::instream_memory(keep.data(), keep.size()));
		case 1: { std::string n = g.scratch() + "/in"; FILE *f = fopen(n.c_str(), "wb"); fwrite(text.data(), 1, text.size(), f); fclose(f); return std::shared_ptr<JASS::instream>(new JASS::instream_file(n)); }
		default: { keep = gz(text); std::shared_ptr<JASS::instream> s(new JASS::instream_memory(keep.data(), keep.size())); return std::shared_ptr<JASS::instream>(new JASS::instream_deflate(s)); }
		}
	}
static std::string str(const JASS::slice &s) { return s.size() ? std::string((char *)s.address(), s.size()) : std::string(); }
static void check_all(gen &g, JASS::instream &in, const std::vector<item> &want, int eofs = 2)
	{
	bool reuse = g.flip(), rewind = g.flip();
	std::unique_ptr<JASS::document> d(new JASS::document);
	std::vector<std::unique_ptr<JASS::document>> kept; std::vector<std::string> kept_content;
	for (size_t k = 0; k < want.size(); k++)
		{
		if (!reuse) { kept.push_back(std::move(d)); d.reset(new JASS::document); }
		else if (rewind) d->rewind();
		in.read(*d);
		REQUIRE(!d->isempty(), "document " << k << " of " << want.size() << " missing: end of input reported");
		REQUIRE(str(d->contents) == want[k].content, "content of document " << k << ": got " << pbt::show(str(d->contents)) << " expected " << pbt::show(want[k].content));
		REQUIRE(str(d->primary_key) == want[k].key, "key of document " << k << ": got " << pbt::show(str(d->primary_key)) << " expected " << pbt::show(want[k].key));
		}
	if (!reuse) kept.push_back(std::move(d));
	for (int e = 0; e < eofs; e++)
		{
		JASS::document last; in.read(last);
		REQUIRE(last.isempty(), "after the last document (read " << e << "): got " << pbt::show(str(last.contents)) << " with key " << pbt::show(str(last.primary_key)));
		}
	/* documents kept by the caller stay as they were */
	if (!reuse) for (size_t k = 1; k < kept.size() && k <= want.size(); k++) REQUIRE(str(kept[k]->contents) == want[k - 1].content && str(kept[k]->primary_key) == want[k - 1].key, "document " << k - 1 << " changed by later reads");
	}
static void avoid(std::string &s, const std::vector<std::string> &markers)
	{
	for (auto &m : markers) for (size_t p; (p = s.find(m)) != std::string::npos; ) s.erase(p, 1);
	for (auto &m : markers) if (s.find(m) != std::string::npos) avoid(s, markers);
	}
static std::string body(gen &g, const std::vector<std::string> &pieces, size_t max)
	{
	std::string s; size_t n = g.draw(max);
	for (size_t k = 0; k < n; k++)
		switch (g.weighted({4, 2, 1, 3}))
			{
			case 0: s += g.word(1, 8); s += ' '; break;
			case 1: s += g.pick(pieces); break;
			case 2: s += g.bytes(1 + g.draw(4)); break;
			default: s += g.pick({"\n", "<", ">", "</", "  ", "\r\n", "\t"}); break;
			}
	return s;
	}

PROPERTY(trec, 8000, 400000)
	{
	bool html = g.chance(1, 4); std::string tag = html ? "html" : g.pick({"DOC", "DOC", "d", "TEXT", "PASSAGE"}), ktag = html ? "title" : g.pick({"DOCNO", "DOCNO", "k", "DOCID"});
	std::string s1 = html ? "<html" : "<" + tag + ">", e1 = "</" + tag + ">", s2 = "<" + ktag + ">", e2 = "</" + ktag + ">";
	std::vector<std::string> markers{s1, e1, s2, e2}, pieces{s1.substr(0, s1.size() - 1), e1.substr(0, e1.size() - 1), s2.substr(0, s2.size() - 1), "<" + tag + " x>", "</", "<" + tag.substr(0, 1), "<DOCNOX>", "<TEXT>"};
	for (auto &m : markers) for (size_t c = 1; c < m.size(); c++) { auto lower = m; lower[c] = (char)(lower[c] ^ 0x20); pieces.push_back(lower); }
	size_t docs = g.draw(9); std::string text; std::vector<item> want; size_t need = s1.size() + e1.size(), last_end = 0;
	auto junk = [&]{ std::string j = g.chance(1, 3) ? body(g, pieces, 4) : g.pick({"\n", "", "\n\n", " "}); avoid(j, markers); return j; };
	for (size_t k = 0; k < docs; k++)
		{
		std::string j = junk(); std::string before = body(g, pieces, 4), after = body(g, pieces, g.pick({3, 10, 30})), id = g.word(1, 12, "abcXYZ0189-_. "), content;
		avoid(before, markers); avoid(after, markers);
		size_t b = id.find_first_not_of(' '), e = id.find_last_not_of(' '); id = b == std::string::npos ? "x" : id.substr(b, e - b + 1);
		bool keyed = !g.chance(1, 8);
		content = html ? "<html" + g.pick({std::string(">"), std::string(" lang='en'>"), std::string("\n>")}) : s1;
		size_t head = content.size();
		content += before;
		if (keyed) content += s2 + g.pick({std::string(""), std::string(" "), std::string("\n\t ")}) + id + g.pick({std::string(""), std::string(" "), std::string("\n")}) + e2;
		content += after + e1;
		/* joining the pieces can make a marker: only keep documents where none was made */
		size_t n1 = 0, n2 = 0; for (size_t p = 1; (p = content.find(s1, p)) != std::string::npos; p++) n1++; for (size_t p = 0; (p = content.find(e1, p)) != std::string::npos; p++) n2++;
		size_t n3 = 0; for (size_t p = 0; (p = content.find(s2, p)) != std::string::npos; p++) n3++;
		size_t n4 = 0; for (size_t p = 0; (p = content.find(e2, p)) != std::string::npos; p++) n4++;
		if (n1 || n2 != 1 || n3 != (keyed ? 1 : 0) || n4 != n3 || (text + j + content).find(s1, last_end) != text.size() + j.size()) continue;
		(void)head;
		need = std::max({need, content.size(), text.size() - last_end + j.size() + s1.size()});
		text += j + content; last_end = text.size();
		want.push_back({keyed ? id : "Unknown", content});
		}
	if (g.chance(1, 3)) { std::string t = junk(); if ((text.substr(last_end) + t).find(s1) == std::string::npos) { text += t; need = std::max(need, text.size() - last_end); } }
	size_t size = g.pick({need, need + 1, need + g.draw(20), need * 2, text.size() + 100, (size_t)0}); if (size < need) size = 0;
	g.note(tag + "/" + ktag + " buffer " + std::to_string(size) + ": " + pbt::show(text, 2000));
	std::string keep; auto source = open(g, text, keep); std::unique_ptr<JASS::instream> in;
	if (size == 0) { if (!g.chance(1, 20)) size = 1 << 20; }
	if (size == 0) { if (html) in.reset(new JASS::instream_document_html(source)); else in.reset(new JASS::instream_document_trec(source, tag, ktag)); g.label("default buffer"); }
	else if (html) in.reset(new html_small(source, size)); else in.reset(new trec_small(source, size, tag, ktag));
	check_all(g, *in, want);
	g.label(html ? "html" : "trec"); g.nontrivial(want.size() >= 2 && size != 0 && size < text.size());
	}

PROPERTY(fasta, 8000, 400000)
	{
	size_t docs = g.draw(9); std::string text; std::vector<item> want; size_t need = 2;
	for (size_t k = 0; k < docs; k++)
		{
		std::string id = ">" + g.word(1, 10, "ABC_.019|"), content; if (g.chance(1, 4)) id += " >" + g.word(1, 5) + " x"; 
		content = id + g.pick({"", "", " ", "\r"}) + "\n";
		size_t lines = g.chance(1, 10) && k + 1 < docs ? 0 : 1 + g.draw(4);
		for (size_t l = 0; l < lines; l++) content += g.word(k + 1 == docs && l + 1 == lines ? 1 : 0, g.pick({5, 60}), "ACGTN acgt*-") + "\n";
		if (k + 1 == docs && g.flip()) content.pop_back();
		need = std::max(need, content.size()); text += content; want.push_back({id, content});
		}
	size_t size = g.pick({need, need + 1, need + g.draw(20), need * 2, text.size() + 100});
	g.note("buffer " + std::to_string(size) + ": " + pbt::show(text, 2000));
	std::string keep; auto source = open(g, text, keep); std::unique_ptr<JASS::instream> in;
	if (g.chance(1, 40)) { in.reset(new JASS::instream_document_fasta(source)); g.label("default buffer"); } else in.reset(new fasta_small(source, size));
	check_all(g, *in, want);
	g.nontrivial(want.size() >= 2 && size < text.size());
	}

PROPERTY(warc, 5000, 250000)
	{
	size_t records = g.draw(8); std::string text, nl = g.flip() ? "\n" : "\r\n"; std::vector<item> want; size_t keyed = 0;
	for (size_t r = 0; r < records; r++)
		{
		bool doc = !g.chance(1, 5);
		std::vector<std::string> head; std::string id = g.word(1, 14, "abc019-_"), content = g.bytes(1, g.pick({10, 200, 3000}));
		if (g.chance(1, 4)) content = "x" + nl + "WARC-TREC-ID: inside" + nl + "Content-Length: 3" + nl + nl + content;
		text += "WARC/1.0" + nl;
		auto noise = [&](size_t most)
			{
			for (size_t n = g.draw(most + 1); n > 0; n--)
				switch (g.draw(6))
					{
					case 0: text += "WARC-Type: response" + nl; break;
					case 1: text += "WARC-TREC-IDS: no" + nl; break;
					case 2: text += "X-WARC-TREC-ID: no" + nl; break;
					case 3: text += "X: " + std::string(g.edge(0, 20000, {8188, 8189, 8190, 8191, 8192, 16384}), 'y') + nl; g.label("header line of kilobytes"); break;
					case 4: text += "Content-Type: text/html" + nl; break;
					default: text += "WARC-TREC-I" + nl; break;
					}
			};
		noise(3);
		if (doc)
			{
			text += "WARC-TREC-ID:" + g.pick({std::string(" "), std::string(""), std::string("  \t")}) + id + nl; noise(2);
			text += "Content-Length: " + std::to_string(content.size()) + nl;
			/* the reader takes the bytes after this line: give it a block whose first bytes are the blank line */
			want.push_back({id, content}); text += content; text += nl + nl; keyed++;
			}
		else text += "Content-Length: 12" + nl + nl + "software: me" + nl + nl;
		}
	g.note(pbt::show(text, 2000));
	std::string keep; auto source = open(g, text, keep); JASS::instream_document_warc in(source);
	check_all(g, in, want);
	g.nontrivial(keyed >= 2);
	}

static std::string json_document(gen &g, std::string &vector, std::string &id, size_t filler)
	{
	id = g.word(1, 10, "abcD019-_"); vector.clear(); size_t terms = g.draw(6);
	for (size_t t = 0; t < terms; t++) vector += (t ? ", \"" : "\"") + g.pick({g.word(1, 6), std::string("##ing"), std::string("id"), std::string("}"), std::string("vector"), std::string("{")}) + "\": " + std::to_string(g.draw(300));
	if (terms == 0) vector = "\"z\": 1";
	pbt::prng p = g.stream(); std::string text; for (size_t i = 0; i < filler; i++) text.push_back("abc }{:,."[p.below(9)]);
	return "{\"id\": \"" + id + "\", \"contents\": \"" + text + g.pick({std::string("some text }"), std::string("braces }} here"), std::string(""), std::string("id: vector {")}) + "\", \"vector\": {" + vector + "}}";
	}
PROPERTY(unicoil, 3000, 150000)
	{
	size_t docs = g.draw(13); std::string text; std::vector<item> want;
	for (size_t k = 0; k < docs; k++)
		{
		std::string v, id, d = json_document(g, v, id, g.draw(60)); text += d; want.push_back({id, v});
		if (k + 1 < docs || g.flip()) text += g.pick({"\n", "\n", "\n\n"}); else g.label("no newline at the end");
		}
	g.note(pbt::show(text, 2000));
	std::string keep; auto source = open(g, text, keep); JASS::instream_document_unicoil_json in(source);
	check_all(g, in, want, 2);
	g.nontrivial(docs >= 2);
	}
PROPERTY(unicoil_buffer_boundaries, 120, 6000)
	{
	/* more than the 1 MB buffer: documents placed so that a boundary falls at a chosen byte of one of them, or larger than the buffer */
	const size_t MB = 1024 * 1024; std::string text; std::vector<item> want; size_t docs = 3 + g.draw(6);
	for (size_t k = 0; k < docs; k++)
		{
		size_t filler = 0;
		switch (g.draw(4))
			{
			case 0: { size_t to = (text.size() / MB + 1) * MB, gap = to - text.size(), back = g.draw(160); filler = gap > back + 60 ? gap - back - 60 : 0; break; }
			case 1: filler = g.draw(400000); break;
			case 2: filler = g.draw(100); break;
			default: if (g.chance(1, 2)) { filler = MB - 200 + g.draw(g.flip() ? 400 : 2 * MB); g.label("document of about or over the buffer"); } break;
			}
		std::string v, id, d = json_document(g, v, id, filler); text += d; want.push_back({id, v});
		if (k + 1 < docs || g.flip()) text += "\n";
		}
	g.note("documents end at"); for (size_t p = 0; (p = text.find("}}\n", p)) != std::string::npos; p++) g.note(std::to_string(p));
	std::string keep; auto source = open(g, text, keep); JASS::instream_document_unicoil_json in(source);
	check_all(g, in, want, 1);
	g.nontrivial(text.size() > MB); g.label(text.size() > MB ? "over 1 MB" : "under 1 MB");
	}

KNOWN_FINDING(C12_warc_blank_line, "the content of a WARC document starts at the blank line that ends its header, so the document loses as many bytes from its end (its unit test expects this)")
	{
	std::string text = "WARC/1.0\nWARC-TREC-ID: a\nContent-Length: 5\n\nhello\n\n";
	std::shared_ptr<JASS::instream> source(new JASS::instream_memory(text.data(), text.size())); JASS::instream_document_warc in(source); JASS::document d; in.read(d);
	EQUAL(str(d.contents), std::string("hello"), "content of a WARC document");
	}

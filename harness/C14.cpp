#include "pbt.h"
#include <memory>
#include <limits>
#include <unistd.h>
#include "file.h"
#include "channel_file.h"
#include "channel_buffer.h"
#include "instream_file.h"
#include "instream_file_star.h"
#include "allocator_pool.h"
#include "string_cpp.h"

RULE("histories of writes, seeks, reads, tells and flushes against a model of the file's bytes and position, with file buffers from 1 byte up, read back through every reading interface; channels written by every operator and read by lines and blocks; non-trivial: at least 4 operations touching at least 2 buffers' worth of data (files), at least 2 lines (channels)")
ASSUME_TEXT("as C's streams require, the direction of a file changes only at a seek; setvbuf() comes before any other operation, as it says; channel_buffer sources and buffer_to_list() text hold no NUL, being C strings");

using pbt::gen;
static std::string slurp(const std::string &name)
	{
	std::string s; FILE *f = fopen(name.c_str(), "rb"); if (!f) return "<no file>";
	char b[65536]; size_t n; while ((n = fread(b, 1, sizeof(b), f)) > 0) s.append(b, n);
	fclose(f); return s;
	}
static void spew(const std::string &name, const std::string &s) { FILE *f = fopen(name.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

static void read_back(gen &g, const std::string &name, const std::string &want)
	{
	std::string into = g.pick({std::string(""), std::string("stale content that was there before")});
	EQUAL(JASS::file::read_entire_file(name, into), want.size(), "length from read_entire_file(string)");
	REQUIRE(into == want, "read_entire_file(string) got " << pbt::show(into) << " expected " << pbt::show(want));
	{
	JASS::file::file_read_only mapped; const uint8_t *p = nullptr;
	EQUAL(JASS::file::read_entire_file(name, mapped), want.size(), "length from read_entire_file(mapped)");
	size_t n = mapped.read_entire_file(p);
	EQUAL(n, want.size(), "size of the mapped file");
	REQUIRE(n == 0 ? p == nullptr : memcmp(p, want.data(), n) == 0, "content of the mapped file");
	}
	{
	JASS::file f(name, "rb"); size_t pos = 0;
	EQUAL(f.size(), want.size(), "size() of a file opened for reading");
	for (int k = 0; ; k++)
		{
		size_t n = k < 20 ? 1 + g.size(0, 300) : 5000;
		std::vector<uint8_t> b(n, 0xEE); size_t expect = std::min(n, want.size() - pos);
		if (g.flip()) { size_t got = f.read(b.data(), n); b.resize(got > n ? n : got); EQUAL(got, expect, "bytes read at " << pos); }
		else { f.read(b); EQUAL(b.size(), expect, "bytes read into a vector at " << pos); }
		REQUIRE(memcmp(b.data(), want.data() + pos, expect) == 0, "bytes read at " << pos);
		pos += expect;
		EQUAL(f.tell(), pos, "tell() after reading " << expect << " of " << n);
		EQUAL(f.size(), want.size(), "size() while reading");
		if (expect < n) break;
		}
	}
	}

PROPERTY(file_history, 1200, 60000)
	{
	std::string name = g.scratch() + "/f.bin"; unlink(name.c_str());
	std::string model; size_t pos = 0, bytes = 0;
	size_t buffer = g.pick({size_t(1), size_t(2), size_t(3), size_t(7), size_t(16), size_t(64), size_t(1000), size_t(10 * 1024 * 1024)});
	int how = (int)g.weighted({6, 1, 1}); const char *mode = how == 0 ? "w+b" : how == 1 ? "ab" : "r+b";
	std::ostringstream trace; trace << mode << " buffer " << buffer << ": ";
	if (how) { model = g.bytes(0, 40); spew(name, model); }
	size_t ops = g.draw(30);
	if (how == 1) pos = model.size();
	{
	std::unique_ptr<JASS::file> f;
	if (g.flip()) f.reset(new JASS::file(name, mode)); else f.reset(new JASS::file(name.c_str(), mode));
	if (buffer != 10 * 1024 * 1024) EQUAL(f->setvbuf(buffer), (size_t)1, "setvbuf()");
	enum { NONE, WRITING, READING } direction = NONE;
	for (size_t o = 0; o < ops; o++)
		{
		size_t what = g.weighted({10, 3, 4, 4, 2, 1});
		if (what == 0 || what == 1)
			{
			size_t n = g.weighted({6, 3, 1}) == 0 ? g.draw(8) : g.edge(0, 3 * std::min(buffer, (size_t)2000) + 2, {buffer > 5000 ? 0 : buffer, buffer > 5000 ? 1 : buffer - 1, buffer > 5000 ? 2 : buffer + 1, buffer > 5000 ? 3 : 2 * buffer});
			std::string d = g.bytes(n, n);
			if (direction == READING) { f->seek(pos); trace << "seek" << pos << " "; }
			direction = WRITING;
			trace << "write" << n << " ";
			g.note(trace.str());
			EQUAL(what == 0 ? f->write(d.data(), d.size()) : f->write(d), (size_t)1, "result of write()");
			if (pos > model.size()) { if (n) model.resize(pos, '\0'); }
			if (n) { if (pos + n > model.size()) model.resize(pos + n); model.replace(pos, n, d); }
			pos += n; bytes += n;
			}
		else if (how == 1) { f->flush(); continue; }
		else if (what == 2)
			{
			pos = g.edge(0, model.size() + 5, {model.size(), model.size() / 2, 0}); trace << "seek" << pos << " "; g.note(trace.str());
			f->seek(pos); direction = NONE;
			EQUAL(f->size(), model.size(), "size() after a seek"); 
			}
		else if (what == 3)
			{
			size_t n = g.draw(2 * std::min(buffer, (size_t)100) + 10);
			if (direction == WRITING) { f->seek(pos); trace << "seek" << pos << " "; }
			direction = READING;
			trace << "read" << n << " "; g.note(trace.str());
			size_t expect = pos >= model.size() ? 0 : std::min(n, model.size() - pos);
			std::vector<uint8_t> b(n + 1, 0xEE); size_t got = f->read(b.data(), n);
			EQUAL(got, expect, "bytes read at " << pos);
			REQUIRE(expect == 0 || memcmp(b.data(), model.data() + pos, expect) == 0, "bytes read at " << pos);
			REQUIRE(b[n] == 0xEE, "read past the end of the destination");
			pos += expect; bytes += expect;
			}
		else if (what == 4) { f->flush(); trace << "flush "; if (direction != READING) EQUAL(f->size(), model.size(), "size() after a flush"); }
		if (how != 1) EQUAL(f->tell(), pos, "tell()");
		}
	}
	g.note(trace.str());
	REQUIRE(slurp(name) == model, "file holds " << pbt::show(slurp(name)) << " expected " << pbt::show(model));
	read_back(g, name, model);
	g.label(mode); g.label(buffer <= 16 ? "tiny buffer" : "large buffer");
	g.nontrivial(ops >= 4 && bytes > 2 * std::min(buffer, (size_t)20));
	unlink(name.c_str());
	}

PROPERTY(whole_files, 500, 50000)
	{
	std::string name = g.scratch() + "/w.bin", d = g.bytes(0, g.pick({10, 1000, 20000}));
	REQUIRE(JASS::file::write_entire_file(name, d), "write_entire_file() failed for " << d.size() << " bytes");
	REQUIRE(slurp(name) == d, "content after write_entire_file()");
	read_back(g, name, d);
	std::string d2 = g.bytes(0, 50);
	REQUIRE(JASS::file::write_entire_file(name, d2), "second write_entire_file() failed for " << d2.size() << " bytes");
	REQUIRE(slurp(name) == d2, "content after the second write_entire_file()");
	REQUIRE(!JASS::file::write_entire_file(g.scratch() + "/no/such/dir/f", d), "write_entire_file() into a missing directory succeeded");
	std::string none = "x"; EQUAL(JASS::file::read_entire_file(g.scratch() + "/missing", none), (size_t)0, "length of a missing file");
	REQUIRE(JASS::file::is_directory(g.scratch()) && !JASS::file::is_directory(name) && !JASS::file::is_directory(g.scratch() + "/missing"), "is_directory()");
	std::string t1 = JASS::file::mkstemp(g.scratch() + "/tmp"), t2 = JASS::file::mkstemp(g.scratch() + "/tmp");
	REQUIRE(t1 != t2 && slurp(t1) == "" && slurp(t2) == "", "mkstemp() names " << t1 << " and " << t2);
	unlink(t1.c_str()); unlink(t2.c_str()); unlink(name.c_str());
	g.nontrivial(d.size() > 1); g.label(d.empty() ? "empty" : "not empty");
	}

PROPERTY(buffer_to_list, 20000, 1000000)
	{
	std::string text; size_t n = g.size(0, 60);
	for (size_t k = 0; k < n; k++) text += g.pick({'a', 'b', ' ', '\n', '\r', '\n', '\x80', '\t'});
	std::vector<std::string> want; std::string cur;
	for (char c : text) if (c == '\n' || c == '\r') { if (cur.size()) want.push_back(cur); cur.clear(); } else cur += c;
	if (cur.size()) want.push_back(cur);
	g.note(pbt::show(text));
	std::string work = text; std::vector<uint8_t *> lines(g.draw(3), nullptr), *list = &lines;
	JASS::file::buffer_to_list(*list, work);
	std::vector<std::string> got; for (auto p : lines) got.push_back((char *)p);
	REQUIRE(got == want, "lines " << pbt::show_list(got) << " expected " << pbt::show_list(want));
	g.nontrivial(want.size() >= 2);
	}

struct reader_file : JASS::channel_file { using JASS::channel_file::channel_file; size_t block(void *p, size_t n) { return block_read(p, n); } };
struct reader_buffer : JASS::channel_buffer { using JASS::channel_buffer::channel_buffer; size_t block(void *p, size_t n) { return block_read(p, n); } };
struct reader_stdin : JASS::channel_file { reader_stdin() : JASS::channel_file() {} size_t block(void *p, size_t n) { return block_read(p, n); } };

template <typename CHANNEL>
static void read_channel(gen &g, CHANNEL &c, const std::string &want, bool lines_only)
	{
	size_t pos = 0, ends = 0; std::ostringstream trace;
	JASS::allocator_pool pool;
	while (ends < 3)
		{
		size_t what = lines_only ? g.draw(2) : g.draw(4); std::string got, expect;
		if (what == 0 || what == 1)
			{
			size_t e = want.find('\n', pos); expect = want.substr(pos, e == std::string::npos ? std::string::npos : e + 1 - pos);
			if (what == 0) { got = "stale"; c.gets(got); }
			else { JASS::string s(pool); s.resize(g.draw(5)); c.gets(s); got.assign(s.c_str(), s.size()); }
			trace << "gets ";
			}
		else
			{
			size_t n = 1 + g.size(0, 40); expect = want.substr(pos, n);
			if (what == 2) { got.resize(n, 'x'); c.read(got); }
			else { std::string b(n, 'y'); size_t r = c.block(&b[0], n); REQUIRE(r <= n, "block_read() of " << n << " returned " << r); got = b.substr(0, r); }
			trace << "read" << n << " ";
			}
		REQUIRE(got == expect, trace.str() << "at " << pos << ": got " << pbt::show(got) << " expected " << pbt::show(expect));
		pos += expect.size(); if (expect.empty()) ends++;
		}
	EQUAL(pos, want.size(), "bytes read from the channel");
	}

PROPERTY(channel_history, 1200, 100000)
	{
	std::string name = g.scratch() + "/c.txt", model; unlink(name.c_str());
	if (g.chance(1, 4)) { model = g.word(0, 20, "ab\n"); spew(name, model); g.label("appending to an existing file"); }
	JASS::allocator_pool pool; size_t rounds = 1 + g.draw(2);
	for (size_t r = 0; r < rounds; r++)
		{
		JASS::channel_file out(name);
		size_t ops = g.draw(12);
		for (size_t o = 0; o < ops; o++)
			{
			std::ostringstream w; std::string s = g.word(0, g.pick({5, 5, 40, 1500}), "abc \t\r\x80");
			switch (g.draw(9))
				{
				case 0: out.puts(s); w << s << '\n'; break;
				case 1: out << s; w << s; break;
				case 2: out << s.c_str(); w << s; break;
				case 3: out << (const unsigned char *)s.c_str(); w << s; break;
				case 4: { JASS::allocator_cpp<char> al(pool); JASS::string j(s.c_str(), al); out << j; w << s; break; }
				case 5: { int v = (int)g.u64(); out << v << 'x' << (unsigned short)v; w << v << 'x' << (unsigned short)v; break; }
				case 6: { double v = (double)g.draw(100000) / 7.0; float h = (float)g.draw(9) / 2; out << v << ' ' << h; w << v << ' ' << h; break; }
				case 7: { uint64_t v = g.u64(); out << v << '\n'; w << v << '\n'; break; }
				default: out << s << "\n"; w << s << "\n"; break;
				}
			model += w.str();
			}
		}
	std::string disk = slurp(name); if (disk == "<no file>") disk = "";
	REQUIRE(disk == model, "file holds " << pbt::show(disk) << " expected " << pbt::show(model));
	reader_file in(name);
	read_channel(g, in, model, false);
	g.nontrivial(std::count(model.begin(), model.end(), '\n') >= 2);
	unlink(name.c_str());
	}

PROPERTY(channel_read, 1500, 150000)
	{
	size_t lines = g.draw(8); std::string text; size_t kind = g.draw(3);
	for (size_t l = 0; l < lines; l++) { text += kind == 0 ? g.word(0, 40, "ab \r\t\x80") : g.bytes(0, g.pick({10, 1100, 3000})); if (l + 1 < lines || g.flip()) text += '\n'; }
	if (kind == 0) { for (auto &c : text) if (c == 0) c = 1; }
	g.note(pbt::show(text));
	if (kind == 0)
		{
		std::shared_ptr<char> source(new char[text.size() + 1], [](char *p) { delete [] p; }); strcpy(source.get(), text.c_str());
		reader_buffer in(source); read_channel(g, in, text, false); g.label("channel_buffer");
		}
	else
		{
		std::string name = g.scratch() + "/r.txt"; spew(name, text);
		if (kind == 1) { reader_file in(name); read_channel(g, in, text, false); g.label("channel_file"); }
		else { REQUIRE(freopen(name.c_str(), "rb", stdin) != nullptr, "freopen"); reader_stdin in; read_channel(g, in, text, false); g.label("stdin"); }
		unlink(name.c_str());
		}
	g.nontrivial(lines >= 2);
	}

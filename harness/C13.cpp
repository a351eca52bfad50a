#include "pbt.h"
#include <memory>
#include <zlib.h>
#include "instream_memory.h"
#include "instream_file.h"
#include "instream_file_star.h"
#include "instream_deflate.h"
#include "instream_directory_iterator.h"
#include "compress_general_zlib.h"
#include "compress_general_zstd.h"

RULE("byte strings (empty, runs, text, random; up to 200,000 bytes) read through memory, file, FILE *, gzip (zlib, gzip, several members, any compression level) and directory streams by generated sequences of read sizes and by fetch() and read(); general compressors round-tripped into destinations of generated sizes; non-trivial: the data are longer than 8 bytes and take at least 2 reads, or the round trip is of more than 8 bytes")
ASSUME_TEXT("directories hold regular files, whose names end in .gz exactly when they are gzip files");
using pbt::gen;

static std::string content(gen &g, size_t max)
	{
	size_t n = g.size(0, max); pbt::prng p = g.stream(); std::string s;
	switch (g.draw(5))
		{
		case 0: return std::string(n, 'a');
		case 1: for (size_t i = 0; i < n; i++) s.push_back((char)p.below(256)); return s;
		case 2: for (size_t i = 0; i < n; i++) s.push_back("ab \n<"[p.below(5)]); return s;
		case 3: while (s.size() < n) s += "the quick brown fox " + std::to_string(p.below(100)) + "\n"; s.resize(n); return s;
		default: s.assign(n, '\0'); for (size_t i = 0; i < n; i += 1 + p.below(50)) s[i] = (char)p.below(256); return s;
		}
	}
static std::string gz(const std::string &s, int level, int wbits)
	{
	z_stream z; memset(&z, 0, sizeof(z)); deflateInit2(&z, level, Z_DEFLATED, wbits, 8, Z_DEFAULT_STRATEGY);
	std::string out(deflateBound(&z, s.size()) + 64, '\0');
	z.next_in = (Bytef *)s.data(); z.avail_in = (uInt)s.size(); z.next_out = (Bytef *)&out[0]; z.avail_out = (uInt)out.size();
	deflate(&z, Z_FINISH); out.resize(z.total_out); deflateEnd(&z); return out;
	}
static std::string compressed(gen &g, const std::string &s)
	{
	int level = (int)g.range(0, 9);
	if (g.chance(1, 4)) { g.label("zlib header"); return gz(s, level, 15); }
	size_t members = 1 + g.weighted({4, 1, 1}), from = 0; std::string out; g.label(members > 1 ? "several members" : "one member");
	for (size_t m = 0; m < members; m++)
		{
		size_t to = m + 1 == members ? s.size() : from + g.draw(s.size() - from + 1);
		out += gz(s.substr(from, to - from), level, 31); from = to;
		}
	return out;
	}
static void spew(const std::string &name, const std::string &s) { FILE *f = fopen(name.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

/* read a stream to its end by generated sizes, checking that nothing is written past what was asked for */
static std::string drain(gen &g, JASS::instream &in, size_t expected, size_t &reads)
	{
	std::string out; size_t ends = 0, mode = g.draw(3), fixed = 1 + g.size(0, expected + 10); pbt::prng p = g.stream(); reads = 0;
	while (ends < 2)
		{
		size_t n = mode == 0 ? fixed : mode == 1 ? 1 + p.below(std::min<size_t>(expected + 3, 5000)) : reads < 30 ? 1 + g.draw(20) : 4096;
		if (expected > 3000 && n < 20 && reads > 60) n = 997;
		if (reads++ > expected + 100) g.fail("the stream does not end");
		size_t got; std::unique_ptr<uint8_t[]> exact(new uint8_t[n]);
		if (g.flip()) got = in.fetch(exact.get(), n);
		else
			{
			JASS::document d; d.contents = JASS::slice(exact.get(), n); in.read(d); got = d.contents.size();
			REQUIRE(got == 0 || d.contents.address() == exact.get(), "read() moved the buffer");
			}
		REQUIRE(got <= n, "read of " << n << " returned " << got);
		out.append((char *)exact.get(), got);
		REQUIRE(out.size() <= expected, "more bytes delivered (" << out.size() << ") than there are (" << expected << ")");
		if (got == 0) ends++;
		else REQUIRE(ends == 0, "bytes after the end of input");
		if (got < n) { ends++; }
		}
	return out;
	}
static void compare(const std::string &got, const std::string &want, const std::string &what)
	{
	if (got == want) return;
	size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	std::ostringstream o; o << what << ": " << got.size() << " bytes delivered, expected " << want.size() << "; first difference at " << i << " got " << pbt::show(got.substr(i, 20)) << " expected " << pbt::show(want.substr(i, 20));
	throw pbt::failure{o.str()};
	}

PROPERTY(streams, 4000, 200000)
	{
	std::string want = content(g, 100000); size_t reads = 0;
	size_t kind = g.draw(5); const char *names[] = {"memory", "file", "FILE *", "gzip over memory", "gzip over a file"};
	g.label(names[kind]); g.note(names[kind]); g.note(pbt::show(want, 60));
	std::string got, raw;
	std::string name = g.scratch() + "/s.bin";
	if (kind == 0) { std::unique_ptr<uint8_t[]> exact(new uint8_t[want.size()]); memcpy(exact.get(), want.data(), want.size()); JASS::instream_memory in(exact.get(), want.size()); got = drain(g, in, want.size(), reads); }
	else if (kind == 1) { spew(name, want); JASS::instream_file in(name); got = drain(g, in, want.size(), reads); }
	else if (kind == 2) { spew(name, want); JASS::instream_file_star in(fopen(name.c_str(), "rb")); got = drain(g, in, want.size(), reads); }
	else
		{
		raw = compressed(g, want); std::shared_ptr<JASS::instream> source;
		if (kind == 3) source.reset(new JASS::instream_memory(raw.data(), raw.size())); else { spew(name, raw); source.reset(new JASS::instream_file(name)); }
		JASS::instream_deflate in(source); got = drain(g, in, want.size(), reads);
		}
	compare(got, want, names[kind]);
	g.nontrivial(want.size() > 8 && reads >= 3);
	}

/* a source that delivers fewer bytes than asked for, as a pipe or the network does */
struct trickle : JASS::instream
	{
	const std::string &s; size_t at = 0; pbt::prng p; size_t most;
	trickle(const std::string &s, pbt::prng p, size_t most) : s(s), p(p), most(most) {}
	void read(JASS::document &d) override { size_t n = std::min({d.contents.size(), s.size() - at, (size_t)(1 + p.below(most))}); memcpy(d.contents.address(), s.data() + at, n); at += n; d.contents.resize(n); }
	};
PROPERTY(gzip_over_short_reads, 2000, 100000)
	{
	std::string want = content(g, 30000), raw = compressed(g, want); size_t reads;
	std::shared_ptr<JASS::instream> source(new trickle(raw, g.stream(), g.pick({1, 3, 50, 5000})));
	JASS::instream_deflate in(source);
	compare(drain(g, in, want.size(), reads), want, "gzip over a source that reads short");
	g.nontrivial(want.size() > 8 && reads >= 3);
	}

PROPERTY(directory, 500, 30000)
	{
	std::string dir = g.scratch() + "/d"; mkdir(dir.c_str(), 0755);
	size_t files = g.weighted({1, 2, 3, 3, 2}); std::vector<std::string> all; std::string total; std::set<std::string> names;
	for (size_t f = 0; f < files; f++)
		{
		std::string c = content(g, 3000), n = g.word(1, 6) + std::to_string(f); c = "<" + std::to_string(f) + ":" + c + ">"; if (g.chance(1, 6)) c = "";
		if (g.chance(1, 3)) { n += ".gz"; spew(dir + "/" + n, compressed(g, c)); g.label("gzip file in the directory"); } else spew(dir + "/" + n, c);
		all.push_back(c); total += c;
		}
	size_t reads; JASS::instream_directory_iterator in(dir);
	std::string got = drain(g, in, total.size(), reads), rest = got;
	EQUAL(got.size(), total.size(), "bytes read from a directory of " << files << " files");
	/* the order of a directory is not specified: the output must be a concatenation of the contents in some order */
	std::vector<std::string> left; for (auto &c : all) if (c.size()) left.push_back(c);
	while (rest.size())
		{
		size_t k = 0; while (k < left.size() && rest.compare(0, left[k].size(), left[k]) != 0) k++;
		REQUIRE(k < left.size(), "output is not a concatenation of the files at " << got.size() - rest.size() << ": " << pbt::show(rest));
		rest = rest.substr(left[k].size()); left.erase(left.begin() + (long)k);
		}
	REQUIRE(left.empty(), left.size() << " files missing from the output");
	g.nontrivial(files >= 2);
	}

PROPERTY(compressors, 3000, 150000)
	{
	std::unique_ptr<JASS::compress_general> c; bool zlib = g.flip(); g.label(zlib ? "zlib" : "zstd");
	if (zlib) c.reset(new JASS::compress_general_zlib); else c.reset(new JASS::compress_general_zstd);
	size_t rounds = 1 + g.draw(4); bool big = false;
	for (size_t r = 0; r < rounds; r++)
		{
		std::string s = content(g, 200000); big = big || s.size() > 8;
		size_t room = s.size() + s.size() / 10 + 1000;
		std::unique_ptr<uint8_t[]> enc(new uint8_t[room]);
		size_t took = c->encode(enc.get(), room, s.data(), s.size());
		REQUIRE(took > 0 && took <= room, "encode() of " << s.size() << " bytes returned " << took);
		std::unique_ptr<uint8_t[]> exact(new uint8_t[took]); memcpy(exact.get(), enc.get(), took);
		/* a destination of any size: exact when it fits, 0 when it does not, never past the end */
		size_t dest = g.edge(0, s.size() + 20, {s.size(), s.size() / 2});
		std::unique_ptr<uint8_t[]> out(new uint8_t[dest]);
		size_t became = c->decode(out.get(), dest, exact.get(), took);
		if (dest >= s.size()) { if (s.size() || became) EQUAL(became, s.size(), "decode() into " << dest << " bytes"); compare(std::string((char *)out.get(), became), s, "round trip"); }
		else EQUAL(became, (size_t)0, "decode() of " << s.size() << " bytes into " << dest);
		/* the exact size of the encoding is enough, a smaller destination is refused or correctly filled */
		size_t small = g.edge(0, took + 3, {took, took - 1, took / 2});
		std::unique_ptr<uint8_t[]> enc2(new uint8_t[small]);
		size_t took2 = c->encode(enc2.get(), small, s.data(), s.size());
		REQUIRE(took2 <= small, "encode() into " << small << " bytes returned " << took2);
		if (small >= took + 3) REQUIRE(took2 > 0 || zlib, "encode() into " << small << " bytes refused an encoding of " << took);
		if (took2 > 0)
			{
			std::unique_ptr<uint8_t[]> out2(new uint8_t[s.size()]);
			EQUAL(c->decode(out2.get(), s.size(), enc2.get(), took2), s.size(), "decode() after encode() into exactly " << small << " bytes");
			compare(std::string((char *)out2.get(), s.size()), s, "round trip through a small buffer");
			}
		else g.label("destination too small");
		}
	g.nontrivial(big);
	}

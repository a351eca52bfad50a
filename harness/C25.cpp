#include "pbt.h"
#include <memory>
#include <limits>
#include "commandline.h"

RULE("command lines over an option set of every supported type with generated names (including names that extend one another), values at and beyond the limits of their types, attached and separate values, repeats, unknown options and a missing last value; non-trivial: at least 3 options of at least 2 types")
ASSUME_TEXT("numeric text is well formed; argv ends with a null pointer as main()'s does");

struct variables
	{
	bool flag1 = false, flag2 = false;
	std::string text1 = "default", text2;
	short s = -3; int i = 7; long l = 8; long long ll = 9;
	unsigned short us = 3; unsigned int u = 4; unsigned long ul = 5; unsigned long long ull = 6;
	float f = 1.5f; double d = 2.5;
	};
static std::string render(const variables &v)
	{
	std::ostringstream o; o.precision(17);
	o << v.flag1 << '|' << v.flag2 << '|' << v.text1 << '|' << v.text2 << '|' << v.s << '|' << v.i << '|' << v.l << '|' << v.ll << '|' << v.us << '|' << v.u << '|' << v.ul << '|' << v.ull << '|' << v.f << '|' << v.d;
	return o.str();
	}
enum { FLAG1, FLAG2, TEXT1, TEXT2, SHORT, INT, LONG, LLONG, USHORT, UINT, ULONG, ULLONG, FLOAT, DOUBLE, OPTIONS };

static std::string big(__int128 v)
	{
	bool neg = v < 0; unsigned __int128 x = neg ? -(unsigned __int128)v : (unsigned __int128)v; std::string s;
	do { s.insert(s.begin(), (char)('0' + (int)(x % 10))); x /= 10; } while (x);
	return neg ? "-" + s : s;
	}
PROPERTY(parse, 60000, 3000000)
	{
	/* names */
	std::vector<std::string> shorts, longs; std::set<std::string> taken;
	static const char *letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ?23";
	for (int o = 0; o < OPTIONS; o++)
		{
		std::string s, l;
		do
			{
			s = std::string("-") + letters[g.draw(strlen(letters))];
			if (g.chance(1, 4)) s += letters[g.draw(20)];
			if (g.chance(1, 3) && !shorts.empty()) { s = shorts[g.draw(shorts.size())] + letters[g.draw(20)]; }
			}
		while (taken.count(s) && g.chance(7, 8));
		if (taken.count(s)) s = "-" + std::to_string(o) + "_";		// ends a run of unlucky draws
		taken.insert(s);
		do
			{
			l = "--" + g.word(2, 6);
			if (g.chance(1, 4) && !longs.empty()) l = longs[g.draw(longs.size())] + g.pick({"_min", "s", "2x"});
			}
		while (taken.count(l) && g.chance(7, 8));
		if (taken.count(l)) l = "--" + std::to_string(o) + "_";
		taken.insert(l);
		shorts.push_back(s); longs.push_back(l);
		}
	/* the longest name that starts an argument is the one meant; keep generated arguments unambiguous */
	auto longest = [&](const std::string &a) { size_t best = 0; for (auto &t : taken) if (a.compare(0, t.size(), t) == 0) best = std::max(best, t.size()); return best; };

	variables got, want;
	auto tuple = std::make_tuple(
		JASS::commandline::note("OPTIONS"),
		JASS::commandline::parameter(shorts[FLAG1], longs[FLAG1], "flag 1", got.flag1),
		JASS::commandline::parameter(shorts[DOUBLE], longs[DOUBLE], "double", got.d),
		JASS::commandline::parameter(shorts[TEXT1], longs[TEXT1], "text 1", got.text1),
		JASS::commandline::parameter(shorts[SHORT], longs[SHORT], "short", got.s),
		JASS::commandline::parameter(shorts[INT], longs[INT], "int", got.i),
		JASS::commandline::parameter(shorts[LONG], longs[LONG], "long", got.l),
		JASS::commandline::note(""),
		JASS::commandline::note("MORE"),
		JASS::commandline::parameter(shorts[LLONG], longs[LLONG], "long long", got.ll),
		JASS::commandline::parameter(shorts[USHORT], longs[USHORT], "unsigned short", got.us),
		JASS::commandline::parameter(shorts[UINT], longs[UINT], "unsigned", got.u),
		JASS::commandline::parameter(shorts[ULONG], longs[ULONG], "unsigned long", got.ul),
		JASS::commandline::parameter(shorts[ULLONG], longs[ULLONG], "unsigned long long", got.ull),
		JASS::commandline::parameter(shorts[TEXT2], longs[TEXT2], "text 2", got.text2),
		JASS::commandline::parameter(shorts[FLOAT], longs[FLOAT], "float", got.f),
		JASS::commandline::parameter(shorts[FLAG2], longs[FLAG2], "flag 2", got.flag2));

	std::vector<std::string> args{"program"};
	size_t n = g.draw(9), errors = 0; std::set<int> types;
	bool attached_only_ok = true; (void)attached_only_ok;
	for (size_t k = 0; k < n; k++)
		{
		if (g.chance(1, 12))
			{
			/* something that is no option: a stray word, an unknown name, or a flag with text stuck to it */
			std::string junk = g.pick({std::string("stray"), "--" + g.word(7, 9, "qxz"), std::string(""), std::string("-%"), longs[FLAG1] + "zz", shorts[FLAG2] + "%"});
			size_t m = longest(junk);
			bool is_flag_prefix = m != 0 && (junk.compare(0, m, longs[FLAG1]) == 0 || junk.compare(0, m, shorts[FLAG2]) == 0) && (m == longs[FLAG1].size() || m == shorts[FLAG2].size()) && m != junk.size();
			if (m != 0 && !is_flag_prefix) continue;
			bool hidden = false; for (auto &t : taken) if (m == 0 || t.size() < m) if (junk.compare(0, t.size(), t) == 0) hidden = true;
			if (hidden) continue;
			g.label(is_flag_prefix ? "text stuck to a flag" : "unknown option");
			args.push_back(junk); errors++;
			continue;
			}
		int o = (int)g.draw(OPTIONS); types.insert(o);
		std::string name = g.flip() ? shorts[o] : longs[o];
		if (o == FLAG1 || o == FLAG2) { args.push_back(name); (o == FLAG1 ? want.flag1 : want.flag2) = true; continue; }
		std::string value; bool bad = false;
		variables next = want;
		auto whole = [&](__int128 lo, __int128 hi) -> __int128
			{
			__int128 v;
			switch (g.weighted({5, 2, 2, 1}))
				{
				case 0: v = g.draw(1000); break;
				case 1: v = lo + g.draw(3) - 1; break;
				case 2: v = hi - 1 + g.draw(3); break;
				default: v = lo + (__int128)(((unsigned __int128)g.u64() << 3) % (unsigned __int128)(hi - lo + 1)); break;
				}
			if (g.chance(1, 40)) v = g.flip() ? hi * 4 + 3 : lo - ((__int128)1 << 66);
			bad = v < lo || v > hi;
			value = big(v);
			if (!bad && v >= 0 && g.chance(1, 6)) { std::ostringstream h; h << "0x" << std::hex << (unsigned long long)v; value = h.str(); }
			return v;
			};
#define WHOLE(type, member) { __int128 v = whole(std::numeric_limits<type>::min(), std::numeric_limits<type>::max()); if (!bad) next.member = (type)v; break; }
		switch (o)
			{
			case TEXT1: value = g.flip() ? g.word(1, 6, "ab-=7/. ") : g.pick({std::string("-x"), longs[INT], std::string("x y"), std::string("0")}); next.text1 = value; break;
			case TEXT2: value = g.word(0, 6, "ab-=7/. "); next.text2 = value; break;
			case SHORT: WHOLE(short, s)
			case INT: WHOLE(int, i)
			case LONG: WHOLE(long, l)
			case LLONG: WHOLE(long long, ll)
			case USHORT: WHOLE(unsigned short, us)
			case UINT: WHOLE(unsigned int, u)
			case ULONG: WHOLE(unsigned long, ul)
			case ULLONG: WHOLE(unsigned long long, ull)
			default:
				{
				double v = ((double)g.draw(20001) - 10000) / g.pick({1.0, 100.0, 3.0});
				if (g.chance(1, 8)) v = g.pick({0.0, -1.0, 1e30, -1e30, 1e-30, 100.0});
				std::ostringstream t; t.precision(17); t << v; value = t.str();
				if (g.chance(1, 20)) { value = o == FLOAT ? g.pick({"1e39", "-1e39"}) : g.pick({"1e400", "-1e400"}); bad = true; }
				v = strtod(value.c_str(), nullptr);
				if (!bad) { if (o == FLOAT) next.f = (float)v; else next.d = v; }
				}
			}
		bool attach = value.size() && g.flip() && longest(name + value) == name.size();
		if (attach) args.push_back(name + value); else { args.push_back(name); args.push_back(value); }
		if (bad) { errors++; g.label("out of range"); } else want = next;
		}
	if (g.chance(1, 10))
		{
		int o = g.pick({TEXT1, INT, ULLONG, FLOAT, DOUBLE, SHORT, TEXT2});
		args.push_back(g.flip() ? shorts[o] : longs[o]); errors++; g.label("missing value");
		}
	std::string shown; for (auto &a : args) shown += pbt::show(a) + " ";
	g.note(shown); for (int o = 0; o < OPTIONS; o++) g.note(shorts[o] + "/" + longs[o]);
	std::unique_ptr<const char *[]> argv(new const char *[args.size() + 1]);
	for (size_t a = 0; a < args.size(); a++) argv[a] = args[a].c_str();
	argv[args.size()] = nullptr;
	std::string error = "left over";
	bool ok = JASS::commandline::parse((int)args.size(), argv.get(), tuple, error);
	EQUAL(ok, errors == 0, "result of parse() (error text " << pbt::show(error) << ", " << errors << " errors expected)");
	EQUAL((size_t)std::count(error.begin(), error.end(), '\n'), errors, "number of errors reported in " << pbt::show(error));
	EQUAL(render(got), render(want), "variables after parse()");
	g.nontrivial(n >= 3 && types.size() >= 2); g.label(errors ? "with errors" : "without errors");
	}

PROPERTY(usage, 5000, 100000)
	{
	bool b = false; std::string s; int i = 0;
	std::string n[3][2], d[3]; size_t ws = 0, wl = 0;
	for (int k = 0; k < 3; k++) { n[k][0] = "-" + g.word(1, 4); n[k][1] = "--" + g.word(1, 12); d[k] = g.word(0, 20, "ab <>%"); ws = std::max(ws, n[k][0].size()); wl = std::max(wl, n[k][1].size()); }
	std::string heading = g.word(0, 10);
	auto tuple = std::make_tuple(JASS::commandline::note(heading), JASS::commandline::parameter(n[0][0], n[0][1], d[0], b), JASS::commandline::parameter(n[1][0], n[1][1], d[1], s), JASS::commandline::parameter(n[2][0], n[2][1], d[2], i));
	std::string want = heading + "\n";
	for (int k = 0; k < 3; k++) want += n[k][0] + std::string(ws + 1 - n[k][0].size(), ' ') + n[k][1] + std::string(wl + 1 - n[k][1].size(), ' ') + d[k] + "\n";
	EQUAL(JASS::commandline::usage("exe", tuple), want, "usage text");
	g.nontrivial();
	}

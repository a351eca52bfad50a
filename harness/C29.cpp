#include "pbt.h"
#include <memory>
#include <fstream>
#include <boost/math/distributions/students_t.hpp>
#include <boost/math/distributions/normal.hpp>
#include "maths.h"
#include "statistics.h"
#include "checksum.h"
#include "hash_pearson.h"
#include "reverse.h"

RULE("values of every bit width; samples with ties, constant runs and mixed signs; byte strings delivered as buffer, string, stream and file; non-trivial: arithmetic argument above 255, sample of at least 4 with variance, byte string of at least 2 bytes")
ASSUME_TEXT("real-valued results compared within 2e-6 (CDF approximations) or 1e-6 relative (correlations of values up to 1e4); tests on samples with zero variance are undefined and excluded");

PROPERTY(arithmetic, 400000, 20000000)
	{
	uint64_t x = g.flip() ? g.bits(64) : g.edge(0, UINT64_MAX, {0, 1, 255, 256, 65535, 65536, 1ULL << 24, 1ULL << 31, 1ULL << 32, 1ULL << 40, 1ULL << 48, 1ULL << 56, 1ULL << 63, UINT64_MAX});
	if (g.chance(1, 3)) x &= ~0ULL << g.draw(64);
	unsigned floor_ = x < 2 ? 0 : 63 - __builtin_clzll(x), bits = x == 0 ? 0 : 64 - __builtin_clzll(x), low = x == 0 ? 0 : __builtin_ctzll(x);
	EQUAL((unsigned)JASS::maths::floor_log2(x), floor_, "floor_log2(" << x << ")");
	EQUAL((unsigned)JASS::maths::ceiling_log2(x), bits, "ceiling_log2(" << x << "): the bits needed");
	EQUAL(JASS::maths::find_first_set_bit(x), low, "find_first_set_bit(" << x << ")");
	uint32_t y = (uint32_t)x;
	EQUAL((unsigned)JASS::maths::floor_log2(y), (y < 2 ? 0 : 31 - __builtin_clz(y)), "floor_log2(uint32_t " << y << ")");
	EQUAL((unsigned)JASS::maths::ceiling_log2(y), (y == 0 ? 0 : 32 - __builtin_clz(y)), "ceiling_log2(uint32_t " << y << ")");
	EQUAL(JASS::maths::find_first_set_bit(y), (y == 0 ? 0 : (unsigned)__builtin_ctz(y)), "find_first_set_bit(uint32_t " << y << ")");
	uint64_t r = JASS::maths::sqrt_compiletime(x >> 1);
	unsigned __int128 r2 = (unsigned __int128)r * r, r3 = (unsigned __int128)(r + 1) * (r + 1);
	REQUIRE(r2 <= (x >> 1) && r3 > (x >> 1), "sqrt_compiletime(" << (x >> 1) << ") = " << r);
	int64_t a = (int64_t)(g.bits(20)) - 500, b = g.chance(1, 4) ? a : (int64_t)g.bits(20) - 500, c = g.chance(1, 4) ? b : (int64_t)g.bits(20) - 500;
	EQUAL(JASS::maths::maximum(a, b), std::max(a, b), "maximum"); EQUAL(JASS::maths::minimum(a, b), std::min(a, b), "minimum");
	EQUAL(JASS::maths::maximum(a, b, c), std::max({a, b, c}), "maximum of three"); EQUAL(JASS::maths::minimum(a, b, c), std::min({a, b, c}), "minimum of three");
	g.nontrivial(x > 255);
	}

static uint16_t fletcher(const std::string &s)
	{
	uint64_t a = 0, b = 0;
	for (unsigned char c : s) { a = (a + c) % 255; b = (b + a) % 255; }
	return (uint16_t)(b << 8 | a);
	}
static std::string content(pbt::gen &g)
	{
	std::string s = g.bytes(g.size(0, 6000));
	switch (g.draw(4)) { case 1: for (auto &c : s) c = "\n\r\t a\0"[(unsigned char)c % 6]; break; case 2: for (auto &c : s) c = (char)0xff; break; case 3: for (auto &c : s) if ((unsigned char)c < 60) c = (char)(c % 33); break; }
	return s;
	}
PROPERTY(checksum_delivery, 20000, 600000)
	{
	std::string s = content(g);
	std::unique_ptr<char[]> exact(new char[s.size()]); memcpy(exact.get(), s.data(), s.size());
	uint16_t want = fletcher(s);
	EQUAL(JASS::checksum::fletcher_16(exact.get(), s.size()), want, "checksum of a buffer of " << s.size());
	EQUAL(JASS::checksum::fletcher_16(s), want, "checksum of a string");
	std::istringstream in(s);
	auto flags = in.flags();
	EQUAL(JASS::checksum::fletcher_16(in), want, "checksum of a stream");
	REQUIRE(in.flags() == flags, "the stream's flags changed");
	if (g.chance(1, 4))
		{
		std::string f = g.scratch() + "/f";
		{ std::ofstream o(f, std::ios::binary); o << s; }
		EQUAL(JASS::checksum::fletcher_16_file(f), want, "checksum of a file");
		}
	g.nontrivial(s.size() >= 2);
	}

PROPERTY(hashes, 60000, 3000000)
	{
	std::string s = g.bytes(g.size(0, 200));
	std::unique_ptr<char[]> exact(new char[s.size()]); memcpy(exact.get(), s.data(), s.size());
	JASS::slice sl(exact.get(), s.size());
	std::string part[4], two[2], three[3];
	for (size_t i = 0; i < s.size(); i++) { part[i % 4] += s[i]; two[i % 2] += s[i]; three[i % 3] += s[i]; }
	auto h8 = [](const std::string &x) { return JASS::hash_pearson::hash_8(x.data(), x.size()); };
	/* the wide hashes are the 8-bit hash of every second, third or fourth byte */
	size_t w16 = h8(two[0]) | h8(two[1]) << 8, w24 = h8(three[0]) | h8(three[1]) << 8 | h8(three[2]) << 16, w32 = h8(part[0]) | h8(part[1]) << 8 | h8(part[2]) << 16 | h8(part[3]) << 24;
	EQUAL(JASS::hash_pearson::hash_16(exact.get(), s.size()), w16, "hash_16"); EQUAL(JASS::hash_pearson::hash_24(exact.get(), s.size()), w24, "hash_24"); EQUAL(JASS::hash_pearson::hash_32(exact.get(), s.size()), w32, "hash_32");
	EQUAL(JASS::hash_pearson::hash<8>(sl), h8(s), "hash<8>"); EQUAL(JASS::hash_pearson::hash<16>(sl), w16, "hash<16>"); EQUAL(JASS::hash_pearson::hash<24>(sl), w24, "hash<24>"); EQUAL(JASS::hash_pearson::hash<32>(sl), w32, "hash<32>");
	EQUAL(JASS::hash_pearson::hash<24>(exact.get(), s.size()), w24, "hash<24>(address, length)"); EQUAL(JASS::hash_pearson::hash<16>(exact.get(), s.size()), w16, "hash<16>(address, length)");
	REQUIRE(w16 < 65536 && w24 < (1 << 24), "a hash exceeds its width");
	/* Pearson: the hash of s+c is walk[hash(s) ^ c], and the walk is a permutation */
	char c = (char)g.draw(256); size_t before = h8(s);
	char x = (char)(before ^ (unsigned char)c);
	EQUAL(h8(s + c), h8(std::string(1, x)), "hash_8 is not a walk");
	static bool permutation = false;
	if (!permutation)
		{
		std::set<size_t> seen; for (int i = 0; i < 256; i++) seen.insert(h8(std::string(1, (char)i)));
		EQUAL(seen.size(), (size_t)256, "the walk table is not a permutation");
		permutation = true;
		}
	g.nontrivial(s.size() >= 2);
	}

static double real(pbt::gen &g, int shape)
	{
	switch (shape)
		{
		case 0: return (double)g.draw(10);
		case 1: return ((double)g.draw(20001) - 10000) / 16.0;
		case 2: return (double)g.draw(1000) / 1000.0;
		default: return (double)g.draw(3);
		}
	}
PROPERTY(distributions, 60000, 2000000)
	{
	uint32_t nu = g.flip() ? 1 + g.draw(60) : g.edge(1, 100000, {1, 2, 3, 9, 10, 11, 998, 999, 1000, 1001});
	double x = g.chance(1, 30) ? 0 : ((double)g.draw(2000001) - 1000000) / g.pick({1000000.0, 100000.0, 20000.0, 300.0});
	g.note("x", x); g.note("nu", nu);
	double want = boost::math::cdf(boost::math::students_t_distribution<double>(nu), x);
	double got = JASS::statistics::t_cumulative_distribution_function(x, nu);
	REQUIRE(fabs(got - want) < 1e-6, "t distribution at " << x << " with " << nu << " degrees of freedom: got " << got << " expected " << want);
	double n = JASS::statistics::normal_cumulative_distribution_function(x);
	REQUIRE(fabs(n - 0.5 * erfc(-x / sqrt(2.0))) < 2e-7, "normal distribution at " << x << ": got " << n);
	g.nontrivial(x != 0 && nu > 2); g.label(nu >= 1000 ? "many degrees of freedom" : nu & 1 ? "odd" : "even");
	}
static std::vector<double> ranks(const std::vector<double> &v)
	{
	std::vector<double> r(v.size());
	for (size_t i = 0; i < v.size(); i++)
		{
		size_t less = 0, same = 0;
		for (auto x : v) { less += x < v[i]; same += x == v[i]; }
		r[i] = less + (same + 1) / 2.0;
		}
	return r;
	}
static long double pearson(const std::vector<double> &a, const std::vector<double> &b, bool &defined)
	{
	long double ma = 0, mb = 0; size_t n = a.size();
	for (size_t i = 0; i < n; i++) { ma += a[i]; mb += b[i]; }
	ma /= n; mb /= n;
	long double sab = 0, saa = 0, sbb = 0;
	for (size_t i = 0; i < n; i++) { sab += (a[i] - ma) * (b[i] - mb); saa += (a[i] - ma) * (a[i] - ma); sbb += (b[i] - mb) * (b[i] - mb); }
	defined = n > 1 && saa > 1e-3 && sbb > 1e-3;
	return defined ? sab / sqrtl(saa * sbb) : 0;
	}
PROPERTY(samples, 60000, 2000000)
	{
	size_t n = g.size(0, 400); int shape = g.draw(4);
	std::vector<double> a(n), b(n);
	for (auto &x : a) x = real(g, shape);
	if (g.chance(1, 4)) for (size_t i = 0; i < n; i++) b[i] = a[i] * (g.draw(3)) + g.draw(3); else for (auto &x : b) x = real(g, shape);
	g.note("a " + pbt::show_list(a)); g.note("b " + pbt::show_list(b));
	std::vector<double> r; JASS::statistics::value_to_fractional_rank(r, a);
	auto wr = ranks(a);
	EQUAL(r.size(), n, "number of ranks");
	for (size_t i = 0; i < n; i++) EQUAL(r[i], wr[i], "rank of element " << i << " (" << a[i] << ")");
	std::vector<float> r2(3, 7.0f); std::vector<int> ia; for (auto x : a) ia.push_back((int)x); std::vector<double> da(ia.begin(), ia.end());
	JASS::statistics::value_to_fractional_rank(r2, ia);
	auto wi = ranks(da); EQUAL(r2.size(), n, "number of ranks"); for (size_t i = 0; i < n; i++) EQUAL((double)r2[i], wi[i], "rank of integer element " << i);
	bool defined;
	long double p = pearson(a, b, defined);
	if (defined) { double got = JASS::statistics::pearson_correlation(a, b); REQUIRE(fabsl(got - p) < 1e-6, "Pearson: got " << got << " expected " << (double)p); }
	bool s_defined;
	long double s = pearson(wr, ranks(b), s_defined);
	if (s_defined) { double got = JASS::statistics::spearman_correlation(a, b); REQUIRE(fabsl(got - s) < 1e-6, "Spearman: got " << got << " expected " << (double)s); }
	/* paired t-test */
	auto tails = g.flip() ? JASS::statistics::ONE_TAILED : JASS::statistics::TWO_TAILED;
	if (n <= 1) EQUAL(JASS::statistics::ttest_paired(a, b, tails), 1.0, "t-test of fewer than two pairs");
	else
		{
		long double m = 0, var = 0;
		for (size_t i = 0; i < n; i++) m += a[i] - b[i];
		m /= n;
		for (size_t i = 0; i < n; i++) var += (a[i] - b[i] - m) * (a[i] - b[i] - m);
		var /= n - 1;
		for (auto each : {JASS::statistics::ONE_TAILED, JASS::statistics::TWO_TAILED}) { double p = JASS::statistics::ttest_paired(a, b, each); REQUIRE(!(p < 0) && !(p > 1 + 1e-5), "p value of " << p); }
		if (var > 1e-6)
			{
			double t = (double)fabsl(m / sqrtl(var / n));
			double want = boost::math::cdf(boost::math::complement(boost::math::students_t_distribution<double>(n - 1), t)) * (tails == JASS::statistics::ONE_TAILED ? 1 : 2);
			double got = JASS::statistics::ttest_paired(a, b, tails);
			REQUIRE(fabs(got - want) < 4e-6, "paired t-test (" << tails << " tails): got " << got << " expected " << want);
			EQUAL(JASS::statistics::ttest_paired(b, a, tails), got, "the t-test is not symmetric");
			g.label("t-test");
			}
		b.pop_back();
		EQUAL(JASS::statistics::ttest_paired(a, b, tails), 1.0, "t-test of samples of different sizes");
		}
	g.nontrivial(n >= 4 && defined);
	}
PROPERTY(reverse_view, 20000, 500000)
	{
	std::vector<uint64_t> v(g.size(0, 100)); for (auto &x : v) x = g.draw(1000);
	auto w = v; std::reverse(w.begin(), w.end());
	std::vector<uint64_t> got; for (auto &x : JASS::reverse(v)) got.push_back(x);
	REQUIRE(got == w, "reverse() gives " << pbt::show_list(got));
	for (auto &x : JASS::reverse(v)) x++;
	for (size_t i = 0; i < v.size(); i++) EQUAL(v[i], w[v.size() - 1 - i] + 1, "reverse() is a view");
	g.nontrivial(v.size() > 1);
	}

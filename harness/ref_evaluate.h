/*
	REF_EVALUATE.H
	--------------
	Generated assessments, and every evaluation metric computed from its definition.
*/
#pragma once
#include "pbt.h"
#include <limits>
#include <iomanip>

static const size_t NONE = std::numeric_limits<size_t>::max();
typedef std::vector<std::string> list;
struct world
	{
	std::map<std::string, std::map<std::string, double>> judged;
	std::map<std::string, double> price;
	std::string qrels, prices;
	std::vector<std::string> docs, queries;
	double rel(const std::string &q, const std::string &d) const { auto i = judged.find(q); if (i == judged.end()) return 0; auto j = i->second.find(d); return j == i->second.end() ? 0 : j->second; }
	double cost(const std::string &d) const { auto i = price.find(d); return i == price.end() ? 0 : i->second; }
	std::vector<double> relevant_prices(const std::string &q) const
		{
		std::vector<double> v; auto i = judged.find(q);
		if (i != judged.end()) for (auto &[d, s] : i->second) if (s != 0) v.push_back(cost(d));
		std::sort(v.begin(), v.end());
		return v;
		}
	size_t relevant(const std::string &q) const { return relevant_prices(q).size(); }
	};

static std::string spaces(pbt::gen &g) { return g.chance(1, 8) ? std::string(g.size(2, 4), ' ') : " "; }
static world make(pbt::gen &g)
	{
	world w;
	size_t docs = g.size(1, 80), queries = g.size(1, 6);
	bool numeric = g.flip();
	std::set<std::string> used;
	for (size_t i = 0; i < docs; i++) { std::string n = numeric ? std::to_string(g.draw(200)) : "D" + g.word(0, 3, "ab-1"); while (!used.insert(n).second) n += "x"; w.docs.push_back(n); }
	used.clear();
	for (size_t i = 0; i < queries; i++) { std::string n = g.flip() ? std::to_string(1 + i) : g.word(1, 3, "1az0"); while (!used.insert(n).second) n += "1"; w.queries.push_back(n); }
	std::vector<std::string> lines, money;
	auto r = g.stream();
	size_t distribution = g.draw(5); bool graded = g.flip(), negative = g.chance(1, 6);
	for (auto &q : w.queries)
		{
		if (g.chance(1, 10)) continue;				// a query that is not judged
		uint64_t odds = 1 + r.below(6);
		for (auto &d : w.docs)
			{
			if (r.below(distribution == 0 ? 1 : distribution == 1 ? 8 : 2) != 0) continue;
			double score = r.below(odds) ? 0 : 1;
			if (graded && score) score = r.below(4) == 0 ? 0.5 : 1 + (double)r.below(3);
			if (negative && r.below(6) == 0) score = -1;
			w.judged[q][d] = score;
			std::ostringstream l; l << (g.chance(1, 20) ? " " : "") << q << spaces(g) << (r.below(5) ? "0" : "Q0") << spaces(g) << d << spaces(g) << score << (g.chance(1, 20) ? " " : "");
			lines.push_back(l.str());
			}
		}
	size_t scheme = g.draw(4);
	for (auto &d : w.docs)
		{
		double p = scheme == 0 ? 10 : scheme == 1 ? 1 + (double)r.below(5) : (1 + (double)r.below(scheme == 2 ? 1000 : 100000)) / 4;
		w.price[d] = p;
		std::ostringstream l; l << "PRICE" << spaces(g) << "0" << spaces(g) << d << spaces(g) << std::setprecision(12) << p;
		money.push_back(l.str());
		}
	auto join = [&](std::vector<std::string> &v, std::string &into)
		{
		if (g.flip()) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
		for (auto &l : v) into += l + "\n";
		if (!into.empty() && g.flip()) into.pop_back();
		};
	join(lines, w.qrels); join(money, w.prices);
	return w;
	}
static list results(pbt::gen &g, const world &w)
	{
	list from = w.docs, out;
	auto r = g.stream();
	for (size_t i = from.size(); i > 1; i--) std::swap(from[i - 1], from[r.below(i)]);
	size_t n = g.size(0, from.size());
	for (size_t i = 0; i < n; i++) { if (r.below(12) == 0) out.push_back("unknown" + std::to_string(i)); out.push_back(from[i]); }
	return out;
	}

struct oracle
	{
	const world &w; const std::string &q; const list &l; size_t depth;
	size_t seen() const { return std::min(depth, l.size()); }
	double hits(size_t n) const { double h = 0; for (size_t i = 0; i < n && i < l.size(); i++) h += w.rel(q, l[i]) != 0; return h; }
	double found() const { return hits(seen()); }
	double precision() const { if (depth == 0) return 1; if (l.empty()) return 0; return found() / (depth == NONE ? (double)l.size() : (double)depth); }
	double recall() const { double r = (double)w.relevant(q); if (r == 0 || depth == 0) return 1; return found() / std::min(r, (double)depth); }
	double f() const { double p = precision(), r = recall(); return p + r == 0 ? 0 : 2 * p * r / (p + r); }
	double ap() const { double r = (double)w.relevant(q), s = 0; if (r == 0) return 1; for (size_t i = 0; i < seen(); i++) if (w.rel(q, l[i]) != 0) s += hits(i + 1) / (double)(i + 1); return s / r; }
	size_t first() const { for (size_t i = 0; i < seen(); i++) if (w.rel(q, l[i]) != 0) return i + 1; return 0; }
	double rr() const { return first() ? 1.0 / (double)first() : 0; }
	double rr4k(size_t k) const { double s = 0; size_t n = 0; for (size_t i = 0; i < seen() && n < k; i++) if (w.rel(q, l[i]) != 0) { s += 1.0 / (double)(i + 1); n++; } return n < k ? 0 : s / (double)k; }
	double rbp(long double p) const { long double s = 0, m = 1; for (size_t i = 0; i < seen(); i++, m *= p) if (w.rel(q, l[i]) != 0) s += m; return (double)((1 - p) * s); }
	double esl() const { return first() ? (double)(first() - 1) : (double)depth; }
	double bp() const
		{
		auto v = w.relevant_prices(q); if (depth == 0 || v.empty()) return 1;
		size_t f = first(); if (!f) return 0;
		double t = 0; for (size_t i = 0; i < f; i++) t += w.cost(l[i]);
		return v[0] / t;
		}
	double bp4k(size_t k) const
		{
		if (depth == 0) return 1;
		auto v = w.relevant_prices(q); if (v.size() < k) return 0;
		double best = 0; for (size_t i = 0; i < k; i++) best += v[i];
		double t = 0; size_t n = 0;
		for (size_t i = 0; i < seen(); i++) { t += w.cost(l[i]); if (w.rel(q, l[i]) != 0 && ++n == k) return best / t; }
		return 0;
		}
	double sp() const
		{
		if (depth == 0) return 1;
		auto v = w.relevant_prices(q); if (v.empty()) return 1;
		size_t k = std::min(depth, v.size()), n = 0; double s = 0;
		for (size_t i = 0; i < k && i < l.size(); i++) if (w.rel(q, l[i]) != 0) s += v[n++] / w.cost(l[i]);
		return s / (double)k;
		}
	double bpndcg() const
		{
		if (depth == 0) return 1;
		auto v = w.relevant_prices(q); if (v.empty()) return 1;
		double ideal = 0, mine = 0;
		for (size_t i = 0; i < v.size() && i < depth; i++) ideal += v[0] / v[i] / log2((double)i + 2);
		for (size_t i = 0; i < seen(); i++) if (w.rel(q, l[i]) != 0) mine += v[0] / w.cost(l[i]) / log2((double)i + 2);
		return mine / ideal;
		}
	double pbndcg(bool &close) const
		{
		if (depth == 0) return 1;
		auto v = w.relevant_prices(q); if (v.empty()) return 1;
		auto gain = [&](double p)
			{
			double points = 6;
			for (int b = 0; b < 5; b++) { double edge = v[0] + (v.back() - v[0]) * ((exp(b) - 1) / (exp(5) - 1)); if (edge <= p) points--; if (b != 0 && v.back() != v[0] && fabs(edge - p) < 1e-9 * p) close = true; }
			return points;
			};
		double ideal = 0, mine = 0;
		for (size_t i = 0; i < v.size() && i < depth; i++) ideal += gain(v[i]) / log2((double)i + 2);
		for (size_t i = 0; i < seen(); i++) if (w.rel(q, l[i]) != 0) mine += gain(w.cost(l[i])) / log2((double)i + 2);
		return mine / ideal;
		}
	/* the k cheapest relevant items, and any that cost the same as the k-th */
	double cheapest() const
		{
		if (l.empty()) return 0;
		auto v = w.relevant_prices(q); if (v.empty() || depth == 0) return 1;
		size_t k = std::min(depth, l.size());
		double limit = k < v.size() ? v[k - 1] : v.back(), n = 0;
		for (size_t i = 0; i < seen(); i++) if (w.rel(q, l[i]) != 0 && w.cost(l[i]) <= limit) n++;
		return n / (depth == NONE ? (double)l.size() : (double)depth);
		}
	};

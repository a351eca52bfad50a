#pragma once
#include <string>
#include <vector>
/* Porter 1980, written from the paper: word = [C](VC){m}[V], suffix rules per step, longest matching suffix decides */
namespace ref_porter
	{
	inline bool is_cons(const std::string &w, size_t i)
		{
		switch (w[i])
			{
			case 'a': case 'e': case 'i': case 'o': case 'u': return false;
			case 'y': return i == 0 ? true : !is_cons(w, i - 1);
			default: return true;
			}
		}
	inline int measure(const std::string &w)
		{
		int m = 0; bool in_vowels = false;
		for (size_t i = 0; i < w.size(); i++)
			{
			if (!is_cons(w, i)) in_vowels = true;
			else { if (in_vowels) m++; in_vowels = false; }
			}
		return m;
		}
	inline bool vowel_in(const std::string &w) { for (size_t i = 0; i < w.size(); i++) if (!is_cons(w, i)) return true; return false; }
	inline bool double_cons(const std::string &w) { size_t n = w.size(); return n >= 2 && w[n - 1] == w[n - 2] && is_cons(w, n - 1) && is_cons(w, n - 2); }
	inline bool star_o(const std::string &w)
		{
		size_t n = w.size();
		if (n < 3) return false;
		if (!is_cons(w, n - 3) || is_cons(w, n - 2) || !is_cons(w, n - 1)) return false;
		return w[n - 1] != 'w' && w[n - 1] != 'x' && w[n - 1] != 'y';
		}
	inline bool ends(const std::string &w, const std::string &s, std::string &stem)
		{
		if (w.size() < s.size() || w.compare(w.size() - s.size(), s.size(), s) != 0) return false;
		stem = w.substr(0, w.size() - s.size());
		return true;
		}
	struct rule { const char *from, *to; };
	/* apply the rule with the longest matching suffix, if its stem has measure > min_m */
	inline std::string table(const std::string &w, const std::vector<rule> &rules, int min_m)
		{
		const rule *best = nullptr; std::string stem, t;
		for (auto &r : rules)
			if (ends(w, r.from, t) && (best == nullptr || std::string(r.from).size() > std::string(best->from).size())) { best = &r; stem = t; }
		if (best == nullptr) return w;
		if (measure(stem) > min_m)
			{
			if (std::string(best->from) == "ion" && (stem.empty() || (stem.back() != 's' && stem.back() != 't'))) return w;
			return stem + best->to;
			}
		return w;
		}
	inline std::string stem(std::string w)
		{
		std::string s;
		/* 1a */
		if (ends(w, "sses", s)) w = s + "ss";
		else if (ends(w, "ies", s)) w = s + "i";
		else if (ends(w, "ss", s)) {}
		else if (ends(w, "s", s)) w = s;
		/* 1b */
		bool again = false;
		if (ends(w, "eed", s)) { if (measure(s) > 0) w = s + "ee"; }
		else if (ends(w, "ed", s)) { if (vowel_in(s)) { w = s; again = true; } }
		else if (ends(w, "ing", s)) { if (vowel_in(s)) { w = s; again = true; } }
		if (again)
			{
			if (ends(w, "at", s)) w = s + "ate";
			else if (ends(w, "bl", s)) w = s + "ble";
			else if (ends(w, "iz", s)) w = s + "ize";
			else if (double_cons(w)) { char c = w.back(); if (c != 'l' && c != 's' && c != 'z') w.pop_back(); }
			else if (measure(w) == 1 && star_o(w)) w += 'e';
			}
		/* 1c */
		if (ends(w, "y", s) && vowel_in(s)) w = s + "i";
		/* 2 */
		w = table(w, {{"ational","ate"},{"tional","tion"},{"enci","ence"},{"anci","ance"},{"izer","ize"},{"abli","able"},{"alli","al"},{"entli","ent"},{"eli","e"},{"ousli","ous"},{"ization","ize"},{"ation","ate"},{"ator","ate"},{"alism","al"},{"iveness","ive"},{"fulness","ful"},{"ousness","ous"},{"aliti","al"},{"iviti","ive"},{"biliti","ble"}}, 0);
		/* 3 */
		w = table(w, {{"icate","ic"},{"ative",""},{"alize","al"},{"iciti","ic"},{"ical","ic"},{"ful",""},{"ness",""}}, 0);
		/* 4 */
		w = table(w, {{"al",""},{"ance",""},{"ence",""},{"er",""},{"ic",""},{"able",""},{"ible",""},{"ant",""},{"ement",""},{"ment",""},{"ent",""},{"ion",""},{"ou",""},{"ism",""},{"ate",""},{"iti",""},{"ous",""},{"ive",""},{"ize",""}}, 1);
		/* 5a */
		if (ends(w, "e", s)) { int m = measure(s); if (m > 1 || (m == 1 && !star_o(s))) w = s; }
		/* 5b */
		if (measure(w) > 1 && double_cons(w) && w.back() == 'l') w.pop_back();
		return w;
		}
	}

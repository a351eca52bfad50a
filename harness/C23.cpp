#include "pbt.h"
#include "ref_porter.h"
#include "stem_porter.h"

RULE("word = letters or syllables + 0..4 Porter suffixes (or random letters); non-trivial: the reference stem differs from the word")

static std::string word(pbt::gen &g)
	{
	static const std::vector<std::string> suffix = {"s","es","sses","ies","ss","eed","ed","ing","y","ational","tional","enci","anci","izer","abli","alli","entli","eli","ousli","ization","ation","ator","alism","iveness","fulness","ousness","aliti","iviti","biliti","icate","ative","alize","iciti","ical","ful","ness","al","ance","ence","er","ic","able","ible","ant","ement","ment","ent","ion","sion","tion","ou","ism","ate","iti","ous","ive","ize","e","ll","lle","at","bl","iz","tt","zz"};
	std::string w;
	switch (g.weighted({4, 3, 2, 1}))
		{
		case 0: w = g.word(1, 6); break;
		case 1: { size_t n = g.range(1, 4); for (size_t i = 0; i < n; i++) { w += g.word(0, 2, "tbrlsnwxyzh"); w += g.word(0, 2, "aeiouy"); } break; }
		case 2: w = g.word(1, 5, "aeiouyb"); break;
		default: w = g.word(1, 60); break;
		}
	size_t n = g.draw(5);
	for (size_t i = 0; i < n; i++) w += g.pick(suffix);
	if (g.chance(1, 4)) w += g.word(1, 2);
	while (w.size() < 3) w += 'a';
	return w;
	}

PROPERTY(matches_published_algorithm, 1200000, 40000000)
	{
	static JASS::stem_porter stemmer;			/* reused: no state may leak between words */
	std::string w = word(g), want = ref_porter::stem(w);
	g.note("word", w);
	/* source in an exactly sized heap block so that ASan sees a read past the word; destination exactly word + 2 for a replaced suffix and the terminator */
	std::vector<char> source(w.begin(), w.end());
	std::vector<char> destination(w.size() + 2, '#');
	size_t got = stemmer.tostem(destination.data(), source.data(), source.size());
	g.check(got <= w.size() + 1, "stem longer than possible");
	std::string stem(destination.data(), got);
	g.check(destination[got] == '\0', "stem is not terminated");
	g.equal(stem, want, "stem of " + w);
	g.check(std::string(source.begin(), source.end()) == w, "the source word was changed");
	g.nontrivial(want != w);
	}

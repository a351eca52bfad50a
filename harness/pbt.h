/*
	PBT.H
	-----
	A small property-based testing engine (choice-sequence style: every random decision a generator makes is one bounded
	integer drawn from the engine, so a case is a list of integers, which is what gets shrunk and saved as the replay file).

	* A run is a pure function of the code, VERIF_SEED and the tier: case i of property p draws from PRNG(seed, p, i).
	* Cases run in forked children in batches, so a crash, sanitizer report, hang or corrupted global cannot take the engine down.
	* A failure is believed only after it has been reproduced (3 times out of 3, in fresh processes) from its saved choices.
	* After that it is shrunk (delete spans, zero, minimise) and written to the replay file.
*/
#pragma once
#include <filesystem>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>

#include <algorithm>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt
	{
	struct failure { std::string why; };

	inline uint64_t mix(uint64_t z)
		{
		z += 0x9e3779b97f4a7c15ULL;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
		}

	struct prng
		{
		uint64_t s;
		explicit prng(uint64_t seed = 0) : s(seed) {}
		uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
		uint64_t below(uint64_t n) { return n == 0 ? next() : next() % n; }
		};

	static constexpr size_t MAX_CHOICES = 1 << 20;
	static constexpr size_t MAX_HASHES = 8192;
	static constexpr size_t MAX_LABELS = 96;

	struct slot									// shared between a child and the engine
		{
		volatile uint64_t current;				// index of the case running
		volatile uint64_t started;				// number of cases started in this batch
		volatile uint64_t finished;
		volatile uint64_t n_choices;
		volatile int failed;						// 1: oracle failure reported
		char why[6000];
		char note[6000];
		uint64_t evaluations, nontrivial, discarded, n_hashes, n_labels, n_samples;
		uint64_t hashes[MAX_HASHES];
		struct { char name[56]; uint64_t count; } labels[MAX_LABELS];
		char samples[3][1500];
		uint64_t choices[MAX_CHOICES];
		};

	inline slot *make_slot()
		{
		void *p = mmap(nullptr, sizeof(slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); exit(3); }
		return (slot *)p;
		}

	/* ---------------------------------------------------------------------------------------------------------------- */
	class gen
		{
		public:
			slot *s;
			prng r;
			const std::vector<uint64_t> *replay;
			size_t at;
			bool thorough;
			bool is_nontrivial;
			std::string notes;
			std::string scratch_dir;

			gen(slot *s, uint64_t seed, const std::vector<uint64_t> *replay, bool thorough) : s(s), r(seed), replay(replay), at(0), thorough(thorough), is_nontrivial(false)
				{
				s->n_choices = 0;
				s->note[0] = '\0';
				}

			/* a value in [0, bound): 0 is "simplest" */
			uint64_t draw(uint64_t bound)
				{
				uint64_t v;
				if (replay != nullptr)
					v = at < replay->size() ? (*replay)[at] : 0;
				else
					v = r.next();
				if (bound != 0 && (replay == nullptr || v >= bound))
					v %= bound;
				at++;
				if (s->n_choices < MAX_CHOICES)
					{
					s->choices[s->n_choices] = v;
					s->n_choices = s->n_choices + 1;
					}
				return v;
				}

			uint64_t u64() { return draw(0); }
			int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
			bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }		/* 0 means "no" */
			bool flip() { return draw(2) != 0; }
			template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
			template <typename T> const T &pick(const std::vector<T> &l) { return l[draw(l.size())]; }
			/* weighted index */
			size_t weighted(std::initializer_list<unsigned> w)
				{
				uint64_t total = 0; for (auto x : w) total += x;
				uint64_t v = draw(total); size_t i = 0;
				for (auto x : w) { if (v < x) return i; v -= x; i++; }
				return 0;
				}
			/* a size: mostly small, sometimes medium, sometimes up to max */
			uint64_t size(uint64_t lo, uint64_t hi)
				{
				if (hi <= lo) return lo;
				uint64_t span = hi - lo;
				switch (weighted({5, 3, 2, 1}))
					{
					case 0: return lo + draw(std::min<uint64_t>(span, 8) + 1);
					case 1: return lo + draw(std::min<uint64_t>(span, 40) + 1);
					case 2: return lo + draw(std::min<uint64_t>(span, 300) + 1);
					default: return lo + draw(span + 1);
					}
				}
			/* a value near one of the given edges, or anywhere in the range */
			uint64_t edge(uint64_t lo, uint64_t hi, std::initializer_list<uint64_t> edges)
				{
				if (edges.size() != 0 && draw(3) != 0)
					{
					uint64_t e = *(edges.begin() + draw(edges.size()));
					static const int64_t off[] = {0, 1, -1, 2, -2};
					int64_t o = off[draw(5)];
					uint64_t v = e + (uint64_t)o;
					if (v >= lo && v <= hi) return v;
					if (e >= lo && e <= hi) return e;
					}
				return lo + draw(hi - lo + 1 == 0 ? 0 : hi - lo + 1);
				}
			/* an integer of a random bit width up to max_bits */
			uint64_t bits(unsigned max_bits)
				{
				unsigned w = (unsigned)draw(max_bits + 1);
				if (w == 0) return 0;
				uint64_t v = w >= 64 ? draw(0) : draw(1ULL << (w - 1)) | (1ULL << (w - 1));
				return v;
				}
			/* bulk material that is not worth shrinking value by value: one choice gives a private stream */
			prng stream() { return prng(mix(draw(1ULL << 32) + 1)); }
			std::string bytes(size_t n)
				{
				std::string out; out.reserve(n);
				if (n <= 64) { for (size_t i = 0; i < n; i++) out.push_back((char)draw(256)); return out; }
				prng p = stream();
				for (size_t i = 0; i < n; i++) out.push_back((char)p.below(256));
				return out;
				}
			std::string bytes(size_t lo, size_t hi) { return bytes(size(lo, hi)); }
			std::string word(size_t lo, size_t hi, const char *alphabet = "abcdefghijklmnopqrstuvwxyz")
				{
				size_t n = lo + draw(hi - lo + 1), a = strlen(alphabet);
				std::string out;
				for (size_t i = 0; i < n; i++) out.push_back(alphabet[draw(a)]);
				return out;
				}

			/* bookkeeping */
			void nontrivial(bool yes = true) { is_nontrivial = is_nontrivial || yes; }
			void label(const char *name, bool yes = true)
				{
				if (!yes) return;
				for (size_t i = 0; i < s->n_labels; i++)
					if (strncmp(s->labels[i].name, name, sizeof(s->labels[i].name) - 1) == 0) { s->labels[i].count++; return; }
				if (s->n_labels < MAX_LABELS)
					{
					strncpy(s->labels[s->n_labels].name, name, sizeof(s->labels[0].name) - 1);
					s->labels[s->n_labels].count = 1;
					s->n_labels++;
					}
				}
			void label(const std::string &name, bool yes = true) { label(name.c_str(), yes); }
			void note(const std::string &text)
				{
				if (notes.size() < 5000)
					{
					notes += text;
					notes += "; ";
					strncpy(s->note, notes.c_str(), sizeof(s->note) - 1);
					}
				}
			template <typename T> void note(const char *name, const T &value) { std::ostringstream o; o << name << '=' << value; note(o.str()); }
			[[noreturn]] void fail(const std::string &why) { throw failure{why}; }
			void check(bool ok, const std::string &why) { if (!ok) throw failure{why}; }
			template <typename A, typename B> void equal(const A &got, const B &want, const std::string &what)
				{
				if (!(got == want))
					{
					std::ostringstream o; o << what << ": got " << got << " expected " << want;
					throw failure{o.str()};
					}
				}
			/* a scratch directory private to this case, removed afterwards */
			const std::string &scratch()
				{
				if (scratch_dir.empty())
					{
					const char *base = getenv("PBT_SCRATCH");
					std::string t = std::string(base ? base : "/tmp") + "/case_XXXXXX";
					std::vector<char> b(t.begin(), t.end()); b.push_back(0);
					if (mkdtemp(b.data()) == nullptr) { perror("mkdtemp"); _exit(3); }
					scratch_dir = b.data();
					}
				return scratch_dir;
				}
		};

	inline void remove_tree(const std::string &dir)
		{
		/* only ever called on directories made by gen::scratch() or the engine */
		const char *base = getenv("PBT_SCRATCH");
		if (base == nullptr || dir.compare(0, strlen(base), base) != 0 || dir.size() <= strlen(base) + 1) return;
		std::error_code ec; std::filesystem::remove_all(dir, ec);
		}

	inline std::string show(const std::string &s, size_t limit = 200)
		{
		std::string o = "\"";
		for (size_t i = 0; i < s.size() && i < limit; i++)
			{
			unsigned char c = (unsigned char)s[i];
			char b[8];
			if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
			else if (c >= 32 && c < 127) o += (char)c;
			else { snprintf(b, sizeof(b), "\\x%02x", c); o += b; }
			}
		o += '"';
		if (s.size() > limit) o += "...(" + std::to_string(s.size()) + " bytes)";
		return o;
		}
	inline const std::string printable(const std::string &x) { return show(x, 60); }
	template <typename T> auto printable(const T &x) -> decltype(+x) { return +x; }
	template <typename V> std::string show_list(const V &v, size_t limit = 24)
		{
		std::ostringstream o; o << '['; size_t i = 0;
		for (const auto &x : v) { if (i == limit) { o << " ...(" << v.size() << ")"; break; } o << (i ? " " : "") << printable(x); i++; }
		o << ']'; return o.str();
		}

	/* ---------------------------------------------------------------------------------------------------------------- */
	struct property
		{
		std::string name;
		uint64_t quick, thorough;
		std::function<void(gen &)> fn;
		uint64_t batch = 0;						/* cases per forked child, 0: choose */
		double cpu_limit = 20;					/* seconds of CPU in one case before it counts as a hang */
		bool nondet = false;						/* the code under test runs threads: reproduce by repeating */
		};
	struct probe									/* a listed known finding: fn fails while the defect is there */
		{
		std::string id, what;
		std::function<void(gen &)> fn;
		};
	inline std::vector<property> &properties() { static std::vector<property> p; return p; }
	inline std::vector<probe> &probes() { static std::vector<probe> p; return p; }
	inline std::string &rule() { static std::string r; return r; }
	inline std::vector<std::string> &assumptions() { static std::vector<std::string> r; return r; }

	struct registrar
		{
		registrar(property p) { properties().push_back(p); }
		registrar(probe p) { probes().push_back(p); }
		};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
/* PROPERTY(name, quick cases, thorough cases, [options as designated .field = value]) { body using g } */
#define PROPERTY(name, quick, thorough, ...) \
	static void PBT_CAT(pbt_fn_, name)(pbt::gen &g); \
	static pbt::registrar PBT_CAT(pbt_reg_, name)([]{ pbt::property p{#name, quick, thorough, PBT_CAT(pbt_fn_, name)}; __VA_ARGS__; return p; }()); \
	static void PBT_CAT(pbt_fn_, name)(pbt::gen &g)
#define KNOWN_FINDING(id, what) \
	static void PBT_CAT(pbt_probe_, id)(pbt::gen &g); \
	static pbt::registrar PBT_CAT(pbt_preg_, id)(pbt::probe{#id, what, PBT_CAT(pbt_probe_, id)}); \
	static void PBT_CAT(pbt_probe_, id)(pbt::gen &g)
/* lazily built messages: the stream expression is evaluated only on failure */
#define REQUIRE(cond, msg) do { if (!(cond)) { std::ostringstream pbt_o; pbt_o << msg; throw pbt::failure{pbt_o.str()}; } } while (0)
#define EQUAL(got, want, msg) do { auto pbt_a = (got); auto pbt_b = (want); if (!(pbt_a == pbt_b)) { std::ostringstream pbt_o; pbt_o << msg << ": got " << pbt_a << " expected " << pbt_b; throw pbt::failure{pbt_o.str()}; } } while (0)
#define RULE(text) static bool PBT_CAT(pbt_rule_, __LINE__) = (pbt::rule() = text, true);
#define ASSUME_TEXT(text) static bool PBT_CAT(pbt_as_, __LINE__) = (pbt::assumptions().push_back(text), true);

	/* ---------------------------------------------------------------------------------------------------------------- */
	inline uint64_t string_hash(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
	inline std::string &stderr_dir() { static std::string d; return d; }

	inline bool run_case(const property &p, gen &g, slot *s)
		{
		bool ok = true;
		try
			{
			p.fn(g);
			}
		catch (failure &f)
			{
			strncpy(s->why, f.why.c_str(), sizeof(s->why) - 1);
			s->why[sizeof(s->why) - 1] = 0;
			ok = false;
			}
		catch (std::exception &e)
			{
			snprintf(s->why, sizeof(s->why), "unexpected C++ exception: %s", e.what());
			ok = false;
			}
		catch (const char *e)
			{
			snprintf(s->why, sizeof(s->why), "unexpected thrown string: %s", e);
			ok = false;
			}
		catch (...)
			{
			snprintf(s->why, sizeof(s->why), "unexpected exception of unknown type");
			ok = false;
			}
		if (!g.scratch_dir.empty()) remove_tree(g.scratch_dir);
		return ok;
		}

	inline void child_setup(const std::string &err)
		{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		setpgid(0, 0);
		int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		if (fd >= 0) { dup2(fd, 2); close(fd); }
		int nul = open("/dev/null", O_WRONLY);
		if (nul >= 0) { dup2(nul, 1); close(nul); }
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		}

	inline std::string tail_of(const std::string &file)
		{
		std::string out; FILE *f = fopen(file.c_str(), "rb"); if (!f) return out;
		char b[4096]; size_t n = fread(b, 1, sizeof(b) - 1, f); b[n] = 0; fclose(f);
		/* keep the interesting lines of a sanitizer report */
		std::istringstream in(b); std::string line; int kept = 0;
		while (std::getline(in, line) && kept < 14)
			if (line.find("ERROR") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("    #") != std::string::npos || line.find("terminate") != std::string::npos || line.find("Assert") != std::string::npos || line.find("is located") != std::string::npos || line.find(" of size ") != std::string::npos)
				{ out += line + " | "; kept++; }
		return out;
		}

	inline double cpu_of(pid_t pid)
		{
		char n[64]; snprintf(n, sizeof(n), "/proc/%d/stat", (int)pid);
		FILE *f = fopen(n, "r"); if (!f) return 0;
		char b[1024]; size_t k = fread(b, 1, sizeof(b) - 1, f); b[k] = 0; fclose(f);
		char *p = strrchr(b, ')'); if (!p) return 0;
		unsigned long ut = 0, st = 0;
		sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
		return (double)(ut + st) / sysconf(_SC_CLK_TCK);
		}
	inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

	struct outcome { bool failed = false; std::string why, note; std::vector<uint64_t> choices; };

	/* describe how a child ended; empty string: fine */
	inline std::string ending(int status, const slot *s, const std::string &err)
		{
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !s->failed) return "";
		if (WIFEXITED(status) && WEXITSTATUS(status) == 77) return std::string(s->why);
		std::string t = tail_of(err);
		if (WIFSIGNALED(status)) return "crashed with signal " + std::to_string(WTERMSIG(status)) + (t.empty() ? "" : ": " + t);
		return "exited with status " + std::to_string(WEXITSTATUS(status)) + (t.empty() ? "" : ": " + t);
		}

	/* run one saved case in a fresh process */
	inline outcome run_saved(const property &p, const std::vector<uint64_t> *choices, uint64_t seed, uint64_t prefix_from, uint64_t index, uint64_t run_seed, bool thorough, double limit)
		{
		static slot *s = make_slot();
		memset((void *)s, 0, offsetof(slot, choices));
		std::string err = stderr_dir() + "/replay.err";
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid == 0)
			{
			child_setup(err);
			bool ok = true;
			if (choices != nullptr)
				{ gen g(s, seed, choices, thorough); ok = run_case(p, g, s); }
			else
				for (uint64_t i = prefix_from; ok && i <= index; i++)
					{ gen g(s, mix(run_seed ^ string_hash(p.name)) + mix(i), nullptr, thorough); ok = run_case(p, g, s); }
			if (!ok) { s->failed = 1; _exit(77); }
			_exit(0);
			}
		int status = 0; double start = now(); bool hung = false;
		for (;;)
			{
			pid_t r = waitpid(pid, &status, WNOHANG);
			if (r == pid) break;
			double cpu = cpu_of(pid), wall = now() - start;
			if (cpu > limit || wall > limit * 8)
				{ kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &status, 0); hung = true; break; }
			usleep(wall < 0.05 ? 500 : 4000);
			}
		kill(-pid, SIGKILL);
		outcome o;
		if (hung) { o.failed = true; o.why = "no result after " + std::to_string(limit) + " seconds of CPU time (hang)"; }
		else { o.why = ending(status, s, err); o.failed = !o.why.empty(); }
		o.note = s->note;
		o.choices.assign((uint64_t *)s->choices, (uint64_t *)s->choices + s->n_choices);
		return o;
		}

	inline std::string json_string(const std::string &s)
		{
		std::string o = "\"";
		for (unsigned char c : s)
			{
			char b[8];
			if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
			else if (c < 32 || c >= 127) { snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
			else o += (char)c;
			}
		return o + "\"";
		}

	struct statistics
		{
		uint64_t evaluations = 0, nontrivial = 0;
		std::unordered_set<uint64_t> distinct;
		std::map<std::string, uint64_t> labels;
		std::map<std::string, uint64_t> per_property, per_property_nontrivial;
		std::vector<std::string> samples;
		std::map<std::string, int> samples_of;
		uint64_t unreproduced = 0;
		std::vector<std::string> unreproduced_why;
		};

	inline void absorb(statistics &st, const property &p, slot *s)
		{
		st.evaluations += s->evaluations;
		st.nontrivial += s->nontrivial;
		st.per_property[p.name] += s->evaluations;
		st.per_property_nontrivial[p.name] += s->nontrivial;
		for (size_t i = 0; i < s->n_hashes && st.distinct.size() < 5000000; i++) st.distinct.insert(s->hashes[i]);
		for (size_t i = 0; i < s->n_labels; i++) st.labels[p.name + ": " + s->labels[i].name] += s->labels[i].count;
		for (size_t i = 0; i < s->n_samples; i++)
			if (st.samples_of[p.name] < 2 && s->samples[i][0]) { st.samples_of[p.name]++; st.samples.push_back(p.name + ": " + s->samples[i]); }
		}

	inline std::vector<uint64_t> shrink(const property &p, std::vector<uint64_t> best, bool thorough, double limit, double budget, std::string &why, std::string &note, int &steps)
		{
		double end = now() + budget;
		auto attempt = [&](const std::vector<uint64_t> &c)
			{
			int tries = p.nondet ? 5 : 1;
			for (int t = 0; t < tries; t++)
				{
				steps++;
				outcome o = run_saved(p, &c, 0, 0, 0, 0, thorough, limit);
				if (o.failed)
					{
					why = o.why; note = o.note;
					best = o.choices.size() <= c.size() ? o.choices : c;
					return true;
					}
				}
			return false;
			};
		bool progress = true;
		while (progress && now() < end)
			{
			progress = false;
			for (size_t chunk = std::max<size_t>(best.size() / 2, 1); chunk >= 1 && now() < end; chunk /= 2)
				{
				for (size_t i = 0; i < best.size() && now() < end;)
					{
					std::vector<uint64_t> c = best;
					c.erase(c.begin() + i, c.begin() + std::min(best.size(), i + chunk));
					if (attempt(c)) progress = true; else i += chunk;
					}
				if (chunk == 1) break;
				}
			for (size_t i = 0; i < best.size() && now() < end; i++)
				{
				if (best[i] == 0) continue;
				std::vector<uint64_t> c = best; c[i] = 0;
				if (attempt(c)) { progress = true; continue; }
				if (i >= best.size()) break;
				uint64_t lo = 0, hi = best[i];		/* lo passes, hi fails */
				for (int k = 0; k < 12 && hi - lo > 1 && now() < end && i < best.size(); k++)
					{
					uint64_t mid = lo + (hi - lo) / 2;
					c = best; c[i] = mid;
					if (attempt(c)) { hi = mid; progress = true; if (i < best.size()) hi = std::min(hi, best[i]); } else lo = mid;
					}
				}
			}
		return best;
		}

	inline int main(int argc, char **argv)
		{
		uint64_t seed = strtoull(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1", nullptr, 10);
		std::string id = getenv("PBT_ID") ? getenv("PBT_ID") : "X00";
		bool thorough = getenv("PBT_TIER") && std::string(getenv("PBT_TIER")) == "thorough";
		std::string stats_file = getenv("PBT_STATS") ? getenv("PBT_STATS") : "";
		std::string replay_dir = getenv("PBT_REPLAY_DIR") ? getenv("PBT_REPLAY_DIR") : "/tmp";
		double scale = getenv("PBT_SCALE") ? atof(getenv("PBT_SCALE")) : 1.0;
		int workers = getenv("PBT_WORKERS") ? atoi(getenv("PBT_WORKERS")) : 8;
		std::string only = getenv("PBT_ONLY") ? getenv("PBT_ONLY") : "";
		double shrink_budget = getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : 20;
		std::set<std::string> listed;
		{ std::istringstream in(getenv("PBT_KNOWN") ? getenv("PBT_KNOWN") : ""); std::string t; while (std::getline(in, t, ',')) if (!t.empty()) listed.insert(t); }
		if (!getenv("PBT_SCRATCH")) { std::string d = "/tmp/pbt_" + std::to_string(getpid()); mkdir(d.c_str(), 0700); setenv("PBT_SCRATCH", d.c_str(), 1); }
		stderr_dir() = std::string(getenv("PBT_SCRATCH")) + "/err";
		mkdir(stderr_dir().c_str(), 0700);
		double started = now();

		/* replay mode */
		if (argc >= 3 && std::string(argv[1]) == "--replay")
			{
			FILE *f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 3; }
			char name[256]; char kind[32]; std::vector<uint64_t> c; unsigned long long v, a = 0, b = 0; int th = 0;
			if (fscanf(f, "property %255s\nthorough %d\nkind %31s\n", name, &th, kind) != 3) { fclose(f); fprintf(stderr, "bad replay file\n"); return 3; }
			bool batch = std::string(kind) == "batch", is_probe = std::string(kind) == "probe";
			if (batch) { if (fscanf(f, "%llu %llu %llu", &v, &a, &b) != 3) { fclose(f); return 3; } }
			else while (fscanf(f, "%llu", &v) == 1) c.push_back(v);
			fclose(f);
			if (is_probe)
				for (auto &q : probes())
					if (q.id == name)
						{
						property p{q.id, 1, 1, q.fn};
						outcome o = run_saved(p, &c, 0, 0, 0, 0, false, p.cpu_limit);
						printf("%s: %s\n", name, o.failed ? o.why.c_str() : "holds");
						return o.failed ? 1 : 0;
						}
			for (auto &p : properties())
				if (p.name == name)
					{
					outcome o;
					for (int t = 0; t < (p.nondet ? 30 : 1) && !o.failed; t++)
						o = batch ? run_saved(p, nullptr, 0, a, b, v, th, p.cpu_limit * 3) : run_saved(p, &c, 0, 0, 0, 0, th, p.cpu_limit);
					printf("%s: %s\n  case: %s\n", name, o.failed ? o.why.c_str() : "holds", o.note.c_str());
					return o.failed ? 1 : 0;
					}
			fprintf(stderr, "no such property %s\n", name);
			return 3;
			}

		statistics st;
		std::vector<std::string> known_lines;
		bool violated = false; std::string violation_why, violation_note, violation_prop; std::string replay_path;

		/* listed findings */
		for (auto &q : probes())
			{
			property p{q.id, 1, 1, q.fn};
			outcome o = run_saved(p, nullptr, 0, 0, 0, seed, thorough, p.cpu_limit);
			st.evaluations++;
			if (o.failed)
				{
				if (listed.count(q.id)) known_lines.push_back("KNOWN-FINDING: property=" + id + " " + q.id + " " + q.what);
				else
					{
					violated = true; violation_prop = q.id; violation_why = q.what + " -- " + o.why; violation_note = o.note;
					replay_path = replay_dir + "/" + id + "-" + q.id + ".replay";
					FILE *f = fopen(replay_path.c_str(), "w");
					if (f) { fprintf(f, "property %s\nthorough 0\nkind probe\n# %s\n", q.id.c_str(), violation_why.c_str()); fclose(f); }
					break;
					}
				}
			}
		for (auto &l : known_lines) printf("%s\n", l.c_str());
		fflush(stdout);

		/* the work list */
		struct job { size_t prop; uint64_t from, count; };
		std::vector<job> jobs;
		for (size_t k = 0; k < properties().size(); k++)
			{
			auto &p = properties()[k];
			if (!only.empty() && only != p.name) continue;
			uint64_t n = thorough ? p.thorough : p.quick;
			if (n > 1) n = (uint64_t)std::max(1.0, n * scale);
			uint64_t b = p.batch ? p.batch : std::min<uint64_t>(MAX_HASHES, std::max<uint64_t>(1, n / 64));
			for (uint64_t i = 0; i < n; i += b) jobs.push_back({k, i, std::min(b, n - i)});
			}
		/* interleave the properties so that a broken one is met early */
		std::stable_sort(jobs.begin(), jobs.end(), [](const job &a, const job &b) { return a.from < b.from; });

		struct running { pid_t pid; size_t job; double cpu_mark, wall_mark; uint64_t seen; };
		std::vector<slot *> slots; std::vector<running> run(workers, running{0, 0, 0, 0, 0});
		for (int i = 0; i < workers; i++) slots.push_back(make_slot());
		size_t next = 0; bool stop = violated;
		auto launch = [&](int w)
			{
			job &j = jobs[next];
			property &p = properties()[j.prop];
			slot *s = slots[w];
			memset((void *)s, 0, offsetof(slot, choices));
			std::string err = stderr_dir() + "/w" + std::to_string(w);
			fflush(stdout); fflush(stderr);
			pid_t pid = fork();
			if (pid == 0)
				{
				child_setup(err);
				for (uint64_t i = j.from; i < j.from + j.count; i++)
					{
					s->current = i;
					s->started = s->started + 1;
					gen g(s, mix(seed ^ string_hash(p.name)) + mix(i), nullptr, thorough);
					bool ok = run_case(p, g, s);
					s->evaluations++;
					if (!ok) { s->failed = 1; _exit(77); }
					if (g.is_nontrivial)
						{
						s->nontrivial++;
						uint64_t h = string_hash(p.name);
						for (uint64_t k = 0; k < s->n_choices; k++) h = mix(h ^ s->choices[k]);
						if (s->n_hashes < MAX_HASHES) s->hashes[s->n_hashes++] = h;
						if (s->n_samples < 3 && !g.notes.empty()) { strncpy(s->samples[s->n_samples], g.notes.c_str(), sizeof(s->samples[0]) - 1); s->n_samples++; }
						}
					s->finished = s->finished + 1;
					}
				_exit(0);
				}
			run[w] = running{pid, next, 0, now(), 0};
			next++;
			};
		while (!stop)
			{
			bool any = false, acted = false;
			for (int w = 0; w < workers && !stop; w++)
				{
				if (run[w].pid == 0)
					{
					if (next < jobs.size()) { launch(w); any = true; acted = true; }
					continue;
					}
				any = true;
				int status; pid_t r = waitpid(run[w].pid, &status, WNOHANG);
				slot *s = slots[w]; job j = jobs[run[w].job]; property &p = properties()[j.prop];
				bool hung = false;
				if (r == 0)
					{
					double wall = now();
					if (s->started != run[w].seen) { run[w].seen = s->started; run[w].cpu_mark = cpu_of(run[w].pid); run[w].wall_mark = wall; continue; }
					if (wall - run[w].wall_mark > 2 && (cpu_of(run[w].pid) - run[w].cpu_mark > p.cpu_limit || wall - run[w].wall_mark > p.cpu_limit * 8))
						{ kill(-run[w].pid, SIGKILL); kill(run[w].pid, SIGKILL); waitpid(run[w].pid, &status, 0); hung = true; }
					else continue;
					}
				else
					kill(-run[w].pid, SIGKILL);
				acted = true;
				absorb(st, p, s);
				std::string err = stderr_dir() + "/w" + std::to_string(w);
				std::string why = hung ? "hang" : ending(status, s, err);
				run[w].pid = 0;
				if (why.empty()) continue;
				/* something went wrong in case s->current */
				uint64_t index = s->current; std::string note = s->note;
				std::vector<uint64_t> choices((uint64_t *)s->choices, (uint64_t *)s->choices + s->n_choices);
				int want = 3, tries = p.nondet ? 40 : 3, good = 0;
				if (p.nondet) want = 1;
				bool as_batch = false; outcome o;
				double patience = now() + 120;				/* a slow case that failed once must not use up all the time there is */
				for (int t = 0; t < tries && good < want && (t < 3 || now() < patience); t++)
					{ outcome x = run_saved(p, nullptr, 0, index, index, seed, thorough, p.cpu_limit); if (x.failed) { good++; o = x; } }
				if (good < want && j.from < index)
					{
					good = 0; as_batch = true;
					patience = now() + 60;
					for (int t = 0; t < tries && good < want && (t < 3 || now() < patience); t++)
						{ outcome x = run_saved(p, nullptr, 0, j.from, index, seed, thorough, p.cpu_limit * 3); if (x.failed) { good++; o = x; } }
					}
				if (good < want)
					{
					st.unreproduced++;
					st.unreproduced_why.push_back(p.name + ": " + why);
					fprintf(stderr, "note: %s case %llu failed once and did not reproduce (%s)\n", p.name.c_str(), (unsigned long long)index, why.c_str());
					/* carry on with the rest of the batch */
					if (index + 1 < j.from + j.count) jobs.push_back({j.prop, index + 1, j.from + j.count - index - 1});
					continue;
					}
				violated = true; stop = true;
				for (int v = 0; v < workers; v++) if (run[v].pid) { kill(-run[v].pid, SIGKILL); kill(run[v].pid, SIGKILL); int x; waitpid(run[v].pid, &x, 0); run[v].pid = 0; }
				violation_prop = p.name; violation_why = o.why.empty() ? why : o.why; violation_note = o.note;
				int steps = 0;
				if (!as_batch)
					{
					choices = o.choices;
					double lim = std::min(p.cpu_limit, 5.0);
					bool was_hang = violation_why.find("(hang)") != std::string::npos;
					if (!was_hang && getenv("PBT_NOSHRINK") == nullptr) choices = shrink(p, choices, thorough, lim, shrink_budget, violation_why, violation_note, steps);
					}
				char hname[64]; uint64_t h = string_hash(p.name); for (auto c : choices) h = mix(h ^ c); snprintf(hname, sizeof(hname), "%016llx", (unsigned long long)h);
				replay_path = replay_dir + "/" + id + "-" + p.name + "-" + hname + ".replay";
				FILE *f = fopen(replay_path.c_str(), "w");
				if (f)
					{
					fprintf(f, "property %s\nthorough %d\nkind %s\n", p.name.c_str(), thorough ? 1 : 0, as_batch ? "batch" : "choices");
					if (as_batch) fprintf(f, "%llu %llu %llu", (unsigned long long)seed, (unsigned long long)j.from, (unsigned long long)index);
					else for (auto c : choices) fprintf(f, "%llu ", (unsigned long long)c);
					fprintf(f, "\n# found at seed %llu case %llu; %d shrink steps\n# %s\n# case: %s\n", (unsigned long long)seed, (unsigned long long)index, steps, violation_why.c_str(), violation_note.c_str());
					fclose(f);
					}
				}
			if (!any && next >= jobs.size()) break;
			if (!acted) usleep(1000);
			}

		if (!stats_file.empty())
			{
			FILE *f = fopen(stats_file.c_str(), "w");
			if (f)
				{
				fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"rule\": %s, \"samples\": [", (unsigned long long)st.evaluations, (unsigned long long)st.nontrivial, (unsigned long long)st.distinct.size(), json_string(rule()).c_str());
				for (size_t i = 0; i < st.samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", json_string(st.samples[i]).c_str());
				fprintf(f, "], \"per_property\": {"); bool first = true;
				for (auto &x : st.per_property) { fprintf(f, "%s%s: {\"cases\": %llu, \"nontrivial\": %llu}", first ? "" : ", ", json_string(x.first).c_str(), (unsigned long long)x.second, (unsigned long long)st.per_property_nontrivial[x.first]); first = false; }
				fprintf(f, "}, \"classes\": {"); first = true;
				for (auto &x : st.labels) { fprintf(f, "%s%s: %llu", first ? "" : ", ", json_string(x.first).c_str(), (unsigned long long)x.second); first = false; }
				fprintf(f, "}, \"unreproduced\": %llu, \"unreproduced_why\": [", (unsigned long long)st.unreproduced);
				for (size_t i = 0; i < st.unreproduced_why.size(); i++) fprintf(f, "%s%s", i ? ", " : "", json_string(st.unreproduced_why[i]).c_str());
				fprintf(f, "], \"assumptions\": ["); first = true;
				for (auto &x : assumptions()) { fprintf(f, "%s%s", first ? "" : ", ", json_string(x).c_str()); first = false; }
				fprintf(f, "], \"known_findings\": ["); first = true;
				for (auto &x : known_lines) { fprintf(f, "%s%s", first ? "" : ", ", json_string(x).c_str()); first = false; }
				fprintf(f, "], \"violations\": %d, \"wall_s\": %.2f, \"violation\": %s}\n", violated ? 1 : 0, now() - started, json_string(violated ? violation_prop + ": " + violation_why + " | case: " + violation_note : std::string()).c_str());
				fclose(f);
				}
			}
		if (violated)
			{
			printf("%s: %s\n  case: %s\n", violation_prop.c_str(), violation_why.c_str(), violation_note.substr(0, 1500).c_str());
			printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay_path.c_str());
			return 1;
			}
		printf("%s: held on %llu cases (%llu distinct non-trivial) in %.1f s\n", id.c_str(), (unsigned long long)st.evaluations, (unsigned long long)st.distinct.size(), now() - started);
		return 0;
		}
	}

#ifndef PBT_NO_MAIN
#if defined(__SANITIZE_ADDRESS__)
extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_odr_violation=0:quarantine_size_mb=16:malloc_context_size=8:symbolize=1:detect_stack_use_after_return=0:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1"; }
#endif
#if defined(__SANITIZE_THREAD__)
extern "C" const char *__tsan_default_options() { return "exitcode=98:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0"; }
#endif
int main(int argc, char **argv) { return pbt::main(argc, argv); }
#endif

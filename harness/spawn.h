/*
	SPAWN.H
	-------
	Running one of the library's programs, built by the check, in a directory of its own.
*/
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fstream>
#include <sstream>
#include "pbt.h"

struct ran { int exit_code = -1, signal = 0; std::string out, err; };

static std::string read_file(const std::string &name)
	{
	std::ifstream f(name, std::ios::binary);
	std::ostringstream o; o << f.rdbuf();
	return o.str();
	}
static void write_file(const std::string &name, const std::string &contents)
	{
	std::ofstream f(name, std::ios::binary);
	f << contents;
	}
static bool file_there(const std::string &name) { struct stat s; return stat(name.c_str(), &s) == 0; }

/* the path of a program the check was built with */
static std::string program(const char *name)
	{
	const char *p = getenv((std::string("PBT_EXE_") + name).c_str());
	if (!p) { fprintf(stderr, "no program %s\n", name); abort(); }
	return p;
	}

/* run a program in a directory; what it prints goes through files next to (not in) that directory */
static ran run_program(const std::string &path, const std::vector<std::string> &arguments, const std::string &directory, const std::string &input = "", double seconds = 60)
	{
	ran r;
	std::string base = directory + ".run";
	write_file(base + ".in", input);
	pid_t child = fork();
	if (child < 0) abort();
	if (child == 0)
		{
		setpgid(0, 0);
		int in = open((base + ".in").c_str(), O_RDONLY), out = open((base + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), err = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (in < 0 || out < 0 || err < 0 || dup2(in, 0) < 0 || dup2(out, 1) < 0 || dup2(err, 2) < 0) _exit(125);
		if (chdir(directory.c_str())) _exit(125);
		struct rlimit cpu; cpu.rlim_cur = cpu.rlim_max = (rlim_t)seconds; setrlimit(RLIMIT_CPU, &cpu);
		struct rlimit size; size.rlim_cur = size.rlim_max = (rlim_t)256 << 20; setrlimit(RLIMIT_FSIZE, &size);
		std::vector<char *> argv;
		argv.push_back((char *)path.c_str());
		for (auto &a : arguments) argv.push_back((char *)a.c_str());
		argv.push_back(nullptr);
		setenv("ASAN_OPTIONS", "exitcode=99:detect_leaks=0:abort_on_error=0:handle_abort=0:detect_odr_violation=0", 1);
		setenv("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1", 1);
		execv(path.c_str(), argv.data());
		_exit(126);
		}
	int status = 0;
	while (waitpid(child, &status, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(status)) r.exit_code = WEXITSTATUS(status); else r.signal = WTERMSIG(status);
	r.out = read_file(base + ".out"); r.err = read_file(base + ".err");
	for (const char *x : {".in", ".out", ".err"}) unlink((base + x).c_str());
	return r;
	}

/* where two long texts differ */
static std::string difference(const std::string &got, const std::string &want)
	{
	size_t at = 0;
	while (at < got.size() && at < want.size() && got[at] == want[at]) at++;
	size_t line = 1 + std::count(got.begin(), got.begin() + at, '\n');
	size_t from = at > 40 ? at - 40 : 0;
	std::ostringstream o;
	o << "lengths " << got.size() << " and " << want.size() << ", first difference at byte " << at << " (line " << line << "): got ..." << pbt::show(got.substr(from, 100)) << " expected ..." << pbt::show(want.substr(from, 100));
	return o.str();
	}
#define SAME_TEXT(got, want, what) do { std::string got_ = (got), want_ = (want); if (got_ != want_) g.fail(std::string(what) + ": " + difference(got_, want_)); } while (0)
#define FINE(r, what) REQUIRE((r).signal == 0 && (r).exit_code == 0, what << ": exit " << (r).exit_code << " signal " << (r).signal << ": " << pbt::show(((r).err.find("ERROR") == std::string::npos ? (r).out.substr(0, 300) + (r).err.substr(0, 300) : (r).err.substr((r).err.find("ERROR"), 1500))))

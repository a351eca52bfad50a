#!/usr/bin/env python3
"""
check.py ID quick|thorough            build what property ID needs from /repo's working tree, run its check, write evidence/ID.json
check.py ID --replay FILE             re-run one saved case (exit 1 while it still fails)
check.py ID --build                   only build
check.py --all quick|thorough         run every registered check in turn

Exit 0: held on everything explored.  Exit 1 and "VIOLATION property=ID replay=FILE": broken.  Anything else: the check itself failed.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
from checks import CHECKS                                # the table of checks

ARCH = "-std=c++17 -march=native -mbmi -mavx2 -D_GLIBCXX_USE_CXX11_ABI=1 -w -g1 -fPIC -fno-omit-frame-pointer"
VARIANTS = {
    # alignment is not checked: the code places objects at unaligned addresses throughout (x86 only by design)
    "asan": "-O1 -fsanitize=address -fsanitize=bounds -fno-sanitize-recover=all",
    "asan0": "-O0 -fsanitize=address -fsanitize=bounds -fno-sanitize-recover=all",
    "tsan": "-O1 -fsanitize=thread",
    "plain": "-O1",
    "plain2": "-O2",
}
# files that are machine-made tables or enormous unrolled decoders: sanitizing them costs minutes and says nothing
UNSANITIZED = {"compress_integer_qmx_jass_v1.cpp": "-O1", "unicode.cpp": "-O0", "unittest_data.cpp": "-O0",
               "compress_integer_qmx_original.cpp": None, "compress_integer_qmx_improved.cpp": None}
INCLUDES = [os.path.join(REPO, d) for d in ("source", "anytime", "tools")]
LIBS = "-lz -lzstd -lpthread -lstdc++fs"
INC_RE = re.compile(r'^[ \t]*#[ \t]*include[ \t]*"([^"]+)"', re.M)

def includes_of(path, cache={}):
    if path not in cache:
        try:
            with open(path, errors="replace") as f: text = f.read()
        except OSError:
            text = ""
        cache[path] = INC_RE.findall(text)
    return cache[path]

def closure(roots, stop=()):
    """every .cpp the roots need: foo.h is implemented by source/foo.cpp"""
    seen, cpps, todo = set(), [], list(roots)
    while todo:
        p = todo.pop()
        if p in seen: continue
        seen.add(p)
        for inc in includes_of(p):
            for d in [os.path.dirname(p), HARNESS] + INCLUDES:
                q = os.path.normpath(os.path.join(d, inc))
                if os.path.exists(q):
                    todo.append(q)
                    break
            base = os.path.basename(inc)
            if base == "unicode.h": cpps.append("@unicode.cpp")
            if base == "ascii.h": cpps.append("@ascii.cpp")
            if base.endswith(".h"):
                for d in INCLUDES:
                    q = os.path.join(d, base[:-2] + ".cpp")
                    if os.path.exists(q) and q not in seen and base not in stop:
                        cpps.append(q); todo.append(q)
    return sorted(set(cpps))

class Ninja:
    def __init__(self):
        self.lines, self.done = [], set()
        self.rule("cxx", "g++ $flags -MMD -MF $out.d -c $in -o $out", depfile="$out.d", deps="gcc")
        self.rule("link", "g++ $flags -o $out $in $libs")
        self.rule("gen_unicode", "$tool %s/external/Unicode/UnicodeData.txt %s/external/Unicode/PropList.txt %s/external/Unicode/CaseFolding.txt > $out.tmp && mv $out.tmp $out" % (REPO, REPO, REPO))
        self.rule("gen_ascii", "$tool > $out.tmp && mv $out.tmp $out")
    def rule(self, name, cmd, **kw):
        self.lines.append("rule %s\n  command = %s" % (name, cmd))
        self.lines += ["  %s = %s" % kv for kv in kw.items()]
    def build(self, out, rule, ins, implicit=(), **kw):
        if out in self.done: return out
        self.done.add(out)
        self.lines.append("build %s: %s %s%s" % (out, rule, " ".join(ins), (" | " + " ".join(implicit)) if implicit else ""))
        self.lines += ["  %s = %s" % kv for kv in kw.items()]
        return out
    def obj(self, variant, src, defines="", tag=""):
        base = os.path.basename(src)
        flags = ARCH + " " + VARIANTS[variant]
        key = variant
        if base in UNSANITIZED and variant != "plain2":
            opt = UNSANITIZED[base]
            if opt is not None: flags, key = ARCH + " " + opt, "raw"
            elif "sanitize" in VARIANTS[variant]: flags = ARCH + " -O1 -fsanitize=" + ("thread" if variant == "tsan" else "address")
        inc = " ".join("-I" + d for d in INCLUDES + [HARNESS])
        h = hashlib.md5((flags + defines + src).encode()).hexdigest()[:8]
        return self.build("%s/%s/%s%s-%s.o" % (BUILD, key, base, tag, h), "cxx", [src], flags=flags + " " + inc + " " + defines)
    def generated(self):
        r = REPO
        u = self.build(BUILD + "/gen/unicode_database_to_c", "link",
                       [self.obj("plain", r + "/tools/unicode_database_to_c.cpp"), self.obj("plain", r + "/source/asserts.cpp"),
                        self.obj("plain", r + "/source/file.cpp"), self.obj("plain", r + "/source/bitstring.cpp")], flags="", libs="-lpthread")
        a = self.build(BUILD + "/gen/ascii_database_to_c", "link", [self.obj("plain", r + "/tools/ascii_database_to_c.cpp")], flags="", libs="")
        data = [r + "/external/Unicode/%s.txt" % n for n in ("UnicodeData", "PropList", "CaseFolding")]
        self.build(BUILD + "/gen/unicode.cpp", "gen_unicode", [], [u] + data, tool=u)
        self.build(BUILD + "/gen/ascii.cpp", "gen_ascii", [], [a], tool=a)
    def program(self, name, variant, main_src, defines="", extra=()):
        srcs = [main_src] + list(extra)
        cpps = [c for c in closure(srcs) if c not in srcs]
        objs = [self.obj(variant, s, defines, "-" + name) for s in srcs]
        for c in cpps:
            if c.startswith("@"):
                self.generated()
                c = BUILD + "/gen/" + c[1:]
            objs.append(self.obj(variant, c, defines, ("-" + name) if defines else ""))
        return self.build("%s/bin/%s-%s" % (BUILD, name, variant), "link", objs, flags=VARIANTS[variant], libs=LIBS)
    def run(self, name, targets):
        os.makedirs(BUILD, exist_ok=True)
        path = os.path.join(BUILD, name + ".ninja")
        with open(path, "w") as f:
            f.write("builddir = %s/ninja-%s\n" % (BUILD, name))
            f.write("\n".join(self.lines) + "\n")
        with open(os.path.join(BUILD, ".lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            r = subprocess.run(["ninja", "-f", path, "-j", "10"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            print("the build of the check failed")
            sys.exit(4)

def expand(cid):
    """-> list of (label, binary target, env additions) and the ninja"""
    cfg = CHECKS[cid]
    n = Ninja()
    exes = {}
    for name, (variant, src, extra) in cfg.get("programs", {}).items():
        exes[name] = n.program(name, variant, os.path.join(REPO, src), extra=[os.path.join(REPO, e) for e in extra])
    runs = []
    for run in cfg["runs"]:
        label = run.get("label", "main")
        t = n.program(cid + "-" + label, run.get("variant", "asan"), os.path.join(HARNESS, run.get("src", cid + ".cpp")), run.get("defines", ""),
                      extra=[os.path.join(REPO, e) for e in run.get("extra", [])])
        runs.append((label, t, run))
    if cfg.get("generated"):
        n.generated()
        exes["UNICODE_CPP"] = BUILD + "/gen/unicode.cpp"
    return n, runs, exes

def known(cid):
    ids = []
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k["property"] == cid and k["status"] == "open": ids.append(k["id"])
    return ids

def main():
    args = sys.argv[1:]
    if not args: print(__doc__); return 2
    if args[0] == "--all":
        worst = 0
        for cid in sorted(CHECKS):
            r = subprocess.run([sys.executable, os.path.abspath(__file__), cid] + args[1:])
            worst = max(worst, r.returncode)
        return worst
    if args[0] == "--setup":                              # nothing to prepare: every check builds what it needs; report missing tools early
        for t in ("g++", "ninja"):
            if not shutil.which(t): print("missing", t); return 1
        return 0
    cid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    started = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    n, runs, exes = expand(cid)
    n.run(cid, [t for _, t, _ in runs] + sorted(set(exes.values())))
    built = time.time()
    if tier == "--build": return 0
    scratch = tempfile.mkdtemp(prefix="jass_check_")
    env = dict(os.environ, VERIF_SEED=str(seed), PBT_ID=cid, PBT_SCRATCH=scratch, PBT_KNOWN=",".join(known(cid)), VERIF_REPO=REPO)
    for k, v in exes.items(): env["PBT_EXE_" + k] = v
    replays = os.path.join(BUILD, "replay")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    env["PBT_REPLAY_DIR"] = replays
    try:
        if tier == "--replay":
            label = "main"
            for l in open(args[2]):
                if l.startswith("# run "): label = l.split()[2]
            for lab, t, run in runs:
                if lab == label or len(runs) == 1:
                    return subprocess.run([t, "--replay", args[2]], env=env).returncode
            return 3
        env["PBT_TIER"] = tier
        total = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "samples": [], "per_property": {}, "classes": {}, "known_findings": [], "unreproduced": 0, "unreproduced_why": []}
        rules, assumptions, code, violation = [], [], 0, ""
        for label, t, run in runs:
            if tier == "quick" and run.get("thorough_only"): continue
            stats = os.path.join(scratch, "stats-%s.json" % label)
            env["PBT_STATS"] = stats
            for k, v in run.get("env", {}).items(): env[k] = v
            env["PBT_SCALE"] = os.environ.get("PBT_SCALE") or str(run.get("quick_scale" if tier == "quick" else "thorough_scale", 1))
            p = subprocess.run([t], env=env, stdout=subprocess.PIPE, text=True)
            out = p.stdout
            if len(runs) > 1: out = "".join("[%s] %s\n" % (label, l) if not l.startswith(("VIOLATION", "KNOWN-FINDING")) else l + "\n" for l in out.splitlines())
            m = re.search(r"^VIOLATION property=\S+ replay=(\S+)", out, re.M)
            if m and len(runs) > 1:
                with open(m.group(1), "a") as f: f.write("# run %s\n" % label)
            sys.stdout.write(out); sys.stdout.flush()
            if os.path.exists(stats):
                s = json.load(open(stats))
                for k in ("evaluations", "nontrivial", "distinct_nontrivial", "unreproduced"): total[k] += s[k]
                total["unreproduced_why"] += s["unreproduced_why"]
                pre = "" if len(runs) == 1 else label + "/"
                total["samples"] += [pre + x for x in s["samples"]]
                for k in ("per_property", "classes"): total[k].update({pre + a: b for a, b in s[k].items()})
                total["known_findings"] += [k for k in s["known_findings"] if k not in total["known_findings"]]
                if s["rule"] and s["rule"] not in rules: rules.append(s["rule"])
                assumptions += [a for a in s["assumptions"] if a not in assumptions]
                if s["violations"]: violation = s["violation"]
            if p.returncode == 1 and m: code = 1; break
            if p.returncode != 0:
                print("run %s ended with status %d" % (label, p.returncode)); return 5
        total["rule"] = " | ".join(rules)
        total["samples"] = total["samples"][:60]
        total["build_s"] = round(built - started, 1)
        if violation: total["violation"] = violation
        ev = {"property": cid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration", "coverage": total,
              "assumptions": assumptions, "wall_s": round(time.time() - started, 1), "violations": 1 if code else 0}
        tmp = os.path.join(EVID, cid + ".json.tmp")
        with open(tmp, "w") as f: json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, cid + ".json"))
        print("%s %s: exit %d, build %.0f s, total %.0f s" % (cid, tier, code, built - started, time.time() - started))
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

sys.exit(main())

#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]   |   check.py <ID> replay <file>
Builds checks/<ID>.cpp against /repo in several configurations, runs them and reports what the monitors saw."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = ["-std=c++17", "-w", "-g1", "-D_USE_MATH_DEFINES", "-DNOMINMAX", "-I" + REPO + "/include", "-I" + HERE + "/harness", "-pthread"]
SAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]
NOSIMD = ["-fno-sanitize=float-cast-overflow", "-include", HERE + "/harness/nosimd.hpp"]  # a lane out of range converts to any integer there
NEON = ["-Wno-psabi", "-include", HERE + "/harness/neon.hpp", "-I" + HERE + "/harness/neon"]
# name: (compiler, flags for the harness, flags for the library sources, share of the case count)
CONFIGS = {
    "sse2":  ("g++", ["-O2", "-DNDEBUG"], ["-O2", "-DNDEBUG"], 1.0),
    "sse41": ("clang++", ["-O2", "-DNDEBUG", "-msse4.1"], ["-O2", "-DNDEBUG", "-msse4.1"], 1.0),
    "avx2":  ("g++", ["-O3", "-DNDEBUG", "-march=haswell"], ["-O2", "-DNDEBUG"], 1.0),  # as shipped: plain library, haswell user
    "asan":  ("clang++", SAN + ["-march=haswell"], SAN + ["-march=haswell"], 0.2),
    "asan2": ("g++", SAN, SAN, 0.15),
    "scalar": ("g++", SAN + NOSIMD, SAN + NOSIMD, 0.15),  # the fallbacks for processors without SIMD instructions
    "neon":  ("g++", SAN + NEON, SAN + NEON, 0.15),  # the NEON code on a lane-by-lane stand-in for the intrinsics
    "vg":    ("g++", ["-O1"], ["-O1"], 0.02),  # under memcheck: decisions on values never written
    "tsan":  ("clang++", ["-O0", "-fsanitize=thread"], ["-O0", "-fsanitize=thread"], 1.0),
}
ENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1", TSAN_OPTIONS="halt_on_error=1:second_deadlock_stack=1:exitcode=66")

class HarnessError(Exception):
    pass

class LibraryError(Exception):
    """the public headers or sources do not compile when used as documented"""

def directives(path):
    """// vt: key=value ... lines at the top of a check"""
    d = dict(configs="sse2,sse41,avx2,asan,asan2,scalar,neon", quick="20000", thorough="400000", shards="1", tshards="4", link="0",
             timeout="200", rule="", compare="0", extra="", units="", alone="")
    for l in open(path):
        if l.startswith("// vt: "):
            k, _, v = l[7:].rstrip("\n").partition("=")
            d[k.strip()] = (d["rule"] + " " if k.strip() == "rule" and d["rule"] else "") + v.strip()
    d["configs"] = os.environ.get("VERIF_CONFIGS", d["configs"])  # for experiments
    return d

def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")

def units(d, out):
    """one unit per public header: it comes first, the others after it in an order of the unit's own"""
    hs = d["units"].split(); r = []
    rest = [h for h in hs if h not in d["alone"].split()]
    for k, h in enumerate(hs):
        o = rest[k % len(rest):] + rest[:k % len(rest)]
        if k % 2: o.reverse()
        u = "%s/unit%d.cpp" % (out, k)
        open(u, "w").write("".join('#include "math/%s.hpp"\n' % x for x in [h] + o) + '#define VT_UNIT "%s"\n#include "unit.hpp"\n' % h)
        r.append((u, h))
    return r

def build(src, d, out, pool):
    cfgs = d["configs"].split(","); d["fails"] = []
    us = units(d, out) if d["units"] else []
    jobs, objs = [], {}
    sources = sorted(glob.glob(REPO + "/source/*.cpp")) if d["link"] == "1" else []
    for c in cfgs:
        cc, hf, lf, _ = CONFIGS[c]
        tus = [(src, hf)] + [(u, hf + ["-O0"]) for u, h in us] + [(s, lf) for s in sources]
        objs[c] = []
        for n, (u, fl) in enumerate(tus):
            o = "%s/%s.%d.o" % (out, c, n)
            objs[c].append(o)
            ex = ["-DVT_UNITS=%d" % (len(us) - len(d["alone"].split()))] if us else []
            jobs.append((c, n == 0, [cc] + BASE + fl + d["extra"].split() + ex + ["-c", u, "-o", o], us[n - 1][1] if 0 < n <= len(us) else None))
    jobs.sort(key=lambda j: not j[1])
    def one(j):
        return run(j[2], 700)
    for j, (rc, so, se) in zip(jobs, pool.map(one, jobs)):
        if rc != 0:
            m = re.search(r"^(\S+?):\d+:\d+: (?:fatal )?error: .*$", se, re.M)
            if m and os.path.realpath(m.group(1)).startswith(os.path.realpath(REPO) + "/"):
                if j[3]:  # the header cannot be the first one
                    d["fails"].append(("include:" + j[3], j[0], m.group(0))); objs[j[0]].remove(j[2][-1]); continue
                raise LibraryError(j[0] + ": " + m.group(0), se)
            raise HarnessError("compile failed (%s): %s\n%s" % (rc, " ".join(j[2]), se[-4000:]))
    exes = {}
    for c in cfgs:
        cc, hf, lf, _ = CONFIGS[c]
        exe = "%s/%s" % (out, c)
        ob = objs[c] if not us or cfgs.index(c) % 2 == 0 else objs[c][::-1]  # statics start in link order
        rc, so, se = run([cc] + hf + ["-pthread"] + ob + ["-o", exe], 300)
        if rc != 0:
            m = re.search(r"^.*(?:multiple definition of|undefined reference to) .*math::.*$", se, re.M)
            if us and m:
                raise LibraryError(c + ": " + m.group(0), se)
            raise HarnessError("link failed: " + se[-4000:])
        exes[c] = exe
    return exes

def crash_key(se):
    op = re.findall(r"VT-DIED op=(.*?) case=(\d+)", se)
    what = ""
    for pat in (r"(runtime error: [^\n]*)", r"(ERROR: AddressSanitizer[^\n]*)", r"(WARNING: ThreadSanitizer[^\n]*)", r"(Assertion [`'][^\n]*)", r"==\d+== ((?:Conditional|Use of|Invalid|Syscall|Source|Jump)[^\n]*)", r"(terminate called[^\n]*)"):
        m = re.search(pat, se)
        if m:
            what = m.group(1); break
    where = re.search(r"(/repo/[^\s:]+:\d+)", se)
    return "crash:" + (op[-1][0] if op else "unknown"), (what or "process died") + (" at " + where.group(1) if where else "") + \
        (" in case " + op[-1][1] if op else "")

def execute(exe, args, timeout):
    """-> (status, stats, fails[(key,msg)])"""
    pre = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--num-callers=8"] if exe.endswith("/vg") else []
    for attempt in (1, 2):
        rc, so, se = run(pre + [exe] + args, timeout * attempt, env=ENV)
        if rc is not None:
            break
    fails, stats = [], None
    for l in so.split("\n"):
        if l.startswith("FAIL\t"):
            _, k, m = l.split("\t", 2)
            fails.append((k, m))
        elif l.startswith("STATS\t"):
            stats = json.loads(l[6:])
    if rc is None:
        fails.append(("hang", "no answer within %d s, twice" % timeout))
    elif rc in (0, 10) and stats is not None:
        if (rc == 10) != bool(fails):
            raise HarnessError("inconsistent harness result %s" % rc)
    elif rc == -9:
        raise HarnessError("killed (memory?): " + " ".join([exe] + args))
    else:
        k, m = crash_key(se)
        fails.append((k, m + " (exit %s)" % rc))
    return rc, stats, fails, se

def known():
    """KNOWN property=<id> key=<key> <what> ; 'fixed:' lines suppress nothing"""
    r = {}
    p = HERE + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", l)
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    return r

def compare_logs(paths, names):
    rc, so, se = run([sys.executable, HERE + "/harness/complog.py"] + paths, 600)
    fails, info = [], {}
    for l in so.split("\n"):
        if l.startswith("FAIL\t"):
            _, k, m = l.split("\t", 2)
            fails.append((k, m))
        elif l.startswith("STATS\t"):
            info = json.loads(l[6:])
    if not info:
        raise HarnessError("log comparison failed: " + se[-2000:])
    return fails, info

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if tier == "replay":
        only = json.load(open(sys.argv[3])); tier, seed = only["tier"], only["seed"]
    t0 = time.time()
    src = HERE + "/checks/%s.cpp" % pid
    d = directives(src)
    out = tempfile.mkdtemp(prefix="vt-%s-" % pid)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    try:
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
            if only:
                d["configs"] = ",".join(sorted({r["config"] for r in only["runs"]}, key=list(CONFIGS).index))
            exes = build(src, d, out, pool)
            tbuild = time.time() - t0
            n = int(d[tier]); shards = int(d["shards" if tier == "quick" else "tshards"])
            runs = []
            for s in range(shards):
                for c in exes:
                    args = ["--seed", str(seed), "--cases", str(max(1, int(n * (1 if d["compare"] == "1" else CONFIGS[c][3])))), "--shard", str(s), "--shards", str(shards), "--tier", tier]
                    log = None
                    if d["compare"] == "1":
                        log = "%s/%s.%d.log" % (out, c, s)
                        args += ["--log", log]
                    runs.append((c, s, args, log))
            if only:
                want = {(r["config"], r["shard"]) for r in only["runs"]}
                runs = [r for r in runs if (r[0], r[1]) in want]
            tmo = int(d["timeout"]) * (1 if tier == "quick" else 40)
            res = list(pool.map(lambda r: execute(exes[r[0]], r[2], tmo), runs))
        fails, agg, samples, evals, per, dist = [], {}, [], 0, {}, {}
        fails += [(k, c, 0, [], m, m) for k, c, m in d["fails"]]
        for (c, s, args, log), (rc, st, fl, se) in zip(runs, res):
            for k, m in fl:
                fails.append((k, c, s, args, m, se))
            if st:
                evals += st["evaluations"]
                per[c] = per.get(c, 0) + st["evaluations"]
                dist.setdefault(c, 0); dist[c] += st["distinct"]
                for k, v in st["counters"].items():
                    agg[k] = agg.get(k, 0) + v
                samples += st["samples"] if len(samples) < 6 else []
        cmpinfo = None
        if d["compare"] == "1" and not fails:
            for s in range(shards):
                fl, info = compare_logs([r[3] for r in runs if r[1] == s], [r[0] for r in runs if r[1] == s])
                cmpinfo = info
                fails += [(k, "compare", s, [], m, "") for k, m in fl]
        kn = known()
        bad = []
        shown = set()
        for f in fails:
            if (pid, f[0]) in kn:
                if f[0] not in shown:
                    shown.add(f[0]); print("KNOWN-FINDING: property=%s %s: %s" % (pid, f[0], kn[(pid, f[0])]))
            else:
                bad.append(f)
        died = any(r[1] is None for r in res)
        if not fails and (evals == 0 or max(dist.values() or [0]) == 0):
            raise HarnessError("the run observed nothing")
        cov = dict(evaluations=evals, distinct_nontrivial=max(dist.values() or [0]),
                   rule=d["rule"] or "seeded cases; distinct by input bytes", samples=samples[:6],
                   evaluations_per_config=per, observed=agg, runs=len(runs), build_s=round(tbuild, 1))
        if cmpinfo: cov["log_comparison"] = cmpinfo
        if not only:
            json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                       assumptions=["x86-64 with SSE2/SSE4.1/AVX2; the oracle and margins in checks/%s.cpp" % pid],
                       wall_s=round(time.time() - t0, 1), violations=len(bad)),
                  open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
        if bad:
            rp = HERE + "/evidence/replay-%s.json" % pid
            if not only:
                json.dump(dict(property=pid, tier=tier, seed=seed, how="python3 check.py %s replay %s" % (pid, rp),
                           runs=[dict(key=k, config=c, shard=s, args=a, message=m, stderr=se[-3000:]) for k, c, s, a, m, se in bad[:20]]),
                      open(rp, "w"), indent=1)
            seenk = set()
            for k, c, s, a, m, se in bad:
                if k not in seenk and len(seenk) < 12:
                    seenk.add(k); print("  [%s] %s: %s" % (c, k, m))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        print("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d runs=%d build=%.1fs wall=%.1fs" %
              (pid, tier, seed, evals, max(dist.values() or [0]), len(runs), tbuild, time.time() - t0))
        return 0
    except LibraryError as e:
        rp = HERE + "/evidence/replay-%s.json" % pid
        if not only:
            cov = dict(evaluations=1, distinct_nontrivial=1, rule=d["rule"], samples=[e.args[0]], observed={"compile": 0})
            json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=[], wall_s=round(time.time() - t0, 1), violations=1),
                      open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
            json.dump(dict(property=pid, tier=tier, seed=seed, how="python3 check.py %s replay %s" % (pid, rp),
                           runs=[dict(key="compile", config=e.args[0].split(":")[0], shard=0, args=[], message=e.args[0], stderr=e.args[1][-3000:])]), open(rp, "w"), indent=1)
        print("  the library does not compile where the check uses it: %s" % e.args[0])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    except HarnessError as e:
        print("ERROR property=%s %s" % (pid, e)); return 2
    finally:
        shutil.rmtree(out, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())

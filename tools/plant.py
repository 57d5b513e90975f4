#!/usr/bin/env python3
"""plant.py FILE.py [ID ...]: make /verif/seeded/<id>/ from the bug() calls of FILE.py and confirm each one.

A bug is kept only if the patched tree builds, passes the stable tests, and the demonstration
exits 0 on /repo and nonzero on the patched tree. Then the property's quick check is run on the patched tree.
Everything happens in scratch copies under /tmp which are removed afterwards."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []

def bug(id, prop, edits, needs, breaks, demo, link=False, flags="-O2", sh=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, link=link, flags=flags, sh=sh))

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)

def one(b):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        d = tmp + "/repo"
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("_build"))
        for f, old, new in b["edits"]:
            p = d + "/" + f; s = open(p, newline="").read(); crlf = "\r\n" in s
            if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) < 1: return b, "edit not found in %s: %s" % (f, old)
            open(p, "w", newline="").write(s.replace(old, new, 1))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True).stdout
        base = sh(["git", "-C", d, "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[0]
        mine = []
        for f in {e[0] for e in b["edits"]}:  # removed lines must be original ones
            blame = sh(["git", "-C", d, "blame", "-l", "-s", "--root", "HEAD", "--", f]).stdout.split("\n")
            cur = 0
            for l in sh(["git", "-C", d, "diff", "-U0", "--", f]).stdout.split("\n"):
                m = re.match(r"@@ -(\d+)", l)
                if m: cur = int(m.group(1)); continue
                if l.startswith("-") and not l.startswith("---"):
                    if not blame[cur - 1].startswith(base): mine.append(l)
                    cur += 1
        vp = tmp + "/vp"; shutil.copytree("/opt/vp", vp)
        for n in ("build.sh", "test.sh", "configure-and-ninja.sh"):
            s = open(vp + "/" + n).read().replace("/opt/vp/", vp + "/").replace("/repo", d)
            open(vp + "/" + n, "w").write(s)
        r = sh(["bash", vp + "/build.sh"])
        if r.returncode: return b, "does not build: " + (r.stdout + r.stderr)[-800:]
        sh(["bash", vp + "/test.sh", tmp + "/t.json"])
        t = json.load(open(tmp + "/t.json")); want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if not want <= set(t["passed"]): return b, "fails the tests: %s" % (want - set(t["passed"]))
        out = tmp + "/" + b["id"]; os.makedirs(out)
        open(out + "/patch.diff", "wb").write(diff)
        open(out + "/demo.cpp", "w").write(b["demo"].strip() + "\n")
        src = ' "$PWD"/source/*.cpp' if b["link"] else ""
        open(out + "/demo.sh", "w").write("#!/bin/bash\n# run with the repository as the working directory\nset -e\n"
            'here="$(cd "$(dirname "$0")" && pwd)"; work="$(mktemp -d)"; trap \'rm -rf "$work"\' EXIT\n'
            + (b["sh"] or 'g++ -std=c++17 %s -D_USE_MATH_DEFINES -I"$PWD/include" "$here/demo.cpp"%s -o "$work/demo"\n"$work/demo"\n' % (b["flags"], src)))
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        good = sh(["bash", out + "/demo.sh"], cwd="/repo", timeout=300); bad = sh(["bash", out + "/demo.sh"], cwd=d, timeout=300)
        if good.returncode: return b, "demo fails on /repo: " + (good.stdout + good.stderr)[-800:]
        if not bad.returncode: return b, "demo passes on the patched tree"
        if "error:" in bad.stderr and "demo.cpp" in bad.stderr: return b, "demo does not compile on the patched tree: " + bad.stderr[-500:]
        dest = ROOT + "/seeded/" + b["id"]; shutil.rmtree(dest, ignore_errors=True); os.makedirs(ROOT + "/seeded", exist_ok=True); shutil.copytree(out, dest)
        res = ""
        for p in [b["prop"]]:
            r = sh(["python3", ROOT + "/check.py", p, "quick"], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            L = [x for x in r.stdout.strip().split("\n")]
            res += "%s rc=%d %s" % (p, r.returncode, " || ".join(x[:170] for x in L[:2]))
        return b, ("(REMOVES LINES OF A FIX: %s) " % mine if mine else "") + "kept; " + res
    finally:
        shutil.rmtree(tmp)

if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
    todo = [b for b in BUGS if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for b, r in ex.map(one, todo): print("%-28s %s" % (b["id"], r), flush=True)

#!/usr/bin/env python3
"""caught.py [--own] [bug ...]: (--own: only its own property's check) runs every planted bug of seeded/ against its own property's quick check and the quick checks of the
files it touches (on a patched scratch copy of /repo) and updates tools/caught.json: bug -> checks that report it."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"; sys.path.insert(0, ROOT + "/tools")
import mutate
OWN = "--own" in sys.argv
OUT = ROOT + "/tools/caught.json"
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
def one(bug):
    d = ROOT + "/seeded/" + bug; prop = json.load(open(d + "/meta.json"))["property"]; patch = open(d + "/patch.diff", errors="replace").read()
    checks = [prop]
    for f in re.findall(r"^\+\+\+ b/(\S+)", patch, re.M) if not OWN else []:
        for key, ids in mutate.MAP:
            if key in f: checks += ids.split(); break
    checks = list(dict.fromkeys(checks)); tmp = tempfile.mkdtemp(prefix="caught-")
    try:
        shutil.copytree(REPO, tmp + "/r", symlinks=True, ignore=shutil.ignore_patterns(".git", "build*")); shutil.copytree(ROOT, tmp + "/v", symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded"))
        subprocess.run(["git", "init", "-q"], cwd=tmp + "/r"); r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/r", capture_output=True, text=True)
        if r.returncode: return bug, ["does not apply: " + r.stderr.strip()]
        got = []
        for c in checks:
            r = subprocess.run(["nice", sys.executable, tmp + "/v/check.py", c, "quick"], capture_output=True, text=True, env={**os.environ, "VERIF_REPO": tmp + "/r", "VERIF_SEED": "1"})
            if r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout: got.append(c)
            elif r.returncode not in (0, 1): got.append(c + "?")
        return bug, got
    finally: shutil.rmtree(tmp)
bugs = [a for a in sys.argv[1:] if a != "--own"] or sorted(os.listdir(ROOT + "/seeded"))
with ThreadPoolExecutor(2) as ex:
    for bug, got in ex.map(one, bugs):
        res[bug] = got; print(bug, got, flush=True); json.dump(dict(sorted(res.items())), open(OUT, "w"), indent=1)

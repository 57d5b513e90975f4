#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--files REGEX] [--per-line N] [--jobs N] [--seed N] [--sample F]: mutation testing of the checks.
Makes small one-token changes to /repo's live code in scratch copies, runs the checks responsible for the file in one
cheap configuration each and records which mutants none of them noticed (to be looked at by hand: many are equivalent)."""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
sys.path.insert(0, ROOT)
import check
MAP = [  # file -> checks, most likely killer first
 ("math/simd/vector/float.hpp", "C01 C05 C06 C07 C04 C08 C35"), ("math/simd/vector/int.hpp", "C02 C04 C35"), ("math/simd/vector/uint.hpp", "C02 C04 C40 C35"),
 ("math/vector/float.hpp", "C03 C05 C04 C06 C08 C35"), ("math/vector/int.hpp", "C03 C04 C35"), ("math/vector/uint.hpp", "C03 C04 C40 C35"),
 ("math/simd/matrix/float.hpp", "C09 C10 C35"), ("math/matrix/float.hpp", "C09 C10 C35"), ("math/matrix/transform.hpp", "C14 C15 C12"), ("math/matrix/projection.hpp", "C16"),
 ("math/quaternion.hpp", "C11 C12 C13 C35"), ("math/aabb.hpp", "C22 C19 C20 C17 C18 C21 C41 C35"), ("source/aabb.cpp", "C21"), ("bvh", "C23 C24 C25"),
 ("math/plane.hpp", "C17 C18 C41 C35"), ("math/ray.hpp", "C18 C41 C20 C35"), ("math/line.hpp", "C18 C41 C35"), ("math/sphere.hpp", "C19 C18 C41 C35"), ("math/triangle.hpp", "C19 C18 C21 C41 C35"),
 ("math/angles.hpp", "C08"), ("math/common.hpp", "C08 C03"), ("math/brdf.hpp", "C33"), ("math/color-space.hpp", "C28"), ("math/color.hpp", "C26 C27 C35"), ("math/flags.hpp", "C37"),
 ("math/hex.hpp", "C27"), ("math/ibl.hpp", "C31"), ("math/packed-vector.hpp", "C30"), ("math/sh.hpp", "C32 C39 C31"), ("math/tone-mapping.hpp", "C28 C08"), ("math/version.hpp", "C29 C35")]
FAST = {"C01": 30000, "C02": 20000, "C03": 3000, "C04": 5000, "C05": 40000, "C06": 200000, "C07": 100000, "C23": 3000, "C24": 1500, "C25": 2500, "C39": 4000, "C22": 20000, "C27": 100000, "C30": 4000, "C35": 20000}

LEVELS = {"sse2": [], "sse41": ["-msse4.1"], "avx2": ["-march=haswell"], "scalar": ["-include", ROOT + "/harness/nosimd.hpp"], "neon": ["-Wno-psabi", "-include", ROOT + "/harness/neon.hpp", "-I" + ROOT + "/harness/neon"]}

def live_lines():
    """(file, line) -> set of SIMD levels at which the preprocessor keeps the line"""
    hs = sorted(glob.glob(REPO + "/include/math/**/*.hpp", recursive=True))
    hs = [h for h in hs if "pbr-colors" not in h]
    inc = '#include "math/vector.hpp"\n#include "math/simd/vector/float.hpp"\n' + "".join('#include "%s"\n' % h for h in hs)
    out = {}
    for lvl, fl in LEVELS.items():
        for unit in ["-"] + glob.glob(REPO + "/source/*.cpp"):
            r = subprocess.run(["g++", "-std=c++17", "-E", "-D_USE_MATH_DEFINES", "-I" + REPO + "/include", "-x", "c++", *fl, unit], input=inc if unit == "-" else None, capture_output=True, text=True, errors="replace").stdout
            f, n = "", 0
            for l in r.split("\n"):
                m = re.match(r'# (\d+) "(.*?)"', l)
                if m: n, f = int(m.group(1)) - 1, m.group(2); continue
                n += 1
                if f.startswith(REPO) and l.strip(): out.setdefault((f[len(REPO) + 1:], n), set()).add(lvl)
    return out

SWAPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
 (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r"~", [""]), (r"(?<=[(,=?:] )-(?=[\w(])|(?<=\()-(?=[\w(])|(?<=return )-(?=[\w(])", [""]),
 (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \*= ", [" /= "]), (r" &= ", [" |= "]), (r" \|= ", [" &= ", " = "]),
 (r"\bgetX\b", ["getY"]), (r"\bgetY\b", ["getX", "getZ"]), (r"\bgetZ\b", ["getY", "getW"]), (r"\bgetW\b", ["getZ"]), (r"\bsplatX\b", ["splatY"]), (r"\bsplatY\b", ["splatX"]), (r"\bsplatZ\b", ["splatX"]), (r"\bsplatW\b", ["splatX"]),
 (r"\.x\b", [".y"]), (r"\.y\b", [".x", ".z"]), (r"\.z\b", [".y"]), (r"\.w\b", [".z"]), (r"\bX\b(?=[,>])", ["Y"]), (r"\bY\b(?=[,>])", ["Z"]), (r"\bZ\b(?=[,>])", ["X"]), (r"\bW\b(?=[,>])", ["X"]), (r"SwX\b", ["SwY"]), (r"SwY\b", ["SwZ"]), (r"SwZ\b", ["SwX"]), (r"SwW\b", ["SwZ"]),
 (r"\bc0\b", ["c1"]), (r"\bc1\b", ["c2", "c0"]), (r"\bc2\b", ["c1"]), (r"\bc3\b", ["c2"]), (r"\bmin\b(?=\()", ["max"]), (r"\bmax\b(?=\()", ["min"]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]), (r"\bfloor\b", ["ceil"]), (r"\bceil\b", ["floor"]),
 (r"_mm_add_", ["_mm_sub_"]), (r"_mm_sub_", ["_mm_add_"]), (r"_mm_mul_", ["_mm_add_"]), (r"_mm_min_", ["_mm_max_"]), (r"_mm_max_", ["_mm_min_"]), (r"cmplt_", ["cmple_"]), (r"cmple_", ["cmplt_"]), (r"cmpgt_", ["cmpge_"]), (r"cmpge_", ["cmpgt_"]), (r"_mm_and_", ["_mm_or_"]), (r"_mm_or_", ["_mm_and_"]), (r"_mm_xor_", ["_mm_or_"]), (r"_mm_andnot_", ["_mm_and_"]),
 (r"srli_", ["srai_"]), (r"srai_", ["srli_"]), (r"epu32\b", ["epi32"]), (r"cmpgt_epi32", ["cmpeq_epi32"]), (r"_mm_load_ps", ["_mm_loadu_ps"]), (r"fmadd", ["fmsub"]), (r"\babs\(", ["("]), (r"std::sqrt\(", ["("]), (r"\bnormalize3\(", ["("]), (r"\bnormalize\(", ["("]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"(?<![\w.])\d+\.\d+(?:e[-+]?\d+)?f?\b", ["NUM1", "NUM2"]), (r"(?<![\w.])\d+[uU]?(?![\w.])", ["INT1", "INT2"]), (r"\b0x[0-9A-Fa-f]+[uU]?\b", ["HEX"]), (r"\bmin([XYZ])\b", [r"max\1"]), (r"\bmax([XYZ])\b", [r"min\1"]), (r"\baabbMin\b|\baMin\b", ["aabbMax"]), (r"\bi\b(?=\])", ["0"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]), (r"UINT32_MAX", ["0"])]

def mutants(live):
    for f in sorted({k[0] for k in live}):
        lines = open(REPO + "/" + f, newline="").read().split("\n")
        incomment = False
        for i, raw in enumerate(lines):
            l = raw.split("//")[0]
            if "/*" in l: incomment = True
            if incomment:
                if "*/" in l: incomment = False
                continue
            if (f, i + 1) not in live or re.match(r"\s*(#|\*|using|template|struct|class|namespace|assert\()", l) or "assert(" in l and l.strip().startswith("assert"): continue
            lv = sorted(live[(f, i + 1)])
            for pat, reps in SWAPS:
                for m in re.finditer(pat, l):
                    for r in reps:
                        t = m.group(0)
                        if r == "NUM1": n = t.rstrip("f"); x = float(n); n2 = "1.0f" if x == 0 else repr(x * 1.01) + "f"
                        elif r == "NUM2":
                            x = float(t.rstrip("f"))
                            if x == 0: continue
                            n2 = "0.0f" if abs(x) in (1, 2, .5) else repr(x * 10) + "f"
                        elif r == "INT1": n2 = str(int(t.rstrip("uU")) + 1)
                        elif r == "INT2":
                            if int(t.rstrip("uU")) == 0: continue
                            n2 = str(int(t.rstrip("uU")) - 1)
                        elif r == "HEX": n2 = hex(int(t.rstrip("uU"), 16) ^ 2) + "u"
                        else: n2 = m.expand(r)
                        yield f, i, raw, raw[:m.start()] + n2 + raw[m.end():], lv
            s = l.strip()
            if s.endswith(";") and re.match(r"[\w.>\-\[\]]+(\([^=]*\))?\s*([-+*/&|^]?=[^=].*)?;$", s) and not s.startswith("return") and not re.match(r"(auto|const|float|u?int\d*|bool) ", s):
                yield f, i, raw, raw.replace(s, ";", 1), lv
            if re.search(r"\bif \(", l): yield f, i, raw, l.replace("if (", "if (false && ", 1), lv
            if re.search(r"\bif \(", l): yield f, i, raw, l.replace("if (", "if (true || ", 1), lv

def test(mu, tmp):
    f, i, old, new, lv = mu
    d = tempfile.mkdtemp(prefix="mut-", dir=tmp)
    try:
        shutil.copytree(REPO + "/include", d + "/include"); shutil.copytree(REPO + "/source", d + "/source")
        ls = open(d + "/" + f, newline="").read().split("\n"); assert ls[i] == old
        ls[i] = new; open(d + "/" + f, "w", newline="").write("\n".join(ls))
        checks = next(c for k, c in MAP if k in f).split()
        lvl = next(l for l in LEVELS if l in lv)
        flags = LEVELS[lvl]
        opt = ["-O1", "-DNDEBUG", "-w", "-std=c++17", "-D_USE_MATH_DEFINES", "-pthread", "-I" + d + "/include", "-I" + ROOT + "/harness"] + flags
        built = 0
        for c in checks:
            src = ROOT + "/checks/%s.cpp" % c; dr = check.directives(src)
            exe = d + "/" + c; so = glob.glob(d + "/source/*.cpp") if dr["link"] == "1" else []
            r = subprocess.run(["g++"] + [("-O0" if o == "-O1" and c in ("C03", "C04", "C35") else o) for o in opt] + [src] + so + ["-o", exe], capture_output=True, text=True, errors="replace", timeout=600)
            if r.returncode:
                if not built: return "nocompile"
                return "killed", c, "compile"
            built = 1
            n = FAST.get(c, min(int(dr["quick"]), 60000))
            try: r = subprocess.run([exe, "--seed", "1", "--cases", str(n), "--shard", "0", "--shards", "1", "--tier", "quick"], capture_output=True, text=True, errors="replace", timeout=60)
            except subprocess.TimeoutExpired: return "killed", c, "hang"
            if r.returncode != 0: return "killed", c, (re.findall(r"FAIL\t(.*?)\t", r.stdout) or [str(r.returncode)])[0]
            os.remove(exe)
        return "survived", " ".join(checks), lvl
    except Exception as e:
        return "error", repr(e)[:200]
    finally: shutil.rmtree(d, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--files", default="."); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--sample", type=float, default=1.0); ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    ms = [m for m in mutants(live_lines()) if re.search(a.files, m[0]) and any(k in m[0] for k, _ in MAP)]
    rnd = random.Random(a.seed); rnd.shuffle(ms); ms = ms[:int(len(ms) * a.sample)]
    if a.list:
        c = {}
        for m in ms: c[m[0]] = c.get(m[0], 0) + 1
        print(c, len(ms)); return
    done = set()
    if os.path.exists(a.out): done = {tuple(json.loads(l)["m"][:4]) for l in open(a.out)}
    tmp = tempfile.mkdtemp(prefix="mutate-"); lock = threading.Lock()
    def go(m):
        if (m[0], m[1], m[2], m[3]) in done: return
        r = test(m, tmp)
        with lock: open(a.out, "a").write(json.dumps(dict(m=[m[0], m[1], m[2], m[3]], lv=m[4], r=r)) + "\n")
    try:
        with ThreadPoolExecutor(a.jobs) as p: list(p.map(go, ms))
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__": main()

#!/usr/bin/env python3
"""triggers.py OUT.jsonl [--files REGEX] [--jobs N] [--scale S]: do the checks reach rare inputs with a verdict?
Every function of a scratch copy of the library gets a fault that fires only for inputs of one rare shape (a zero lane, equal
arguments, a huge value, one input in 1024, ...). One instrumented build per check; the fault is picked at run time.
Recorded: faults never reached by any responsible check, and faults reached but not reported. Both are looked at by hand."""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
sys.path.insert(0, ROOT); sys.path.insert(0, ROOT + "/tools")
import check, mutate
KINDS = {}
for k, ns in (("f", "float2 float3 float4 f32x4 quat float2x2 float3x3 float4x4 f32x4x4 Ray Plane Sphere Line Triangle Aabb Box SH".split()),
              ("i", "int2 int3 int4 i32x4".split()), ("u", "uint2 uint3 uint4 u32x4".split()), ("c", ["Color"])):
    for n in ns: KINDS[n] = k
SCALAR = set("bool char short int long float double unsigned int8 uint8 int16 uint16 int32 uint32 int64 uint64 int8_t uint8_t int16_t uint16_t int32_t uint32_t int64_t uint64_t size_t uint32x".split())

def base(t):
    t = t.replace("math::", "").replace("std::", "").replace("const ", "").replace("struct ", "").strip().rstrip("&").strip()
    return t

def kind(t):
    b = base(t)
    if b in KINDS: return KINDS[b]
    if b in SCALAR or re.fullmatch(r"unsigned (int|char|short|long)", b): return "s"
    return None

def functions(tmp):
    hs = [h for h in sorted(glob.glob(REPO + "/include/math/**/*.hpp", recursive=True)) if "pbr-colors" not in h]
    open(tmp + "/all.cpp", "w").write('#include "math/vector.hpp"\n#include "math/simd/vector/float.hpp"\n' + "".join('#include "%s"\n' % h[len(REPO) + 9:] for h in hs) + "".join('#include "%s"\n' % s for s in sorted(glob.glob(REPO + "/source/*.cpp"))))
    out = {}
    for lvl in ([], ["-msse4.1"]):
        s = subprocess.run(["clang++", "-std=c++17", "-D_USE_MATH_DEFINES", "-I" + REPO + "/include", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=math::", *lvl, tmp + "/all.cpp"], capture_output=True, text=True).stdout
        dec = json.JSONDecoder(); i = 0; docs = []
        while i < len(s):
            while i < len(s) and s[i] != "{": i += 1
            if i >= len(s): break
            o, i = dec.raw_decode(s, i); docs.append(o)
        st = {"file": ""}
        def resolve(l):  # location objects come in print order; "file" only when it changes
            if "file" in l: st["file"] = l["file"]
            if "offset" in l: l["F"] = st["file"]
        stack = []
        def walk(o):
            if isinstance(o, dict):
                if "offset" in o or "file" in o: resolve(o)
                for k, v in o.items():
                    if k != "includedFrom": walk(v)
            elif isinstance(o, list):
                for v in o: walk(v)
        sys.setrecursionlimit(100000)
        for d in docs: walk(d)
        def collect(o, templ):
            if not isinstance(o, dict): return
            k = o.get("kind", "")
            if "Template" in k: templ = True
            if k in ("FunctionDecl", "CXXMethodDecl") and not templ:
                body = next((c for c in o.get("inner", []) if c.get("kind") == "CompoundStmt"), None)
                b = body and body["range"]["begin"]
                if b and "offset" in b and b.get("F", "").startswith(REPO):
                    ps = [(c.get("name"), c["type"]["qualType"]) for c in o.get("inner", []) if c.get("kind") == "ParmVarDecl"]
                    out[(b["F"][len(REPO) + 1:], b["offset"])] = dict(name=o["name"], type=o["type"]["qualType"], params=ps, method=k == "CXXMethodDecl" and o.get("storageClass") != "static", line=b.get("line") or 0)
            for c in o.get("inner", []) or []: collect(c, templ)
        for d in docs: collect(d, False)
    return out

def owner(text, off):
    m = None
    for m in re.finditer(r"^(?:struct|class)(?: \[\[nodiscard\]\])?(?: alignas\(\w+\))? (\w+)[^;{]*\{", text[:off], re.M): pass
    return m.group(1) if m else None

def instrument(dst, fs, skip):
    """-> list of (id, file, line, signature)"""
    ids, byfile = [], {}
    for (f, off), d in sorted(fs.items()): byfile.setdefault(f, []).append((off, d))
    for f, lst in byfile.items():
        raw = open(REPO + "/" + f, "rb").read(); text = raw.decode("latin-1"); edits = []
        for off, d in lst:
            n = len(ids); sig = d["name"] + d["type"][d["type"].find("("):]
            line = text.count("\n", 0, off) + 1
            ids.append([n, f, line, d["type"].split(" (")[0] + " " + sig, ""])
            if n in skip or text[off] != "{": continue
            ret = d["type"].split(" (")[0].replace("noexcept", "").strip()
            if any(p[0] is None for p in d["params"]) or "&&" in d["type"]: continue
            own = owner(text, off) if d["method"] else None
            args = [(p, kind(t)) for p, t in d["params"]]
            la = ([("(*this)", KINDS.get(own))] if own in KINDS else []) + [(p, k) for (p, k), (_, t) in zip(args, d["params"])]
            la = [x for x in la if x[1]][:2]
            if not la: continue
            call = ("this->" if d["method"] else "") + d["name"] + "(" + ", ".join(p for p, _ in d["params"]) + ")"
            ids[n][4] = "".join(k for _, k in la)
            fire = "::vtt::fire<%s>(%d, %s)" % (", ".join("'%s'" % k for p, k in la), n, ", ".join(p for p, k in la))
            rk = kind(ret)
            if ret == "void":
                outs = [(p, k) for (p, k), (_, t) in zip(args, d["params"]) if t.rstrip().endswith("&") and not t.startswith("const") and k]
                if d["method"] and not outs and own in KINDS: outs = [("(*this)", KINDS[own])]
                if not outs: continue
                act = "{ ::vtt::alone([&] { %s; }); %s return; }" % (call, " ".join("::vtt::perturb<'%s'>(%s);" % (k, p) for p, k in outs))
            elif ret.endswith("&") and not ret.startswith("const") and rk and not d["name"].startswith("operator[]"): act = "return *::vtt::twistp<'%s'>([&] { return &%s; });" % (rk, call)
            elif ret.endswith("&") or not rk: continue
            else: act = "return ::vtt::twist<'%s'>([&] { return %s; });" % (rk, call)
            edits.append((off + 1, " if (VTT_ON(%d) && %s) %s" % (n, fire, act)))
        for o, e in sorted(edits, reverse=True): text = text[:o] + e + text[o:]
        os.makedirs(os.path.dirname(dst + "/" + f), exist_ok=True)
        open(dst + "/" + f, "wb").write(text.encode("latin-1"))
    return ids

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--files", default="."); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--scale", default="0.3"); ap.add_argument("--level", default=""); ap.add_argument("--checks", default=""); ap.add_argument("--first", type=int, default=0, help="first fault shape")
    a = ap.parse_args(); tmp = tempfile.mkdtemp(prefix="triggers-")
    try:
        fs = functions(tmp); skip = set()
        lib = tmp + "/lib"; shutil.copytree(REPO + "/include", lib + "/include"); shutil.copytree(REPO + "/source", lib + "/source")
        flags = ["-O1", "-DNDEBUG", "-w", "-std=c++17", "-D_USE_MATH_DEFINES", "-pthread", "-I" + lib + "/include", "-I" + ROOT + "/harness", "-include", ROOT + "/tools/triggers.hpp"] + a.level.split()
        for attempt in range(12):  # leave out the functions that do not survive being wrapped
            ids = instrument(lib, fs, skip)
            src = open(tmp + "/all.cpp").read().replace(REPO, lib); open(tmp + "/t.cpp", "w").write(src)
            bad = set()
            for cc in ("g++", "clang++"):
                r = subprocess.run([cc] + flags + ["-DVTT_COUNT=%d" % len(ids), "-fsyntax-only"] + (["-ferror-limit=0"] if cc == "clang++" else []) + [tmp + "/t.cpp"], capture_output=True, text=True)
                for m in re.finditer(r"^%s/(\S+?):(\d+):\d+: (?:fatal )?error" % re.escape(lib), r.stderr, re.M):
                    for w in re.findall(r"VTT_ON\((\d+)\)", open(lib + "/" + m.group(1), encoding="latin-1").read().split("\n")[int(m.group(2)) - 1]): bad.add(int(w))
                if r.returncode and not bad: sys.exit("instrumented library does not compile:\n" + r.stderr[:3000])
            if not bad: break
            skip |= bad
        flags.append("-DVTT_COUNT=%d" % len(ids))
        print("functions", len(ids), "left out", sorted(skip)[:20], len(skip), flush=True)
        wrapped = set(map(int, re.findall(r"VTT_ON\((\d+)\)", "".join(open(lib + "/" + f, encoding="latin-1").read() for f in {i[1] for i in ids}))))
        need = {}
        for n, f, line, sig, _ in ids:
            if n in wrapped and re.search(a.files, f):
                cs = next((c for k, c in mutate.MAP if k in f), "").split()
                if cs: need[n] = cs
        checks = sorted({c for cs in need.values() for c in cs})
        if a.checks: checks = [c for c in checks if re.search(a.checks, c)]
        def cmd(c):
            dr = check.directives(ROOT + "/checks/%s.cpp" % c)
            return [tmp + "/" + c, "--seed", "1", "--cases", str(mutate.FAST.get(c, min(int(dr["quick"]), 60000))), "--shard", "0", "--shards", "1", "--tier", "quick"]
        hits = {}
        def prep(c):
            src = ROOT + "/checks/%s.cpp" % c; dr = check.directives(src)
            so = glob.glob(lib + "/source/*.cpp") if dr["link"] == "1" else []
            r = subprocess.run(["g++"] + [("-O0" if o == "-O1" and c in ("C03", "C04", "C35") else o) for o in flags] + [src] + so + ["-o", tmp + "/" + c], capture_output=True, text=True)
            if r.returncode: print(c, "does not build:", r.stderr[:1500], flush=True); return
            r = subprocess.run(cmd(c), capture_output=True, text=True, timeout=1500, env=dict(os.environ, VTT_OUT=tmp + "/" + c + ".hits"))
            if r.returncode: print(c, "not quiet without a fault", r.stdout[-500:], r.stderr[-500:], flush=True)
            for l in open(tmp + "/" + c + ".hits"):
                f, t, k = map(int, l.split()); hits[(c, f, t)] = k
        with ThreadPoolExecutor(a.jobs) as p: list(p.map(prep, checks))
        names = re.search(r'n\[TRIGGERS\] = \{(.*?)\};', open(ROOT + "/tools/triggers.hpp").read(), re.S).group(1); names = re.findall(r'"(.*?)"', names)
        lock = threading.Lock(); o = open(a.out, "w"); meta = {i[0]: i for i in ids}
        print("recorded", len(hits), flush=True)
        def go(job):
            n, t = job; cs = [c for c in need[n] if (c, n, t) in hits]
            r = "unreached"
            for c in cs:
                try: q = subprocess.run(cmd(c), capture_output=True, text=True, timeout=120, env=dict(os.environ, VTT_MUT="%d:%d:%s" % (n, t, a.scale)))
                except subprocess.TimeoutExpired: r = "killed " + c + " hang"; break
                if q.returncode: r = "killed " + c; break
                r = "survived " + " ".join("%s:%d" % (c, hits[(c, n, t)]) for c in cs)
            with lock: o.write(json.dumps(dict(f=meta[n][1], line=meta[n][2], sig=meta[n][3], a=meta[n][4], trig=names[t], r=r)) + "\n"); o.flush()
        with ThreadPoolExecutor(a.jobs) as p: list(p.map(go, [(n, t) for n in sorted(need) for t in range(a.first, len(names))]))
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__": main()

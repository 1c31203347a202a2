#!/usr/bin/env python3
"""mutate.py N [--seed S] [--files re] [--lines FILE] [--secs T] [--out LOG]
Mutation testing of the checks: N random one-place changes to covered lines of the library, each compiled into a
copy and given to every suite that executes the line (a few CPU seconds each).  The log lists what each suite saw;
survivors are the places to look at.  Needs /tmp/cov from coverage.py.  Never touches /repo."""
import argparse, concurrent.futures, json, os, random, re, shutil, subprocess, sys, threading, time
sys.path.insert(0, "/verif")
import check, suites
ap = argparse.ArgumentParser()
ap.add_argument("n", type=int); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--files", default=r"osc_.*\.c")
ap.add_argument("--func", default=""); ap.add_argument("--secs", type=float, default=4); ap.add_argument("--out", default="/tmp/mut/log.jsonl")
ap.add_argument("--all", action="store_true", help="run all covering suites, not only until the first that notices")
ap.add_argument("--workers", type=int, default=8); ap.add_argument("--redo", help="re-run the survivors of this log")
a = ap.parse_args()
M = "/tmp/mut"
SUITES = [s for s in suites.SUITES if suites.SUITES[s]["san"] == "asan"]
lib = check.build_lib("asan")
bins = check.build_suites(SUITES)
objs = {}  # harness objects of each suite
for s in SUITES:
    r = []
# rebuild the link lines the way check.py does, by asking it for the objects
import hashlib
def harness_objs():
    hd = [f for f in check.repo_files() if f.endswith((".h", ".r"))]
    hk = check.sha(*[x for f in hd for x in (f, check.read(os.path.join(check.REPO, f)))],
                   *[check.read(os.path.join(check.HERE, "harness", f)) for f in sorted(os.listdir(os.path.join(check.HERE, "harness"))) if f.endswith(".h")])
    o = {}
    for s in SUITES:
        l = []
        for src in ["vh.cpp"] + suites.SUITES[s]["src"]:
            k = check.sha("asan", hk, *[check.read(os.path.join(check.HERE, "harness", x)) for x in [src] + re.findall(r'#include "(\w+\.cpp)"', check.read(os.path.join(check.HERE, "harness", src)).decode())], " ".join(check.CXXBASE + check.SAN["asan"]),
                          check.read(os.path.join(lib, "osc_expr_parser.h")), check.read(os.path.join(lib, "osc_parser.h")))
            l.append(os.path.join(check.BUILD, "obj", f"{src[:-4]}-asan-{k}.o"))
        assert all(map(os.path.exists, l)), s
        o[s] = l
    return o
HO = harness_objs()
hodir = f"{M}/ho"; shutil.rmtree(hodir, ignore_errors=True); os.makedirs(hodir)
for s in SUITES:
    for i, p in enumerate(HO[s]):
        q = f"{hodir}/{os.path.basename(p)}"
        if not os.path.exists(q): shutil.copy(p, q)
        HO[s][i] = q
libc = f"{M}/lib"; shutil.rmtree(libc, ignore_errors=True); shutil.copytree(lib, libc)
ENV = dict(check.ENV, **check.SANENV)
ENV["ASAN_OPTIONS"] = ENV["ASAN_OPTIONS"].replace("symbolize=1", "symbolize=0")
# coverage of each suite
cov = {}
cf = f"{M}/cov.json"
if os.path.exists(cf) and os.path.getmtime(cf) > os.path.getmtime("/tmp/cov/all.prof"):
    cov = {int(k.split("|")[1]) if 0 else k: v for k, v in json.load(open(cf)).items()}
else:
    import glob
    for s in SUITES:
        pr = [p for p in glob.glob(f"/tmp/cov/{s}-*.profraw") if os.path.getsize(p)]
        if not pr: print("no coverage for", s); continue
        subprocess.check_call(["llvm-profdata-18", "merge", "-o", f"{M}/{s}.prof", *pr])
        b = max(glob.glob(f"/tmp/cov/bin-{s}-*"), key=os.path.getmtime)
        f = None
        for l in subprocess.run(["llvm-cov-18", "export", "-format=lcov", b, "-instr-profile", f"{M}/{s}.prof"], capture_output=True, text=True).stdout.split("\n"):
            if l.startswith("SF:"): f = os.path.basename(l[3:])
            elif l.startswith("DA:"):
                n, c = l[3:].split(",")[:2]
                if int(c) > 0: cov.setdefault(f"{f}:{n}", []).append(s)
    json.dump(cov, open(cf, "w"))
# cases per suite: calibrated to about --secs CPU seconds
cal = f"{M}/cal.json"
rate = json.load(open(cal)) if os.path.exists(cal) else {}
def runsuite(b, s, n, base, tmo=90):
    for e in (".out", ".prog", ".hash"):
        if os.path.exists(base + e): os.unlink(base + e)
    nd = ndirected[s]
    start = nd if s == "fuzztext" else 0
    try:
        p = subprocess.run([b, "--seed", "1", "--start", str(start), "--end", str(nd + n), "--stride", "1", "--out", base + ".out", "--progress", base + ".prog", "--hashes", base + ".hash"],
                           env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=tmo)
        rc, err = p.returncode, p.stderr[:300000].decode("latin-1")
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    keys, ended = [], False
    try:
        for l in open(base + ".out", encoding="latin-1"):
            try: o = json.loads(l)
            except ValueError: continue
            if o["type"] == "viol": keys.append(o["key"])
            elif o["type"] == "end": ended = True
            elif o["type"] == "hang": keys.append("hang")
    except OSError: pass
    if not ended and not keys: keys.append(check.crash_key(err) if rc != "timeout" else "timeout")
    return sorted(set(keys))
ndirected = {}
for s in SUITES:
    ndirected[s] = len(subprocess.run([bins[s], "--list"], capture_output=True, text=True, errors="replace").stdout.split("\n")) - 1
    if s not in rate:
        t = time.time(); runsuite(bins[s], s, 0, f"{M}/cal"); t0 = time.time() - t
        n = 400
        t = time.time(); k = runsuite(bins[s], s, n, f"{M}/cal"); t1 = max(0.02, time.time() - t - t0)
        rate[s] = [t0, n / t1]; print(s, rate[s], k)
json.dump(rate, open(cal, "w"))

def strip(l):
    """blank out strings and comments"""
    l = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "~" * (len(m[0]) - 2) + '"', l)
    l = re.sub(r"'(\\.|[^'\\])+'", lambda m: "'" + "~" * (len(m[0]) - 2) + "'", l)
    return re.sub(r"//.*|/\*.*?\*/", lambda m: " " * len(m[0]), l)
def mutants(line):
    s = strip(line)
    out = []
    def rep(i, j, new): out.append(line[:i] + new + line[j:])
    for m in re.finditer(r"<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|->|<<|>>|[-+<>*/%]", s):
        t = m[0]
        ctx_ = s[:m.start()].rstrip()
        alt = {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "++": ["--"], "--": ["++"], "+=": ["-="], "-=": ["+="]}.get(t, [])
        if t in "+-" and re.search(r"[\w\])]$", ctx_): alt = ["-" if t == "+" else "+"]
        if t == "*" and re.search(r"[\w\])]$", ctx_) and re.match(r"\s*[\w(]", s[m.end():]) and not re.search(r"\b(char|int|long|t_\w+|void|struct|const|\w+_t|float|double)\s*$", ctx_): alt = ["+"]
        if t == "/" : alt = ["*"]
        if t in "<>" and "#include" in s: alt = []
        for x in alt: rep(m.start(), m.end(), x)
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.xX])", s):
        v = int(m[1])
        rep(m.start(), m.end(), str(v + 1))
        if v > 0: rep(m.start(), m.end(), str(v - 1))
    m = re.match(r"\s*(?:\}?\s*else\s*)?(if|while)\s*\(", s)
    if m and s.rstrip().endswith("{"):
        i = m.end() - 1
        d = 0
        for j in range(i, len(s)):
            d += (s[j] == "(") - (s[j] == ")")
            if d == 0: break
        out.append(line[:i] + "(!" + line[i:j + 1] + ")" + line[j + 1:])
    m = re.match(r"\s*([A-Za-z_*(][^=]*?(=|\().*|[\w\->\[\].]+(\+\+|--));\s*$", s)
    if m and not re.match(r"\s*(return|goto|else|case|for|while|if|do|[\w ]+\*?\s*\*?\w+\s*=(?!=)|(?:const |unsigned |struct )?\w+ \**\w+)\b", s.replace("\t", " ")):
        out.append(re.match(r"\s*", line)[0] + ";")
    elif re.match(r"\s*[\w\->\[\].()*]+\s*=[^=]", s) and s.rstrip().endswith(";") and not re.match(r"\s*\w+\s+\*?\w", s):
        out.append(re.match(r"\s*", line)[0] + ";")
    if re.match(r"\s*(break|continue);\s*$", s): out.append(";")
    if "OSC_PROFILE" in s or "osc_error_handler(" in s or "osc_error(" in s or re.match(r"\s*basename|\s*__", s): return []
    if re.match(r"\s*if\s*\(!", s): out = [x for x in out if x.count("||") == line.count("||")]
    if re.search(r"alloc|resize", s): out = [x for x in out if not re.search(r"\+ [2-9]\b", x)]
    return [x for x in out if x != line]
rng = random.Random(a.seed)
cand = []
if a.redo:
    done = set()
    for l in open(a.redo):
        o = json.loads(l)
        if o["status"] == "survived": cand.append((o["file"], o["line"], o["new"]))
else:
    srcs = {}
    for f in sorted(os.listdir(libc)):
        if re.fullmatch(a.files, f) and f.endswith(".c") and not re.search("parser|scanner", f):
            srcs[f] = open(f"{libc}/{f}", encoding="latin-1").read().split("\n")
    for f in srcs:
        fn = ""
        for i, l in enumerate(srcs[f]):
            m = re.match(r"[A-Za-z_].*?\b(\w+)\s*\([^;]*$", l)
            if m: fn = m[1]
            if a.func and not re.search(a.func, fn): continue
            if f"{f}:{i+1}" in cov or False:
                for x in mutants(l.rstrip("\r")): cand.append((f, i + 1, x))
    print(len(cand), "candidates")
    rng.shuffle(cand)
    cand = cand[:a.n]
lock = threading.Lock()
slots = list(range(a.workers))
out = open(a.out, "a")
count = {}
def one(c):
    f, n, new = c
    with lock: w = slots.pop()
    d = f"{M}/w{w}"
    try:
        os.makedirs(d, exist_ok=True)
        src = open(f"{libc}/{f}", encoding="latin-1").read().split("\n")
        old = src[n - 1]; src[n - 1] = new
        open(f"{d}/{f}", "w", encoding="latin-1").write("\n".join(src))
        res = {"file": f, "line": n, "old": old.strip(), "new": new, "seen": {}}
        obj = f.replace("/", "_")[:-2] + ".o"
        r = subprocess.run([check.CLANG, *check.LIBBASE, *check.SAN["asan"], "-I", libc, "-c", f"{d}/{f}", "-o", f"{d}/{obj}"], capture_output=True)
        os.unlink(f"{d}/{f}")
        if r.returncode: res["status"] = "nocompile"; return res
        shutil.copy(f"{libc}/libo.a", f"{d}/libo.a")
        subprocess.check_call(["ar", "r", f"{d}/libo.a", f"{d}/{obj}"], stderr=subprocess.DEVNULL)
        ss = list(cov.get(f"{f}:{n}", []))
        if re.match(r"osc_(expr|atom|bundle|message|parser)", f) and "fuzztext" not in ss: ss.append("fuzztext")
        ss.sort(key=lambda s: (s == "fuzztext", rate[s][0]))
        for s in ss:
            b = f"{d}/bin"
            r = subprocess.run([check.CLANGXX, *check.SAN["asan"], *HO[s], f"{d}/libo.a", "-o", b, "-lm", "-lpthread"], capture_output=True)
            if r.returncode: res["status"] = "nolink"; return res
            k = runsuite(b, s, int(max(20, rate[s][1] * a.secs)), f"{d}/r")
            res["seen"][s] = k
            if [x for x in k if not x.startswith("leak:")] and not a.all: break
        ks = [x for k in res["seen"].values() for x in k]
        res["status"] = "killed" if [x for x in ks if not x.startswith("leak:")] else "leak" if ks else "survived"
        return res
    finally:
        with lock: slots.append(w)
t0 = time.time()
with concurrent.futures.ThreadPoolExecutor(a.workers) as ex:
    for r in ex.map(one, cand):
        count[r["status"]] = count.get(r["status"], 0) + 1
        out.write(json.dumps(r) + "\n"); out.flush()
        if r["status"] == "survived": print(f"SURVIVED {r['file']}:{r['line']}: {r['old']}  ==>  {r['new'].strip()}   [{' '.join(r['seen'])}]", flush=True)
print(count, round(time.time() - t0), "s")

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--setup]

Rebuilds libo from /repo's working tree with sanitizers, runs the property's suite(s) under the monitors,
and judges what they observed.  Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself failed (build error, harness error)."""
import argparse, concurrent.futures, fcntl, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
CLANG, CLANGXX = "/usr/bin/clang", "/usr/bin/clang++"
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C.UTF-8", TZ="UTC")

SAN = {
    "asan": ["-fsanitize=address,bounds,integer-divide-by-zero,return,unreachable,vla-bound,null,builtin,bool",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"],
    "vg": ["-DVH_VALGRIND", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
}
LIBBASE = ["-g", "-O1", "-w", "-std=c99", "-fPIC", "-DLINUX_VERSION", "-D_XOPEN_SOURCE=500"]
CXXBASE = ["-g", "-O1", "-w", "-std=c++17", "-DLINUX_VERSION", "-D_XOPEN_SOURCE=700"]

from suites import SUITES, PROPS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    log("check error:", msg)
    sys.exit(2)


def repo_files():
    out = []
    for d, sub in (("", None), ("contrib", None)):
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if re.search(r"\.(c|h|r|y|l)$", f) and os.path.isfile(os.path.join(p, f)):
                    out.append(os.path.join(d, f))
    return out


def lib_members():
    """The library's source list, from the Makefile's lists of base names."""
    mk = open(os.path.join(REPO, "Makefile")).read()
    mk = mk.replace("\\\n", " ")
    names = []
    for m in re.finditer(r"^LIBO_(?:SCANNER_|PARSER_)?BASENAMES\s*[:+]?=\s*(.*)$", mk, re.M):
        names += m[1].split()
    return names


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, cwd=None, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode("latin-1")


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_lib(san):
    files = repo_files()
    contents = {f: read(os.path.join(REPO, f)) for f in files}
    key = sha(san, " ".join(SAN[san] + LIBBASE), read(os.path.join(REPO, "Makefile")), *[x for f in files for x in (f, contents[f])])
    dst = os.path.join(BUILD, f"lib-{san}-{key}")
    if os.path.exists(os.path.join(dst, "libo.a")):
        os.utime(dst)
        return dst
    tmp = dst + f".tmp{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, "contrib"))
    for f in files:
        if re.match(r"osc_\w*(parser|scanner)\.[ch]$", f):
            continue  # left-over generated files are never used
        with open(os.path.join(tmp, f), "wb") as o:
            o.write(contents[f])
    for base in ("osc", "osc_expr", "osc_legacy"):
        rc, out = run(["bison", "-p", f"{base}_parser_", "-d", "-o", f"{base}_parser.c", f"{base}_parser.y"], tmp)
        if rc:
            die("bison: " + out)
        rc, out = run(["flex", "-o", f"{base}_scanner.c", f"--prefix={base}_scanner_", f"--header-file={base}_scanner.h", f"{base}_scanner.l"], tmp)
        if rc:
            die("flex: " + out)
    objs = sorted({os.path.basename(x) for x in lib_members()})
    srcs = []
    for o in objs:
        for d in ("", "contrib/"):
            if os.path.exists(os.path.join(tmp, d + o + ".c")):
                srcs.append(d + o + ".c")
                break
        else:
            die(f"library member {o} has no source")
    if not srcs:
        die("cannot find the library's members in the Makefile")

    def cc(s):
        return run([CLANG, *LIBBASE, *SAN[san], "-I.", "-c", s, "-o", s.replace("/", "_")[:-2] + ".o"], tmp)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for s, (rc, out) in zip(srcs, ex.map(cc, srcs)):
            if rc:
                die(f"compiling {s}: {out[-3000:]}")
    rc, out = run(["ar", "rcs", "libo.a", *[s.replace("/", "_")[:-2] + ".o" for s in srcs]], tmp)
    if rc:
        die(out)
    os.rename(tmp, dst)
    prune("lib-", 6)
    return dst


def prune(prefix, keep):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix)]
    ds.sort(key=lambda d: os.path.getmtime(d))
    for d in ds[:-keep]:
        if time.time() - os.path.getmtime(d) > 60:
            shutil.rmtree(d, ignore_errors=True)


def build_suites(names):
    """Builds the binaries of the named suites; returns {suite: path}."""
    with Lock():
        res, libs = {}, {}
        for s in names:
            san = SUITES[s]["san"]
            if san not in libs:
                libs[san] = build_lib(san)
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        hdrs = [f for f in repo_files() if f.endswith((".h", ".r"))]
        hdrkey = sha(*[x for f in hdrs for x in (f, read(os.path.join(REPO, f)))],
                     *[read(os.path.join(HERE, "harness", f)) for f in sorted(os.listdir(os.path.join(HERE, "harness"))) if f.endswith(".h")])
        jobs = {}
        links = []
        for s in names:
            san = SUITES[s]["san"]
            objs = []
            for src in ["vh.cpp"] + SUITES[s]["src"]:
                # generated parser headers depend on the .y/.l files
                k = sha(san, hdrkey, *[read(os.path.join(HERE, "harness", x)) for x in [src] + re.findall(r'#include "(\w+\.cpp)"', read(os.path.join(HERE, "harness", src)).decode())], " ".join(CXXBASE + SAN[san]),
                        read(os.path.join(libs[san], "osc_expr_parser.h")), read(os.path.join(libs[san], "osc_parser.h")))
                o = os.path.join(BUILD, "obj", f"{src[:-4]}-{san}-{k}.o")
                objs.append(o)
                if not os.path.exists(o):
                    jobs[o] = [CLANGXX, *CXXBASE, *SAN[san], "-I", libs[san], "-c", os.path.join(HERE, "harness", src), "-o", o + f".tmp{os.getpid()}"]
            links.append((s, san, objs))

        def cc(item):
            o, cmd = item
            rc, out = run(cmd)
            if rc == 0:
                os.rename(cmd[-1], o)
            return rc, out
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for (o, cmd), (rc, out) in zip(jobs.items(), ex.map(cc, list(jobs.items()))):
                if rc:
                    die(f"compiling {o}: {out[-4000:]}")

        def ld(x):
            s, san, objs = x
            key = sha(libs[san], *objs)
            b = os.path.join(BUILD, f"bin-{s}-{key}")
            if not os.path.exists(b):
                rc, out = run([CLANGXX, *SAN[san], *objs, os.path.join(libs[san], "libo.a"), "-o", b + ".tmp", "-lm", "-lpthread"])
                if rc:
                    return s, None, out
                os.rename(b + ".tmp", b)
            else:
                os.utime(b)
            return s, b, ""
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for s, b, out in ex.map(ld, links):
                if not b:
                    die(f"linking {s}: {out[-3000:]}")
                res[s] = b
        bins = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("bin-")), key=os.path.getmtime)
        for b in bins[:-60]:
            os.unlink(b)
        ob = os.path.join(BUILD, "obj")
        os_ = sorted((os.path.join(ob, d) for d in os.listdir(ob)), key=os.path.getmtime)
        for o in os_[:-120]:
            os.unlink(o)
    return res


SANENV = {
    "ASAN_OPTIONS": "abort_on_error=0:halt_on_error=1:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=1024:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=1:exitcode=66:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=6:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4",
}


VALGRIND = ["valgrind", "-q", "--leak-check=no", "--error-limit=no", "--num-callers=14", "--main-stacksize=67108864", "--expensive-definedness-checks=yes",
            "--max-stackframe=60000000", "--undef-value-errors=yes", "--child-silent-after-fork=no", "--sigill-diagnostics=no"]


def memcheck_reports(err):
    """The reports of uninitialised values in memcheck's output, by the case that caused them first."""
    res, cur = {}, []
    text = re.sub(r"(?m)^==\d+== ?", "", err)
    for block in re.split(r"\n\s*\n|(?=VHCASE)", text):
        m = re.match(r"\s*(?:\*\*\d+\*\* )?VHCASE (\d+)", block)
        if m:
            res.setdefault(int(m[1]), []).extend(cur)
            cur = []
            block = block[m.end():]
        if "uninitialised" in block:
            cur.append(block.strip())
    return res


def memcheck_key(block):
    for m in re.finditer(r"(?:at|by) 0x[0-9A-F]+: (\S+?)(?:\(.*\))? \((\S+?)(?::\d+)?\)", block.split("Uninitialised value was created")[0]):
        if re.match(r"osc_\w*\.[chyl]|lex\.|contrib|\w+_(parser|scanner)\.", m[2]):
            return "uninit:" + m[1]
    m = re.search(r"\((\w+\.(?:cpp|h)):(\d+)\)", block)
    return "uninit:result" + (":" + m[1] if m else "")


def crash_key(text):
    """A signature for a sanitizer report: kind and the innermost function of the library."""
    kind = "crash"
    m = re.search(r"ERROR: (?:Address|Thread|Leak)Sanitizer:? ([\w-]+)", text)
    if m:
        kind = m[1]
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", text)
    if m:
        kind = m[1].replace(" ", "-")
    m = re.search(r"runtime error: ([^\n]{0,60})", text)
    if m:
        kind = "ub-" + re.sub(r"[^a-z]+", "-", m[1].lower())[:40].strip("-")
    fn = "?"
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+) (\S+)", text):
        if "/build/lib-" in m[2] or re.search(r"\bosc_|contrib/", m[2]):
            fn = m[1]
            break
        if "harness/" in m[2]:
            fn = "caller:" + m[1]
            break
    return f"san:{kind}:{fn}"


class Runner:
    def __init__(self, suite, binary, seed, tier, work):
        self.s, self.bin, self.seed, self.tier, self.work = suite, binary, seed, tier, work
        self.viol, self.samples, self.cov = [], [], {}
        self.evals = self.nontriv = self.allocs = 0
        self.hashes = set()
        self.inconclusive = []
        self.san = SUITES[suite]["san"]
        self.crashes = 0

    def spawn(self, tag, start, end, stride, extra=()):
        base = os.path.join(self.work, f"{self.s}-{tag}")
        for ext in (".out", ".prog", ".hash", ".err"):
            if os.path.exists(base + ext):
                os.unlink(base + ext)
        cmd = [self.bin, "--seed", str(self.seed), "--start", str(start), "--end", str(end), "--stride", str(stride),
               "--out", base + ".out", "--progress", base + ".prog", "--hashes", base + ".hash", *extra]
        if self.tier == "thorough":
            cmd.append("--thorough")
        if self.san == "vg":
            cmd = VALGRIND + cmd
        with open(base + ".err", "wb") as err:
            try:
                p = subprocess.run(cmd, env=dict(ENV, **SANENV), stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, timeout=3000)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        prog = 0
        try:
            prog = struct.unpack("q", open(base + ".prog", "rb").read(8))[0]
        except (OSError, struct.error):
            pass
        out = []
        try:
            for l in open(base + ".out", encoding="latin-1"):
                try:
                    out.append(json.loads(l))
                except ValueError:
                    pass
        except OSError:
            pass
        with open(base + ".err", "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            err = f.read(4000000 if self.san == "vg" else 200000).decode("latin-1")
        hs = []
        if os.path.exists(base + ".hash"):
            d = read(base + ".hash")
            hs = struct.unpack(f"{len(d)//8}Q", d[:len(d) // 8 * 8])
        return rc, prog, out, err, hs

    def shard(self, k, n, ncases):
        start = k
        tries = 0
        res = {"viol": [], "samples": [], "cov": {}, "evals": 0, "nontriv": 0, "allocs": 0, "hashes": set(), "inc": []}
        while start < ncases:
            rc, prog, out, err, hs = self.spawn(f"{k}-{tries}", start, ncases, n)
            tries += 1
            res["hashes"].update(hs)
            ended = hung = False
            for o in out:
                if o["type"] == "viol":
                    res["viol"].append(o)
                elif o["type"] == "sample":
                    res["samples"].append(o)
                elif o["type"] == "end":
                    ended = True
                    res["evals"] += o["evals"]
                    res["nontriv"] += o["nontrivial"]
                    res["allocs"] += o["allocs"]
                    for c, v in o["cov"].items():
                        res["cov"][c] = res["cov"].get(c, 0) + v
                elif o["type"] == "hang":
                    hung = True
            if self.san == "vg":
                reps = memcheck_reports(err)
                keep = []
                for v in res["viol"]:
                    if v["key"] == "uninit":  # cases that only repeat a report carry no text
                        blocks = reps.pop(v["case"], [])
                        if not blocks:
                            continue
                        v["key"], v["detail"] = memcheck_key(blocks[0]), "\n".join(blocks)[:5000]
                    keep.append(v)
                res["viol"] = keep
            if self.san == "tsan" and "WARNING: ThreadSanitizer" in err:
                for rep in re.split(r"(?=WARNING: ThreadSanitizer)", err)[1:]:
                    res["viol"].append({"case": -1, "directed": "", "key": crash_key(rep), "detail": rep[:3000], "input": f"shard {k}"})
            if ended:
                break
            case = prog - 1
            if case < 0:
                die(f"{self.s}: worker ended without running a case (exit {rc}): {err[-2000:]}")
            if hung or rc == "timeout":
                # decide a hang on CPU time, and only when it repeats alone
                rc2, prog2, out2, err2, _ = self.spawn(f"{k}-{tries}-hang", case, case + 1, 1)
                if any(o["type"] == "hang" for o in out2):
                    res["viol"].append({"case": case, "directed": self.dname(case), "key": "hang", "detail": "the case used more than 20 s of CPU time, twice", "input": ""})
                else:
                    res["inc"].append(f"case {case} slow once")
            else:
                res["viol"].append({"case": case, "directed": self.dname(case), "key": crash_key(err), "detail": err[:6000] or f"exit {rc}", "input": ""})
            res["evals"] += max(0, (case - start) // n + 1)
            start = case + n
            if len(res["viol"]) > 40 or tries > 40:
                res["inc"].append(f"shard {k} stopped after {tries} restarts")
                break
        return res

    def dname(self, case):
        return self.directed[case] if case < len(self.directed) else ""

    def go(self, ncases, workers=8):
        rc, out = run([self.bin, "--list"])
        self.directed = out.split("\n")[:-1]
        ncases += len(self.directed)
        n = min(workers, ncases)
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            for r in ex.map(lambda k: self.shard(k, n, ncases), range(n)):
                self.viol += r["viol"]
                self.samples += r["samples"]
                self.evals += r["evals"]
                self.nontriv += r["nontriv"]
                self.allocs += r["allocs"]
                self.hashes |= r["hashes"]
                self.inconclusive += r["inc"]
                for c, v in r["cov"].items():
                    self.cov[c] = self.cov.get(c, 0) + v


def judged(P, key):
    """C20 judges ownership (leaks, double and foreign frees); every other property judges everything but leaks."""
    if P.get("only"):
        return re.match(P["only"], key) is not None
    return not key.startswith("leak:")


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    if a.prop == "setup":
        build_suites(sorted(SUITES))
        log("built", len(SUITES), "suites")
        return 0
    if a.prop not in PROPS:
        die("unknown property " + a.prop)
    if a.replay:
        r = json.load(open(a.replay))
        b = build_suites([r["suite"]])
        extra = ["--directed", r["directed"]] if r.get("directed") else []
        cmd = [b[r["suite"]], "--seed", str(r["seed"]), "--start", str(max(r["case"], 0)), "--end", str(max(r["case"], 0) + 1), "-v", *extra]
        if r.get("tier") == "thorough":
            cmd.append("--thorough")
        if SUITES[r["suite"]]["san"] == "vg":
            cmd = VALGRIND + ["--track-origins=yes"] + cmd
        rc = subprocess.run(cmd, env=dict(ENV, **SANENV)).returncode
        print("reproduced" if rc else "not reproduced")
        return 1 if rc else 0
    t0 = time.time()
    P = PROPS[a.prop]
    bins = build_suites(P["suites"])
    work = tempfile.mkdtemp(prefix="vh-", dir=BUILD)
    runs = []
    try:
        for s in P["suites"]:
            r = Runner(s, bins[s], a.seed, a.tier, work)
            n = a.cases if a.cases is not None else int(SUITES[s][a.tier] * P.get("scale", 1))
            r.go(n)
            runs.append(r)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    kf = [f for f in known() if f["property"] == a.prop]
    hit, new, other = {}, [], 0
    for r in runs:
        for v in r.viol:
            v["suite"] = r.s
            if not judged(P, v["key"]):
                other += 1  # belongs to another property's check, which runs the same suite
                continue
            m = None
            for f in kf:
                if f["suite"] == r.s and f.get("directed") == v["directed"] and v["directed"] and re.fullmatch(f["key"], v["key"]):
                    m = f
            if m:
                hit[m["id"]] = m
            else:
                new.append(v)
    if any(r.evals == 0 or (SUITES[r.s].get("need_nontrivial", True) and not r.hashes) for r in runs) and not new:
        die("a suite observed nothing: " + str([(r.s, r.evals, len(r.hashes)) for r in runs]))
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "evaluations": sum(r.evals for r in runs),
        "distinct_nontrivial": sum(len(r.hashes) for r in runs),
        "rule": P["rule"],
        "samples": [dict(suite=r.s, case=s["case"], input=s["input"]) for r in runs for s in r.samples[:3]] or [{"note": "no sample recorded"}],
        "events_observed": {r.s: r.cov for r in runs},
        "allocations_monitored": sum(r.allocs for r in runs),
        "directed_cases": {r.s: len(r.directed) for r in runs},
        "known_findings_seen": sorted(hit),
        "inconclusive": [x for r in runs for x in r.inconclusive],
    }
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": P.get("level", "exploration"),
          "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(EVID, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for i in sorted(hit):
        print(f"KNOWN-FINDING: property={a.prop} {hit[i]['what']}")
    if new:
        rd = os.path.join(BUILD, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for v in new:
            seen.setdefault((v["suite"], v["key"], v["directed"]), []).append(v)
        for k, (key, vs) in enumerate(sorted(seen.items(), key=lambda x: x[0])[:12]):
            vs.sort(key=lambda v: (len(v["input"]), v["case"]))
            v = vs[0]  # the shortest
            p = os.path.join(rd, f"{a.prop}-{k}.json")
            json.dump({"property": a.prop, "suite": v["suite"], "seed": a.seed, "tier": a.tier, "case": v["case"], "directed": v["directed"],
                       "key": v["key"], "detail": v["detail"], "input": v["input"],
                       "how": f"python3 check.py {a.prop} --replay {p}"}, open(p, "w"), indent=1)
            log(f"-- {v['suite']} case {v['case']} {v['directed']} [{v['key']}] x{len(vs)}\n   {v['detail'][:1500]}\n   input: {v['input'][:700]}")
            for w in vs[1:int(os.environ.get("VH_SHOW", 1))]:
                log(f"   also case {w['case']}: {w['detail'][:900]}")
            print(f"VIOLATION property={a.prop} replay={p}")
        return 1
    print(f"{a.prop}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial), {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())

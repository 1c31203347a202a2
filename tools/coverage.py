#!/usr/bin/env python3
"""Line coverage of the library by the suites: coverage.py [scale of the quick tier]. Writes /tmp/cov/uncovered.txt."""
import os, sys, subprocess, concurrent.futures, re, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
scale = float(sys.argv[1]) if len(sys.argv) > 1 else 0.05
import check, suites
check.BUILD = "/tmp/cov"
F = ["-fprofile-instr-generate", "-fcoverage-mapping", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"]
for k in check.SAN:
    check.SAN[k] = F
os.makedirs("/tmp/cov", exist_ok=True)
names = [s for s in suites.SUITES if s != "threads"]
bins = check.build_suites(names)
for f in glob.glob("/tmp/cov/*.profraw"):
    os.unlink(f)

def run(s):
    e = dict(os.environ, LLVM_PROFILE_FILE=f"/tmp/cov/{s}-%p.profraw")
    n = int(suites.SUITES[s]["quick"] * scale)
    b = f"/tmp/cov/{s}"
    nd = len(subprocess.run([bins[s], "--list"], capture_output=True).stdout.split(b"\n")) - 1
    st = nd if s == "fuzztext" else 0  # the known findings are directed cases that crash
    n += nd
    p = subprocess.run([bins[s], "--seed", "1", "--start", str(st), "--end", str(n), "--stride", "1", "--out", b + ".out", "--progress", b + ".prog", "--hashes", b + ".hash"],
                       env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return s, p.returncode
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for r in ex.map(run, names):
        print(*r)
subprocess.check_call("llvm-profdata-18 merge -o /tmp/cov/all.prof /tmp/cov/*.profraw", shell=True)
objs = " ".join("-object " + bins[s] for s in names)
lib = max((d for d in glob.glob("/tmp/cov/lib-asan*") if os.path.isdir(d) and not os.path.islink(d)), key=os.path.getmtime)
subprocess.call(f"llvm-cov-18 report {objs} -instr-profile /tmp/cov/all.prof 2>/dev/null | grep -v harness > /tmp/cov/report.txt", shell=True)
for m in set(re.findall(r"tmp/cov/(lib-\S+\.tmp\d+)/", open("/tmp/cov/report.txt").read())):
    if not os.path.lexists("/tmp/cov/" + m):
        os.symlink(lib, "/tmp/cov/" + m)
subprocess.call(f"llvm-cov-18 show {objs} -instr-profile /tmp/cov/all.prof 2>/dev/null > /tmp/cov/show.txt", shell=True)

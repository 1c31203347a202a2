#!/usr/bin/env python3
"""mkseed.py ID SPEC.py: builds /verif/seeded/ID from a spec module defining
PROP, NEEDS, BREAKS, EDITS=[(file, old, new), ...], DEMO (C source) and optionally CFLAGS / VALGRIND.
Works in a scratch copy; confirms: applies, builds, tests pass, demo passes without and fails with the change."""
import json, os, re, shutil, subprocess, sys, tempfile
ID, SPEC = sys.argv[1:3]
ns = {}
exec(open(SPEC).read(), ns)
d = f"/verif/seeded/{ID}"
os.makedirs(d, exist_ok=True)
wt = f"/tmp/seedwt-{ID}"
shutil.rmtree(wt, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", wt])
for f, old, new in ns["EDITS"]:
    p = f"{wt}/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
patch = subprocess.check_output(["git", "-C", wt, "diff"]).decode()
# the removed/changed lines must be original ones
base = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^base"]).decode().split()[0]
for f, old, new in ns["EDITS"]:
    bl = subprocess.check_output(["git", "-C", "/repo", "show", f"{base}:{f}"]).decode("latin-1")
    olds = [l for l in old.split("\n") if l.strip() and l not in new.split("\n")]
    for l in olds:
        if l.strip() not in bl:
            print("WARNING not an original line:", l)
open(f"{d}/patch.diff", "w").write(patch)
open(f"{d}/demo.c", "w").write(ns["DEMO"])
cf = ns.get("CFLAGS", "")
runner = "valgrind -q --error-exitcode=9 " if ns.get("VALGRIND") else ""
if ns.get("ASAN"):
    # the library's own sources, compiled with AddressSanitizer (generated headers come from the build)
    build = f'''objs=""
for f in $(ls _build/src/*.c 2>/dev/null || true); do :; done
'''
open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
clang -w -g -std=c99 -DLINUX_VERSION -D_XOPEN_SOURCE=700 {cf} -I_build/src -I. "$here/demo.c" _build/src/libo.a -lm -lpthread -o "$t/demo" || exit 3
timeout 60 {runner}"$t/demo"
r=$?
rm -f -- "$t/demo"
rmdir -- "$t"
exit $r
''')
os.chmod(f"{d}/demo.sh", 0o755)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
def build(src, dst):
    os.makedirs(dst + "/_build/src", exist_ok=True)
# build both variants like /opt/vp/build.sh does, with a plain compile of the members
def lib(root, out):
    os.makedirs(out, exist_ok=True)
    subprocess.check_call(["cp", "-a", root + "/.", out])
    mk = open(out + "/Makefile").read().replace("\\\n", " ")
    names = []
    for m in re.finditer(r"^LIBO_(?:SCANNER_|PARSER_)?BASENAMES\s*[:+]?=\s*(.*)$", mk, re.M): names += m[1].split()
    b = out + "/_build/src"; shutil.rmtree(b, ignore_errors=True); os.makedirs(b)
    for base in ("osc", "osc_expr", "osc_legacy"):
        subprocess.check_call(["bison", "-Wnone", "-p", f"{base}_parser_", "-d", "-o", f"{b}/{base}_parser.c", f"{out}/{base}_parser.y"])
        subprocess.check_call(["flex", "-o", f"{b}/{base}_scanner.c", f"--prefix={base}_scanner_", f"--header-file={b}/{base}_scanner.h", f"{out}/{base}_scanner.l"])
    objs = []
    procs = []
    for n in sorted({os.path.basename(x) for x in names}):
        s = next(p for p in (f"{b}/{n}.c", f"{out}/{n}.c", f"{out}/contrib/{n}.c") if os.path.exists(p))
        o = f"{b}/{n}.o"; objs.append(o)
        procs.append(subprocess.Popen(["clang", "-w", "-g", "-std=c99", "-fPIC", "-DLINUX_VERSION", "-D_XOPEN_SOURCE=500", "-I" + b, "-I" + out, "-I" + out + "/contrib", "-c", s, "-o", o]))
    assert not any(p.wait() for p in procs)
    subprocess.check_call(["ar", "rcs", b + "/libo.a", *objs])
ok = True
g, bad = f"/tmp/seedgood-{ID}", f"/tmp/seedbad-{ID}"
lib("/repo", g); lib(wt, bad)
rg = subprocess.run([f"{d}/demo.sh"], cwd=g, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
rb = subprocess.run([f"{d}/demo.sh"], cwd=bad, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print(ID, "clean:", rg.returncode, rg.stdout.decode("latin-1")[-300:], "| patched:", rb.returncode, rb.stdout.decode("latin-1")[-300:])
for x in (wt, g, bad): shutil.rmtree(x, ignore_errors=True)

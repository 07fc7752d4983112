#!/usr/bin/env python3
"""Developer tool for planted bugs.
   seed.py add SPEC.py      make seeded/<id>/ from a spec (ID, PROP, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO=C source) and verify it
   seed.py verify [ID...]   patch applies, builds, stable tests pass, demo 0 / nonzero
   seed.py catch [ID...]    run the property's quick check on a patched scratch copy and report whether it raises the violation
All work is done in scratch copies under /tmp."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO_SH = '''#!/bin/bash
# exit 0: behaviour right; nonzero: broken. Run with cwd = the repository, after its build.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
gcc -w -O1 -fsanitize=address -Iinclude -Isrc "$d/demo.c" libcry.a -o "$t/demo" || exit 98
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def copy():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp"); r = os.path.join(d, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", r]); return d, r
def build(r): return sh("unset MAKEFLAGS; rm -f libcry.a build/*/libcry.a test/test test/*.o; make test -j8", cwd=r)
def tests(r):
    t = open("/opt/vp/run_tests.py").read().replace('"/repo/test"', repr(r + "/test"))
    f = r + "/../rt.py"; open(f, "w").write(t); o = r + "/../out.json"
    sh(["python3", f, o]); d = json.load(open(o)); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(st - set(d["passed"]))
def demo(i, r): return sh(["bash", os.path.join(S, i, "demo.sh")], cwd=r)
def verify(i):
    d, r = copy(); ok = []
    try:
        b = build(r)
        if b.returncode: return "clean build failed " + b.stdout[-500:]
        x = demo(i, r)
        if x.returncode: return "demo fails on clean tree rc=%d %s" % (x.returncode, x.stdout[-600:])
        a = sh(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=r)
        if a.returncode: return "patch does not apply " + a.stdout
        b = build(r)
        if b.returncode: return "patched build failed " + b.stdout[-800:]
        x = demo(i, r)
        if x.returncode == 0: return "demo passes with the patch"
        if x.returncode in (98, 99): return "demo does not build " + x.stdout
        m = tests(r)
        if m: return "tests fail with the patch: %d %s" % (len(m), m[:4])
        return "ok (demo rc=%d: %s)" % (x.returncode, x.stdout.strip()[-120:])
    finally: shutil.rmtree(d, ignore_errors=True)
def catch(i, props=None, seed="1"):
    d, r = copy(); out = []
    try:
        sh(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=r)
        p = json.load(open(os.path.join(S, i, "meta.json")))["property"]
        for q in (props or [p]):
            e = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=d + "/b", VERIF_REPLAYS=d + "/rp", VERIF_NOEVIDENCE="1", VERIF_SEED=seed)
            x = sh(["python3", os.path.join(V, "run.py"), q, "quick"], env=e)
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("%s:%s" % (q, "CAUGHT" if x.returncode == 1 and any("property=%s " % q in l for l in v) else "missed rc=%d %s" % (x.returncode, x.stdout[-300:] if x.returncode not in (0, 1) else "")))
        return " ".join(out)
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "add":
        for spec in args:
            n = {}; exec(open(spec).read(), n); i = n["ID"]; d, r = copy()
            for f, a, b in n["EDITS"]:
                p = os.path.join(r, f); t = open(p).read(); assert t.count(a) == 1, (i, f, a, t.count(a)); open(p, "w").write(t.replace(a, b))
            df = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
            shutil.rmtree(d); o = os.path.join(S, i); os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(df); open(o + "/demo.c", "w").write(n["DEMO"]); open(o + "/demo.sh", "w").write(n.get("DEMO_SH", DEMO_SH))
            json.dump(dict(property=n["PROP"], needs=n["NEEDS"], what_it_breaks=n["BREAKS"]), open(o + "/meta.json", "w"), indent=1)
            v = verify(i); print(i, "verify:", v, flush=True)
            if not v.startswith("ok"): shutil.rmtree(o)
            else: print(i, "catch:", catch(i), flush=True)
    else:
        for i in args or sorted(os.listdir(S)): print(i, {"verify": verify, "catch": catch}[cmd](i), flush=True)
main()

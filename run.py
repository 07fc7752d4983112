#!/usr/bin/env python3
"""run.py ID quick|thorough [--seed N] [--cases N] [--time S] [--replay FILE] : build the library from /repo and run one check."""
import sys, os, subprocess, glob, json, time, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIBFLAGS = ["-std=gnu11", "-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fno-builtin-malloc", "-fsanitize=address",
            "-fsanitize-coverage=trace-cmp", "-ftrivial-auto-var-init=pattern"]
CXXFLAGS = ["-std=gnu++17", "-O1", "-g1", "-w", "-fsanitize=address", "-Wno-deprecated-declarations", "-DOPENSSL_SUPPRESS_DEPRECATED"]

def base_opts():
    """options of the repository's own configuration header"""
    o = []
    for l in open(os.path.join(REPO, "include/cry/config.h")):
        l = l.split()
        if len(l) >= 2 and l[0] == "#define": o.append(l[1])
    return o
# configuration variants used by C07: name -> (options removed, options added, extra -D)
VARIANTS = {
    "default": ([], [], []),
    "d8": ([], ["CRY_MPI_DEBUG_CONF"], []),
    "d8x": (["CRY_MPI_INV_EUCLID", "CRY_MPI_MUL_COMBA", "CRY_MPI_MUL_TOOM3", "CRY_ECP_MUL_WIN", "CRY_ECP_MUL_SLIDING_WIN"], ["CRY_MPI_DEBUG_CONF", "CRY_MPI_DIV_SMALL"], []),
    "d16": ([], [], ["-DCRY_MPI_DIGIT_MAX=65535UL"]),
    "d32": ([], [], ["-DCRY_MPI_DIGIT_MAX=4294967295UL"]),
    "d32b": (["CRY_MPI_MUL_COMBA", "CRY_MPI_MUL_KARATSUBA", "CRY_MPI_MUL_TOOM3", "CRY_MPI_INV_EUCLID", "CRY_ECP_MUL_SLIDING_WIN"], [], ["-DCRY_MPI_DIGIT_MAX=4294967295UL"]),
    "d16y": (["CRY_MPI_MUL_COMBA", "CRY_MPI_MUL_KARATSUBA", "CRY_MPI_INV_EUCLID", "CRY_ECP_MUL_SLIDING_WIN"], ["CRY_MPI_DIV_SMALL"], ["-DCRY_MPI_DIGIT_MAX=65535UL"]),
    "asm32": (["CRY_MPI_MUL_KARATSUBA", "CRY_MPI_INV_EUCLID"], ["CRY_ARCH_X86"], ["-DCRY_MPI_DIGIT_MAX=4294967295UL"]),
    "base": (["CRY_MPI_MUL_COMBA", "CRY_MPI_MUL_KARATSUBA", "CRY_MPI_MUL_TOOM3"], ["CRY_MPI_DIV_SMALL"], []),
    "bininv": (["CRY_MPI_INV_EUCLID", "CRY_MPI_MUL_TOOM3"], [], []),
    "toom": (["CRY_MPI_MUL_KARATSUBA", "CRY_MPI_MUL_COMBA"], [], []),
    "kara": (["CRY_MPI_MUL_TOOM3", "CRY_MPI_MUL_COMBA"], [], []),
    "asm": ([], ["CRY_ARCH_X86_64"], []),
    "nowin": (["CRY_ECP_MUL_WIN", "CRY_ECP_MUL_SLIDING_WIN"], [], []),
    "win": (["CRY_ECP_MUL_SLIDING_WIN"], [], []),
    "o3": ([], [], ["-O3"]),
    "assert": ([], ["CRY_ASSERT_CHECK"], ["-Os"]),
    "noinit": ([], [], ["-ftrivial-auto-var-init=uninitialized"]), # automatic variables keep what the stack held (C30)
    "huge": ([], [], []), # calls on more than 4 GiB, without instrumentation
}
# configurations a check runs in: (variant, fraction of the tier's cases)
HBUILT = set()
CHECK_VARIANTS = {"C07": [(v, {"d8": 1.2, "d8x": 0.5, "d16": 1.2, "d16y": 0.6, "base": 2}.get(v, 3)) for v in VARIANTS if v not in ("default", "noinit", "huge")]}
for _c in ("C01", "C02", "C03", "C04", "C05"): CHECK_VARIANTS[_c] = [("default", 1), ("d8", 0.25)]
CHECK_VARIANTS["C30"] = [("noinit", 1)]
CHECK_VARIANTS["C28"] = [("default", 1), ("d8", 0.15), ("d8x", 0.08)]

# lengths beyond 32 bits: checks/huge.cpp, a few calls at a time (each needs some 5 GiB)
for _c in ("C01", "C05", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C23", "C25", "C27"): CHECK_VARIANTS[_c] = CHECK_VARIANTS.get(_c, [("default", 1)]) + [("huge", 1)]
HUGEFLAGS = ["-std=gnu11", "-O2", "-g1", "-w", "-fno-builtin-malloc"]

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace") + "\n")
        raise SystemExit(2)
    return r

def plan(pid, variant, bdir):
    """compile jobs and the link command of one configuration"""
    rem, add, defs = VARIANTS[variant]
    os.makedirs(os.path.join(bdir, "cfg/cry"), exist_ok=True)
    opts = [o for o in base_opts() if o not in rem] + add
    with open(os.path.join(bdir, "cfg/cry/config.h"), "w") as f:
        f.write("".join("#define %s\n" % o for o in opts))
    inc = ["-I" + os.path.join(bdir, "cfg"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(bdir, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
        objs.append(o)
        extra = []
        jobs.append((["gcc"] + (HUGEFLAGS if variant == "huge" else LIBFLAGS) + defs + inc + extra + ["-c", s, "-o", o], o))
    vd = ['-DVT_VARIANT="%s"' % variant]
    hobjs = []
    # harness objects only depend on the digit type: share them between configurations
    hkey = "_".join(["h"] + [x.replace("-D", "").replace("=", "") for x in defs if x.startswith("-D")] + ["d8" for o in opts if o == "CRY_MPI_DEBUG_CONF"])
    cxx, ck = CXXFLAGS, os.path.join(V, "checks", pid + ".cpp")
    if variant == "huge": hkey, cxx, ck = "huge", [x.replace("-O1", "-O2") for x in CXXFLAGS if "sanitize" not in x] + ['-DHUGE_ID="%s"' % pid], os.path.join(V, "checks", "huge.cpp")
    for s in [os.path.join(V, "lib", x) for x in ("engine.cpp", "big.cpp", "vt_alloc.cpp")] + [ck]:
        name = os.path.basename(s)[:-4]
        o = os.path.join(bdir if name == "engine" else os.path.dirname(bdir), hkey + "_" + name + ".o")
        hobjs.append(o)
        if o in HBUILT: continue
        HBUILT.add(o)
        d = [x for x in defs if x.startswith("-D")]
        jobs.append((["g++"] + cxx + vd + d + inc + ["-I" + os.path.join(V, "lib"), "-c", s, "-o", o], None))
    exe = os.path.join(bdir, "check")
    return exe, jobs, ["g++"] + ([] if variant == "huge" else ["-fsanitize=address"]) + ["-o", exe] + hobjs + objs + ["-lcrypto"]

def compile1(j):
    sh(j[0])
    if j[1]:
        sh(["objcopy"] + sum((["--redefine-sym", "%s=vt_%s" % (f, f)] for f in ("malloc", "calloc", "realloc", "free", "strdup")), []) + [j[1]])

def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rest = sys.argv[3:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--seed" in rest:
        i = rest.index("--seed"); seed = int(rest[i + 1]); del rest[i:i + 2]
    only = None
    if "--variant" in rest:
        i = rest.index("--variant"); only = rest[i + 1]; del rest[i:i + 2]
    t0 = time.time()
    variants = CHECK_VARIANTS.get(pid, [("default", 1)])
    if "--replay" in rest and not only: # replay files are named ID-variant-seed-case.replay
        only = os.path.basename(rest[rest.index("--replay") + 1]).split("-")[1]
        if only not in VARIANTS: only = None
    if only: variants = [(only, 1)]
    broot = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(V, "build")), pid)
    shutil.rmtree(broot, ignore_errors=True)
    os.makedirs(broot)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rdir = os.path.join(os.environ.get("VERIF_REPLAYS", os.path.join(V, "replays")))
    os.makedirs(rdir, exist_ok=True)
    parts, viol, bad, notbuilt = [], 0, 0, []
    with cf.ThreadPoolExecutor(8) as pool:
        plans = [plan(pid, v, os.path.join(broot, v)) for v, _ in variants]
        jobs = [x for p in plans for x in p[1]]
        def attempt(f, x): # a configuration that no longer compiles cannot be run; the default one has to compile
            try: f(x)
            except SystemExit:
                if pid == "C07": return False
                raise
            return True
        jobs = [x for x in jobs if not x[1]] + [x for x in jobs if x[1]]
        built = dict(zip([x[0][-1] for x in jobs], pool.map(lambda x: attempt(compile1, x), jobs)))
        linked = list(pool.map(lambda p: all(built[x[0][-1]] for x in p[1]) and attempt(sh, p[2]), plans))
        if not any(linked): sys.exit(2)
        for (v, scale), (exe, _, _), ok in zip(variants, plans, linked):
            if not ok:
                notbuilt.append(v); print("%s: configuration %s does not build, not examined" % (pid, v)); continue
            ev = os.path.join(broot, v, "part.json")
            cmd = [exe, "--tier", tier, "--seed", str(seed), "--evidence", ev, "--replays", rdir, "--scale", str(scale)] + rest + (["--jobs", "4"] if v == "huge" else [])
            if "--replay" in rest:
                sys.exit(subprocess.call(cmd))
            r = subprocess.run(cmd, stdout=subprocess.PIPE)
            sys.stdout.write(r.stdout.decode(errors="replace")); sys.stdout.flush()
            if r.returncode == 1: viol += 1
            elif r.returncode != 0: bad = r.returncode
            try: parts.append(json.load(open(ev)))
            except Exception: bad = bad or 2
            if viol: break
    shutil.rmtree(broot, ignore_errors=True)
    man = {}
    try:
        for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]:
            man[c["property"]] = c
    except Exception: pass
    cov = dict(evaluations=sum(p["evaluations"] for p in parts), distinct_nontrivial=sum(p["distinct_nontrivial"] for p in parts),
               rule=parts[0]["rule"] if parts else "", samples=[s for p in parts for s in p["samples"][:12 if len(parts) == 1 else 2]],
               enumerated_cases=sum(p["enumerated_cases"] for p in parts), skipped=sum(p["skipped"] for p in parts),
               labels={(k if len(parts) == 1 else p["variant"] + ":" + k): n for p in parts for k, n in p["labels"].items()})
    if len(parts) > 1 or variants[0][0] != "default": cov["configurations"] = {p["variant"]: p["evaluations"] for p in parts}
    if notbuilt: cov["configurations_not_built"] = notbuilt
    assum = sorted(set(a for p in parts for a in p["assumptions"]))
    e = dict(property=pid, tier=tier, seed=seed, level=man.get(pid, {}).get("level", "exploration"), coverage=cov, wall_s=round(time.time() - t0, 2),
             violations=viol, assumptions=assum or ["OpenSSL libcrypto is a correct oracle", "x86-64 Linux, gcc"])
    if not os.environ.get("VERIF_NOEVIDENCE"):
        json.dump(e, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    kf = os.path.join(V, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith("KNOWN-FINDING: property=%s " % pid): sys.stdout.write(l)
    sys.exit(1 if viol else (2 if bad else 0))
main()

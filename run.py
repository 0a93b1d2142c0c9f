#!/usr/bin/env python3
"""python3 run.py setup | <property> [quick|thorough] [--replay FILE] [--scale X] [--only TARGET] [--variant V]

Builds the library from /repo's working tree in the needed variants, links the property's harness and runs it.
Exit 0: held on everything explored. Exit 1: violation (a VIOLATION line on stdout). Exit 2: the check itself failed."""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(ROOT, "build"))
H = os.path.join(ROOT, "harness")
SAN = "-fsanitize=address,null,vla-bound,bool,integer-divide-by-zero,unreachable -fno-sanitize-recover=all"
BASE = "-std=gnu11 -include %s/vp_atomics.h " % H + "-g -fno-omit-frame-pointer -pthread -pipe -w -D_GNU_SOURCE -DIOT_BUILD_COMPONENTS -DIOT_BUILD_DYNAMIC_LOAD"
SCHED = "-include %s/vsched_shim.h -fsanitize-coverage=edge,trace-loads,trace-stores,no-prune" % H
WRAP = " ".join("-Wl,--wrap=" + f for f in "fopen fdopen fwrite fputs fread fclose fflush fseek fseeko ftell ftello rename link remove unlink open openat mkstemp close read write fsync fdatasync ftruncate fstat stat lstat access opendir ferror clearerr fprintf vfprintf fputc putc renameat unlinkat pwrite truncate".split())
VARIANTS = {   # name -> (C flags for the library, C++ flags for the harness)
    "dbg": (BASE + " -O1 " + SAN, "-DVP_DBG"),
    "rel": (BASE + " -O2 -DNDEBUG " + SAN, "-DVP_REL"),
    "sch": (BASE + " -O1 " + SAN + " " + SCHED, "-DVP_DBG -DVP_SCHED"),
    "schrel": (BASE + " -O1 -DNDEBUG " + SAN + " " + SCHED, "-DVP_REL -DVP_SCHED"),
    "io": (BASE + " -O1 -fno-builtin " + SAN, "-DVP_DBG -DVP_IO"),
    "iorel": (BASE + " -O2 -fno-builtin -DNDEBUG " + SAN, "-DVP_REL -DVP_IO"),
    "fuzz": (BASE + " -O1 " + SAN + " -fsanitize=fuzzer-no-link", "-DVP_DBG -DPBT_FUZZ -fsanitize=fuzzer-no-link"),
}
CXX = "-std=gnu++17 -O1 -g -fno-omit-frame-pointer -pthread -pipe -w -D_GNU_SOURCE -DIOT_BUILD_COMPONENTS -DIOT_BUILD_DYNAMIC_LOAD " + SAN
# property -> list of (harness source, variant, extra harness sources)
CHECKS = json.load(open(os.path.join(ROOT, "checks.json")))
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=78:handle_abort=1:symbolize=0:allocator_may_return_null=0:max_allocation_size_mb=2000:detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=8:hard_rss_limit_mb=6000:print_summary=1:intercept_strlen=1:strict_string_checks=0:allow_user_segv_handler=1:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=78:symbolize=0",
}

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def files_digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:24]

DIED = (77, 78, -4, -6, -7, -8, -11)   # sanitizer report, failed check, or a signal that means a crash

class BuildError(Exception): pass

def gen_defs():
    d = os.path.join(BUILD, "gen", "iot"); os.makedirs(d, exist_ok=True)
    try: txt = open(os.path.join(REPO, "src/c/defs.h.in")).read()
    except OSError: txt = '#define IOT_VERSION "${IOT_VERSION}"\n#cmakedefine IOT_HAS_XML\n#cmakedefine IOT_HAS_YAML\n#cmakedefine IOT_HAS_CBOR\n'
    try: ver = open(os.path.join(REPO, "VERSION")).read().strip()
    except OSError: ver = "0.0.0"
    txt = txt.replace("${IOT_VERSION}", ver)
    txt = re.sub(r"#cmakedefine\s+(\w+)", r"#define \1", txt)
    p = os.path.join(d, "defs.h")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p + ".tmp", "w").write(txt); os.replace(p + ".tmp", p)

def lib_sources():
    return [f for f in sorted(glob.glob(os.path.join(REPO, "src/c/*.c"))) if os.path.basename(f) not in ("os.c",)]

def repo_headers():
    return glob.glob(os.path.join(REPO, "src/c/*.h")) + glob.glob(os.path.join(REPO, "include/iot/**/*.h"), recursive=True) + glob.glob(os.path.join(BUILD, "gen/iot/*.h"))

def compile_one(args):
    cmd, obj = args
    r = sh(cmd + " -o " + obj + ".tmp%d" % os.getpid())
    if r.returncode: return (cmd, r.stdout)
    os.replace(obj + ".tmp%d" % os.getpid(), obj)
    return None

def compile_all(jobs):
    if not jobs: return
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "8"))) as ex:
        for r in ex.map(compile_one, jobs):
            if r: raise BuildError("compilation failed: %s\n%s" % r)

def build(targets):
    """targets: list of dicts(src, variant, extra). Returns list of binary paths."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        gen_defs()
        inc = "-I%s -I%s/include -I%s/src/c -I%s" % (os.path.join(BUILD, "gen"), REPO, REPO, H)
        rh = files_digest(repo_headers())
        hh = files_digest(glob.glob(os.path.join(H, "*.h")))
        jobs, links, seen = [], [], set()
        for t in targets:
            cf, xf = VARIANTS[t["variant"]]
            d = os.path.join(BUILD, t["variant"]); os.makedirs(d, exist_ok=True)
            objs = []
            for s in lib_sources():
                o = os.path.join(d, "lib-%s-%s.o" % (os.path.basename(s)[:-2], digest(cf, rh, hh if "-include" in cf else "", open(s, "rb").read())))
                objs.append(o)
                if o not in seen and not os.path.exists(o): jobs.append(("clang -c %s %s %s" % (cf, inc, s), o))
                seen.add(o)
            for s in [t["src"], "pbt.cpp"] + t.get("extra", []) + (["vsched.cpp"] if t["variant"].startswith("sch") else []) + (["vio.cpp"] if t["variant"].startswith("io") else []):
                p = os.path.join(H, s)
                if s.endswith(".c"): fl, cc = (CXX.replace("-std=gnu++17", "-std=gnu11") + " " + xf), "clang"
                else: fl, cc = (CXX + " " + xf), "clang++"
                o = os.path.join(d, "h-%s-%s.o" % (s.split(".")[0], digest(fl, rh, hh, open(p, "rb").read())))
                objs.append(o)
                if o not in seen and not os.path.exists(o): jobs.append(("%s -c %s %s %s" % (cc, fl, inc, p), o))
                seen.add(o)
            b = os.path.join(d, "bin-%s-%s" % (t["src"].split(".")[0], digest(t.get("wrap", ""), open(os.path.join(H, t["so"]), "rb").read() if t.get("so") else "", *objs)))
            links.append((b, objs, t))
        compile_all(jobs)
        lj = []
        for b, objs, t in links:
            if not os.path.exists(b) and b not in [x[1] for x in lj]:
                san = SAN.replace("address", "fuzzer,address") if t["variant"] == "fuzz" else SAN
                lj.append(("clang++ %s -pthread -rdynamic %s %s -lyaml -ldl -lm" % (san, " ".join(objs), WRAP if t["variant"].startswith("io") else " ".join("-Wl,--wrap=" + f for f in t.get("wrap", "").split())), b))
            for k in range(t.get("so_copies", 2) if t.get("so") else 0):      # libraries the code under test loads, beside the binary
                so = "%s.so%d" % (b, k); seen.add(so); src = os.path.join(H, t["so"])
                if not os.path.exists(so): lj.append(("clang -shared -fPIC -O1 -g -w -DCOPY=%d %s %s" % (k, inc, src), so))
        compile_all(lj)
        # drop objects and binaries of older trees so that the directory stays small
        keep = set(seen) | set(b for b, _, _ in links)
        now = time.time()
        for v in set(t["variant"] for t in targets):
            fs = [os.path.join(BUILD, v, f) for f in os.listdir(os.path.join(BUILD, v))]
            if len(fs) > 400:
                for f in fs:
                    if f not in keep and now - os.path.getmtime(f) > 3600: os.unlink(f)
        return [b for b, _, _ in links]
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN); lock.close()

def env():
    e = dict(os.environ); e.update(SAN_ENV); e["LANG"] = "C.UTF-8"; e["LC_ALL"] = "C.UTF-8"; e["TZ"] = "UTC"
    return e

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    what = sys.argv[1]
    args = sys.argv[2:]
    def opt(n, dflt=None):
        return args[args.index(n) + 1] if n in args else dflt
    if what == "setup":
        ts, seen = [], set()
        for p in CHECKS.values():
            for t in p:
                k = (t["src"], t["variant"])
                if k not in seen and not t.get("thorough_only"): seen.add(k); ts.append(t)
        try: build(ts)
        except BuildError as e: print(e); return 2
        print("built %d harness binaries" % len(ts)); return 0
    prop = what
    tier = "thorough" if ("thorough" in args or os.environ.get("VERIF_TIER") == "thorough") and "quick" not in args else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    parts = [t for t in CHECKS[prop] if not (tier == "quick" and t.get("thorough_only"))]
    if opt("--variant"): parts = [t for t in parts if t["variant"] == opt("--variant")]
    t0 = time.time()
    replay = opt("--replay")
    if replay:
        m = re.search(r"^variant (\S+)$", open(replay).read(), re.M)
        tm = re.search(r"^source (\S+)$", open(replay).read(), re.M)
        parts = [t for t in CHECKS[prop] if m and t["variant"] == m.group(1) or not m] or parts
    try: bins = build(parts)
    except BuildError as e:
        print("CHECK ERROR: the harness does not build against this tree"); print(str(e)[-6000:]); return 2
    if replay:
        rc = 2
        for t, b in zip(parts, bins):
            e = env(); e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("symbolize=0", "symbolize=1")
            if re.search(r"^kind process$", open(replay).read(), re.M):
                kv = dict(re.findall(r"^(seed|scale) (\S+)$", open(replay).read(), re.M))
                rc = subprocess.call([b, "--prop", prop, "--variant", t["variant"], "--seed", kv["seed"], "--scale", kv["scale"], "--scratch", "/tmp"], env=e)
                return 1 if rc in DIED else 0
            rc = subprocess.call([b, "--prop", prop, "--replay", replay, "--scratch", "/tmp"], env=e)
            if rc != 2: return rc
        return rc
    outdir = os.path.join(BUILD, "out"); os.makedirs(outdir, exist_ok=True)
    rdir = os.path.join(BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
    res = []
    for t, b in zip(parts, bins):
        of = os.path.join(outdir, "%s-%s-%d.json" % (prop, t["variant"], os.getpid()))
        if os.path.exists(of): os.unlink(of)
        if t["variant"] == "fuzz":
            res.append(run_fuzz(prop, t, b, build([y for y in CHECKS[prop] if y["variant"] == "dbg" and y["src"] == t["src"]])[0], seed, rdir))
            continue
        cmd = [b, "--prop", prop, "--variant", t["variant"], "--seed", str(seed), "--out", of, "--replay-dir", rdir,
               "--known", os.path.join(ROOT, "known_findings.txt"), "--workers", os.environ.get("VP_WORKERS", "8"), "--scratch", os.environ.get("TMPDIR", "/tmp")]
        if tier == "thorough": cmd.append("--thorough")
        sc = float(opt("--scale") or 1) * float(t.get("scale", 1))
        cmd += ["--scale", str(sc)]
        if opt("--only"): cmd += ["--only", opt("--only")]
        if opt("--from"): cmd += ["--from", opt("--from")]
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if not os.path.exists(of) or p.returncode not in (0, 1):
            # the process itself failed, outside of any case: while the library was being loaded or unloaded
            q = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode in DIED and q.returncode == p.returncode:
                rf = os.path.join(rdir, "%s-%s-process.replay" % (prop, t["variant"]))
                open(rf, "w").write("pbt-replay 1\nproperty %s\nvariant %s\nkind process\nseed %d\nscale %s\n--- output\n%s\n" % (prop, t["variant"], seed, sc, q.stdout[-4000:]))
                m = re.search(r"Assertion `.*|ERROR: AddressSanitizer.*|runtime error:.*", q.stdout)
                res.append(dict(variant=t["variant"], src=t["src"], evaluations=0, nontrivial=0, distinct_nontrivial=0, choices_drawn=0, probes=0, wall_s=0, rule="", labels={}, targets={}, samples=[], known=[], unreproduced=[],
                                failures=[dict(target="process", msg="the process fails outside of any case, status %d: %s" % (q.returncode, m.group(0) if m else q.stdout[-300:]), replay=rf, trace="")]))
                continue
            if not os.path.exists(of): print("CHECK ERROR: %s ended with %s" % (b, p.returncode)); print(p.stdout[-4000:]); return 2
        r = json.load(open(of)); os.unlink(of); r["src"] = t["src"]; res.append(r)
        if r["failures"] and time.time() - t0 > 60: break      # decided, and slow
    return report(prop, tier, seed, res, t0)

def run_fuzz(prop, t, b, dbg, seed, rdir):
    """coverage-guided search (libFuzzer) over the choice streams of the same targets. A failing stream is handed to the
    plain binary, which has to fail on it too, shrinks it and writes the replay file."""
    secs = float(t.get("seconds", 60))
    work = os.path.join(os.environ.get("TMPDIR", "/tmp"), "vp-fuzz-%s-%d" % (prop, os.getpid())); os.makedirs(work, exist_ok=True)
    failures, evals, samples, unre, tg, t0 = [], 0, [], [], {}, time.time()
    try:
        for tgt in t["targets"]:
            corpus = os.path.join(work, "corpus-" + tgt); os.makedirs(corpus, exist_ok=True)
            ps = []
            for w in range(8):      # eight searches that share one corpus directory
                e = env(); e["PBT_TARGET"] = tgt; e["PBT_SCRATCH"] = work
                cmd = [b, corpus, "-seed=%d" % (seed * 7919 + w + 1), "-max_total_time=%d" % secs, "-artifact_prefix=%s/crash-%s-%d-" % (work, tgt, w), "-max_len=6000", "-len_control=50", "-reload=5", "-print_final_stats=1", "-rss_limit_mb=3500", "-timeout=60", "-detect_leaks=0"]
                lf = open(os.path.join(work, "log%d" % w), "w"); ps.append(subprocess.Popen(cmd, env=e, stdout=lf, stderr=subprocess.STDOUT, cwd=work))
            n = 0
            for w, p in enumerate(ps):
                p.wait(); o = open(os.path.join(work, "log%d" % w), errors="replace").read()
                m = re.findall(r"stat::number_of_executed_units:\s+(\d+)", o) or re.findall(r"^#(\d+)", o, re.M)
                n += int(m[-1]) if m else 0
            evals += n; tg[tgt] = dict(cases=n)
            for c in sorted(glob.glob("%s/crash-%s-*" % (work, tgt)))[:3]:
                if "-oom-" in c: continue
                e = env(); e["PBT_TARGET"] = tgt; e["PBT_SCRATCH"] = work; e["PBT_SLOT"] = work + "/slot"
                subprocess.run([b, c, "-timeout=60"], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work)
                rf = os.path.join(rdir, "%s-dbg-%s-fuzz.replay" % (prop, tgt))
                q = subprocess.run([dbg, "--prop", prop, "--variant", "dbg", "--from-slot", work + "/slot", "--only", tgt, "--out", rf, "--scratch", work], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if q.returncode == 1:
                    l = q.stdout.split("\n"); failures.append(dict(target=tgt + " (libFuzzer)", msg=l[0], replay=rf, trace="\n".join(l[1:]))); break
                unre.append("%s: libFuzzer input does not fail in the plain binary" % tgt)
            samples.append("[%s] libFuzzer: %d inputs run, corpus of %d inputs with new coverage" % (tgt, n, len(os.listdir(corpus))))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return dict(variant="fuzz", src=t["src"], evaluations=evals, nontrivial=0, distinct_nontrivial=0, choices_drawn=0, probes=0, wall_s=round(time.time() - t0, 2), rule="", labels={}, targets=tg, samples=samples, known=[], unreproduced=unre, failures=failures)

def report(prop, tier, seed, res, t0):
    known = json.load(open(os.path.join(ROOT, "tools", "notes.json"))) if os.path.exists(os.path.join(ROOT, "tools", "notes.json")) else {}
    man = {c["property"]: c for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]}
    fails = [f for r in res for f in r["failures"]]
    cov = dict(evaluations=sum(r["evaluations"] for r in res), distinct_nontrivial=sum(r["distinct_nontrivial"] for r in res),
               rule=next((r["rule"] for r in res if r["rule"]), "") , samples=[s for r in res for s in r["samples"]][:8],
               choices_drawn=sum(r["choices_drawn"] for r in res),
               parts=[dict(source=r["src"], variant=r["variant"], evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"], probes=r["probes"], targets=r["targets"], classes=r["labels"], wall_s=r["wall_s"]) for r in res],
               known_findings=sorted(set(k for r in res for k in r["known"])), unreproduced=[u for r in res for u in r["unreproduced"]])
    ev = dict(property=prop, tier=tier, seed=seed, level=man.get(prop, {}).get("level", "exploration"), coverage=cov,
              assumptions=["harness reference models and sanitizers are trusted", "library compiled from /repo's working tree with clang in variants: " + ", ".join(sorted(set(r["variant"] for r in res)))],
              wall_s=round(time.time() - t0, 2), violations=len(fails))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ep = os.path.join(ROOT, "evidence", prop + ".json")
    open(ep + ".tmp", "w").write(json.dumps(ev, indent=1)); os.replace(ep + ".tmp", ep)
    for k in cov["known_findings"]: print("KNOWN-FINDING: property=%s %s" % (prop, k.replace("\n", " ")))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs" % (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    for r in res:
        for u in r["unreproduced"]: print("  note: not reproduced on replay, not reported: " + u[:300])
    if fails:
        for f in fails:
            print("  %s: %s" % (f["target"], f["msg"][:1500]))
            if f["trace"]: print("   | " + f["trace"][:3000].replace("\n", "\n   | "))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(fails[0]["replay"], ROOT)))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current source.

usage: check.py <PROPERTY> quick|thorough
       check.py --replay FILE
"""
import sys, os, json, hashlib, subprocess, shutil, time, re, tempfile, glob, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(VERIF, "build"))
EVID = os.environ.get("SX_EVID", os.path.join(VERIF, "evidence"))
SRC = os.path.join(REPO, "src")
NCPU = os.cpu_count() or 4
SXFLAGS = ("-O1 -std=c++14 -DPARTIO_USE_ZLIB -DSX -D_GLIBCXX_EXTERN_TEMPLATE=0 -isystem %s/shim -I%s/src/lib -fno-vectorize "
           "-fno-slp-vectorize -fno-pic -fno-pie -gline-tables-only -emit-llvm -Wno-everything" % (VERIF, REPO)).split()
NATFLAGS = ("-O1 -g -std=c++14 -DPARTIO_USE_ZLIB -I%s/src/lib -fsanitize=address -fno-omit-frame-pointer -w" % REPO).split()


PYINC = "/usr/include/python3.12"
THREADED = {"thr"}  # harnesses with threads
PYTHON = {"pj"}  # harnesses for Python code: engine/pysym.py executes it
WRAPPED = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_spin_lock", "pthread_spin_unlock", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]


class BuildError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def filehash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        for f in fs:
            if any(f.endswith(e) for e in exts):
                out.append(os.path.join(r, f))
    return out


def run_cc(cmd):
    r = sh(cmd)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stderr.decode(errors="replace")[-4000:])


def build_engine():
    r = sh(["bash", os.path.join(VERIF, "engine/build.sh"), BUILD], timeout=1200)
    if r.returncode:
        raise BuildError("engine: " + r.stderr.decode()[-3000:])
    return os.path.join(BUILD, "symex")


def lib_sources():
    return sorted(glob.glob(os.path.join(SRC, "lib", "*.cpp")) + glob.glob(os.path.join(SRC, "lib", "*", "*.cpp")))


def build_all(harnesses, extra_native=()):
    """bitcode and native program for each harness, from the current source"""
    ex = ThreadPoolExecutor(NCPU)
    srchash = filehash(tree(SRC, (".cpp", ".h", ".hpp", ".c", ".txt", ".i")), "v2")
    shimhash = filehash(tree(os.path.join(VERIF, "shim"), ("",)), "v2")
    libdir = os.path.join(BUILD, "lib-" + hashlib.sha256((srchash + shimhash).encode()).hexdigest()[:16])
    hdir = os.path.join(VERIF, "harness")
    hhash = filehash([os.path.join(hdir, f) for f in os.listdir(hdir) if f.endswith((".h", ".cpp", ".py"))], srchash + shimhash)
    outdir = os.path.join(BUILD, "h-" + hhash[:16])
    # drop builds of other source states, keeping the disk small
    for d in glob.glob(os.path.join(BUILD, "lib-*")) + glob.glob(os.path.join(BUILD, "h-*")):
        if d not in (libdir, outdir) and time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)
    os.makedirs(libdir, exist_ok=True); os.makedirs(outdir, exist_ok=True)
    rtdir = os.path.join(BUILD, "rt-" + shimhash); os.makedirs(rtdir, exist_ok=True)

    jobs = []

    def make(out, cmd):
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            run_cc([c if c != "@OUT@" else tmp for c in cmd])
            os.replace(tmp, out)

    rtbc = []
    for f in ("runtime.cpp", "runtime_zlib.cpp"):
        o = os.path.join(rtdir, f + ".bc"); rtbc.append(o)
        jobs.append(ex.submit(make, o, ["clang++-18"] + [x for x in SXFLAGS if x != "-DSX"] + ["-fno-builtin", "-c", os.path.join(VERIF, "shim", f), "-o", "@OUT@"]))
    libbc, libo = [], []
    for s in lib_sources():
        n = os.path.relpath(s, SRC).replace("/", "_")
        b = os.path.join(libdir, n + ".bc"); o = os.path.join(libdir, n + ".o")
        libbc.append(b); libo.append(o)
        jobs.append(ex.submit(make, b, ["clang++-18"] + SXFLAGS + ["-c", s, "-o", "@OUT@"]))
        jobs.append(ex.submit(make, o, ["clang++-18"] + NATFLAGS + ["-c", s, "-o", "@OUT@"]))
    # programs with threads also get a scheduler and a build under the thread sanitizer
    threaded = [h for h in harnesses if h in THREADED]
    tsan = [f if f != "-fsanitize=address" else "-fsanitize=thread" for f in NATFLAGS]
    nso = os.path.join(outdir, "natsched.o"); libto = []
    if threaded:
        jobs.append(ex.submit(make, nso, ["clang++-18", "-O1", "-g", "-w", "-c", os.path.join(hdir, "natsched.cpp"), "-o", "@OUT@"]))
        for s in lib_sources() + [os.path.join(hdir, "native.cpp")] + [os.path.join(hdir, h + ".cpp") for h in threaded]:
            inlib = s.startswith(SRC)
            o = os.path.join(libdir, os.path.relpath(s, SRC).replace("/", "_") + ".tso") if inlib else os.path.join(outdir, os.path.basename(s) + ".tso")
            if inlib:
                libto.append(o)
            jobs.append(ex.submit(make, o, ["clang++-18"] + tsan + ["-c", s, "-o", "@OUT@"]))
    pys = [h for h in harnesses if h in PYTHON]
    harnesses = [h for h in harnesses if h not in PYTHON]
    pico = []
    if pys:  # the real module, to replay in
        for s in lib_sources():
            o = os.path.join(libdir, os.path.relpath(s, SRC).replace("/", "_") + ".pic.o"); pico.append(o)
            jobs.append(ex.submit(make, o, ["clang++-18", "-O1", "-std=c++14", "-fPIC", "-DPARTIO_USE_ZLIB", "-I%s/lib" % SRC, "-w", "-c", s, "-o", "@OUT@"]))
    nato = os.path.join(outdir, "native.o")
    jobs.append(ex.submit(make, nato, ["clang++-18"] + NATFLAGS + ["-c", os.path.join(hdir, "native.cpp"), "-o", "@OUT@"]))
    mainbc = os.path.join(outdir, "sxmain.bc")
    jobs.append(ex.submit(make, mainbc, ["clang++-18"] + SXFLAGS + ["-c", os.path.join(hdir, "sxmain.cpp"), "-o", "@OUT@"]))
    pyout = os.path.join(libdir, "py")
    if "py" in harnesses or pys:  # the bindings' wrapper, generated from src/py/partio.i
        if not os.path.exists(os.path.join(pyout, "partio.py")):
            tmp = pyout + ".tmp%d" % os.getpid(); os.makedirs(tmp)
            run_cc(["swig", "-c++", "-python", "-includeall", "-I" + os.path.join(SRC, "lib"), "-outdir", tmp, "-o", os.path.join(tmp, "partio_wrap.cxx"), os.path.join(SRC, "py", "partio.i")])
            try:
                os.replace(tmp, pyout)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
    for h in harnesses:
        s = os.path.join(hdir, h + ".cpp")
        if h == "py":
            more = ["-I" + pyout, "-I" + hdir, "-I" + PYINC, '-DPYOUT="%s"' % pyout]
            jobs.append(ex.submit(make, os.path.join(outdir, h + ".hbc"), ["clang++-18"] + SXFLAGS + more + ["-c", s, "-o", "@OUT@"]))
            jobs.append(ex.submit(make, os.path.join(outdir, h + ".o"), ["clang++-18"] + NATFLAGS + more + ["-c", s, "-o", "@OUT@"]))
            continue
        jobs.append(ex.submit(make, os.path.join(outdir, h + ".hbc"), ["clang++-18"] + SXFLAGS + ["-c", s, "-o", "@OUT@"]))
        jobs.append(ex.submit(make, os.path.join(outdir, h + ".o"), ["clang++-18"] + NATFLAGS + ["-c", s, "-o", "@OUT@"]))
    for j in jobs:
        j.result()
    jobs = []
    if pys:
        mod = os.path.join(libdir, "pymod"); os.makedirs(mod, exist_ok=True)
        make(os.path.join(mod, "partio.py"), ["cp", os.path.join(pyout, "partio.py"), "@OUT@"])
        make(os.path.join(mod, "_partio.so"), ["clang++-18", "-O1", "-std=c++14", "-fPIC", "-shared", "-w", "-DPARTIO_USE_ZLIB", "-I%s/lib" % SRC, "-I" + PYINC, os.path.join(pyout, "partio_wrap.cxx")] + pico + ["-lz", "-lpthread", "-o", "@OUT@"])
        for h in pys:
            with open(os.path.join(outdir, h + ".exe"), "w") as f:
                f.write("#!/bin/sh\nexec /usr/bin/python3 -B %s --native %s %s \"$@\"\n" % (os.path.join(hdir, h + ".py"), SRC, mod))
            os.chmod(os.path.join(outdir, h + ".exe"), 0o755)
    alllib = os.path.join(libdir, "all.lbc")
    make(alllib, ["llvm-link-18"] + libbc + ["-o", "@OUT@"])
    for h in harnesses:
        jobs.append(ex.submit(make, os.path.join(outdir, h + ".bc"), ["llvm-link-18", os.path.join(outdir, h + ".hbc"), mainbc, alllib] + rtbc + ["-o", "@OUT@"]))
        wrap = ["-Wl,--wrap=" + w for w in WRAPPED] if h in threaded else []
        jobs.append(ex.submit(make, os.path.join(outdir, h + ".exe"), ["clang++-18", "-fsanitize=address", os.path.join(outdir, h + ".o"), nato] + ([nso] if h in threaded else []) + libo + ["-lz", "-lpthread"] + (["-lpython3.12"] if h == "py" else []) + wrap + ["-o", "@OUT@"]))
        if h in threaded:
            jobs.append(ex.submit(make, os.path.join(outdir, h + ".tsan"), ["clang++-18", "-fsanitize=thread", os.path.join(outdir, h + ".cpp.tso"), os.path.join(outdir, "native.cpp.tso"), nso] + libto + ["-lz", "-lpthread"] + wrap + ["-o", "@OUT@"]))
    for j in jobs:
        j.result()
    ex.shutdown()
    return outdir


def cfgname(c):
    return ",".join("%s=%s" % (k, v) for k, v in sorted(c.items()))


def native_run(exe, cfg, inputs, fill, timeout=20):
    """returns (verdict, text); verdict in ok, assume, fail"""
    d = tempfile.mkdtemp(prefix="sxnat")
    try:
        vf = os.path.join(d, "vec.txt")
        with open(vf, "w") as f:
            for n, v in inputs:
                f.write("%s %d\n" % (n, v))
        sd = os.path.join(d, "s"); os.mkdir(sd)
        env = dict(os.environ)
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_container_overflow=0:max_malloc_fill_size=65536:malloc_fill_byte=%d:alloc_dealloc_mismatch=1:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=16" % fill
        try:
            r = subprocess.run([exe, vf, sd] + ["%s=%s" % kv for kv in sorted(cfg.items())], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=sd)
        except subprocess.TimeoutExpired:
            return "fail", "does not terminate within %d s" % timeout
        err = r.stderr.decode(errors="replace")
        if r.returncode == 0 and "HARNESS-DONE" in err:
            return "ok", err[-500:]
        if r.returncode == 11:
            return "assume", err[-500:]
        m = re.search(r"CHECK-FAILED.*", err) or re.search(r"ERROR: AddressSanitizer.*", err) or re.search(r"WARNING: ThreadSanitizer.*", err) or re.search(r".*Assertion.*", err) or re.search(r"terminate called.*", err)
        return "fail", "exit status %s: %s" % (r.returncode, m.group(0) if m else err[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def symex(engine, outdir, job, tier, seed):
    h, cfg = job["h"], job.get("cfg", {})
    of = os.path.join(outdir, "out-%d-%s.json" % (os.getpid(), hashlib.sha256((h + cfgname(cfg)).encode()).hexdigest()[:12]))
    mt = job.get("time", 60)
    cmd = [engine, "--max-time", str(mt), "--solver-ms", str(job.get("solver_ms", 10000)), "--samples", str(job.get("samples", 4)), "--seed", str(seed), "--lib", SRC,
           "--max-steps", str(job.get("steps", 3000000)), "--out", of]
    for k, v in sorted(cfg.items()):
        cmd += ["--cfg", "%s=%s" % (k, v)]
    cmd.append(os.path.join(outdir, h + ".bc"))
    if h in PYTHON:
        cmd = ["python3-vt", "-B", os.path.join(VERIF, "harness", h + ".py"), "--sym", SRC, of, str(mt), str(job.get("solver_ms", 10000)), str(job.get("samples", 4)), str(seed)] + ["%s=%s" % kv for kv in sorted(cfg.items())]
    try:
        r = sh(cmd, timeout=mt * 3 + 60)
    except subprocess.TimeoutExpired:
        return None, "engine did not stop"
    if not os.path.exists(of):
        return None, "engine: exit %s %s" % (r.returncode, r.stderr.decode(errors="replace")[-1500:])
    with open(of) as f:
        d = json.load(f)
    os.unlink(of)
    return d, ""


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def matches(k, job, v, native):
    m = k["match"]
    if "harness" in m and m["harness"] != job["h"]:
        return False
    for kk, vv in m.get("cfg", {}).items():
        if str(job.get("cfg", {}).get(kk)) != str(vv):
            return False
    for f, src in (("msg", v["msg"]), ("where", " ".join([v["where"]] + v.get("trace", []))), ("native", native)):
        if f in m and not re.search(m[f], src):
            return False
    for n, val in m.get("inputs", {}).items():
        if dict((a, b) for a, b in v["inputs"]).get(n) != val:
            return False
    return True


def run_property(pid, tier, spec):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    engine = build_engine()
    jobs = [j for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    jobs = [dict(j, time=j.get("time_thorough", j.get("time", 60) * 6), **({"cfg": dict(j.get("cfg", {}), **j["cfg_thorough"])} if "cfg_thorough" in j else {})) if tier == "thorough" else j for j in jobs]
    hs = sorted({j["h"] for j in jobs})
    outdir = build_all(hs)
    tb = time.time() - t0
    ex = ThreadPoolExecutor(NCPU)
    res = list(ex.map(lambda j: symex(engine, outdir, j, tier, seed), jobs))
    known = load_known(pid)
    violations, unconfirmed, knownhits, notes = [], [], [], []
    replaydir = os.path.join(BUILD, "replay", pid)
    shutil.rmtree(replaydir, ignore_errors=True); os.makedirs(replaydir, exist_ok=True)
    errors = []

    def confirm(job, inputs, kind="", free=()):
        out = []
        if free and kind != "race":
            # the counterexample as it is, then with the inputs its path leaves open filled at random
            # (a model of zlib stands for data of every compressibility, the real one needs the data)
            v, t = confirm(job, inputs, kind)
            for k in range(2):
                if v == "fail":
                    break
                rnd, fs = random.Random(k), set(free)
                alt = [(n, rnd.getrandbits(64) if n in fs else x) for n, x in inputs]
                v2, t2 = native_run(os.path.join(outdir, job["h"] + ".exe"), job.get("cfg", {}), alt, 0xbe)
                if v2 == "fail":
                    inputs[:] = [list(x) for x in alt]
                    return v2, t2
            return v, t
        if kind == "race":
            return native_run(os.path.join(outdir, job["h"] + ".tsan"), job.get("cfg", {}), inputs, 0xbe)
        for fill in (0xbe, 0x01, 0x00):
            v, t = native_run(os.path.join(outdir, job["h"] + ".exe"), job.get("cfg", {}), inputs, fill)
            out.append((v, t))
            if v == "fail":
                return v, t
        return out[0]

    tasks = []
    for job, (d, err) in zip(jobs, res):
        if d is None:
            # an exploration that ran out of its time is incomplete; that all did is no answer
            (notes if err == "engine did not stop" and any(x for x, _ in res) else errors).append("%s[%s]: %s" % (job["h"], cfgname(job.get("cfg", {})), err)); continue
        for v in d["violations"]:
            tasks.append((job, v, ex.submit(confirm, job, v["inputs"], v["kind"], v.get("free", ()))))
        for s in d.get("samples", []):
            tasks.append((job, None, ex.submit(confirm, job, s), s))
        for c in job.get("covers", []):
            if not d["covers"].get(c):
                # the path to this point was not explored: the run is partly vacuous
                (notes if not d["complete"] or d["violations"] else errors).append("%s[%s]: witness '%s' not reached" % (job["h"], cfgname(job.get("cfg", {})), c))
    nsamp = nsampok = 0
    for t in tasks:
        job, v = t[0], t[1]
        verdict, text = t[2].result()
        if v is None:
            nsamp += 1
            if verdict == "ok":
                nsampok += 1
                continue
            if verdict == "assume":
                notes.append("%s: a passing path's inputs diverge natively (assumption): %s" % (job["h"], text.strip()[-150:])); continue
            v = {"kind": "replay", "msg": "solver-chosen inputs of a passing path fail natively", "where": "", "trace": [], "inputs": t[3]}
        if verdict != "fail":
            unconfirmed.append({"harness": job["h"], "cfg": job.get("cfg", {}), "kind": v["kind"], "msg": v["msg"], "where": v["where"], "native": text.strip()[-200:]})
            continue
        k = next((k for k in known if matches(k, job, v, text)), None)
        if k:
            if k not in knownhits:
                knownhits.append(k)
            continue
        name = os.path.join(replaydir, "%s-%d.json" % (job["h"], len(violations)))
        with open(name, "w") as f:
            json.dump({"property": pid, "harness": job["h"], "cfg": job.get("cfg", {}), "kind": v["kind"], "msg": v["msg"], "where": v["where"], "trace": v.get("trace", []), "native": text, "inputs": v["inputs"]}, f, indent=1)
        violations.append({"harness": job["h"], "cfg": job.get("cfg", {}), "kind": v["kind"], "msg": v["msg"], "where": v["where"], "native": text, "replay": name})
    ex.shutdown()

    tot = lambda k: sum(d[k] for d, e in res if d)
    sol = lambda k: sum(d["solver"][k] for d, e in res if d)
    funcs = sorted({f for d, e in res if d for f in d["functions"]})
    if funcs:
        r = subprocess.run(["c++filt"], input="\n".join(funcs).encode(), stdout=subprocess.PIPE)
        funcs = [f[:160] for f in r.stdout.decode().split("\n") if f and not f.startswith("_GLOBAL")]
    inc = {}
    for d, e in res:
        if d:
            for k, n in d["incomplete_why"].items():
                inc[k] = inc.get(k, 0) + n
    complete = all(d and d["complete"] for d, e in res)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("states"), "transitions": tot("instructions"), "traces_validated_against_impl": nsampok, 
            "samples": [{"harness": j["h"], "cfg": j.get("cfg", {}), "inputs": dict((a, b) for a, b in d["samples"][0][:12])} for j, (d, e) in zip(jobs, res) if d and d.get("samples")][:5],
            "technique": spec.get("technique") or "symbolic execution of the LLVM IR compiled from the current source; branch feasibility, assertions and memory safety decided by Z3",
            "bounds": spec["bounds"], "outside": spec.get("outside", ""),
            "functions_encoded": funcs, "complete_within_bounds": complete,
            "paths": tot("paths"), "forks": tot("forks"), "symbolic_branches": tot("symbolic_branches"), "assertions": tot("checks"), "assertions_on_symbolic_values": tot("checks_symbolic"), "symbolic_comparisons_settled_by_term_rewriting": tot("comparisons_settled_by_rewriting"),
            "solver": {"queries": sol("queries"), "z3_calls": sol("z3_calls"), "sat": sol("sat"), "unsat": sol("unsat"), "unknown": sol("unknown"), "seconds": round(sol("seconds"), 3)},
            "incomplete": inc, "jobs": [{"harness": j["h"], "cfg": j.get("cfg", {}), "paths": d["paths"], "complete": d["complete"], "wall_s": round(d["wall_s"], 2), "covers": d["covers"], "solver_s": round(d["solver"]["seconds"], 2)} if d else {"harness": j["h"], "error": e} for j, (d, e) in zip(jobs, res)],
            "replayed_samples": nsamp, "unconfirmed_counterexamples": unconfirmed, "notes": notes, "build_s": round(tb, 1),
            "known_findings": [k["what"] for k in knownhits],
        },
        "assumptions": spec.get("assumptions", []) + ([] if spec.get("technique") else COMMON_ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if violations:
        ev["coverage"]["violations_found"] = [{k: v[k] for k in ("harness", "kind", "msg", "where", "native", "replay")} for v in violations]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in unconfirmed:
        print("note: counterexample not confirmed natively (not reported): %s[%s] %s %s at %s" % (u["harness"], cfgname(u["cfg"]), u["kind"], u["msg"], u["where"]))
    for n in notes:
        print("note: " + n)
    for k in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d paths, %d symbolic branches, %d symbolic comparisons settled by term rewriting, %d assertions, %d solver queries (%.1f s), %d/%d samples replayed, %s, %.1f s" % (
        pid, tier, tot("paths"), tot("symbolic_branches"), tot("comparisons_settled_by_rewriting"), tot("checks"), sol("queries"), sol("seconds"), nsampok, nsamp, "complete" if complete else "incomplete: %s" % inc, time.time() - t0))
    seen = {}
    for v in violations:
        k = (v["msg"], v["where"])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] == 1 and len(seen) <= 12:
            print("  %s[%s] %s: %s at %s -- %s" % (v["harness"], cfgname(v["cfg"]), v["kind"], v["msg"], v["where"], v["native"].strip()[:200]))
    if len(violations) > 1:
        print("  (%d violations)" % len(violations))
    for v in violations[:1]:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    if violations:
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 3
    return 0


COMMON_ASSUMPTIONS = [
    "C++ streams, files, libstdc++'s non-header parts and zlib are replaced by the models in shim/ (semantics in DESIGN.md); counterexamples and samples are replayed against the real ones",
    "heap addresses are concrete and distinct; allocation never fails; symbolic allocation sizes above 256 MB are outside the exploration",
    "clang -O1 IR of the sources with PARTIO_USE_ZLIB and asserts enabled; x86-64 little endian",
]


def replay(path):
    d = json.load(open(path))
    outdir = build_all([d["harness"]])
    bad = 0
    for fill in (0xbe, 0x01, 0x00):
        v, t = native_run(os.path.join(outdir, d["harness"] + (".tsan" if d["kind"] == "race" else ".exe")), d["cfg"], d["inputs"], fill)
        print(v, t)
        bad |= v == "fail"
    return 1 if bad else 0


def main(argv):
    sys.path.insert(0, VERIF)
    if len(argv) == 2 and argv[0] == "--replay":
        return replay(argv[1])
    import specs
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    try:
        return run_property(pid, tier, specs.SPECS[pid])
    except BuildError as e:
        print("BUILD-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

#!/usr/bin/env python3
"""Looks for gaps: changes single places of the library in scratch copies and runs the checks of the
properties anchored there.  Changes no check catches are listed for a person to judge (many change
no behaviour).

usage: mutate.py N SEED [FILE-SUBSTRING...]
"""
import os, re, sys, json, random, shutil, subprocess, hashlib, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("SX_REPO", "/repo")
W = os.environ.get("MUT_DIR", "/tmp/mut")
CHECKS = {
    "KdTree.h": "P09 P10 P13", "ParticleSimple.cpp": "P01 P03 P04 P05 P06 P12 P09 P10 P07", "ParticleSimple.h": "P01 P04 P05 P12 P06", "ParticleSimpleInterleave.cpp": "P02 P03 P04 P05 P06 P12",
    "Particle.cpp": "P08 P07 P13 P04 P43 P12", "ParticleCaching.cpp": "P11 P43 P12", "ParticleHeaders.cpp": "P30 P31 P03 P12 P04", "PartioIterator.h": "P05 P06", "IndexedStrs.h": "P07 P20 P08 P30",
    "BGEO.cpp": "P20 P33 P31 P30 P39 P44 P28", "BIN.cpp": "P23 P33 P31 P30 P39 P44", "GEO.cpp": "P26 P38 P31 P30 P39 P44", "MC.cpp": "P36 P31 P30 P39", "PDA.cpp": "P27 P38 P31 P30 P39 P44", "PDB.cpp": "P21 P33 P31 P30 P39 P44 P28", "pdb.h": "P21 P33 P39",
    "PDC.cpp": "P24 P33 P31 P30 P39 P44", "PRT.cpp": "P22 P34 P33 P31 P30 P39 P44", "PTC.cpp": "P25 P33 P31 P30 P39 P44", "PTS.cpp": "P35 P38 P31 P30 P39", "ParticleIO.cpp": "P32 P28 P31 P40 P30 P43", "PartioEndian.h": "P20 P25 P22 P33", "RIB.cpp": "P37 P38 P44",
    "ZIP.cpp": "P28 P29 P39 P31", "ZIP.h": "P29 P28", "partinfo.cpp": "P45", "partattr.cpp": "P45", "partconvert.cpp": "P40", "partjson.py": "P41", "partio.i": "P42"}
PAIRS = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"), ("continue;", "break;"), ("break;", ""), ("+=", "="), ("+1", ""), ("-1", ""), ("INT", "FLOAT"), ("VECTOR", "FLOAT"), ("FLOAT", "INT"), ("max(", "min("), ("min(", "max("), ("size_t", "int"), ("uint64_t", "unsigned int"), ("++", "--")]


def mutants(f, s):
    out = []
    lines = s.split("\n")
    depth, comment = 0, False
    for n, l in enumerate(lines):
        t = l.strip()
        if "/*" in t: comment = True
        if comment:
            if "*/" in t: comment = False
            continue
        inside = depth > 1 or (depth == 1 and l.startswith((" ", "\t")))
        depth += l.count("{") - l.count("}")
        if f.endswith(".py"): inside = l.startswith("    ")
        if not inside or not t or t.startswith(("//", "#", "assert", "template", "namespace", "using", "static_assert", "public:", "private:")) or "cerr" in t or "errorStream" in t: continue
        code = l.split("//")[0]
        def add(new, what):
            if new != l: out.append((n, new, what))
        for a, b in PAIRS:
            if a[0].isalpha():
                for m in re.finditer(r"\b%s" % re.escape(a) + (r"\b" if a[-1].isalpha() else ""), code): add(l[:m.start()] + b + l[m.end():], "%s -> %s" % (a, b))
            else:
                for m in re.finditer(re.escape(a), code):
                    if a in ("<=", ">=", "==") and (code[m.start() - 1:m.start()] in "<>=!" or code[m.end():m.end() + 1] in "=<>"): continue
                    if a == "+1" and not re.match(r"\+1\b(?!\.)", code[m.start():]) or a == "-1" and (not re.match(r"-1\b(?!\.)", code[m.start():]) or not re.search(r"[\w\)\]]$", code[:m.start()])): continue
                    add(l[:m.start()] + b + l[m.end():], "%s -> %s" % (a, b))
        if not re.search(r"template|<<|>>|_cast|vector|map<|iterator<|data<|Data<|Write<|read<|write<|unique_ptr|KdTree<|BBox<|\w+<\w+>", code):
            for m in re.finditer(r"(?<=[\w\)\]\s])<(?=[\w\(\s])", code): add(l[:m.start()] + "<=" + l[m.end():], "< -> <=")
            for m in re.finditer(r"(?<=[\w\)\]\s])(?<!-)>(?=[\w\(\s])", code): add(l[:m.start()] + ">=" + l[m.end():], "> -> >=")
        for m in re.finditer(r"(?<![\w.\"'\[])([0-9]+)\b(?![.\w\"'])", code):
            v = int(m.group(1)); add(l[:m.start()] + str(v + 1) + l[m.end():], "%d -> %d" % (v, v + 1))
            if v: add(l[:m.start()] + str(v - 1) + l[m.end():], "%d -> %d" % (v, v - 1))
        for m in re.finditer(r"(?<=[\w\)\]])\*(?=[\w\(])", code): add(l[:m.start()] + "+" + l[m.end():], "* -> +")
        for m in re.finditer(r"(?<=[\w\)\]])\+(?=[\w\(])", code): add(l[:m.start()] + "-" + l[m.end():], "+ -> -")
        for m in re.finditer(r"!(?=[\w\(])", code): add(l[:m.start()] + l[m.end():], "! dropped")
        if re.match(r"^\s*(if\(.*\)\s*)?[\w\.\[\]\->:\*\(\)]+(\(.*\)|\s*[\+\-\*/|]?=.*|\+\+);\s*$", code) and not re.match(r"^\s*(return|delete|else|for|while)\b", code): add(re.match(r"\s*", l).group(0) + ";", "statement dropped")
        if re.match(r"^\s*if\s*\(.*\)\s*return\b.*;$", code): add(re.match(r"\s*", l).group(0) + ";", "early return dropped")
    return lines, out


def main():
    n, seed, only = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    rnd = random.Random(seed)
    files = []
    for r, ds, fs in os.walk(os.path.join(BASE, "src")):
        for f in fs:
            if f in CHECKS and (not only or any(o in f for o in only)): files.append(os.path.relpath(os.path.join(r, f), BASE))
    allm = []
    for f in sorted(files):
        s = open(os.path.join(BASE, f), newline="").read()
        lines, ms = mutants(f, s)
        rnd.shuffle(ms)
        seen = {}
        keep = []
        for m in ms:  # few per line
            if seen.setdefault(m[0], 0) < 2: seen[m[0]] += 1; keep.append(m)
        allm += [(f, m) for m in keep]
    rnd.shuffle(allm)
    os.makedirs(W, exist_ok=True)
    repo, build = os.path.join(W, "repo"), os.path.join(W, "build")
    env = dict(os.environ, SX_REPO=repo, SX_BUILD=build, SX_EVID=os.path.join(W, "ev"))
    shutil.rmtree(repo, ignore_errors=True); shutil.copytree(os.path.join(BASE, "src"), os.path.join(repo, "src"))
    def libdir():
        code = "import sys; sys.path.insert(0,%r); import runner; s=runner.filehash(runner.tree(runner.SRC, ('.cpp','.h','.hpp','.c','.txt','.i')),'v2'); import os,hashlib; h=runner.filehash(runner.tree(os.path.join(runner.VERIF,'shim'),('',)),'v2'); print(os.path.join(runner.BUILD,'lib-'+hashlib.sha256((s+h).encode()).hexdigest()[:16]))" % V
        return subprocess.run(["python3", "-c", code], env=env, stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    subprocess.run(["python3", os.path.join(V, "check.py"), "P03", "quick"], env=env, stdout=subprocess.DEVNULL)
    base = libdir()
    for k, (f, (ln, new, what)) in enumerate(allm[:n]):
        p = os.path.join(repo, f); s = open(os.path.join(BASE, f), newline="").read()
        lines = s.split("\n"); old = lines[ln]; lines[ln] = new + ("\r" if old.endswith("\r") and not new.endswith("\r") else "")
        open(p, "w", newline="").write("\n".join(lines))
        t = time.time(); verdict = "SURVIVES"
        d = libdir()
        if d != base:
            os.makedirs(d, exist_ok=True)
            if not f.endswith(".h"):
                tag = os.path.relpath(p, os.path.join(repo, "src")).replace("/", "_")
                for o in os.listdir(base):
                    if o.endswith((".bc", ".o", ".tso")) and not o.startswith(tag) and not os.path.exists(os.path.join(d, o)): os.link(os.path.join(base, o), os.path.join(d, o))
        for c in CHECKS[os.path.basename(f)].split():
            try:
                r = subprocess.run(["python3", os.path.join(V, "check.py"), c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            except subprocess.TimeoutExpired:
                verdict = "NO ANSWER from " + c; break
            o = r.stdout.decode(errors="replace")
            if "BUILD-ERROR" in o: verdict = "does not compile"; break
            if r.returncode == 1: verdict = "caught by " + c; break
            if r.returncode: verdict = "ERROR in " + c + " " + o[-200:].replace("\n", " | "); break
        open(p, "w", newline="").write(s)
        if d != base: shutil.rmtree(d, ignore_errors=True)
        for h in os.listdir(build):
            if h.startswith("h-") and time.time() - os.path.getmtime(os.path.join(build, h)) > 300: shutil.rmtree(os.path.join(build, h), ignore_errors=True)
        print("%d %s:%d %s [%s] %.0f s\n    - %s\n    + %s" % (k, f, ln + 1, verdict, what, time.time() - t, old.strip(), new.strip()), flush=True)


main()

"""Writes one planted bug: mkseed(id, property, edits, needs, breaks, demo C++).  Works on a scratch copy of /repo."""
import os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = r'''#include <Partio.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <unistd.h>
using namespace Partio;
typedef std::string S;
#define NEED(c) do { if (!(c)) { printf("DEMO FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(3); } } while (0)
typedef ParticlesDataMutable PD;
static ParticleAttribute at(const ParticlesInfo* p, const char* n) { ParticleAttribute a; NEED(p->attributeInfo(n, a)); return a; }
static FixedAttribute fat(const ParticlesInfo* p, const char* n) { FixedAttribute a; NEED(p->fixedAttributeInfo(n, a)); return a; }
static S slurp(const char* f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const char* f, const S& s) { std::ofstream o(f, std::ios::binary); o << s; }
'''
SH = r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -g -w %s -DPARTIO_USE_ZLIB -I/repo/src/lib "$D/demo.cpp" %s -o "$T/demo" || exit 9
cd "$T" && LD_LIBRARY_PATH=/repo/_build/src/lib timeout 120 ./demo
r=$?; [ $r = 0 ] || { echo "demo: exit $r"; exit 1; }
'''
LINK = "-L/repo/_build/src/lib -lpartio -lz -lpthread"
SRCS = "/repo/src/lib/core/*.cpp /repo/src/lib/io/*.cpp -lz -lpthread"  # built from source, for sanitizers
def mkseed(id, prop, edits, needs, breaks, demo, asan=False, tsan=False):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed-", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(w, "src", f); s = open(p, newline="").read()
        if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout
    # only lines of the original repository may change
    for f, old, new in edits:
        bl = subprocess.run("git -C /repo blame -s HEAD -- src/%s" % f, shell=True, stdout=subprocess.PIPE).stdout.decode(errors="replace").split("\n")
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    # removed lines that came from a fix commit
    import re
    for hunk in re.finditer(r"^--- a/(\S+)\n\+\+\+ .*\n((?:[@ +\-\\].*\n?)*)", diff.decode(errors="replace"), re.M):
        f = hunk.group(1); bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], stdout=subprocess.PIPE).stdout.decode(errors="replace").split("\n"); n = 0
        base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, stdout=subprocess.PIPE).stdout.decode()[:7]
        for l in hunk.group(2).split("\n"):
            m = re.match(r"@@ -(\d+)", l)
            if m: n = int(m.group(1)); continue
            if l.startswith("-"):
                if not bl[n - 1].lstrip("^").startswith(base): print("WARN %s: %s:%d is a fix line: %s" % (id, f, n, l))
                n += 1
            elif l.startswith(" "): n += 1
    shutil.rmtree(w)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.cpp"), "w").write(HEAD + demo)
    open(os.path.join(d, "demo.sh"), "w").write(SH % ("-O1 -fsanitize=address -fno-omit-frame-pointer" if asan else "-O1 -fsanitize=thread" if tsan else "-O1", SRCS if asan or tsan else LINK))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)

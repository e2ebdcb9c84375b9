#!/usr/bin/env python3
"""Confirms planted bugs and asks the checks about them, in a private copy of /repo
bind-mounted over /repo (unshare -rm), so the real tree is never touched.
usage: seedtest.py ID... [--checks P20,P30] [--noconfirm] [--thorough]"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **kw): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def inner(w, i, checks, confirm, tier):
    d = "%s/seeded/%s" % (V, i); out = []
    sh("mount --bind %s /repo" % w)
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
    demo = w + "-demo"; shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    if confirm:
        r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0, r.stdout.decode()[-500:]
        r = sh("cd /repo && timeout 300 bash %s/demo.sh" % demo)
        if r.returncode: return "BAD demo fails on the unchanged tree: " + r.stdout.decode()[-800:]
    r = sh("cd /repo && git apply %s/patch.diff" % d)
    if r.returncode: return "BAD patch does not apply " + r.stdout.decode()[-300:]
    if confirm:
        r = sh("bash /opt/vp/test.sh %s.json" % w)
        if not os.path.exists(w + ".json"): return "BAD build " + r.stdout.decode()[-800:]
        p = json.load(open(w + ".json")); passed = set(x if isinstance(x, str) else x["id"] for x in p["passed"])
        if not passed: return "BAD does not build: " + r.stdout.decode()[-800:]
        miss = stable - passed
        if miss: return "BAD stable tests fail: %s" % sorted(miss)[:5]
        r = sh("cd /repo && timeout 300 bash %s/demo.sh" % demo)
        if not r.returncode: return "BAD demo passes with the patch"
        out.append("demo: " + r.stdout.decode().strip().split("\n")[-1][:140])
    for c in checks:
        r = sh("cd %s && SX_EVID=%s-ev SX_BUILD=%s-b timeout 900 python3 check.py %s %s" % (V, w, w, c, tier)); t = r.stdout.decode()
        hit = "VIOLATION property=%s" % c in t
        out.append("%s: %s" % (c, "CAUGHT" if r.returncode == 1 and hit else "missed rc=%d" % r.returncode) + ("" if r.returncode == 1 and hit else "\n    " + "\n    ".join(t.strip().split("\n")[-4:])[:1200]))
        if hit: out.append("    " + next((l for l in t.split("\n") if " -- " in l), "")[:260])
    return "\n  ".join(out)
def main():
    a = sys.argv[1:]
    if a and a[0] == "--inner": print(inner(a[1], a[2], [c for c in a[3].split(",") if c], a[4] == "1", a[5])); return
    ids, checks, confirm, tier = [], None, True, "quick"
    while a:
        x = a.pop(0)
        if x == "--checks": checks = a.pop(0)
        elif x == "--noconfirm": confirm = False
        elif x == "--thorough": tier = "thorough"
        else: ids.append(x)
    if not ids: ids = sorted(os.listdir(V + "/seeded"))
    for i in ids:
        w = tempfile.mkdtemp(prefix="seed-", dir="/tmp"); subprocess.run(["cp", "-a", "/repo/.", w])
        if os.path.isdir(V + "/build"): subprocess.run("mkdir -p %s-b && cp -a %s/build/symex* %s/build/rt-* %s-b/" % (w, V, V, w), shell=True, stderr=subprocess.DEVNULL)
        c = checks if checks is not None else json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        r = subprocess.run(["unshare", "-rm", "python3", os.path.abspath(__file__), "--inner", w, i, c, "1" if confirm else "0", tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print("== %s: %s" % (i, r.stdout.decode().strip()), flush=True)
        for s in ("", "-b", "-demo", "-ev"): shutil.rmtree(w + s, ignore_errors=True)
        if os.path.exists(w + ".json"): os.unlink(w + ".json")
main()

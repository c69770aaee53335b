#!/usr/bin/env python3
"""Makes /verif/seeded/ID from tools/bugs/ID.py and tries it: tools/seed.py [--nocheck] ID...
A bug file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO (the text of demo.py)."""
import json, os, re, shutil, subprocess, sys, importlib.util, time
V = "/verif"
R = "/repo"
SRC = R + "/programs/dynamic-bonding-curve/src/"
TARGET = "/tmp/demo-target"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=R, env=dict(os.environ, DEMO_TARGET=TARGET))
    return r.returncode, (r.stdout + r.stderr).strip()[-400:]


def lay(name, b):
    d = V + "/seeded/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/h")
    for f in ["Cargo.toml", "Cargo.lock"]:
        shutil.copy(V + "/harness/" + f, d + "/h/" + f)
    for f in ["src", "stubs"]:
        shutil.copytree(V + "/harness/" + f, d + "/h/" + f, ignore=shutil.ignore_patterns("target"))
    for f in ["demo.sh", "play.py"]:
        shutil.copy(V + "/tools/seedlib/" + f, d + "/" + f)
    open(d + "/demo.py", "w").write("from play import *\n" + b.DEMO.strip() + "\n")
    json.dump({"property": b.PROPERTY, "needs": b.NEEDS, "what_it_breaks": b.BREAKS}, open(d + "/meta.json", "w"), indent=1)
    return d


def edit(edits):
    for f, old, new in edits:
        p = (SRC + f if not f.startswith("//") else R + f[1:])
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit("%s: %d places match: %s" % (f, t.count(old), old))
        open(p, "w").write(t.replace(old, new))


def undo():
    sh("git checkout -- .", cwd=R)


def one(name, check):
    spec = importlib.util.spec_from_file_location("b", "%s/tools/bugs/%s.py" % (V, name))
    b = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(b)
    assert sh("git status --porcelain", cwd=R).stdout == "", "repo not clean"
    d = lay(name, b)
    res = {}
    try:
        rc, out = demo(d)
        if rc != 0:
            return "demo fails on the unchanged tree: " + out
        edit(b.EDITS)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            return "does not build: " + (r.stdout + r.stderr)[-600:]
        sh("bash /opt/vp/test.sh /tmp/seed-test.json")
        t = json.load(open("/tmp/seed-test.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base.get("stable", base.get("passed", base)) if isinstance(base, dict) else base
        passed = set(t.get("passed", []))
        lost = [x for x in want if x not in passed]
        if lost:
            return "tests fail: %s" % lost[:4]
        rc, out = demo(d)
        if rc == 0:
            return "demo passes with the patch"
        res["demo"] = out.splitlines()[-1] if out else ""
        if not check:
            return "ok, unchecked; " + res["demo"]
        t0 = time.time()
        r = sh("./check.sh " + b.PROPERTY, cwd=V, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
        hit = "VIOLATION property=%s " % b.PROPERTY in r.stdout and r.returncode == 1
        lines = [l for l in r.stdout.splitlines() if l][-3:]
        return ("CAUGHT" if hit else "MISSED rc=%d" % r.returncode) + " %.0f s; demo: %s; %s" % (time.time() - t0, res["demo"], " / ".join(lines)[-300:])
    finally:
        undo()


args = [a for a in sys.argv[1:] if not a.startswith("-")]
if not args:
    args = sorted(f[:-3] for f in os.listdir(V + "/tools/bugs"))
for n in args:
    try:
        print(n, one(n, "--nocheck" not in sys.argv), flush=True)
    except SystemExit as e:
        print(n, "ERROR", e, flush=True)

#!/usr/bin/env python3
"""Does the state machine's checking see a wrong specification?  Each entry changes a copy of the specification and names
the invariant of spec/machine.qnt that has to fail.      tools/specmut.py [SAMPLES]"""
import os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = sys.argv[1] if len(sys.argv) > 1 else "60"
MUTANTS = [
    ("step.qnt", "{ ...p, partSurp: 1 } else", "p else", "single"),
    ("step.qnt", "pure def partnerSurplus(w: World): int = shared(w) - creatorSurplus(w)", "pure def partnerSurplus(w: World): int = shared(w)", "exactBooks"),
    ("step.qnt", "protSurp: if (surplusDue(w)) 1 else p.protSurp }", "protSurp: p.protSurp }", "exactBooks"),
]
bad = 0
for f, old, new, inv in MUTANTS:
    d = tempfile.mkdtemp()
    shutil.copytree(root + "/spec", d + "/spec")
    p = d + "/spec/" + f
    s = open(p).read()
    assert s.count(old) >= 1, old
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["quint", "run", d + "/spec/machine.qnt", "--main", "machine", "--backend", "typescript", "--step", "advance_", "--max-steps", "60",
                        "--max-samples", n, "--seed", "5", "--verbosity", "1", "--invariant", inv], capture_output=True, text=True, cwd=d)
    seen = r.returncode != 0 and "violat" in (r.stdout + r.stderr).lower()
    print("seen " if seen else "MISSED", inv, "|", new[:90], flush=True)
    if not seen:
        bad = 1
        print((r.stdout + r.stderr)[-300:])
    shutil.rmtree(d)
sys.exit(bad)

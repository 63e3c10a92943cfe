#!/usr/bin/env python3
"""mut.py FILE OLD NEW ID...: apply one textual replacement to a scratch copy of the package and run checks on it."""
import os, shutil, subprocess, sys, tempfile
f, old, new, ids = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/artist", d + "/artist", ignore=shutil.ignore_patterns("__pycache__"))
    p = f"{d}/artist/{f}"
    s = open(p).read()
    assert old in s, "pattern not found"
    open(p, "w").write(s.replace(old, new, 1))
    for i in ids:
        r = subprocess.run([sys.executable, "/verif/check.py", i], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE="/tmp/mutev"), capture_output=True, text=True)
        print(i, r.returncode, "\n".join(l[:260] for l in r.stdout.splitlines() if not l.startswith("VIOLATION"))[:900])
finally:
    shutil.rmtree(d)

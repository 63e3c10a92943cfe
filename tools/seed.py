"""Build and verify planted bugs: seed.py SPEC.py [ID…].  SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
Writes /verif/seeded/<id>/ after: patch applies, package imports, stable tests pass, demo passes without and fails with the patch."""
import json, os, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, HOME="/root", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = '#!/bin/bash\nexport OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nD=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python "$D/demo.py"\n'


def sh(cmd, cwd, env=None, t=1200):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def one(b):
    d = f"/tmp/seed_{b['id']}"
    subprocess.run(["rm", "-rf", d])
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    env = dict(ENV, PYTHONPATH=d)
    out = f"/tmp/seedout_{b['id']}"
    subprocess.run(["rm", "-rf", out])
    os.makedirs(out)
    try:
        open(out + "/demo.py", "w").write(b["demo"].lstrip())
        open(out + "/demo.sh", "w").write(SH)
        rc, o = sh(["bash", out + "/demo.sh"], d, env, 300)
        if rc:
            return b["id"], f"DEMO FAILS ON CLEAN {o[-600:]}"
        for f, old, new in b["edits"]:
            p = f"{d}/artist/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"EDIT count {s.count(old)} in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff", "--", "artist"], d)
        open(out + "/patch.diff", "w").write(diff)
        rc, o = sh([PY, "-c", "import artist,pkgutil,importlib\nassert artist.__path__[0].startswith('/tmp/seed_')\nfor m in pkgutil.walk_packages(artist.__path__,'artist.'): importlib.import_module(m.name)"], d, env)
        if rc:
            return b["id"], f"IMPORT {o[-400:]}"
        rc, o = sh(["bash", out + "/demo.sh"], d, env, 300)
        if rc == 0:
            return b["id"], "DEMO PASSES WITH PATCH"
        last = o.strip().splitlines()[-1][:150] if o.strip() else ""
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--tb=short", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={out}/j.xml"], d, env)
        sh(["python3", "/opt/vp/results.py", f"{out}/r.json", f"junit:{out}/j.xml"], d)
        passed = set(json.load(open(f"{out}/r.json"))["passed"])
        miss = sorted(STABLE - passed)
        if miss:
            return b["id"], f"TESTS FAIL {len(miss)}: {miss[:3]}"
        os.remove(f"{out}/j.xml"); os.remove(f"{out}/r.json")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        dst = f"/verif/seeded/{b['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return b["id"], f"OK ({last})"
    finally:
        subprocess.run(["rm", "-rf", d, out])


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, bugs):
            print(i, r, flush=True)

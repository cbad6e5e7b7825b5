"""Make and confirm planted bugs: mkseed.py DEFS.py [id ...] [--notest]
DEFS.py defines BUGS = [dict(id, property, edits=[(file, old, new)...], demo=<python text>, needs, breaks)].
A bug is written to seeded/<id>/ when its demo passes on the unchanged tree, fails with the
patch, and the stable tests pass with the patch (in a scratch copy)."""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\n# cwd: the repository. Exit 0 when the property holds.\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore MPLBACKEND=agg\nexec timeout 240 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell")


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests"):
        if k in b:
            return b[k]
    return b


def tests(d):
    base = [*"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=700 --continue-on-collection-errors --randomly-seed=1234 --randomly-dont-reorganize".split(),
            "-m", "not pbs and not metacentrum", "-o", "junit_family=xunit2"]
    par = ["test/test_correlated_field.py", "test/test_distribution.py", "test/test_moments.py"]
    a = subprocess.Popen(base + ["-n", "3", "--junitxml=par.xml", *par], cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    b = subprocess.Popen(base + ["-p", "no:xdist", "--junitxml=ser.xml", *["--ignore=" + p for p in par], "test"], cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    a.wait(), b.wait()
    ok, bad = [], []
    for x in ("par.xml", "ser.xml"):
        for tc in ET.parse(os.path.join(d, x)).getroot().iter("testcase"):
            f = [c.tag for c in tc]
            (bad if ("failure" in f or "error" in f) else ok).append(tc.get("classname") + "::" + tc.get("name")) if "skipped" not in f else None
    return ok, bad


def one(b, dotest):
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        subprocess.check_call("git -C " + os.environ.get("VERIF_REPO", "/repo") + " archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (d, d), shell=True)
        out = os.path.join(V, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        r = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=d, capture_output=True, text=True)
        if r.returncode != 0:
            return b["id"], "DEMO FAILS ON CLEAN: " + (r.stdout + r.stderr)[-600:]
        for f, old, new in b["edits"]:
            s = open(os.path.join(d, f), newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return b["id"], "EDIT MATCHES %d TIMES in %s: %s" % (s.count(old), f, old)
            open(os.path.join(d, f), "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=d)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        r = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=d, capture_output=True, text=True)
        if r.returncode == 0:
            return b["id"], "DEMO PASSES WITH PATCH"
        msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
        if not dotest:
            return b["id"], "ok (untested) demo: %s" % msg
        ok, bad = tests(d)
        return b["id"], "%s passed=%d failed=%s demo: %s" % ("OK" if len(ok) >= 39 and not set(bad) else "CHECK", len(ok), bad, msg)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sp = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    sel = [a for a in sys.argv[2:] if not a.startswith("-")]
    bugs = [b for b in m.BUGS if not sel or b["id"] in sel]
    with ThreadPoolExecutor(3 if "--notest" not in sys.argv else 8) as ex:
        for i, r in ex.map(lambda b: one(b, "--notest" not in sys.argv), bugs):
            print(i, r, flush=True)

"""Run the check of each planted bug against a scratch copy with the patch: runseeds.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = tempfile.mkdtemp(prefix="rs_", dir="/tmp")
    try:
        if subprocess.call("git -C " + os.environ.get("VERIF_REPO", "/repo") + " archive HEAD | tar x -C %s && cd %s && git init -q && git apply %s/seeded/%s/patch.diff" % (d, d, V, i), shell=True):
            return i, "DOES NOT APPLY"
        p = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        r = subprocess.run([V + "/bin/check", p], env=dict(os.environ, VERIF_REPO=d, VERIF_EVDIR=d), capture_output=True, text=True)
        l = [x.strip() for x in r.stdout.splitlines() if x.startswith("  ")]
        return i, "%s %s %s" % (p, {0: "MISSED", 1: "caught"}.get(r.returncode, "NO ANSWER " + r.stdout[-300:]), l[0][:120] if l else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
with ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(one, ids):
        print(i, r, flush=True)

#!/usr/bin/env python3
"""seed.py NAME: tries the planted bug /verif/seeded/NAME in scratch copies of /repo.

Shows: patch applies, builds, stable tests pass, demo passes without and fails with the patch,
and what the property's check says about it (unless --nocheck).
"""
import json, os, subprocess, sys, shutil, tempfile
name = sys.argv[1]
d = f"/verif/seeded/{name}"
env = dict(os.environ)
def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
w = tempfile.mkdtemp(prefix="seedrepo.", dir="/tmp")
r = w + "/repo"
try:
    sh(f"cp -a /repo {r}")
    demo = w + "/demo"
    shutil.copytree(d, demo)
    for f in os.listdir(demo):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(demo + "/" + f)
    rc, out = sh(f"bash {demo}/demo.sh", cwd=r)
    print("demo unchanged:", "ok" if rc == 0 else "BAD " + out[-1500:])
    rc, out = sh(f"git apply {d}/patch.diff", cwd=r)
    print("applies:", rc == 0, out)
    rc, out = sh(f". /opt/vp/env.sh; go build ./... ", cwd=r)
    print("builds:", rc == 0, out[-800:])
    rc, out = sh(f"bash {demo}/demo.sh", cwd=r)
    print("demo patched:", "fails, good" if rc != 0 else "BAD, passes", out[-300:].replace("\n", " | "))
    if "--notest" not in sys.argv:
        # the stable tests, run in the copy
        sh("cp /opt/vp/test.sh /tmp/seedtest.sh && sed -i 's#/repo#%s#g' /tmp/seedtest.sh" % r)
        for k in range(2):
            rc, out = sh(f"bash /tmp/seedtest.sh {w}/out.json", cwd=r)
            try:
                o = json.load(open(w + "/out.json"))
            except Exception as e:
                print("tests: no result", e, out[-500:]); break
            st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = set(o.get("passed", o.get("pass", [])))
            miss = [s for s in st if s not in passed]
            print("stable tests missing:", len(miss), miss[:3])
            if not miss: break
finally:
    subprocess.run(["rm", "-rf", w])
if "--nocheck" not in sys.argv:
    meta = json.load(open(d + "/meta.json"))
    ids = [a for a in sys.argv[2:] if a.startswith("C")] or [meta["property"]]
    w = tempfile.mkdtemp(prefix="seedrepo.", dir="/tmp")
    try:
        sh(f"cp -a /repo {w}/repo")
        rc, out = sh(f"git apply {d}/patch.diff", cwd=w + "/repo")
        for i in ids:
            rc, out = sh(f"VERIF_REPO={w}/repo VERIF_SEED=1 /verif/check.sh {i} quick")
            print("check", i, "rc", rc, "\n   ", "\n    ".join(l[:300] for l in out.splitlines() if l.startswith(("VIOL", "  [", i, "ERROR", "KNOWN")))[:1500])
    finally:
        subprocess.run(["rm", "-rf", w])

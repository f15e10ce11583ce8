#!/usr/bin/env python3
"""runseeds.py [ID...]: apply each planted bug to a scratch copy and run its property's quick check there; also the repo's tests."""
import sys, os, subprocess, shutil, json, tempfile
S = os.environ.get("SEED_OUT", "/verif/seeded"); HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sorted(sys.argv[1:] or os.listdir(S)):
    m = json.load(open("%s/%s/meta.json" % (S, i))); tmp = tempfile.mkdtemp(prefix="rs-", dir="/tmp")
    try:
        r = tmp + "/repo"; shutil.copytree(os.environ.get("SEED_REPO", "/repo"), r, symlinks=True)
        if subprocess.run(["git", "-C", r, "apply", "%s/%s/patch.diff" % (S, i)]).returncode: print(i, "PATCH DOES NOT APPLY"); continue
        p = subprocess.run(["python3", HERE + "/check.py", m["property"], "--tier", "quick", "--evidence-dir", tmp + "/ev"], env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        v = [l for l in p.stdout.decode().splitlines() if l.startswith("VIOLATION")]
        print("%-28s %s rc=%d %s" % (i, m["property"], p.returncode, v[0][:230] if v else "MISSED " + p.stderr.decode()[-200:]), flush=True)
    finally: shutil.rmtree(tmp, ignore_errors=True)

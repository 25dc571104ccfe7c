#!/usr/bin/env python3
"""Runs the check of each planted bug's property on a scratch copy carrying the bug.

  tryseeds.py [ids...]        [--also F22,F25]
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(VERIF, "seeded")
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
also = [a.split("=")[1].split(",") for a in sys.argv[1:] if a.startswith("--also=")]
for sid in ids or sorted(os.listdir(S)):
    meta = json.load(open(os.path.join(S, sid, "meta.json")))
    w = tempfile.mkdtemp(prefix="try_")
    try:
        rc = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", rc], check=True)
        if subprocess.run(["git", "-C", rc, "apply", os.path.join(S, sid, "patch.diff")]).returncode:
            print(sid, "DOES NOT APPLY"); continue
        for pid in [meta["property"]] + (also[0] if also else []):
            r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), pid, "--evidence-dir", os.path.join(w, "ev")],
                               env=dict(os.environ, FISX_REPO=rc, MC_NOCACHE="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors="replace").strip().split("\n")
            v = [l for l in out if l.startswith("VIOLATION")]
            print("%-34s %s %s exit %d, %d violation lines; %s" % (sid, pid, "caught" if v and r.returncode == 1 else "MISSED", r.returncode, len(v), out[-1][:150]), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)

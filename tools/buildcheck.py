#!/usr/bin/env python3
"""Development helper: builds one check's program and its data into a folder.  buildcheck.py F06 /tmp/w/f06"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run, registry, gen_data, shutil
pid, out = sys.argv[1:3]
shutil.rmtree(out, ignore_errors=True); os.makedirs(out + "/scratch"); os.makedirs(out + "/w")
run.build(registry.CHECKS[pid], out); gen_data.make(run.REPO, out + "/data")
print("FISX_MC_SCRATCH=%s/scratch FISX_MC_DATA=%s/data FISX_MC_REPO=%s %s/check --tier quick --dir %s/w --out %s/res.json" % (out, out, run.REPO, out, out, out))

"""Runner of F30: builds the Python extension from a copy of the working tree with the project's own
setup.py, and the C++ oracle from the same sources, then starts checks/F30.py in that Python."""
import glob, json, os, shutil, stat, subprocess, sys

PY = "/opt/fisx/venv/bin/python"

WRAPPER = """#!/bin/bash
# compiles in the background; linking waits for everything
D=%(dir)s
out=; c=
for a in "$@"; do
  [ "$prev" = -o ] && out="$a"
  [ "$a" = -c ] && c=1
  prev="$a"
done
if [ -n "$c" ]; then
  n=$(mktemp $D/jobXXXXXX)
  ( g++ "$@" -O1 -g0 -w >$n.log 2>&1; echo $? > $n.rc ) >/dev/null 2>&1 </dev/null &
  exit 0
fi
for n in $D/job??????; do
  for i in $(seq 6000); do [ -s $n.rc ] && break; sleep 0.1; done
  if [ "$(cat $n.rc)" != 0 ]; then cat $n.log >&2; exit 1; fi
done
exec g++ "$@"
"""

def run(a, check, work, env, REPO, HERE):
    src = os.path.join(work, "repo")
    os.makedirs(src)
    for n in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, n)
        if n.startswith(".") or n in ("_build", "build", "dist"):
            continue
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(src, n), ignore=shutil.ignore_patterns("__pycache__"))
        else:
            shutil.copy(p, src)
    for f in ("_fisx.pyx", "_fisx.cpp"):
        p = os.path.join(src, "python", "cython", f)
        if os.path.exists(p):
            os.remove(p)
    wd = os.path.join(work, "cc")
    os.makedirs(wd)
    wrapper = os.path.join(wd, "wrap")
    with open(wrapper, "w") as f:
        f.write(WRAPPER % {"dir": wd})
    os.chmod(wrapper, 0o755)
    e = dict(env)
    for k in ("LC_CTYPE", "LC_MESSAGES", "FISX_DATA_DIR", "FISX_DOC_DIR", "WITH_CYTHON", "PYTHONPATH", "ASAN_OPTIONS", "UBSAN_OPTIONS"):
        e.pop(k, None)
    e.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", CC=wrapper, CXX=wrapper, PIP_NO_INDEX="1", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
             OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    log = open(os.path.join(work, "setup.log"), "w")
    setup = subprocess.Popen([PY, "setup.py", "build", "--build-base", "_build", "--build-lib", "_build/lib", "--build-temp", "_build/temp"],
                             cwd=src, env=e, stdout=log, stderr=subprocess.STDOUT)
    od = os.path.join(work, "oracle")
    os.makedirs(od)
    units = sorted(glob.glob(os.path.join(src, "src", "fisx_*.cpp"))) + [os.path.join(HERE, "checks", "F30_oracle.cpp")]
    procs = [(u, subprocess.Popen(["g++", "-std=gnu++17", "-w", "-O1", "-fPIC", "-fvisibility=hidden", "-I" + os.path.join(src, "src"), "-c", u, "-o",
                                   os.path.join(od, os.path.basename(u) + ".o")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for u in units]
    bad = False
    for u, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            sys.stderr.write("cannot compile %s\n%s\n" % (u, o.decode(errors="replace")[-2000:]))
            bad = True
    setup.wait()
    log.close()
    if setup.returncode:
        sys.stderr.write(open(os.path.join(work, "setup.log")).read()[-3000:])
        bad = True
    if bad:
        return None
    so = os.path.join(od, "oracle.so")
    r = subprocess.run(["g++", "-shared", "-Wl,-Bsymbolic", "-o", so] + [os.path.join(od, os.path.basename(u) + ".o") for u in units])
    if r.returncode:
        return None
    lib = os.path.join(src, "_build", "lib")
    # the default directory of the package is complete as well
    d = env["FISX_MC_DATA"]
    pd = os.path.join(lib, "fisx", "fisx_data")
    shutil.copy(os.path.join(d, "EPDL97_CrossSections.dat"), pd)
    e.pop("CC")
    e.pop("CXX")
    out = os.path.join(work, "result.json")
    cfg = {"lib": lib, "oracle": so, "data": d, "scratch": env["FISX_MC_SCRATCH"], "tier": a.tier, "repo": REPO, "out": out,
           "workers": os.cpu_count() or 8, "verbose": bool(a.verbose)}
    if a.replay:
        rp = json.load(open(a.replay))
        cfg["tier"] = rp.get("tier", a.tier)
        cfg["replay"] = rp["path"].split(":")[1]
    cp = os.path.join(work, "f30.json")
    json.dump(cfg, open(cp, "w"))
    r = subprocess.run([PY, os.path.join(HERE, "checks", "F30.py"), cp], env=e)
    if r.returncode or not os.path.exists(out):
        return None
    return json.load(open(out))

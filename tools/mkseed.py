"""Plants one bug: creates /verif/seeded/<id>/ after confirming everything in a scratch copy of /repo.

mk(id, property, edits, needs, breaks, demo_cpp, data=False)
  edits: list of (file relative to /repo, old text, new text); every old text has to be unique
  demo_cpp: program returning 0 when the property holds
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build: exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
%(data)sls src/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=gnu++11 -O1 -w -D_GLIBCXX_ASSERTIONS -Isrc -c {} -o '"$work"'/$(basename {}).o' || exit 2
g++ -std=gnu++17 -O1 -w -D_GLIBCXX_ASSERTIONS -Isrc "$here/demo.cpp" "$work"/*.o -o "$work/demo" || exit 2
cd "$work" && timeout 200 ./demo "$work/data" >"$work/out" 2>&1
code=$?
tail -n 5 "$work/out"
exit $code
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def mk(sid, prop, edits, needs, breaks, demo_cpp, data=False, repo="/repo"):
    d = os.path.join(SEEDED, sid)
    w = tempfile.mkdtemp(prefix="seed_")
    rc = os.path.join(w, "repo")
    try:
        sh(["cp", "-a", repo, rc])
        for f, old, new in edits:
            p = os.path.join(rc, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("%s: %d occurrences in %s of %r" % (sid, s.count(old), f, old[:100])); return False
            # only lines of the original repository
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", rc, "diff"]).stdout.decode()
        base = sh(["git", "-C", rc, "rev-list", "--max-parents=0", "HEAD"]).stdout.decode().split()[0]
        files = {f for f, _, _ in edits}
        orig = set()
        for f in files:
            orig |= set(sh(["git", "-C", rc, "show", base + ":" + f]).stdout.decode().split("\n"))
        removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        for l in removed:
            if l not in orig:
                print("%s: WARNING changes a line added since the base: %r" % (sid, l))
        if not removed:
            print("%s: WARNING removes or changes no line" % sid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(demo_cpp)
        dd = ""
        if data:
            shutil.copy(os.path.join(os.path.dirname(HERE), "mc", "gen_data.py"), d)
            dd = 'python3 "$here/gen_data.py" "$PWD" "$work/data" || exit 2\n'
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"data": dd})
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh(["bash", os.path.join(d, "demo.sh")], cwd=repo)
        b = sh(["bash", os.path.join(d, "demo.sh")], cwd=rc)
        ok = a.returncode == 0 and b.returncode not in (0, 2)
        print("%s: clean %d, planted %d %s" % (sid, a.returncode, b.returncode, "OK" if ok else "***** BAD"))
        if not ok:
            print("clean:", a.stdout.decode()[-600:], "\nplanted:", b.stdout.decode()[-600:])
        return ok
    finally:
        shutil.rmtree(w, ignore_errors=True)

#!/usr/bin/env python3
"""Driver: builds /repo's current sources plus one check, explores, reports.

  run.py F04                      quick exploration (VERIF_TIER overrides)
  run.py F04 --tier thorough
  run.py F04 --replay FILE        re-run one recorded path
"""
import argparse, fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FISX_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "mc"))
import registry
JOBS = os.cpu_count() or 8

MODES = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "opt": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "thr": ["-O1", "-g1"],
    "cov": ["-O1", "-g1"],
}

def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]

def compile_all(units, flags, outdir, cxx):
    procs, objs, failed = [], [], []
    todo = list(units)
    running = []
    while todo or running:
        while todo and len(running) < JOBS:
            src, extra = todo.pop(0)
            o = os.path.join(outdir, os.path.basename(src) + ".o")
            objs.append(o)
            p = subprocess.Popen([cxx, "-std=gnu++17", "-w"] + flags + extra + ["-c", src, "-o", o],
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            running.append((src, p))
        src, p = running.pop(0)
        out, _ = p.communicate()
        if p.returncode:
            failed.append((src, out.decode(errors="replace")))
    if failed:
        for s, o in failed:
            sys.stderr.write("cannot compile %s\n%s\n" % (s, o[-3000:]))
        sys.exit(3)
    return objs

def build(check, work):
    mode = check.get("mode", "opt")
    cxx = check.get("cxx", "g++")
    flags = MODES[mode] + check.get("flags", [])
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    deps = srcs + glob.glob(os.path.join(REPO, "src", "*.h"))
    key = digest(deps, mode + cxx + " ".join(flags + ["|"] + check.get("libflags", [])))
    cache = os.path.join(HERE, ".cache", key)
    lib = os.path.join(cache, "lib.a")
    libflags = check.get("libflags", [])
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "checks")]
    tmp = os.path.join(work, "obj")
    os.makedirs(tmp)
    mysrc = [(os.path.join(HERE, "checks", s), inc + check.get("ownflags", [])) for s in check["src"]]
    if os.environ.get("MC_NOCACHE") or not os.path.exists(lib):
        objs = compile_all([(s, libflags) for s in srcs] + mysrc, flags, tmp, cxx)
        libobjs = objs[:len(srcs)]
        mine = objs[len(srcs):]
        tlib = os.path.join(work, "lib.a")
        sh(["ar", "rcs", tlib] + libobjs, check=True)
        try:
            if os.environ.get("MC_NOCACHE"):
                raise OSError
            os.makedirs(cache, exist_ok=True)
            shutil.copy(tlib, lib + ".tmp%d" % os.getpid())
            os.rename(lib + ".tmp%d" % os.getpid(), lib)
        except OSError:
            pass
        lib = tlib
    else:
        mine = compile_all(mysrc, flags, tmp, cxx)
    exe = os.path.join(work, "check")
    r = sh([cxx] + flags + mine + [lib, "-o", exe, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[-3000:])
        sys.exit(3)
    return exe

def load_known(pid):
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=<<(.*?)>> (.*)$", line.strip())
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3)))
    return known

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--evidence-dir", default=os.path.join(HERE, "evidence"))
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    check = registry.CHECKS[a.id]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="fisxmc_")
    try:
        code = run(a, check, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def run(a, check, work, t0):
    env = dict(os.environ)
    env.pop("FISX_DATA_DIR", None)
    env["LC_ALL"] = "C.UTF-8"
    env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=1"
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch)
    env["FISX_MC_SCRATCH"] = scratch
    if check.get("data"):
        import gen_data
        d = os.path.join(work, "data")
        gen_data.make(REPO, d)
        env["FISX_MC_DATA"] = d
    env["FISX_MC_REPO"] = REPO
    if "runner" in check:
        import importlib
        mod = importlib.import_module(check["runner"])
        res = mod.run(a, check, work, env, REPO, HERE)
        if res is None:
            return 3
    else:
        exe = build(check, work)
        if a.replay:
            rp = json.load(open(a.replay))
            return sh([exe, "--replay", rp["path"], "--tier", rp.get("tier", a.tier)], env=env).returncode
        wd = os.path.join(work, "w")
        os.makedirs(wd)
        out = os.path.join(work, "result.json")
        r = sh([exe, "--tier", a.tier, "--dir", wd, "--out", out, "--workers", str(JOBS)], env=env,
               timeout=3600 * 6)
        if r.returncode or not os.path.exists(out):
            sys.stderr.write("explorer failed with %s\n" % r.returncode)
            return 3
        res = json.load(open(out))
    return report(a, check, res, t0)

def report(a, check, res, t0):
    pid = a.id
    known = load_known(pid)
    byKey, counts = {}, {}
    for v in res["violations"]:
        k = v.get("more") or v["key"]
        counts[k] = counts.get(k, 0) + v.get("n", 1)
        if "more" not in v:
            byKey.setdefault(k, []).append(v)
    new, seen = [], {}
    for k in sorted(counts):
        hit = None
        for pat, what in known:
            if pat == k or ("*" in pat and fnmatch.fnmatchcase(k, pat)):
                hit = (pat, what)
        if hit:
            seen.setdefault(hit, 0)
            seen[hit] += counts[k]
        else:
            new.append(k)
    for (pat, what), n in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s (key %s, met %d times)" % (pid, what, pat, n))
    rdir = os.path.join(HERE, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    for i, k in enumerate(new[:25]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%03d.json" % i)
        vs = byKey.get(k, [{}])
        vs.sort(key=lambda v: len(v.get("choices", "")))
        v = vs[0]
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": a.tier, "key": k, "count": counts[k],
                       "path": "%s:%s:%s" % (v.get("suite"), v.get("job"), v.get("choices")),
                       "detail": v.get("detail"), "trace": v.get("log")}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s (x%d): %s" % (k[:300], counts[k], str(v.get("detail"))[:600]))
        if a.verbose:
            print("  trace: %s" % str(v.get("log"))[:1500])
    if len(new) > 25:
        print("  ... and %d further kinds of violation" % (len(new) - 25))
    if not new and not res.get("complete", True):
        sys.stderr.write("exploration did not complete\n")
        return 3
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": check.get("level", "model_checking"),
          "coverage": {
              "states": res["states"], "transitions": res["transitions"],
              "traces_validated_against_impl": res["executions"],
              "observations_compared": res["comparisons"],
              "decision_points": res.get("branches", 0), "root_configurations": res.get("jobs", 0),
              "suites": res.get("suites", {}), "bounds": check.get("bounds", {}).get(a.tier, ""),
              "exhaustive": bool(res.get("complete", True)),
              "samples": res["samples"][:12] or ["(none)"]},
          "assumptions": check.get("assumptions", []) + res.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    for k in ("extra",):
        if k in res:
            ev["coverage"].update(res[k])
    os.makedirs(a.evidence_dir, exist_ok=True)
    with open(os.path.join(a.evidence_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d transitions, %d states, %d comparisons, %d new / %d known kinds of violation, %.1f s"
          % (pid, a.tier, res["executions"], res["transitions"], res["states"], res["comparisons"],
             len(new), len(seen), time.time() - t0))
    return 1 if new else 0

if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's current working tree.

  run.py C01                    the tier is taken from VERIF_TIER (quick|thorough), the seed from VERIF_SEED
  run.py C01 --replay FILE      re-runs one recorded failing case, verbosely
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not give an answer.
"""
import argparse, hashlib, json, os, re, subprocess, sys, threading, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
from checks import CHECKS, CONFIGS, FINDINGS

NCPU = int(os.environ.get("VERIF_JOBS", "8"))

class Pool:
    """counting semaphore with multi-slot acquire"""
    def __init__(self, n):
        self.n, self.cv = n, threading.Condition()
    def take(self, k):
        with self.cv:
            while self.n < k:
                self.cv.wait()
            self.n -= k
    def give(self, k):
        with self.cv:
            self.n += k
            self.cv.notify_all()
POOL = Pool(NCPU)

def sh(cmd, timeout, slots=1, env=None, cwd=None):
    POOL.take(slots)
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            out, _ = p.communicate()
            return -999, out.decode("utf8", "replace") + "\n[time limit]"
    finally:
        POOL.give(slots)

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    tmp = path + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    open(tmp, "w").write(text)
    os.replace(tmp, path)

def gen_config(name):
    """XAD/Config.hpp and XAD/Version.hpp for one configuration, from /repo's templates"""
    cfg = CONFIGS[name]
    d = os.path.join(BUILD, "inc", "+".join(sorted(cfg.get("xad", []))) or "default")
    t = open(os.path.join(REPO, "src/XAD/Config.hpp.in")).read()
    on = set(cfg.get("xad", []))
    t = re.sub(r"#cmakedefine01\s+(\w+)", lambda m: "#define %s %d" % (m.group(1), m.group(1) in on), t)
    t = re.sub(r"#cmakedefine\s+(\w+)([^\n]*)", lambda m: ("#define %s%s" % (m.group(1), m.group(2))) if m.group(1) in on else "/* #undef %s */" % m.group(1), t)
    write_if_changed(d + "/XAD/Config.hpp", t)
    v = open(os.path.join(REPO, "src/XAD/Version.hpp.in")).read()
    v = re.sub(r"@(\w+)@", lambda m: {"XAD_VERSION_MAJOR": "1", "XAD_VERSION_MINOR": "6", "XAD_VERSION_PATCHNUM": "0",
               "XAD_VERSION_SUFFIX": "", "XAD_VERSION_PATCH": "0", "XAD_VERSION_NUMERIC": "10600"}.get(m.group(1), "0"), v)
    v = re.sub(r"#cmakedefine(?:01)?\s+(\w+)[^\n]*", r"/* #undef \1 */", v)
    v = re.sub(r"\$\{(\w+)\}", lambda m: "0", v)
    write_if_changed(d + "/XAD/Version.hpp", v)
    return d

def tree_hash(root, exts=(".hpp", ".cpp", ".in", ".h", ".inc")):
    h = hashlib.sha256()
    for dp, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(exts):
                p = os.path.join(dp, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

class BuildError(Exception):
    def __init__(self, log, user_error):
        self.log, self.user_error = log, user_error

_locks, _lk = {}, threading.Lock()
def compile_obj(src, cfgname, defs, srchash):
    cfg = CONFIGS[cfgname]
    inc = gen_config(cfgname)
    cmd = [cfg.get("cxx", "clang++-18"), "-std=" + cfg.get("std", "c++17"), cfg.get("opt", "-O1"), "-w", "-I" + inc,
           "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "h")]
    cmd += cfg.get("flags", []) + ["-D" + d for d in cfg.get("defs", [])] + ["-D" + d for d in defs]
    key = hashlib.sha256((" ".join(cmd) + src + srchash).encode()).hexdigest()[:20]
    obj = os.path.join(BUILD, "obj", os.path.basename(src).replace(".", "_") + "-" + cfgname + "-" + key + ".o")
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    with _lk:
        lock = _locks.setdefault(obj, threading.Lock())
    with lock:
        if os.path.exists(obj):
            return obj
        tmp = obj + ".%d.tmp.o" % os.getpid()
        full = cmd + ["-c", src, "-o", tmp]
        rc, out = sh(full, 600)
        if rc != 0:
            # a second try, so that a resource problem is not taken for a compile error
            rc, out = sh(full, 600)
        if rc != 0:
            raise BuildError(" ".join(full) + "\n" + out[-20000:], rc > 0 and "error:" in out)
        os.replace(tmp, obj)
    return obj

def build(job, srchash):
    cfg = CONFIGS[job["cfg"]]
    objs, errs = {}, []
    def one(i, src, defs):
        try:
            objs[i] = compile_obj(src, job["cfg"], defs, srchash)
        except BuildError as e:
            errs.append(e)
        except Exception as e:
            errs.append(BuildError(repr(e), False))
    todo = [(os.path.join(HERE, "h", job["src"]), job.get("defs", []))]
    if job.get("tape", True):
        todo.append((os.path.join(REPO, "src/Tape.cpp"), []))
    for s in job.get("more", []):
        todo.append((os.path.join(HERE, "h", s), job.get("defs", [])))
    ths = [threading.Thread(target=one, args=(i, s, d)) for i, (s, d) in enumerate(todo)]
    [t.start() for t in ths]; [t.join() for t in ths]
    if errs:
        raise errs[0]
    binp = os.path.join(BUILD, "bin", "%s-%s" % (job["name"], hashlib.sha256("".join(objs[i] for i in sorted(objs)).encode()).hexdigest()[:12]))
    os.makedirs(os.path.dirname(binp), exist_ok=True)
    if not os.path.exists(binp):
        tmp = binp + ".%d.tmp" % os.getpid()
        cmd = [cfg.get("cxx", "clang++-18")] + [f for f in cfg.get("flags", []) if f.startswith("-fsanitize") or f.startswith("-stdlib")] + [objs[i] for i in sorted(objs)] + ["-o", tmp, "-pthread"]
        rc, out = sh(cmd, 300)
        if rc != 0:
            raise BuildError(" ".join(cmd) + "\n" + out, "undefined reference" in out or "multiple definition" in out)
        os.replace(tmp, binp)
    return binp

def build_libs(job, srchash):
    """shared libraries with one program, each in a build configuration of its own; returns the list name=path"""
    res, errs = {}, []
    def one(name):
        try:
            ob = [None, None]
            def obj(i, src, defs):
                try:
                    ob[i] = compile_obj(src, name, defs, srchash)
                except BuildError as e:
                    errs.append(e)
            ths = [threading.Thread(target=obj, args=(0, os.path.join(HERE, "h", job["libsrc"]), job.get("libdefs", []))),
                   threading.Thread(target=obj, args=(1, os.path.join(REPO, "src/Tape.cpp"), []))]
            [t.start() for t in ths]; [t.join() for t in ths]
            if errs:
                return
            so = os.path.join(BUILD, "bin", "%s-%s.so" % (name, hashlib.sha256("".join(ob).encode()).hexdigest()[:12]))
            os.makedirs(os.path.dirname(so), exist_ok=True)
            if not os.path.exists(so):
                tmp = so + ".%d.tmp" % os.getpid()
                cmd = [CONFIGS[name].get("cxx", "clang++-18"), "-shared", "-Wl,-Bsymbolic"] + ob + ["-o", tmp, "-pthread"]
                rc, out = sh(cmd, 300)
                if rc != 0:
                    raise BuildError(" ".join(cmd) + "\n" + out, "undefined reference" in out or "multiple definition" in out)
                os.replace(tmp, so)
            res[name] = so
        except BuildError as e:
            errs.append(e)
        except Exception as e:
            errs.append(BuildError(repr(e), False))
    ths = [threading.Thread(target=one, args=(n,)) for n in job["libs"]]
    [t.start() for t in ths]; [t.join() for t in ths]
    if errs:
        raise errs[0]
    return ":".join("%s=%s" % (n, res[n]) for n in job["libs"])

def env_for_run(libs=None):
    e = dict(os.environ)
    if libs:
        e["VERIF_LIBS"] = libs
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0:max_allocation_size_mb=2000"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
    return e

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build what needs no network and is shared by the checks")
    ap.add_argument("--replay")
    ap.add_argument("--job", help="only jobs whose name contains this")
    ap.add_argument("--cases", type=float, default=1.0, help="scale the number of cases")
    a = ap.parse_args()
    if a.setup:
        return setup()
    pid = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[pid]
    t0 = time.time()
    srchash = tree_hash(os.path.join(REPO, "src")) + tree_hash(os.path.join(HERE, "h"))
    rdir = os.path.join(BUILD, "replays", pid)
    os.makedirs(rdir, exist_ok=True)
    jobs = [dict(j) for j in chk["jobs"] if not (j.get("tier") == "thorough" and tier == "quick")]
    for j in jobs:
        j.setdefault("name", pid + "-" + j["cfg"])
    if a.job:
        jobs = [j for j in jobs if a.job in j["name"]]
    if a.replay:
        return replay(pid, jobs, a.replay, srchash)
    results, problems, viol = {}, [], []
    plock = threading.Lock()

    def go(j):
        try:
            libs = build_libs(j, srchash) if j.get("libs") else None
            b = build(j, srchash)
        except BuildError as e:
            log = os.path.join(rdir, j["name"] + ".build.log")
            open(log, "w").write(e.log)
            with plock:
                if e.user_error:
                    viol.append((log, "%s: code using the library does not build" % j["name"], j))
                else:
                    problems.append("%s: build failed, see %s" % (j["name"], log))
            return
        n = int(j["cases"] * a.cases)
        cap = 150
        if tier == "thorough":
            n, cap = int(n * j.get("deep", chk.get("deep", 20))), j.get("cap", 900)
        w = j.get("workers", 2)
        # jobs of one differential group share the seed
        s = int(hashlib.sha256(("%d/%s" % (seed, j.get("group", j["name"]))).encode()).hexdigest()[:12], 16)
        out = os.path.join(rdir, j["name"] + ".json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [b, "run", "--seed", str(s), "--cases", str(n), "--workers", str(w), "--cap", str(cap), "--out", out,
               "--replay-dir", rdir, "--tag", j["name"]]
        if j.get("props"):
            cmd += ["--prop", j["props"]]
        rc, txt = sh(cmd, cap + 400, slots=min(w, NCPU), env=env_for_run(libs))
        r = None
        try:
            r = json.load(open(out))
        except Exception:
            pass
        with plock:
            if r is None:
                problems.append("%s: no result (exit %s) %s" % (j["name"], rc, txt[-500:]))
                return
            results[j["name"]] = r
            if r["status"] == "fail":
                viol.append((r["replay"], "%s: %s" % (j["name"], r["message"]), j))
            elif r["status"] != "ok":
                problems.append("%s: %s %s" % (j["name"], r["status"], r["message"]))

    ths = [threading.Thread(target=go, args=(j,)) for j in jobs]
    [t.start() for t in ths]; [t.join() for t in ths]

    # differential groups: same seed, digests have to agree
    groups = {}
    for j in jobs:
        if j.get("group") and j["name"] in results and results[j["name"]]["status"] == "ok":
            groups.setdefault(j["group"], []).append(j)
    if chk.get("diff"):
        chk["diff"](groups, results, viol, problems, rdir)

    # known findings of this property: the recorded reproducer is run; it is reported, not alarmed
    for f in FINDINGS:
        if f["property"] != pid:
            continue
        j = [x for x in jobs if x["name"] == f["job"]]
        if not j:
            continue
        try:
            b = build(j[0], srchash)
        except BuildError:
            continue
        rc, txt = sh([b, "replay", os.path.join(HERE, f["replay"])], 120, env=env_for_run())
        if "REPLAY-FAIL" in txt:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))

    # evidence
    ev = sum(r["evaluations"] for r in results.values())
    di = sum(r["distinct"] for r in results.values())
    samples = []
    for nme in sorted(results):
        for s in results[nme]["samples"]:
            if len(samples) < 6:
                samples.append("[%s] %s" % (nme, s[:1800]))
    labels = {}
    for r in results.values():
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    evd = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
           "coverage": {"evaluations": ev, "distinct_nontrivial": di, "rule": chk["rule"], "samples": samples,
                        "jobs": {n: {"evaluations": r["evaluations"], "nontrivial": r["nontrivial"], "distinct_nontrivial": r["distinct"],
                                     "time_capped": bool(r["capped"]), "status": r["status"]} for n, r in sorted(results.items())},
                        "operation_counts": labels},
           "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    for p in problems:
        print("PROBLEM %s" % p)
    print("%s %s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (pid, tier, seed, ev, di, time.time() - t0))
    for n, r in sorted(results.items()):
        if r["capped"]:
            print("note: %s stopped at its time cap after %d cases" % (n, r["evaluations"]))
    if viol:
        for path, msg, j in viol:
            print("  " + msg[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, viol[0][0]))
        return 1
    if problems:
        return 2
    return 0

def setup():
    """warms the object cache with the library itself; the checks rebuild whatever changed"""
    srchash = tree_hash(os.path.join(REPO, "src")) + tree_hash(os.path.join(HERE, "h"))
    cfgs = sorted({j["cfg"] for c in CHECKS.values() for j in c["jobs"] if j.get("tape", True)} | {n for c in CHECKS.values() for j in c["jobs"] for n in j.get("libs", [])})
    def one(c):
        try:
            compile_obj(os.path.join(REPO, "src/Tape.cpp"), c, [], srchash)
        except BuildError as e:
            print(e.log[-2000:])
    ths = [threading.Thread(target=one, args=(c,)) for c in cfgs]
    [t.start() for t in ths]; [t.join() for t in ths]
    return 0

def replay(pid, jobs, path, srchash):
    name = os.path.basename(path)
    js = [j for j in jobs if name.startswith(j["name"] + "-")] or jobs
    js.sort(key=lambda j: -len(j["name"]))
    b = build(js[0], srchash)
    libs = build_libs(js[0], srchash) if js[0].get("libs") else None
    r = subprocess.run([b, "replay", path], env=env_for_run(libs))
    return r.returncode

if __name__ == "__main__":
    sys.exit(main())

"""Builds and runs a check of the thread explorer (mc/threads.cpp)."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, time

WRAP = "-Wl," + ",".join("--wrap=" + f for f in (
    "malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign",
    "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
    "pthread_rwlock_wrlock", "pthread_rwlock_trywrlock", "pthread_rwlock_rdlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_unlock",
    "sched_yield", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"))
RUNTIME = ["clang++", "-std=c++17", "-O2", "-g1", "-w"]
HARNESS = ["clang++", "-std=c++17", "-g1", "-w", "-fsanitize=thread"]

def runtime(rm):
    """The explorer does not depend on the repository; it is cached by content."""
    src = [os.path.join(rm.HERE, "mc", f) for f in ("threads.h", "threads.cpp")]
    os.makedirs(os.path.join(rm.BUILD, "lib"), exist_ok=True)
    out = os.path.join(rm.BUILD, "lib", "threads-%s.o" % rm.digest(src, " ".join(RUNTIME)))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = rm.run(RUNTIME + ["-c", src[1], "-o", tmp])
        if r.returncode:
            print(r.stdout)
            raise SystemExit(2)
        os.replace(tmp, out)
    return out

def build(rm, prop, check, opt, work):
    jobs = []
    for s in check["sources"]:
        path = os.path.join(rm.HERE, "checks", s)
        m = re.search(r"// PARTS: (\d+)", open(path).readline())
        parts = int(m.group(1)) if m else 1
        for p in range(parts):
            obj = os.path.join(work, "%s.%d.o" % (s, p))
            jobs.append((HARNESS + [opt, "-I" + os.path.join(rm.HERE, "mc"), "-I" + rm.REPO + "/include", "-DMC_PART=%d" % p, "-DMC_PARTS=%d" % parts, "-c", path, "-o", obj], obj))
    with cf.ThreadPoolExecutor(9) as ex:
        lib = ex.submit(runtime, rm)
        res = list(ex.map(lambda j: rm.run(j[0]), jobs))
        lib = lib.result()
    for (cmd, obj), r in zip(jobs, res):
        if r.returncode:
            return None, "$ %s\n%s" % (" ".join(cmd), r.stdout)
    exe = os.path.join(work, "check")
    cmd = ["clang++"] + [j[1] for j in jobs] + [lib, WRAP, "-lpthread", "-o", exe]
    r = rm.run(cmd)
    if r.returncode:
        return None, "$ %s\n%s" % (" ".join(cmd), r.stdout)
    return exe, None

def main(prop, check, tier, rm, work, t0, args):
    variants = ["-O1"] if tier == "quick" else ["-O1", "-O2"]
    if "--replay" in args:
        exe, err = build(rm, prop, check, "-O1", work)
        if not exe:
            print(err); return 2
        r = rm.run([exe, "--prop", prop, "--out", work, "--replay", args[args.index("--replay") + 1]] + (["--thorough"] if tier == "thorough" else []))
        print(r.stdout, end="")
        return r.returncode
    results, code = [], 0
    for v in variants:
        wv = os.path.join(work, v.strip("-"))
        shutil.rmtree(wv, ignore_errors=True)
        os.makedirs(wv)
        exe, err = build(rm, prop, check, v, wv)
        if not exe:
            if not rm.sanity("clang", wv):
                print(err[-3000:]); print("the library itself does not compile"); return 2
            path = os.path.join(wv, prop + "-compile.replay")
            open(path, "w").write("The check uses only the documented interface, but it no longer compiles:\n" + err)
            print(err[-2500:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
            break
        cmd = [exe, "--prop", prop, "--out", wv]
        for suite, text in rm.known(prop):
            cmd += ["--known", suite, text]
        cmd += ["--thorough", "--budget", "900"] if tier == "thorough" else ["--budget", "60"]
        try:
            r = rm.run(cmd, timeout=840 if tier == "quick" else 3 * 3600)
        except subprocess.TimeoutExpired:
            print("timeout"); return 2
        print("[%s]\n" % v + r.stdout, end="")
        try:
            results.append((v, json.load(open(os.path.join(wv, "result.json")))))
        except Exception as e:
            print("no result:", e)
            return 2
        if r.returncode not in (0, 1):
            return 2
        if r.returncode == 1:
            code = 1
            break
    rm.evidence(prop, tier, check, results, code, time.time() - t0)
    return code

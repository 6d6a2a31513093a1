#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]  -- build and run one check against /repo's working tree.
run.py --setup                        -- build the parts that do not depend on /repo
run.py PROPERTY --replay FILE         -- replay one recorded violation"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS

WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign"))
VARIANTS = {
    "base": ["g++", "-std=c++17", "-O1", "-g1"],
    "gcc20": ["g++", "-std=c++20", "-O2", "-g1", "-DNDEBUG"],
    "clang": ["clang++", "-std=c++17", "-O1", "-g1"],
    "assert": ["g++", "-std=c++17", "-O1", "-g1", "-DKTL_DEBUG_ASSERT"],
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=4096",
           LC_ALL="C.UTF-8")

def run(cmd, timeout=900, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=ENV, **kw)

def flags(variant, sanitize=True):
    f = list(VARIANTS[variant])
    if sanitize:
        f += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    return f + ["-w", "-I" + os.path.join(HERE, "mc")]

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def mc_object(variant):
    """The explorer does not depend on the repository; it is cached by content."""
    src = [os.path.join(HERE, "mc", f) for f in ("mc.h", "world.h", "mc.cpp")]
    cmd = flags(variant)
    os.makedirs(os.path.join(BUILD, "lib"), exist_ok=True)
    out = os.path.join(BUILD, "lib", "mc-%s-%s.o" % (variant, digest(src, " ".join(cmd))))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = run(cmd + ["-c", src[2], "-o", tmp])
        if r.returncode:
            print(r.stdout)
            sys.exit(2)
        os.replace(tmp, out)
    return out

def sanity(variant, work):
    """Does the library compile at all?"""
    src = os.path.join(work, "sanity.cpp")
    open(src, "w").write('#include <ktl/ktl.h>\n#include <string>\nint main() { ktl::type_allocator<double, ktl::shared<ktl::mallocator>> a; double* p = a.allocate(1); a.deallocate(p, 1); ktl::trivial_vector<double> v; v.push_back(1.0); return 0; }\n')
    return run(flags(variant, False) + ["-I" + REPO + "/include", src, "-o", src + ".bin"]).returncode == 0

def build(prop, check, variant, work):
    """-> (binary, None) or (None, compiler output)"""
    srcs = check["sources"]
    jobs = []
    for s in srcs:
        path = os.path.join(HERE, "checks", s.split(":")[-1])
        text = open(path).read()
        m = re.search(r"// PARTS: (\d+)", text.split("\n", 1)[0])
        parts = int(m.group(1)) if m else 1
        if s.startswith("ns:"):
            # The suites of another check, next to those of others: everything in a namespace of its own
            s = "ns_" + s[3:]
            inc = [l for l in text.split("\n") if l.startswith("#include")]
            body = '#include <algorithm>\n%s\nnamespace suites_%s {\n#include "%s"\n}\n' % ("\n".join(inc), s.split(".")[0], path)
            path = os.path.join(work, s)
            open(path, "w").write(body)
            parts = (parts + 1) // 2
        for p in range(parts):
            obj = os.path.join(work, "%s.%d.o" % (s, p))
            jobs.append((flags(variant) + check.get("flags", []) + ["-I" + REPO + "/include", "-I" + os.path.join(HERE, "checks"), "-DMC_PART=%d" % p, "-DMC_PARTS=%d" % parts, "-c", path, "-o", obj], obj))
    with cf.ThreadPoolExecutor(9) as ex:
        lib = ex.submit(mc_object, variant)
        res = list(ex.map(lambda j: run(j[0]), jobs))
        lib = lib.result()
    for (cmd, obj), r in zip(jobs, res):
        if r.returncode:
            return None, "$ %s\n%s" % (" ".join(cmd), r.stdout)
    exe = os.path.join(work, "check")
    cmd = flags(variant) + [j[1] for j in jobs] + [lib, WRAP, "-o", exe]
    r = run(cmd)
    if r.returncode:
        return None, "$ %s\n%s" % (" ".join(cmd), r.stdout)
    return exe, None

def known(prop):
    """-> list of (suite, key text) of recorded findings of this property"""
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) suite=(\"[^\"]*\"|\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2).strip('"'), m.group(3).strip()))
    return out

def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        os.makedirs(BUILD, exist_ok=True)
        for v in VARIANTS:
            mc_object(v)
        import schedrun
        schedrun.runtime(sys.modules[__name__])
        return 0
    prop = args[0]
    check = CHECKS[prop]
    tier = args[1] if len(args) > 1 and not args[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    work = os.path.join(BUILD, prop)
    os.makedirs(work, exist_ok=True)
    if check.get("engine") == "sched":
        import schedrun
        return schedrun.main(prop, check, tier, sys.modules[__name__], work, t0, args)
    variants = check.get("variants", ["base"])
    if tier == "thorough":
        variants = variants + [v for v in check.get("thorough_variants", ["gcc20", "clang"]) if v not in variants]
    if "--replay" in args:
        exe, err = build(prop, check, "base", work)
        if not exe:
            print(err); return 2
        r = run([exe, "--prop", prop, "--out", work, "--replay", args[args.index("--replay") + 1]] + (["--thorough"] if tier == "thorough" else []))
        print(r.stdout, end="")
        return r.returncode
    results, code, first = [], 0, None
    for v in variants:
        wv = os.path.join(work, v)
        shutil.rmtree(wv, ignore_errors=True)
        os.makedirs(wv)
        exe, err = build(prop, check, v, wv)
        if not exe:
            if not sanity(v, wv):
                print(err[-3000:]); print("the library itself does not compile"); return 2
            path = os.path.join(wv, prop + "-compile.replay")
            open(path, "w").write("The check uses only the documented interface, but it no longer compiles:\n" + err)
            print(err[-2500:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
            break
        cmd = [exe, "--prop", prop, "--out", wv] + (["--thorough", "--budget", "400"] if tier == "thorough" else ["--budget", "40"])
        try:
            r = run(cmd, timeout=check.get("timeout", 840) if tier == "quick" else 7200)
        except subprocess.TimeoutExpired:
            print("timeout"); return 2
        print("[%s]\n" % v + r.stdout, end="")
        try:
            results.append((v, json.load(open(os.path.join(wv, "result.json")))))
        except Exception as e:
            print("no result:", e)
            return 2
        if r.returncode not in (0, 1):
            return 2
        if r.returncode == 1:
            code = 1
            break
    evidence(prop, tier, check, results, code, time.time() - t0)
    return code

def evidence(prop, tier, check, results, code, wall):
    tot = lambda k: sum(r[k] for _, r in results)
    cov = dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("histories"),
               operations_executed=tot("ops"), max_depth=max([r["max_depth"] for _, r in results] or [0]),
               samples=[s for _, r in results for s in r["samples"]][:12] or ["(none: the run stopped before a sample was taken)"],
               exhaustive=bool(results) and not any(r["capped"] for _, r in results) and code == 0,
               variants=[v for v, _ in results],
               explanation=check["explain"],
               suites=[dict(variant=v, **s) for v, r in results for s in r["per_suite"]])
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
              assumptions=check.get("assumptions", []), wall_s=round(wall, 3), violations=int(code == 1))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)

if __name__ == "__main__":
    sys.exit(main())

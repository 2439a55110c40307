#!/usr/bin/env python3
"""Driver of the model-checking harnesses.

  run.py <property> quick|thorough     decide one property
  run.py --replay <file>               re-execute one recorded counterexample

Builds the reflect libraries from /repo's working tree (sources as listed by the
project's own CMake) together with the property's harness, explores the bounded
space on all cores, confirms any violation by replaying it alone, and writes
evidence/<property>.json.  Exit 0: held.  Exit 1: VIOLATION line printed.
"""
import concurrent.futures, hashlib, json, os, re, shlex, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))
CXX = "g++"
BASE = ["-std=c++11", "-g1", "-DREFLECT_USE_EXCEPTIONS=1", "-Wno-invalid-offsetof", "-w",
        "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
        "-I" + REPO + "/src", "-I" + VERIF + "/harness"]
SAN = ["-fsanitize=address,shift,signed-integer-overflow,integer-divide-by-zero,bounds,bool,enum,return,builtin,unreachable",
       "-fno-sanitize-recover=all"]
FLAVOURS = {
    "asan": BASE + ["-O1"] + SAN,
    "fast": BASE + ["-O1"],
    # instrumented for the thread sanitizer, linked against harness/mc.cpp instead
    # (strings and streams are instantiated, and so instrumented, with it)
    "mc": BASE + ["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
           "-U_FORTIFY_SOURCE"],
}

def checks():
    return json.load(open(os.path.join(VERIF, "checks.json")))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def lib_sources(workdir):
    """The translation units of the project's shared libraries, asked from CMake."""
    want = ["reflect", "reflect_primitives", "reflect_std", "reflect_json"]
    srcs = {}
    cm = os.path.join(workdir, "cmake")
    os.makedirs(cm, exist_ok=True)
    r = sh(["cmake", "-S", REPO, "-B", cm, "-G", "Ninja", "-DUSE_TCMALLOC=OFF",
            "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-Wno-dev", "-Wno-deprecated"])
    cc = os.path.join(cm, "compile_commands.json")
    if r.returncode == 0 and os.path.exists(cc):
        for e in json.load(open(cc)):
            m = re.search(r"CMakeFiles/([\w.+-]+)\.dir/", e.get("output", "") + " " + e["command"])
            if m and m.group(1) in want:
                srcs.setdefault(m.group(1), []).append(e["file"])
    if not srcs.get("reflect"):
        txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
        for m in re.finditer(r"^\s*add_library\(\s*(\w+)\s+SHARED\s+([^)]*)\)", txt, re.M):
            if m.group(1) in want:
                srcs[m.group(1)] = [os.path.join(REPO, f) for f in m.group(2).split()]
    shutil.rmtree(cm, ignore_errors=True)
    return srcs

class BuildError(Exception):
    pass

class ApiError(BuildError):
    """The library compiles but a program which uses its public interface doesn't."""

def compile_all(jobs):
    """jobs: list of (src, obj, flags). Skips objects that exist."""
    def one(j):
        src, obj, flags = j
        if os.path.exists(obj):
            return
        tmp = obj + ".tmp%d" % os.getpid()
        r = sh([CXX] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            own = src.startswith(VERIF) and re.search(r": error: ", r.stdout) and "fatal error" not in r.stdout
            raise (ApiError if own else BuildError)("compiling %s failed:\n%s" % (src, r.stdout[:6000]))
        os.rename(tmp, obj)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        errors = [f.exception() for f in [ex.submit(one, j) for j in jobs]]
    errors = [e for e in errors if e]
    for e in [e for e in errors if not isinstance(e, ApiError)] + errors:
        raise e

def build(chk):
    """Returns the path of the harness binary for a check."""
    flags = FLAVOURS[chk.get("flavour", "asan")] + chk.get("cxxflags", [])
    libs = chk.get("libs", ["reflect", "reflect_primitives", "reflect_std"])
    key = tree_hash([REPO + "/src", REPO + "/CMakeLists.txt"])
    fl = hashlib.sha256(" ".join(flags).encode()).hexdigest()[:8]
    work = os.path.join(BUILD, key + "-" + fl)
    os.makedirs(work, exist_ok=True)
    os.utime(work)
    # keep the cache small: forget trees other than the four most recent
    old = sorted((d for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))),
                 key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in old[:-6]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    sf = os.path.join(work, "sources.json")
    if os.path.exists(sf):
        srcs = json.load(open(sf))
    else:
        srcs = lib_sources(work)
        json.dump(srcs, open(sf, "w"))
    jobs, objs = [], []
    for lib in libs:
        for s in srcs.get(lib, []):
            o = os.path.join(work, lib + "-" + os.path.basename(s).replace(".", "_") + "-" +
                             hashlib.sha256(s.encode()).hexdigest()[:6] + ".o")
            jobs.append((s, o, flags)); objs.append(o)
    mc = chk.get("flavour") == "mc"
    hsrc = [os.path.join(VERIF, "harness", f) for f in chk["harness"]] + \
        ([os.path.join(VERIF, "harness", "mc.cpp")] if mc else []) + [os.path.join(VERIF, "harness", "vx.cpp")]
    hh = tree_hash([os.path.join(VERIF, "harness")])[:10]
    for s in hsrc:
        o = os.path.join(work, "h-" + os.path.basename(s).replace(".", "_") + "-" + hh + ".o")
        plain = mc and os.path.basename(s) in ("vx.cpp", "mc.cpp")
        jobs.insert(0, (s, o, [f for f in flags if f != "-fsanitize=thread"] + ["-O2"] if plain else flags))
        objs.append(o)
    compile_all(jobs)
    exe = os.path.join(work, "x-" + chk["harness"][0].replace(".", "_") + "-" + hh)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        lflags = flags if not mc else ["-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strcmp",
            "snprintf", "vsnprintf", "strtol", "strtoll", "strtoull", "strtod"))]
        r = sh([CXX] + lflags + ["-rdynamic"] + objs + ["-o", tmp, "-lpthread", "-ldl"] + chk.get("ldflags", []))
        if r.returncode:
            raise (ApiError if "undefined reference" in r.stdout else BuildError)("linking failed:\n" + r.stdout[:6000])
        os.rename(tmp, exe)
    return exe

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1:" \
    "handle_abort=1:symbolize=1:malloc_context_size=6:quarantine_size_mb=16:detect_container_overflow=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=78"

def read_live(path):
    """Suite, key, message and choices of the execution a dead harness was in."""
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < 9000 or int.from_bytes(b[0:8], "little") != 0x76783031:
        return None
    suite = b[20:148].split(b"\0")[0].decode()
    n = int.from_bytes(b[148:152], "little")
    key = b[152:280].split(b"\0")[0].decode("latin1")
    msg = b[280:280 + 8192].split(b"\0")[0].decode("latin1")
    off = 280 + 8192
    ch = [int.from_bytes(b[off + 2 * i:off + 2 * i + 2], "little") for i in range(min(n, 65536))]
    return dict(suite=suite, key=key, msg=msg, choices=ch)

def known_findings(prop):
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return {}
    return {k["key"]: k for k in json.load(open(f)) if k["property"] == prop and k["status"] == "known"}

def run_replay(exe, suite, choices, tier, known, opts, hang=60):
    os.makedirs(OUT, exist_ok=True)
    f = os.path.join(OUT, "replay-%d.txt" % os.getpid())
    live = f + ".live"
    open(f, "w").write(suite + "\n" + " ".join(map(str, choices)) + "\n")
    cmd = [exe, "--replay", f, "--live", live, "--tier", tier, "--hang", str(hang)] + known + opts
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV,
                           errors="replace", timeout=hang * 3)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        rc, err = 97, "replay did not terminate within %d s" % (hang * 3)
    lv = read_live(live)
    for p in (f, live):
        if os.path.exists(p):
            os.remove(p)
    return rc, err, lv

def main():
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        chk = checks()[rec["property"]]
        try:
            exe = build(chk)
        except ApiError as e:
            print(e)
            return 1
        opts = sum((["--opt", o] for o in chk.get("opts", [])), [])
        rc, err, _ = run_replay(exe, rec["suite"], rec["choices"], rec["tier"], [], opts)
        print(err)
        print("replay exit", rc)
        return 1 if rc else 0

    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    chk = checks()[prop]
    os.makedirs(OUT, exist_ok=True); os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if chk.get("driver"):
        mod = __import__("drivers." + chk["driver"], fromlist=["run"])
        return mod.run(prop, tier, chk)
    try:
        exe = build(chk)
    except ApiError as e:
        # the library itself compiles: what a user's program relies on is gone
        rp = os.path.join(OUT, "%s-%s-0.json" % (prop, tier))
        json.dump(dict(property=prop, tier=tier, suite="?", choices=[], key="does-not-compile", message=str(e),
                       confirmed="compiled again", stderr="", how_to_replay="python3 run.py --replay " + rp), open(rp, "w"), indent=1)
        json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
                       coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=False),
                       assumptions=[], wall_s=round(time.time() - t0, 2), violations=1),
                  open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print("--- does-not-compile:", e)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    except BuildError as e:
        print("BUILD ERROR", e)
        return 3
    tbuild = time.time() - t0
    known = known_findings(prop)
    kargs = sum((["--known", k] for k in known), [])
    oargs = sum((["--opt", o] for o in chk.get("opts", [])), [])
    cap = float(os.environ.get("VERIF_CAP", chk.get("cap_" + tier, 420 if tier == "quick" else 780)))
    tag = os.path.join(OUT, "%s-%d" % (prop, os.getpid()))

    def shard(i):
        base = "%s-%d" % (tag, i)
        cmd = [exe, "--run", base + ".json", "--live", base + ".live", "--states", base + ".st",
               "--shard", "%d/%d" % (i, JOBS), "--tier", tier, "--cap", str(cap)] + kargs + oargs
        if only:
            cmd += ["--suite", only]
        with open(base + ".err", "wb") as ef, open(base + ".out", "wb") as of:
            try:
                rc = subprocess.run(cmd, stdout=of, stderr=ef, env=ENV, timeout=cap + 120).returncode
            except subprocess.TimeoutExpired:
                rc = 97
        res = None
        if os.path.exists(base + ".json"):
            try: res = json.load(open(base + ".json"))
            except ValueError: res = None
        return i, rc, res, read_live(base + ".live"), open(base + ".err", errors="replace").read()

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(shard, range(JOBS)))

    # ---- violations -------------------------------------------------------
    violations, notes = [], []
    for i, rc, res, live, err in results:
        if rc == 0 and res:
            continue
        v = (res or {}).get("violation") if res and rc == 1 else live
        if not v:
            if rc not in (0,):
                notes.append("shard %d ended with %s before its first execution: %s" % (i, rc, err[-2000:]))
                violations.append((dict(suite="?", key="startup-crash", msg=err[-3000:], choices=[]), "startup", err))
            continue
        if violations and len(violations) >= 3:
            continue
        rrc, rerr, rl = run_replay(exe, v["suite"], v["choices"], tier, kargs, oargs)
        if rrc != 0:
            if rl and rl["key"]:
                v["key"], v["msg"] = rl["key"], rl["msg"] or v["msg"]
            elif not v.get("key"):
                v["key"], v["msg"] = "crash", "process died (exit %s)" % rc
            violations.append((v, "replayed alone", rerr))
        else:
            # depends on what ran before it in the same process: run the shard again
            i2, rc2, res2, live2, err2 = shard(i)
            v2 = (res2 or {}).get("violation") if res2 and rc2 == 1 else live2
            if rc2 != 0 and v2 and v2["suite"] == v["suite"] and v2["choices"] == v["choices"]:
                if not v.get("key"):
                    v["key"], v["msg"] = "crash", "process died (exit %s)" % rc
                violations.append((v, "reproduced by re-running shard %d/%d" % (i, JOBS), err2))
            elif rc2 != 0 and v2:
                violations.append((v2, "re-running shard %d/%d fails, at a different execution" % (i, JOBS), err2))
            else:
                notes.append("shard %d failed once (exit %s) and did not reproduce: %s" % (i, rc, err[-1500:]))
                results[i] = (i2, rc2, res2, live2, err2)

    # ---- evidence ---------------------------------------------------------
    suites, outcomes, samples, kn = {}, {}, [], {}
    for i, rc, res, live, err in results:
        for s in (res or {}).get("suites", []):
            d = suites.setdefault(s["name"], dict(executions=0, transitions=0, pruned=0, max_depth=0, complete=True, outcomes={}))
            for k in ("executions", "transitions", "pruned"):
                d[k] += s[k]
            d["max_depth"] = max(d["max_depth"], s["max_depth"])
            d["complete"] = d["complete"] and s["complete"]
            for k, n in s["outcomes"].items():
                d["outcomes"][k] = d["outcomes"].get(k, 0) + n
        for k, n in (res or {}).get("known", {}).items():
            kn[k] = kn.get(k, 0) + n
        samples += (res or {}).get("samples", [])
    sts = ["%s-%d.st" % (tag, i) for i in range(JOBS)]
    r = sh([exe, "--merge"] + sts, env=ENV)
    try: nstates = int(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError): nstates = 0
    # one sample per suite first
    seen, pickd = set(), []
    for s in samples:
        if s.split(":")[0] not in seen:
            seen.add(s.split(":")[0]); pickd.append(s)
    pickd += [s for s in samples if s not in pickd]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(states=nstates,
                            transitions=sum(d["transitions"] for d in suites.values()),
                            traces_validated_against_impl=sum(d["executions"] for d in suites.values()),
                            samples=pickd[:10],
                            exhaustive=all(d["complete"] for d in suites.values()) and not violations,
                            suites=suites, known_findings_hit=kn,
                            explanation=chk.get("explanation", ""),
                            notes=notes),
              assumptions=chk.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), build_s=round(tbuild, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for i in range(JOBS):
        for e in (".json", ".live", ".st", ".err", ".out"):
            p = "%s-%d%s" % (tag, i, e)
            if os.path.exists(p):
                os.remove(p)

    for k in kn:
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (prop, known[k]["what"], kn[k]))
    for n in notes:
        print("note:", n)
    for name, d in suites.items():
        print("  %-28s executions=%d transitions=%d depth<=%d %s %s" % (
            name, d["executions"], d["transitions"], d["max_depth"], "complete" if d["complete"] else "CAPPED",
            json.dumps(d["outcomes"]) if d["outcomes"] else ""))
    print("%s %s: states=%d executions=%d build=%.1fs wall=%.1fs" % (
        prop, tier, nstates, sum(d["executions"] for d in suites.values()), tbuild, time.time() - t0))
    for n, (v, how, err) in enumerate(violations):
        rp = os.path.join(OUT, "%s-%s-%d.json" % (prop, tier, n))
        json.dump(dict(property=prop, tier=tier, suite=v["suite"], choices=v["choices"], key=v["key"], message=v["msg"],
                       confirmed=how, stderr=err[-8000:],
                       how_to_replay="python3 run.py --replay " + rp), open(rp, "w"), indent=1)
        print("--- %s: %s" % (v["key"], v["msg"]))
        print("\n".join("    " + l for l in err.splitlines()[-40:]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1 if violations else 0

if __name__ == "__main__":
    sys.exit(main())

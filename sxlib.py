"""Compiles /repo's current sources and the harnesses to bitcode, runs the symbolic executor, replays what it finds."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("SX_JOBS", str(min(8, os.cpu_count() or 1))))
CLANG, LINK, OPT = "clang++-18", "llvm-link-18", "opt-18"

BASE = ["-std=gnu++20", "-mavx2", "-mbmi2", "-mavx", "-msse4.2", "-mbmi", "-stdlib=libstdc++", "-g1", "-w",
        "-fno-threadsafe-statics", "-include", os.path.join(VERIF, "rt/prelude.h"), "-I" + os.path.join(VERIF, "rt")]
EMIT = ["-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c"]
PRE = ["-passes=default<O1>", "-vectorize-loops=false", "-vectorize-slp=false", "-unroll-threshold=0", "-unroll-full-max-count=0",
       "-force-attribute=_ZN1m5FNV1aEPKc:noinline", "-force-attribute=_ZN1m5FNV1aEPKcm:noinline", "-force-attribute=_ZNKSt4hashIN1m5ValueEEclES1_:noinline"]


def repo_flags():
    f = ["-DM_ENABLE_SANITY_FIELDS", "-I" + REPO + "/include", "-I" + REPO + "/src", "-isystem", "/opt/vp/include", "-isystem", "/usr/include/eigen3"]
    gen = os.path.join(BUILD, "gen")
    need = [("mutable/gitversion.tbl", 'constexpr const char GIT_REV[] = "0";\nconstexpr const char GIT_BRANCH[] = "x";\nconstexpr const char SEM_VERSION[] = "0";\n')]
    for rel, txt in need:
        if not os.path.exists(os.path.join(REPO, "include", rel)):
            p = os.path.join(gen, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(txt)
            f += ["-I" + gen]
    return f


_hash_memo = {}


def fhash(p):
    if p in _hash_memo:
        return _hash_memo[p]
    try:
        h = hashlib.sha1(open(p, "rb").read()).hexdigest()
    except OSError:
        h = "missing"
    _hash_memo[p] = h
    return h


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tmpname(dst):
    return "%s.%d.%d" % (dst, os.getpid(), time.monotonic_ns())


class BuildError(Exception):
    pass


_rtsyms = None


def rtsyms():
    """a list (as a file) of the functions the runtime models define: they replace what headers define"""
    global _rtsyms
    if _rtsyms is None:
        bc = compile_bc(os.path.join(VERIF, "rt/rt.cpp"), ["-fno-builtin"], final=True)
        lst = bc[:-3] + ".syms"
        if not os.path.exists(lst):
            out = [l.split() for l in run(["llvm-nm-18", "--defined-only", bc]).stdout.splitlines()]
            t = tmpname(lst)
            open(t, "w").write("".join(f[-1] + "\n" for f in out if f[-2] in "TD"))
            os.replace(t, lst)
        _rtsyms = lst
    return _rtsyms


def compile_bc(src, flags, final=False):
    """src -> bitcode, cached by the command line and the contents of every file it includes."""
    syms = None if final else rtsyms()
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    key = hashlib.sha1(("\0".join([src, syms or ""] + flags + BASE + EMIT + PRE)).encode()).hexdigest()[:20]
    idx = os.path.join(cdir, os.path.basename(src) + "." + key)
    # idx.N.json : {deps: {path: hash}, bc: file}
    for n in range(4):
        try:
            j = json.load(open("%s.%d.json" % (idx, n)))
        except (OSError, ValueError):
            continue
        if all(fhash(p) == h for p, h in j["deps"].items()) and os.path.exists(j["bc"]):
            return j["bc"]
    dep = tmpname(idx) + ".d"
    out = tmpname(idx) + ".bc"
    r = run([CLANG] + BASE + flags + EMIT + [src, "-o", out, "-MD", "-MF", dep])
    if r.returncode:
        raise BuildError("cannot compile %s:\n%s" % (src, r.stderr[-3000:]))
    if not final:   # what the models define is not inlined from headers; then optimise this unit on its own
        r = run([engine(), "--libstrip", syms, "--out", out + "s", out])
        if r.returncode == 0:
            r = run([OPT, out + "s"] + PRE + ["-o", out])
        os.unlink(out + "s")
        if r.returncode:
            raise BuildError("cannot optimise %s:\n%s" % (src, r.stderr[-3000:]))
    txt = open(dep).read().replace("\\\n", " ")
    os.unlink(dep)
    files = [f for f in txt.split(":", 1)[1].split() if not f.startswith("/usr/")]
    deps = {f: fhash(f) for f in files}
    bch = hashlib.sha1(open(out, "rb").read()).hexdigest()[:16]
    bc = os.path.join(cdir, "%s.%s.bc" % (os.path.basename(src), bch))
    os.replace(out, bc)
    slots = ["%s.%d.json" % (idx, n) for n in range(4)]
    free = [s for s in slots if not os.path.exists(s)]
    slot = free[0] if free else min(slots, key=os.path.getmtime)
    t = tmpname(slot)
    json.dump({"deps": deps, "bc": bc}, open(t, "w"))
    os.replace(t, slot)
    return bc


def engine():
    d = os.path.join(BUILD, "engine")
    exe = os.path.join(d, "sx")
    srcs = sorted(os.path.join(VERIF, "engine", f) for f in os.listdir(os.path.join(VERIF, "engine")))
    h = hashlib.sha1("".join(fhash(s) for s in srcs).encode()).hexdigest()
    stamp = os.path.join(d, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    r = run([os.path.join(VERIF, "engine/build.sh"), d])
    if r.returncode:
        raise BuildError("cannot build the engine:\n" + r.stderr[-3000:])
    open(stamp, "w").write(h)
    return exe


def all_sources():
    src = os.path.join(REPO, "src")
    skip = ("Wasm", "V8", "WebAssembly", "shell.cpp", "lex.cpp", "parse.cpp", "check.cpp", "query_slicer", "cardinality_gen", "allocator_benchmark", "train-operator-model", "WebSocketServer")
    out = []
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".cpp") and not any(f == s or (s in f and not s.endswith(".cpp")) for s in skip):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def wrap(bc, names):
    """a unit whose calls of the named functions go to the harness (as with the linker's --wrap)"""
    w = bc[:-3] + ".w" + hashlib.sha1(" ".join(names).encode()).hexdigest()[:8] + ".bc"
    if os.path.exists(w):
        return w
    syms = {l.split()[-1] for l in run(["llvm-nm-18", bc]).stdout.splitlines() if l.strip()}
    if not any(n in syms or "__real_" + n in syms for n in names):
        return bc
    t = tmpname(w)
    r = run([engine()] + [a for n in names for a in ("--wrap", n)] + ["--out", t, bc])
    if r.returncode:
        raise BuildError("wrap: " + r.stderr[-2000:])
    os.replace(t, w)
    return w


def build(harness, sources, defines=(), hflags=()):
    """returns (engine bitcode, native bitcode): harness + repo sources, with / without the runtime models"""
    rf = repo_flags()
    jobs = [(os.path.join(VERIF, "harness", harness), rf + list(defines) + list(hflags))]
    if isinstance(sources, str):
        sources = all_sources()
    for s in sources:
        p = os.path.join(REPO, s)
        if os.path.exists(p):
            jobs.append((p, rf + list(defines)))
    engine()
    jobs.append((os.path.join(VERIF, "rt/rt.cpp"), ["-fno-builtin"], True))
    rtsyms()
    with ThreadPoolExecutor(JOBS) as ex:
        bcs = list(ex.map(lambda a: compile_bc(*a), jobs))
        wraps = [l.split()[2] for l in open(jobs[0][0]) if l.startswith("// wrap: ")]
        if wraps:
            bcs = list(ex.map(lambda b: wrap(b, wraps), bcs[:-1])) + bcs[-1:]
    ldir = os.path.join(BUILD, "link")
    os.makedirs(ldir, exist_ok=True)
    ebc = os.path.join(ldir, "%s.%s.bc" % (harness, hashlib.sha1("\0".join(bcs).encode()).hexdigest()[:16]))
    nbc = ebc[:-3] + ".native.bc"
    if not os.path.exists(ebc):
        t = tmpname(ebc)
        r = run([LINK] + bcs + ["-o", t])
        if r.returncode:
            raise BuildError("link: " + r.stderr[-2000:])
        r = run(["llvm-nm-18", "--defined-only", t])
        entries = [l.split()[-1] for l in r.stdout.splitlines() if l.split()[-1].startswith("sx_main")]
        keep = ",".join(entries + ["sx_rt_bad_alloc"])
        r = run([OPT, t, "-passes=internalize,globaldce,%sscalarizer,globaldce" % ("default<O1>," if os.path.getsize(t) < 25e6 else ""), "-internalize-public-api-list=" + keep,
                 "-vectorize-loops=false", "-vectorize-slp=false", "-unroll-threshold=0", "-unroll-full-max-count=0", "-scalarize-load-store", "-o", t + "o"])
        os.unlink(t)
        if r.returncode:
            raise BuildError("opt: " + r.stderr[-2000:])
        os.replace(t + "o", ebc)
    return ebc, (nbc, bcs[:-1])


_lib = None


def libsyms():
    global _lib
    if _lib is None:
        so = run([CLANG, "-print-file-name=libstdc++.so.6"]).stdout.strip()
        _lib = {l.split()[-1].split("@")[0] for l in run(["nm", "-D", "--defined-only", so]).stdout.splitlines() if l.strip()}
    return _lib


def compile_obj(bc, asan=False):
    """machine code of one translation unit, cached by the contents of its bitcode"""
    o = bc[:-3] + (".asan.o" if asan else ".o")
    if os.path.exists(o):
        return o
    t = tmpname(o)
    lib, dup = libsyms(), []
    for l in run(["llvm-nm-18", "--defined-only", bc]).stdout.splitlines():
        f = l.split()
        if f[-1] in lib and f[-2] not in "tbdr":
            dup.append(f[-1])
    open(t + ".lst", "w").write("\n".join(dup) + "\n")
    # definitions that libstdc++.so also exports come from the library, as in the project's own build
    r = run([engine(), "--libstrip", t + ".lst", "--out", t + ".bc", bc])
    os.unlink(t + ".lst")
    if r.returncode == 0 and asan:
        r = run([OPT, t + ".bc", "-passes=forceattrs,asan", "-force-attribute=sanitize_address", "-o", t + ".bc"])
    if r.returncode == 0:
        r = run([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-c", "-w", "-x", "ir", t + ".bc", "-o", t, "-ffunction-sections", "-fdata-sections"])
    os.unlink(t + ".bc")
    if r.returncode:
        raise BuildError("native: " + r.stderr[-2000:])
    os.replace(t, o)
    return o


def native(nat, entry, asan=False):
    """the same translation units, compiled to machine code against the real libstdc++ and libc; one program per harness"""
    nbc, bcs = nat
    exe = nbc[:-10] + (".asan" if asan else "") + ".exe"
    if not os.path.exists(exe):
        t = tmpname(exe)
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda b: compile_obj(b, asan), bcs))
        entries = sorted({l.split()[-1] for l in run(["llvm-nm-18", "--defined-only", bcs[0]]).stdout.splitlines() if l.split()[-1].startswith("sx_main")})
        tab = t + ".tab.h"
        open(tab, "w").write("".join('extern "C" void %s();\n' % e for e in entries) + "static const struct { const char *n; void (*f)(); } g_entries[] = {" + "".join('{"%s", %s},' % (e, e) for e in entries) + "};\n")
        sxn = t + ".sxn.o"
        r = run([CLANG, "-O1", "-w", "-std=gnu++20", "-I" + os.path.join(VERIF, "rt"), "-include", tab] + (["-DSX_ASAN"] if asan else []) + ["-c", os.path.join(VERIF, "rt/sxn.cpp"), "-o", sxn])
        if r.returncode:
            raise BuildError("sxn: " + r.stderr[-2000:])
        r = run([CLANG] + objs + [sxn, "-o", t, "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-no-pie"] + ["-lpthread", "-ldl", "-lm"] + (["-fsanitize=address"] if asan else []))
        os.unlink(sxn)
        os.unlink(tab)
        if r.returncode:
            raise BuildError("native link: " + r.stderr[-2000:])
        os.replace(t, exe)
    return exe + "\t" + entry


def replay(exe, values, timeout=60, valgrind=False):
    """returns (status, message, observations); status as printed by the native harness library"""
    with tempfile.TemporaryDirectory(prefix="sxr") as d:
        rp, op = os.path.join(d, "in"), os.path.join(d, "out")
        with open(rp, "w") as f:
            for n, v in values:
                f.write("%s\t%d\n" % (n, v))
        env = dict(os.environ, SX_REPLAY=rp, SX_OUT=op, ASAN_OPTIONS="detect_leaks=0:exitcode=98:detect_stack_use_after_return=1")
        cmd = exe.split("\t")
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=no", "--leak-check=no"] + cmd
        try:
            r = subprocess.run(cmd, env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout, errors="replace")
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            return "TIMEOUT", "no result within %ds" % timeout, []
        obs, last = [], None
        if os.path.exists(op):
            for l in open(op, errors="replace"):
                l = l.rstrip("\n")
                if l.startswith("OBS "):
                    _, t, v = l.split(" ")
                    obs.append([t, int(v)])
                elif l:
                    last = l
        if rc == 99 and valgrind:
            m = re.search(r"==\d+== (Invalid|Mismatched|Conditional|Process|Jump|Source)[^\n]*", err)
            return "MEMORY", m.group(0) if m else "valgrind error", obs
        if rc == 98:
            m = re.search(r"ERROR: AddressSanitizer[^\n]*", err)
            return "MEMORY", m.group(0) if m else "asan error", obs
        if last:
            k, _, m = last.partition(" ")
            return k, m, obs
        if rc < 0:
            return "SIGNAL", str(-rc) + ": " + " | ".join(err.strip().splitlines()[-3:])[:400], obs
        return "EXIT", str(rc), obs


def explore(ebc, entry, time_limit, jobs=JOBS, args=()):
    out = tempfile.mktemp(prefix="sxo")
    cmd = ["bash", "-c", 'ulimit -s unlimited; exec "$@"', "sx", engine(), ebc, "--entry", entry, "--out", out, "--jobs", str(jobs), "--time", str(time_limit), "--prefix", REPO + "/"] + list(args)
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        _, err = p.communicate(timeout=time_limit + 120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        _, err = p.communicate()
        err += "\nengine killed"
    res = {"violations": [], "paths_sample": [], "stats": {}, "cover": {}, "msgs": {}, "funcs": set(), "why": set(), "rc": p.returncode, "err": err[-3000:], "wall": time.time() - t0}
    procs = 0
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                j = json.loads(l)
            except ValueError:
                res["why"].add("unreadable engine record")
                continue
            if j["t"] == "violation":
                res["violations"].append(j)
            elif j["t"] == "path":
                res["paths_sample"].append(j)
            elif j["t"] == "stats":
                procs += 1
                for k, v in j.items():
                    if isinstance(v, (int, float)):
                        if k.startswith("max_"):
                            res["stats"][k] = max(res["stats"].get(k, 0), v)
                        elif k != "wall":
                            res["stats"][k] = res["stats"].get(k, 0) + v
                for k, v in j["cover"].items():
                    res["cover"][k] = res["cover"].get(k, 0) + v
                for k, v in j["assert_msgs"].items():
                    res["msgs"][k] = res["msgs"].get(k, 0) + v
                res["funcs"].update(j["funcs"])
                res["why"].update(j["incomplete_why"])
        os.unlink(out)
    res["procs"] = procs
    if p.returncode != 0 or procs == 0:
        res["why"].add("engine ended abnormally (rc %s): %s" % (p.returncode, err[-400:]))
    return res

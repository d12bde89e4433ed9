"""Driver: compiles /repo sources + harness to bitcode, runs the symbolic executor, replays counterexamples."""
import concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SECUREFS_REPO", "/repo")
SRC = os.path.join(REPO, "sources")
BUILD = os.path.join(VERIF, "build")
SYMEX = os.path.join(BUILD, "symex")
NCPU = min(8, os.cpu_count() or 1)
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
INCS = ["-include", VERIF + "/stubs/pre.h", "-I" + VERIF + "/stubs", "-I" + VERIF + "/rt", "-I" + SRC,
        "-I/usr/include/fuse"]
DEFS = ["-DFUSE_USE_VERSION=29", "-D_FILE_OFFSET_BITS=64", "-DHAS_XATTR=1", "-DHAS_FUTIMENS=1", "-DHAS_UTIMENSAT=1",
        "-DHAS_AT_FUNCTIONS=1", "-DHAS_CLOCK_GETTIME=1", "-DSECUREFS_VERIF=1"]
BCFLAGS = ["-std=c++17", "-w", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-gline-tables-only", "-U_FORTIFY_SOURCE", "-fno-access-control", "-fno-pie", "-fno-pic", "-emit-llvm", "-c"]
NATFLAGS = ["-std=c++17", "-w", "-O0", "-g1", "-U_FORTIFY_SOURCE", "-fno-access-control", "-DSYM_NATIVE=1",
            "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-ffunction-sections", "-fdata-sections", "-c"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class BuildError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors="replace", **kw)


def ensure_engine():
    r = sh(["make", "-s", "-j8", "-C", VERIF + "/engine"], timeout=900)
    if r.returncode != 0 or not os.path.exists(SYMEX):
        raise BuildError("engine build failed:\n" + r.stdout[-3000:])


class Builder:
    """Compiles each file at most once per (file, flags) within a run."""

    def __init__(self, work):
        self.work = work
        self.lock = threading.Lock()
        self.futs = {}
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def _compile(self, path, flags, out):
        r = sh([CLANG] + flags + DEFS + INCS + [path, "-o", out])
        if r.returncode != 0:
            raise BuildError("compile %s failed:\n%s" % (path, r.stdout[-4000:]))
        return out

    def obj(self, path, native, extra=()):
        key = (path, native, tuple(extra))
        with self.lock:
            if key not in self.futs:
                h = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
                out = os.path.join(self.work, os.path.basename(path) + "." + h + (".o" if native else ".bc"))
                self.futs[key] = self.pool.submit(self._compile, path,
                                                  (NATFLAGS if native else BCFLAGS) + list(extra), out)
            return self.futs[key]

    def files(self, unit, native):
        f = [VERIF + "/harness/" + unit["harness"], VERIF + "/rt/crypto_model.cpp", VERIF + "/rt/common.cpp"]
        f += [os.path.join(SRC, s) for s in unit["src"]]
        f += [VERIF + "/rt/rt_native.cpp" if native else VERIF + "/rt/rt_sym.cpp"]
        return f

    def bitcode(self, unit):
        objs = [self.obj(p, False, unit.get("defs", ()) if "/rt/rt_" not in p else ("-fno-builtin",)) for p in self.files(unit, False)]
        objs = [o.result() for o in objs]
        h = hashlib.sha1(" ".join(objs).encode()).hexdigest()[:12]
        out = os.path.join(self.work, "l" + h + ".bc")
        with self.lock:
            if ("link", out) not in self.futs:
                self.futs[("link", out)] = self.pool.submit(self._link, objs, out)
        return self.futs[("link", out)].result()

    def _link(self, objs, out):
        r = sh([LINK, "-o", out] + objs)
        if r.returncode != 0:
            raise BuildError("llvm-link failed:\n" + r.stdout[-3000:])
        return out

    def prefetch_native(self, unit):
        for p in self.files(unit, True):
            ex = list(unit.get("defs", ()))
            if p.endswith("rt_native.cpp"):
                ex = ["-DSYM_ENTRY=" + unit["entry"]]
            self.obj(p, True, ex)

    def native(self, unit, tsan=False):
        objs = []
        for p in self.files(unit, True):
            ex = list(unit.get("defs", ()))
            if tsan:    # the runtime, which hands over between the threads, stays invisible to ThreadSanitizer
                ex += ["-fno-sanitize=address"] + ([] if "rt_native" in p else ["-fsanitize=thread"])
            if p.endswith("rt_native.cpp"):
                ex = ["-DSYM_ENTRY=" + unit["entry"]] + (["-fno-sanitize=address", "-DSYM_TSAN"] if tsan else [])
            objs.append(self.obj(p, True, ex))
        objs = [o.result() for o in objs]
        h = hashlib.sha1((" ".join(objs)).encode()).hexdigest()[:12]
        out = os.path.join(self.work, "n" + h)
        with self.lock:
            if ("nlink", out) not in self.futs:
                self.futs[("nlink", out)] = self.pool.submit(self._nlink, objs, out, tsan)
        return self.futs[("nlink", out)].result()

    def _nlink(self, objs, out, tsan=False):
        """Parts of the sources that the entry cannot reach may need libraries that are not modelled: anything still
        undefined becomes a symbol that traps when used."""
        cmd = [CLANG, "-fsanitize=" + ("thread" if tsan else "address"), "-Wl,--gc-sections", "-Wl,--no-demangle", "-o", out] + objs + ["-lpthread"]
        r = sh(cmd)
        if r.returncode != 0:
            und = sorted(set(re.findall(r"undefined reference to [`']([^`']+)'", r.stdout)))
            if und:
                stub = out + ".undef.s"
                with open(stub, "w") as f:
                    f.write(".section .text.undef,\"awx\"\n.balign 16\n")
                    for u in und:
                        f.write(".weak \"%s\"\n\"%s\":\n" % (u, u))
                    f.write("ud2\n.fill 4096,1,0\n")
                r = sh(cmd + [stub])
        if r.returncode != 0:
            raise BuildError("native link failed:\n" + r.stdout[-3000:])
        return out


def limit_mem(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        os.setsid()
    return f


def run_unit(b, unit, jobs, maxsec, idx):
    """Runs the executor; returns merged result dict."""
    bc = b.bitcode(unit)
    out = os.path.join(b.work, "u%d.json" % idx)
    cmd = [SYMEX, bc, "-e", unit["entry"], "-o", out, "-t", str(int(maxsec)), "-m", str(unit.get("maxviol", 12)),
           "-r", REPO + "/", "-j", str(jobs), "-s", str(unit.get("maxsteps", 60000000)),
           "-q", str(unit.get("query_ms", 60000))]
    for k, v in unit.get("params", {}).items():
        cmd += ["-p", "%s=%d" % (k, v)]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         preexec_fn=limit_mem(unit.get("mem_gb", 8)))
    try:
        txt, _ = p.communicate(timeout=maxsec + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        txt, _ = p.communicate()
        txt += "\nKILLED: over time"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    files = [out] if os.path.exists(out) else []
    files += glob.glob(out + ".*")
    want = 1
    if not os.path.exists(out):
        try:
            want = int(open(out + "-workers").read())
        except (OSError, ValueError):
            want = len(files) + 1
    res = None
    for f in files:
        try:
            d = json.load(open(f))
        except Exception as e:
            txt += "\nbad output %s: %s" % (f, e)
            continue
        if res is None:
            res = d
            continue
        for k in ("paths", "forks", "killed", "steps", "queries", "z3_calls", "solver_time", "unknown", "incomplete",
                  "pending", "asserts", "memchecks", "exprs"):
            res[k] += d[k]
        for k in ("reach", "errors", "assertions"):
            for a, v in d[k].items():
                res[k][a] = res[k].get(a, 0) + v
        res["samples"] += d["samples"]
        res["violations"] += d["violations"]
        for a, v in d["functions"].items():
            if a not in res["functions"] or res["functions"][a][1] < v[1]:
                res["functions"][a] = v
    if res is None:
        res = dict(paths=0, forks=0, killed=0, steps=0, queries=0, z3_calls=0, solver_time=0, unknown=0, incomplete=1,
                   pending=1, asserts=0, memchecks=0, exprs=0, reach={}, errors={"engine: " + txt[-300:]: 1},
                   assertions={}, samples=[], violations=[], functions={})
    elif len(files) < want:
        res["incomplete"] += want - len(files)
        res["errors"]["engine: %d worker(s) died (memory limit?)" % (want - len(files))] = 1
    res["wall"] = time.time() - t
    res["log"] = txt[-6000:]
    return res


def write_input(path, unit, inputs):
    with open(path, "w") as f:
        for k, v in unit.get("params", {}).items():
            f.write("param %s=%d\n" % (k, v))
        for n, h in inputs:
            f.write("%s %s\n" % (re.sub(r"\s", "_", n) or "_", h or "-"))


def run_native(exe, inp, fill=None, timeout=60):
    env = dict(os.environ)
    env["SYM_INPUT"] = inp
    o = "exitcode=99:detect_leaks=0:allocator_may_return_null=1:alloc_dealloc_mismatch=1:detect_stack_use_after_return=1"
    if fill is not None:
        o += ":max_malloc_fill_size=1048576:malloc_fill_byte=%d" % fill
    env["ASAN_OPTIONS"] = o
    env["TSAN_OPTIONS"] = "exitcode=66:report_thread_leaks=0"
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -1000, "TIMEOUT"


def replay(b, unit, viol, path):
    """Returns (confirmed, text)."""
    write_input(path, unit, viol["inputs"])
    if viol["kind"] == "race":
        rc, out = run_native(b.native(unit, True), path)
        return "ThreadSanitizer: data race" in out, "rc=%d %s" % (rc, out[:3000])
    exe = b.native(unit)
    last = ""
    for fill in (0xaa, 0, 0xff, 1):
        rc, out = run_native(exe, path, fill)
        last = "rc=%d %s" % (rc, out[-1500:])
        if rc in (77, 99) or (rc < 0):
            return True, last
    return False, last

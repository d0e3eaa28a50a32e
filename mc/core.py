"""Shared machinery: building the real compiler from /repo's working tree, driving it, and reporting.

Nothing in here looks at how /repo's code is written: it is compiled as is (every source/**/*.c except
source/tests), plus the runtime library and the embedded text resources, and then only executed.
"""
import atexit, concurrent.futures, hashlib, json, multiprocessing, os, re, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KEFIR_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LIMIT = int(os.environ.get("MC_LIMIT", "25"))
NJ = max(1, min(8, os.cpu_count() or 1))
os.environ["LC_ALL"] = "C.UTF-8"
os.environ["LANG"] = "C.UTF-8"

VARIANTS = {
    "opt": dict(cc="gcc", cflags=["-O1", "-g1"], ldflags=[], defs=["-DKSERVE_AS_LIMIT"]),
    "asan": dict(cc="clang", cflags=["-O1", "-g1", "-fno-omit-frame-pointer",
                 "-fsanitize=address,undefined", "-fno-sanitize=float-cast-overflow,float-divide-by-zero", "-fno-sanitize-recover=undefined"],
                 ldflags=["-fsanitize=address,undefined"], defs=[]),
    "addr": dict(cc="clang", cflags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"],
                 ldflags=["-fsanitize=address"], defs=[]),
}


class CheckError(Exception):
    """The check itself could not run (neither held nor violated)."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode("utf-8", "replace")


# ------------------------------------------------------------------------------------------ scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (1 << 30) else None
        d = tempfile.mkdtemp(prefix="kmc-", dir=base)
        _scratch = (os.getpid(), d)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return _scratch[1]


# ------------------------------------------------------------------------------------------ build
def _digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_files():
    out = []
    for top in ("source", "headers"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            rel = os.path.relpath(d, REPO)
            if rel == "source/tests" or rel.startswith("source/tests/"):
                ds[:] = []
                continue
            for f in sorted(fs):
                out.append(os.path.join(rel, f))
    return out


def tree_key():
    return _digest(*[f.encode() + b"\0" + _read(os.path.join(REPO, f)) for f in repo_files()])


def build_objects(variant, extra_cflags=()):
    """Compiles every non-test source of /repo; returns (library objects, main object, help object)."""
    v = VARIANTS[variant]
    files = repo_files()
    hdr_key = _digest(*[f.encode() + b"\0" + _read(os.path.join(REPO, f)) for f in files if f.endswith(".h")])
    txt_key = _digest(*[f.encode() + b"\0" + _read(os.path.join(REPO, f)) for f in files
                        if not f.endswith((".h", ".c", ".mk"))])
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    jobs, res = [], {}
    for f in files:
        if f.endswith(".c"):
            flags = v["cflags"] + list(extra_cflags) + (["-Dmain=kefir_cli_main"] if f == "source/main/main.c" else [])
            key = _digest(v["cc"], " ".join(flags), hdr_key, f, _read(os.path.join(REPO, f)))
            cmd = [v["cc"], "-std=c11", "-w"] + flags + ["-Iheaders", "-c", f]
        elif f.endswith(".s") and f not in ("source/runtime/amd64_sysv.s",):
            key = _digest("as", f, txt_key)
            cmd = ["as", f]
        else:
            continue
        o = os.path.join(objdir, key + ".o")
        res[f] = o
        if not os.path.exists(o):
            jobs.append((cmd, o))

    def one(job):
        cmd, o = job
        tmp = o + ".%d.tmp" % os.getpid()
        rc, out = sh(cmd + ["-o", tmp], cwd=REPO)
        if rc != 0:
            raise CheckError("the tree does not compile: %s\n%s" % (" ".join(cmd), out))
        os.replace(tmp, o)

    with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
        list(ex.map(one, jobs))
    main = [res.pop(k) for k in list(res) if k.startswith("source/main/")]
    return list(res.values()), main


def build_native(name, variant, sources, with_main=True, extra=(), libs=()):
    """Links /verif/native sources with the real objects."""
    v = VARIANTS[variant]
    lib, main = build_objects(variant)
    srcs = [os.path.join(VERIF, "native", s) for s in sources]
    key = _digest(name, variant, *(lib + main), *[_read(s) for s in srcs], " ".join(extra))
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, "%s-%s-%s" % (name, variant, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [v["cc"], "-std=gnu11", "-w"] + v["cflags"] + v["defs"] + list(extra) + ["-I", os.path.join(REPO, "headers")] + srcs + \
              lib + (main if with_main else []) + v["ldflags"] + list(libs) + ["-o", tmp]
        rc, out = sh(cmd)
        if rc != 0:
            raise CheckError("cannot link %s:\n%s" % (name, out[-3000:]))
        os.replace(tmp, exe)
        for old in os.listdir(bindir):
            p = os.path.join(bindir, old)
            if old.startswith("%s-%s-" % (name, variant)) and p != exe:
                try:
                    if time.time() - os.path.getmtime(p) > 600:
                        os.unlink(p)
                except OSError:
                    pass
    return exe


def prune_cache():
    """Keeps the object cache small (it is ignored by git, and rebuilt when absent)."""
    d = os.path.join(BUILD, "obj")
    try:
        fs = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
    except OSError:
        return
    for _, f in fs[:-4000]:
        try:
            os.unlink(os.path.join(d, f))
        except OSError:
            pass


def build_kserve(variant="opt"):
    return build_native("kserve", variant, ["kserve.c"])


_rt = None


def runtime_obj():
    """The runtime library, assembled from the working tree."""
    src = os.path.join(REPO, "source/runtime/amd64_sysv.s")
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, "rt-%s.o" % _digest(_read(src)))
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        rc, out = sh(["as", "-o", tmp, src])
        if rc != 0:
            raise CheckError("the runtime does not assemble:\n" + out)
        os.replace(tmp, o)
    return o


# ------------------------------------------------------------------------------------------ driver
class Result:
    __slots__ = ("status", "out", "err")

    def __init__(self, status, out, err):
        self.status, self.out, self.err = status, out, err

    @property
    def ok(self):
        return self.status == 0

    @property
    def rejected(self):
        """An orderly failure: exit code 1 with a diagnostic."""
        return os.WIFEXITED(self.status) and os.WEXITSTATUS(self.status) == 1

    @property
    def timed_out(self):
        return os.WIFSIGNALED(self.status) and os.WTERMSIG(self.status) == signal.SIGPROF

    @property
    def crashed(self):
        return not self.ok and not self.rejected

    def describe(self):
        if os.WIFSIGNALED(self.status):
            return "signal %d" % os.WTERMSIG(self.status)
        return "exit %d" % os.WEXITSTATUS(self.status)


class KServe:
    """One fork server process; compile() runs the real driver once."""

    def __init__(self, exe):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")
        self.exe = exe
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=scratch())

    def _rd(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise CheckError("the fork server died")
        return b

    def run(self, args, src=b"", cpu_ms=20000):
        if isinstance(src, str):
            src = src.encode("utf-8", "surrogateescape")
        m = [struct.pack("<I", len(args))]
        for a in args:
            a = a.encode("utf-8", "surrogateescape") if isinstance(a, str) else a
            m.append(struct.pack("<I", len(a)) + a)
        m.append(struct.pack("<II", cpu_ms, len(src)))
        m.append(src)
        self.p.stdin.write(b"".join(m))
        self.p.stdin.flush()
        st, ol, el = struct.unpack("<III", self._rd(12))
        return Result(st, self._rd(ol), self._rd(el))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


_servers = {}


def kefir(args, src=b"", cpu_ms=20000, variant="opt"):
    """Runs the real compiler in this worker's fork server."""
    k = (os.getpid(), variant)
    s = _servers.get(k)
    if s is None:
        s = _servers[k] = KServe(build_kserve(variant))
    return s.run(args, src, cpu_ms)


# ------------------------------------------------------------------------------------------ compile and run
_n = 0


def tmp(suffix):
    global _n
    _n += 1
    return os.path.join(scratch(), "%d_%d%s" % (os.getpid(), _n, suffix))


def assemble(asm):
    s, o = tmp(".s"), tmp(".o")
    with open(s, "wb") as f:
        f.write(asm)
    rc, out = sh(["as", "-o", o, s])
    os.unlink(s)
    return (o, "") if rc == 0 else (None, out)


_gcc_cache = {}


def gcc_obj(src, flags=(), cc="gcc", cached=False):
    key = (src, tuple(flags), cc)
    if cached and key in _gcc_cache and os.path.exists(_gcc_cache[key]):
        return _gcc_cache[key], ""
    c, o = tmp(".c"), tmp(".o")
    with open(c, "w") as f:
        f.write(src)
    rc, out = sh([cc, "-std=gnu11", "-w", "-fno-pie", "-fno-strict-aliasing"] + ([] if any("sanitize" in f for f in flags) else ["-fwrapv"]) + list(flags) + ["-c", c, "-o", o])
    os.unlink(c)
    if rc != 0:
        return None, out
    if cached:
        _gcc_cache[key] = o
    return o, out


def link(objs, libs=()):
    exe = tmp(".exe")
    rc, out = sh(["gcc", "-no-pie", "-z", "noexecstack", "-o", exe] + objs + [runtime_obj()] + list(libs))
    return (exe, "") if rc == 0 else (None, out)


def run_exe(exe, args=(), timeout=60, stdin=None):
    try:
        r = subprocess.run([exe] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=stdin)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return -999, e.stdout or b"", e.stderr or b""


def rm(*paths):
    for p in paths:
        if p:
            try:
                os.unlink(p)
            except OSError:
                pass


# ------------------------------------------------------------------------------------------ parallel map
def _call(job):
    fn, x = job
    try:
        return ("ok", fn(x))
    except CheckError as e:
        return ("err", str(e))
    except BaseException:
        return ("err", traceback.format_exc())


def pmap(fn, items, nj=None, chunksize=1):
    """Unordered parallel map over items (a generator is fine)."""
    nj = nj or NJ
    if nj == 1:
        for x in items:
            yield fn(x)
        return
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(nj) as pool:
        for st, r in pool.imap_unordered(_call, ((fn, x) for x in items), chunksize):
            if st == "err":
                pool.terminate()
                raise CheckError(r)
            yield r


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


# ------------------------------------------------------------------------------------------ reporting
class Check:
    """One run of one property's check."""

    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.viol = []          # unlisted
        self.known_hit = {}     # finding id -> count
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.parts = {}
        self.evdir = os.path.join(VERIF, "evidence")
        os.makedirs(self.evdir, exist_ok=True)
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = []
        if os.path.exists(kf):
            for e in json.load(open(kf)).get("findings", []):
                if e["property"] == pid and e.get("status", "open") == "open":
                    self.known.append(e)

    @property
    def quick(self):
        return self.tier == "quick"

    def add(self, part, states=0, transitions=0, traces=0, samples=(), **kw):
        """Accounts for explored states (distinct cases), transitions (checked steps/observations) and traces
        replayed against the implementation."""
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces
        p = self.parts.setdefault(part, {"states": 0, "transitions": 0, "traces": 0})
        p["states"] += states
        p["transitions"] += transitions
        p["traces"] += traces
        for k, v in kw.items():
            p[k] = (p.get(k, 0) + v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v
        for s in samples:
            if len(self.cov["samples"]) < 12:
                self.cov["samples"].append(s)

    def violation(self, key, detail, artefact=None):
        """key: canonical one-line identification of the failing case; detail: human text; artefact: file text."""
        for e in self.known:
            if any(re.fullmatch(p, key, re.S) for p in e["keys"]):
                self.known_hit[e["id"]] = self.known_hit.get(e["id"], 0) + 1
                return
        self.viol.append((key, detail, artefact))

    def too_many(self):
        return len(self.viol) >= LIMIT

    def finish(self, exhaustive=True, notes=None):
        d = os.path.join(self.evdir, "replay", self.pid)
        shutil.rmtree(d, ignore_errors=True)
        lines = []
        for i, (key, detail, art) in enumerate(self.viol[:LIMIT]):
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%03d.txt" % i)
            with open(p, "w", errors="surrogateescape") as f:
                f.write("property: %s\ncase: %s\n\n%s\n" % (self.pid, key, detail))
                if art:
                    f.write("\n----- artefact -----\n%s\n" % art)
            lines.append((p, key, detail))
        self.cov["parts"] = self.parts
        self.cov["exhaustive"] = bool(exhaustive)
        if notes:
            self.cov["notes"] = notes
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        if self.known_hit:
            self.cov["known_findings_seen"] = self.known_hit
        with open(os.path.join(self.evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for e in self.known:
            if e["id"] not in self.known_hit:
                continue
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, e["id"], e["what"]))
        for p, key, detail in lines:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("   case: %s" % key[:300])
            print("   %s" % detail[:600].replace("\n", "\n   "))
        print("%s %s: states=%d transitions=%d traces=%d wall=%.1fs violations=%d" % (
            self.pid, self.tier, self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"],
            time.time() - self.t0, len(self.viol)))
        sys.stdout.flush()
        prune_cache()
        return 1 if self.viol else 0

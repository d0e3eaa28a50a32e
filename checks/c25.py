"""C25: determinism."""
TECHNIQUE = "exhaustive enumeration of perturbations of everything that must not matter (allocator placement, fill and reuse policies, stack contents, address randomisation, environment, locale, working directory, input channel, output channel, option order, preceding compilations in the same process) x sources x stages, each run on the real compiler and compared byte for byte with the undisturbed run"
NOTE = ("The compiler's allocator is replaced by one whose placement order (ascending, descending, scattered), memory contents and reuse policy are enumerated. The names given to the input are fixed with --source-id so that diagnostics are comparable. __DATE__, __TIME__ (which depend on the clock and time zone unless --pp-timestamp is given), the documented KEFIR_DISABLE_LONG_DOUBLE variable and non-ASCII sources under a locale that cannot encode them are not claimed.")
import itertools
import os
import struct
import subprocess
from mc import core
from checks.c24 import SRC, MODES, OPTS


def many(n):
    """Sources with many entities of one kind, where an unordered container or an address would show."""
    r = {}
    ids = ["n%s" % chr(97 + (7 * i) % 26) + str((i * 13) % n) for i in range(n)]
    r["globals"] = "".join("int %s = %d;\n" % (x, i) for i, x in enumerate(ids))
    r["tentative"] = "".join("int %s; static char s%s[%d]; extern long e%s; long *p%s = &e%s;\n" % (x, x, i + 1, x, x, x) for i, x in enumerate(ids))
    r["functions"] = "".join("%sint %s(void) { return %d; }\n" % ("static " if i % 3 == 0 else "", x, i) for i, x in enumerate(ids))
    r["calls"] = "".join("int %s(int);\n" % x for x in ids) + "int f(void) { return " + " + ".join("%s(%d)" % (x, i) for i, x in enumerate(ids)) + "; }\n"
    r["strings"] = "char *t[] = { " + ", ".join('"%s%d"' % (x, i % 4) for i, x in enumerate(ids)) + " };\n" + "char *g(int i) { return " + " ".join('i == %d ? "%s" :' % (i, x) for i, x in enumerate(ids)) + ' ""; }\n'
    r["wide"] = "void *t[] = { " + ", ".join('%s"%s"' % (("L", "u", "U", "u8", "")[i % 5], x) for i, x in enumerate(ids)) + " };\n"
    r["labels"] = "int f(int i) { " + " ".join("if (i == %d) goto %s;" % (i, x) for i, x in enumerate(ids)) + " " + " ".join("%s: i++;" % x for x in reversed(ids)) + " return i; }\n"
    r["cases"] = "int f(int i) { switch (i) { " + " ".join("case %d: i += %d; break;" % ((i * 7919) % 1000 - 300, i) for i in range(n)) + " default: i = 0; } return i; }\n"
    r["statics"] = "int f(void) { " + " ".join("static int %s = %d;" % (x, i) for i, x in enumerate(ids)) + " return " + " + ".join(ids) + "; }\nint g(void) { " + " ".join("{ static int %s = %d; %s++; }" % (x, i, x) for i, x in enumerate(ids)) + " return 0; }\n"
    r["locals"] = "int f(void) { " + " ".join("int %s = %d;" % (x, i) for i, x in enumerate(ids)) + " { " + " ".join("double d%s = %d;" % (x, i) for i, x in enumerate(ids)) + " return " + " + ".join("d" + x for x in ids) + "; } }\n"
    r["tags"] = "".join("struct %s { int a%d; struct %s *n; } *v%s;\n" % (x, i, ids[(i + 3) % n], x) for i, x in enumerate(ids))
    r["members"] = "struct s { " + " ".join("%s %s;" % (("char", "long", "double", "int")[i % 4], x) for i, x in enumerate(ids)) + " } v = { " + ", ".join(".%s = %d" % (x, i) for i, x in enumerate(reversed(ids))) + " };\nlong f(struct s *p) { return " + " + ".join("p->" + x for x in ids) + "; }\n"
    r["enums"] = "enum { " + ", ".join(ids) + " };\nint t[] = { " + ", ".join(reversed(ids)) + " };\n"
    r["typedefs"] = "".join("typedef int %s[%d];\n" % (x, i + 1) for i, x in enumerate(ids)) + "".join("%s v%s;\n" % (x, x) for x in reversed(ids))
    r["macros"] = "".join("#define %s %d\n#define F%s(x) x + %s\n" % (x, i, x, x) for i, x in enumerate(ids)) + " ".join("%s F%s(%s)" % (x, x, ids[(i + 5) % n]) for i, x in enumerate(ids)) + "\n"
    r["expansions"] = "#define A(x) B(x) x ## 1 #x\n#define B(x) C(x, x) A\n#define C(x, ...) x __VA_ARGS__ B\nint " + ", ".join("A(%s)" % x for x in ids) + ";\n"
    r["vla"] = "int f(int n) { " + " ".join("char %s[n + %d];" % (x, i) for i, x in enumerate(ids[:12])) + " return " + " + ".join("sizeof " + x for x in ids[:12]) + "; }\n"
    r["floats"] = "double t[] = { " + ", ".join("%d.%d" % (i, i * i) for i in range(n)) + " };\ndouble f(double x) { return " + " + ".join("x * %d.%d" % (i, i * 7) for i in range(n)) + "; }\n"
    r["pads"] = "struct s { char a; long b; char c; long double d; char e : 3; } v = { 1, 2, 3, 4, 5 }; union u { char c; long double d; } w = { 1 }; long double x[2] = { 1.5L, -2 }; struct s f(struct s p) { struct s q = { 9 }; return p.a ? p : q; }\n"
    r["redeclared"] = "int a; int a; extern int a; int f(); int f(int); static int s(void); int g(void) { return s() + a; } static int s(void) { return 1; } int a = 3;\n"
    for i, bad in enumerate(("int f(void) { return undeclared1 + undeclared2; }", "int x; double x;", "struct s { int a; int a; };", "int f(void) { goto a; goto b; goto c; }", "int a[2] = { 1, 2, 3, 4 };", "int f(void) { switch (1) { case 1: case 2: case 1: case 2: ; } }", "char *p = \"abc\n;", "#if 1 +\n#endif", "#define F(x, x) 1", "#include \"none.h\"", "int f(int a, int a);", "void f(void) { x y z; }", "#error some text", "int i = 08;", "int c = '';", "_Static_assert(0, \"message\");")):
        r["bad%d" % i] = r["globals"] + bad + "\n"
    return r


def _exec(exe, args, src, env, cwd=None, stdin=True, pre=()):
    p = subprocess.run(list(pre) + [exe] + args, input=src.encode() if stdin else None, stdin=None if stdin else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, timeout=300)
    return p.returncode, p.stdout, p.stderr


def _perturb(j):
    exe, name, src, mode, args, full = j
    sid = ["--source-id", "input.c"]
    base = {"LC_ALL": "C.UTF-8", "PATH": os.environ.get("PATH", "/usr/bin")}
    d = core.scratch()
    f = os.path.join(d, "in-%s-%d.c" % (name, os.getpid()))
    with open(f, "w") as fd:
        fd.write(src)
    ref = _exec(exe, sid + args, src, base)
    runs = [("a second run", ref == _exec(exe, sid + args, src, base))]
    fills = ["00", "ff", "a5", "01"] if full else ["00", "ff", "a5"]
    for o, fl, r in itertools.product("udl", fills, "ny"):
        runs.append(("allocator %s%s%s" % (o, fl, r), ref == _exec(exe, sid + args, src, dict(base, KPERT=o + fl + r))))
    for what, env in (("an empty environment", {"LC_ALL": "C.UTF-8"}), ("a large environment", dict(base, **{"V%d" % i: "x" * 200 for i in range(200)})), ("LC_ALL=C", dict(base, LC_ALL="C")), ("LC_ALL=POSIX", dict(base, LC_ALL="POSIX")), ("an unknown locale", dict(base, LC_ALL="xx_YY.UTF-8")), ("LANG only", {"LANG": "C.UTF-8"}),
                      ("HOME, TMPDIR, USER and COLUMNS", dict(base, HOME="/nonexistent", TMPDIR="/nonexistent", USER="nobody", COLUMNS="20", TERM="xterm", CPATH="/nonexistent", C_INCLUDE_PATH="/nonexistent")), ("POSIXLY_CORRECT", dict(base, POSIXLY_CORRECT="1"))):
        runs.append((what, ref == _exec(exe, sid + args, src, env)))
    pre = ["setarch", "-R"]
    if subprocess.run(pre + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
        runs.append(("no address randomisation", ref == _exec(exe, sid + args, src, base, pre=pre)))
    for k in (64, 65536):
        runs.append(("a stack limit of %d kB" % (k * 16), ref == _exec(exe, sid + args, src, base, pre=["sh", "-c", "ulimit -s %d; exec \"$0\" \"$@\"" % (k * 16)])))
    runs.append(("another working directory", ref == _exec(exe, sid + args, src, base, cwd="/")))
    runs.append(("the input by file name", ref == _exec(exe, sid + args + [f], "", base, stdin=False)))
    runs.append(("the input by relative file name", ref == _exec(exe, sid + args + [os.path.basename(f)], "", base, stdin=False, cwd=d)))
    runs.append(("the options in another order", ref == _exec(exe, args + sid, src, base)))
    runs.append(("an unused include directory and macro", ref == _exec(exe, ["-I", "/nonexistent", "-D", "KMC_UNUSED=1"] + sid + args, src, base)))
    o = f + ".out"
    core.rm(o)
    r = _exec(exe, sid + args + ["-o", o], src, base)
    got = b""
    if os.path.exists(o):
        with open(o, "rb") as fd:
            got = fd.read()
        os.unlink(o)
    runs.append(("output to a file", (r[0], got, r[2]) == ref if ref[0] == 0 else (r[0], r[2]) == (ref[0], ref[2])))
    with open(o, "wb") as fd:
        fd.write(b"#" * 300000)
    r = _exec(exe, sid + args + ["-o", o], src, base)
    with open(o, "rb") as fd:
        got = fd.read()
    os.unlink(o)
    runs.append(("output over an existing file", (r[0], got, r[2]) == ref if ref[0] == 0 else (r[0], r[2]) == (ref[0], ref[2])))
    os.unlink(f)
    return name, mode, src, len(runs), [w for w, ok in runs if not ok], ref[0]


_b = {}


def _batch(args, ins):
    p = _b.get(os.getpid())
    if p is None:
        p = _b[os.getpid()] = subprocess.Popen([core.build_native("batch", "opt", ["batch.c"])], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, LC_ALL="C.UTF-8"), cwd=core.scratch())
    a = [x.encode() for x in args]
    p.stdin.write(b"".join([struct.pack("<I", len(a))] + [struct.pack("<I", len(x)) + x for x in a] + [struct.pack("<II", 20000, len(ins))] + [struct.pack("<I", len(x)) + x for x in ins]))
    p.stdin.flush()
    r = p.stdout.read(16 * len(ins))
    if len(r) != 16 * len(ins):
        raise core.CheckError("the batch server died")
    return list(struct.iter_unpack("<IIQ", r))


def _history(j):
    """All histories of the given length that end in one source, in one process each."""
    mode, args, name, srcs, first = j
    alone = _batch(args, [srcs[name].encode()])[0]
    bad, n = [], 0
    for h in first:
        n += 1
        r = _batch(args, [srcs[x].encode() for x in h] + [srcs[name].encode()])[-1]
        if r != alone:
            bad.append(h)
    return mode, name, n, bad


def run(chk):
    exe = core.build_native("perturb", "opt", ["perturb.c"], extra=["-Wl,--wrap=kefir_system_memalloc"])
    core.build_native("batch", "opt", ["batch.c"])
    srcs = dict(SRC)
    srcs.update(many(24 if chk.quick else 60))
    gnu = OPTS["gnu"]
    jobs = [(exe, n, s, m, a + (gnu if n == "gnu" else []), not chk.quick) for n, s in srcs.items() for m, a in MODES.items()]
    jobs += [(exe, n, s, m + " detailed", a + ["--detailed-output"] + (gnu if n == "gnu" else []), not chk.quick) for n, s in srcs.items() for m, a in MODES.items() if m in ("ast", "tokens", "ir") and not chk.quick]
    jobs += [(exe, n, s, "compile " + e, [e], not chk.quick) for n, s in srcs.items() if n.startswith("bad") for e in ("--json-errors", "--tabular-errors")]
    jobs.append((exe, "runtime", "", "runtime code", ["--dump-runtime-code"], not chk.quick))
    for name, mode, src, n, bad, rc in core.pmap(_perturb, jobs):
        chk.add("perturbed runs", states=n, transitions=n, traces=n + 1)
        if bad:
            chk.violation("%s: %s: %s" % (name, mode, "; ".join(bad)), "the result changes with: %s" % "; ".join(bad), src)
        if rc not in (0, 1):
            chk.violation("%s: %s: exit status" % (name, mode), "exit status %d" % rc, src)
        if chk.too_many():
            return chk.finish()
    names = list(srcs)
    hist = [(a,) for a in names] + ([] if chk.quick else [(a, b) for a in SRC for b in SRC])
    for mode, name, n, bad in core.pmap(_history, [(m, ["--source-id", "input.c"] + gnu + a, n, srcs, hist) for m, a in MODES.items() for n in names]):
        chk.add("histories in one process", states=n, transitions=n, traces=n)
        for h in bad[:3]:
            chk.violation("history: %s: %s then %s" % (mode, ", ".join(h), name), "the result of compiling %s changes after compiling %s in the same process" % (name, ", ".join(h)), srcs[h[-1]] + "\n-----\n" + srcs[name])
        if chk.too_many():
            break
    return chk.finish()

"""C29: command-line options."""
TECHNIQUE = "exhaustive enumeration of option settings, alone, in pairs and in every order, spelling and position, on the real driver, compared with a model of the documented effect of each option; every extension x every probe program"
NOTE = ("The model is the help text: each stage option selects its stage (the last one wins), -o redirects, -I, --include and -D act on the preprocessor, features switch exactly one extension each. Probe programs use exactly one extension; a program that uses none has to compile to the same assembly under every feature set that does not concern it.")
import itertools
import os
import shutil
import subprocess
from mc import core

PLAIN = "int printf(const char *, ...);\nenum e { A, B = 3 }; struct s { int a, b; } v = { 1, .b = 2 };\nint f(int x, const char *p) { static int n; label: if (x > 3) { x--; goto label; } switch (x) { case A: return *p; default: n += x ? v.a : v.b; } return n + sizeof(struct s); }\n"
STAGES = {"": "asm", "--dump-asm": "asm", "-p": "pp", "--preprocess": "pp", "--dump-tokens": "tokens", "--dump-ast": "ast", "--dump-ir": "ir"}
PROBE = {
    "missing-function-return-type": ["f(void) { return 1; }\n", "g() { return 2; }\n"],
    "designated-init-colons": ["struct s { int a, b; } v = { a : 1, b : 2 };\n", "struct s { int a; struct { int c; } b; } v = { b : { c : 1 } };\n"],
    "labels-as-values": ["void *f(void) { l: return &&l; }\n", "void f(void *p) { goto *p; }\n"],
    "non-strict-qualifiers": ["void f(const char *p, char *q) { q = p; }\n", "int g(char *); int f(const char *p) { return g(p); }\n"],
    "implicit-function-decl": ["int f(void) { return undeclared(1); }\n"],
    "empty-structs": ["struct s { }; int f(void) { return sizeof(struct s); }\n", "union u { } v;\n"],
    "ext-pointer-arithmetics": ["void *f(void *p) { return p + 1; }\n", "void f(void *p) { p++; }\n", "int f(void (*p)(void)) { return sizeof *p; }\n"],
    "missing-braces-subobj": ["struct s { int a[2]; } v[2] = { 1, 2, 3 };\n"],
    "statement-expressions": ["int f(int x) { return ({ int y = x; y + 1; }); }\n"],
    "omitted-conditional-operand": ["int f(int x) { return x ?: 2; }\n"],
    "int-to-pointer": ["int *f(int x) { int *p = x; return p; }\n", "int *f(char c) { return c; }\n"],
}
FEAT = sorted(PROBE) + ["signed-enums", "fail-on-attributes"]


def k(args, src=""):
    r = core.kefir(args, src)
    return r


def _probe(j):
    name, src, feats, want = j
    r = k(["--feature-" + f for f in feats], src)
    return name, src, feats, want, ("accepted" if r.ok else "rejected" if r.rejected else r.describe()), r.err.decode("utf-8", "replace")


def _same(j):
    feats, src, ref = j
    r = k(["--feature-" + f for f in feats], src)
    return feats, src, r.ok and r.out == ref, r.err.decode("utf-8", "replace")


def features(chk):
    jobs = []
    subsets = [()] + [(f,) for f in FEAT] + list(itertools.combinations(FEAT, 2)) + [tuple(x for x in FEAT if x != f) for f in FEAT] + [tuple(FEAT)]
    if not chk.quick:
        subsets += list(itertools.combinations(FEAT, 3))
    # which probes are accepted by default is part of the model: missing-braces-subobj and ext-pointer forms accepted without the option are not claimed
    base = {(n, s): k([], s).ok for n, ss in PROBE.items() for s in ss}
    needs = {"designated-init-colons", "labels-as-values", "non-strict-qualifiers", "implicit-function-decl", "missing-function-return-type", "statement-expressions", "omitted-conditional-operand", "empty-structs", "ext-pointer-arithmetics", "int-to-pointer"}
    for (n, s), b in base.items():
        if n in needs and b:
            chk.violation("feature: %s not needed: %s" % (n, s.strip()), "accepted without --feature-%s" % n, s)
        for fs in subsets:
            jobs.append((n, s, fs, "accepted" if n in fs or b else "rejected"))
    for n, s, fs, want, got, err in core.pmap(_probe, jobs, chunksize=20):
        chk.add("features: probes x feature sets", states=1, transitions=1, traces=1)
        if got != want:
            chk.violation("feature: %s with {%s}: %s" % (n, " ".join(fs), s.strip()), "%s instead of %s\n%s" % (got, want, err), s)
    others = [PLAIN, "enum e { P = 1 } x = P; int f(enum e a) { return a == P; }\nchar *s = \"a\" \"b\"; int a[3] = { [1] = 2 }; int *p = &a[1]; double d(float x, long y) { return x ? x * y : -1.5; }\n", "int f(int a, int b) { return a ? b : a && b ? 1 : 2; }\nint g(struct t *p); struct t { int x; } z = { 5 }; void h(void) { (void) (g(&z) + f(1, 2)); }\n"]
    jobs = []
    for src in others:
        ref = k([], src)
        if not ref.ok:
            raise core.CheckError("the plain program is refused: %r" % ref.err[-300:])
        for fs in subsets:
            if "signed-enums" not in fs:
                jobs.append((fs, src, ref.out))
    for fs, src, ok, err in core.pmap(_same, jobs, chunksize=10):
        chk.add("features: programs that use none", states=1, transitions=1, traces=1)
        if not ok:
            chk.violation("feature: {%s} changes a program that does not use it" % " ".join(fs), "different output\n" + err, src)
    # --no-feature and order: the last setting counts
    for n in sorted(PROBE):
        s = PROBE[n][0]
        for seq in itertools.chain.from_iterable(itertools.product((True, False), repeat=r) for r in (1, 2, 3)):
            r = k([("--feature-" if b else "--no-feature-") + n for b in seq], s)
            chk.add("features: on and off", states=1, transitions=1, traces=1)
            if r.ok != (seq[-1] or base[n, s]):
                chk.violation("feature: %s on/off %s" % (n, seq), "accepted" if r.ok else "rejected", s)
    # signed-enums and fail-on-attributes
    en = "enum e { P = 1 }; int f(void) { return (enum e) -1 < 0; }\nint g(void) { return _Generic((enum e) 0, unsigned : 1, int : 2, default : 3); }\n"
    a, b, c = k([], en), k(["--feature-signed-enums"], en), k(["--feature-signed-enums", "--no-feature-signed-enums"], en)
    if not (a.ok and b.ok and c.ok) or a.out == b.out or a.out != c.out:
        chk.violation("feature: signed-enums", "the option does not switch the type of enumerations", en)
    at = "int f(void) __attribute__((noinline));\n"
    for args, want in (([], True), (["--feature-fail-on-attributes"], False), (["--feature-fail-on-attributes", "--no-feature-fail-on-attributes"], True)):
        if k(args, at).ok != want:
            chk.violation("feature: fail-on-attributes %s" % args, "accepted is not %s" % want, at)
    chk.add("features: signed-enums, fail-on-attributes", states=6, transitions=6, traces=6)


def stages(chk):
    ref = {}
    for o, st in STAGES.items():
        r = k([o] if o else [], PLAIN)
        if not r.ok:
            chk.violation("stage: %s" % o, "refused: %s" % r.err[-300:], PLAIN)
            return
        if ref.setdefault(st, r.out) != r.out:
            chk.violation("stage: %s" % o, "two spellings of one stage differ", PLAIN)
    if len(set(ref.values())) != 5:
        chk.violation("stage: outputs", "two stages give the same output", PLAIN)
    if b"__kefirrt" not in ref["asm"] or b".global f" not in ref["asm"] or not ref["tokens"].lstrip().startswith(b"[") or b"translation_unit" not in ref["ast"] or b"opcode" not in ref["ir"] or b"goto label" not in ref["pp"]:
        chk.violation("stage: kinds", "a stage does not print what it names", PLAIN)
    opts = [o for o in STAGES if o]
    n = 0
    for r in (2, 3):
        for seq in itertools.product(opts, repeat=r):
            n += 1
            x = k(list(seq), PLAIN)
            if not x.ok or x.out != ref[STAGES[seq[-1]]]:
                chk.violation("stages: %s" % " ".join(seq), "the last stage option does not decide", PLAIN)
    for o in opts:
        for seq in ((o, "-P"), ("-P", o), (o, "--skip-preprocessor")):
            n += 1
            x = k(list(seq), PLAIN)
            if STAGES[o] == "pp":
                if not x.rejected:
                    chk.violation("stages: %s" % " ".join(seq), "-P together with -p is not refused", PLAIN)
            elif not x.ok or x.out != ref[STAGES[o]]:
                chk.violation("stages: %s" % " ".join(seq), "a source without directives compiles differently with -P", PLAIN)
    chk.add("stage options: sequences up to 3", states=n, transitions=n, traces=n)


def macros(chk):
    n = 0
    vals = {"X=5": "5", "X=": "", "X=a b": "a b", "X=(1+2)": "(1+2)", "X=\"s\"": "\"s\"", "X==": "=", "X=Y": "Y", "X=1=2": "1=2", "X='c'": "'c'"}
    for spell in ((lambda v: ["-D", v]), (lambda v: ["-D" + v]), (lambda v: ["--define", v]), (lambda v: ["--define=" + v])):
        for v, want in vals.items():
            for pre in ([], ["-I", "/nonexistent"], ["--dump-asm"], ["-D", "Q=9"]):
                n += 1
                r = k(pre + spell(v) + ["-p"], "[X]\n")
                if not r.ok or r.out.decode().split() != ("[%s]" % want).split():
                    chk.violation("define: %s" % " ".join(pre + spell(v)), "X becomes %r" % r.out, v)
    names = ["A", "B", "C"]
    for perm in itertools.permutations(names):
        n += 1
        r = k([x for i, a in enumerate(perm) for x in ("-D", "%s=%d" % (a, "ABC".index(a) + 1))] + ["-p"], "A B C\n")
        if r.out.split() != [b"1", b"2", b"3"]:
            chk.violation("define: order %s" % (perm,), "%r" % r.out)
    r = k(["-D", "A=B", "-D", "B=C", "-D", "C=A 1", "-p"], "A\n")
    if r.out.split() != [b"A", b"1"]:
        chk.violation("define: chain", "%r" % r.out)
    for mode in ("-p", "--dump-tokens", "--dump-ast", "--dump-ir", "--dump-asm"):
        n += 1
        r = k(["-D", "TYPE=int", mode], "TYPE a = 1;\n#ifndef TYPE\n#error no\n#endif\n")
        if not r.ok:
            chk.violation("define: %s" % mode, "the macro is not defined in this stage: %s" % r.err[-300:])
    for ts in (0, 1, 86399, 86400, 951782400, 1000000000, 2147483647, 4102444800):
        import time as _t
        want = _t.strftime("\"%b %e %Y\" \"%H:%M:%S\"", _t.localtime(ts))
        for sp in (["--pp-timestamp", str(ts)], ["--pp-timestamp=%d" % ts]):
            n += 1
            r = k(sp + ["--dump-tokens"], "__DATE__ __TIME__\n")
            r2 = k(sp + ["-p"], "__DATE__ __TIME__\n")
            r3 = k(sp, "char d[] = __DATE__ \" \" __TIME__;\n")
            if r2.out.decode().strip() != want:
                chk.violation("timestamp: %d" % ts, "%r instead of %r" % (r2.out, want))
            if not r.ok or not r3.ok:
                chk.violation("timestamp: %d stages" % ts, "refused")
    chk.add("macros and time stamp", states=n, transitions=n, traces=n)


def files(chk):
    d = os.path.join(core.scratch(), "cli")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/inc1")
    os.makedirs(d + "/inc2")
    for i in (1, 2):
        with open(d + "/inc%d/h.h" % i, "w") as f:
            f.write("int from_inc%d;\n" % i)
    with open(d + "/pre.h", "w") as f:
        f.write("int pre;\n#define PRE 7\n")
    with open(d + "/pre2.h", "w") as f:
        f.write("int pre2 = PRE;\n#define PRE2 PRE\n")
    with open(d + "/in.c", "w") as f:
        f.write(PLAIN)
    n = 0
    for sp in ((lambda x: ["-I", x]), (lambda x: ["-I" + x]), (lambda x: ["--include-path", x]), (lambda x: ["--include-path=" + x])):
        for order in ((1, 2), (2, 1), (1,), (2,)):
            n += 1
            args = [a for i in order for a in sp(d + "/inc%d" % i)]
            r = k(args + ["-p"], "#include <h.h>\n")
            if not r.ok or b"from_inc%d" % order[0] not in r.out or any(b"from_inc%d" % i in r.out for i in (1, 2) if i != order[0]):
                chk.violation("include path: %s" % " ".join(args).replace(d, ""), "%r %s" % (r.out, r.err[-300:]))
    for mode in ("-p", "--dump-tokens", "--dump-ast", "--dump-ir", "--dump-asm"):
        for sp in (["--include", d + "/pre.h"], ["--include=" + d + "/pre.h"]):
            n += 1
            r = k(sp + [mode], "int q = PRE;\n")
            if not r.ok or b"pre" not in r.out:
                chk.violation("include file: %s" % mode, "the file does not come first: %r %s" % (r.out[:300], r.err[-300:]))
        n += 1
        r = k(["--include", d + "/pre.h", "--include", d + "/pre2.h", mode], "int q = PRE2;\n")
        if not r.ok or b"pre2" not in r.out:
            chk.violation("include files: %s" % mode, "%r %s" % (r.out[:300], r.err[-300:]))
    # output
    for o, st in STAGES.items():
        for sp in ("-o %s", "-o%s", "--output %s", "--output=%s"):
            for inp in ("stdin", "file"):
                n += 1
                out = d + "/out"
                core.rm(out)
                ref = k(([o] if o else []) + ["--source-id", "i.c"], PLAIN)
                r = k((sp % out).split() + ["--source-id", "i.c"] + ([o] if o else []) + ([d + "/in.c"] if inp == "file" else []), PLAIN if inp == "stdin" else "")
                got = open(out, "rb").read() if os.path.exists(out) else None
                if not r.ok or r.out or got != ref.out:
                    chk.violation("output: %s %s %s" % (o, sp, inp), "exit %s, %d bytes on stdout, file %s" % (r.describe(), len(r.out), "missing" if got is None else "differs" if got != ref.out else "right"))
    for o in list(STAGES) + ["--dump-runtime-code"]:
        for args in (["-o", "/dev/full"], ["-o", d + "/nodir/x"], ["-o", d]):
            n += 1
            r = k(args + ([o] if o else []), PLAIN)
            if not r.rejected or not r.err:
                chk.violation("output failure: %s %s" % (" ".join(args).replace(d, ""), o), "the output cannot be written, but the exit status is %s" % r.describe())
    out = d + "/rt"
    a = k(["--dump-runtime-code"])
    b = k(["--dump-runtime-code", "-o", out])
    if not a.ok or not b.ok or b.out or open(out, "rb").read() != a.out or b"__kefirrt_restore_state" not in a.out:
        chk.violation("output: --dump-runtime-code", "-o is not honoured")
    # input
    for args in ([d + "/missing.c"], [d], [d + "/in.c", d + "/in.c"], ["-p", d + "/in.c", "x"]):
        n += 1
        r = k(args)
        if not r.rejected or not r.err:
            chk.violation("input: %s" % " ".join(args).replace(d, ""), "exit status %s" % r.describe())
    # source identifier
    for sid in ("a.c", "dir/b c.c", "<x>", "q\"uote", "x"):
        n += 1
        r = k(["--source-id", sid, "-p"], "__FILE__\n")
        e = k(["--source-id", sid], "int a = ;\n")
        if r.out.decode().strip() != '"%s"' % sid.replace("\"", "\\\"") or not e.rejected or ("%s@1:9" % sid).encode() not in e.err:
            chk.violation("source id: %s" % sid, "%r %r" % (r.out, e.err))
    r = k(["-p", d + "/in.c"])
    n += 1
    # error formats
    for fm in itertools.chain.from_iterable(itertools.product(("--json-errors", "--tabular-errors"), repeat=i) for i in (0, 1, 2)):
        n += 1
        r = k(list(fm), "int a = ;\n")
        isj = r.err.lstrip()[:1] in (b"{", b"[")
        if not r.rejected or isj != (bool(fm) and fm[-1] == "--json-errors"):
            chk.violation("error format: %s" % " ".join(fm), "%r" % r.err[:200])
        r = k(list(fm), "int a;\n")
        if not r.ok or r.err:
            chk.violation("error format on success: %s" % " ".join(fm), "%r" % r.err[:200])
    # detailed output
    for st in ("--dump-tokens", "--dump-ast"):
        n += 1
        a, b = k([st, "--source-id", "zz.c"], PLAIN), k([st, "--detailed-output", "--source-id", "zz.c"], PLAIN)
        if not (a.ok and b.ok) or b"zz.c" not in b.out or b"zz.c" in a.out:
            chk.violation("detailed output: %s" % st, "source references are not switched by the option")
    # help, version, target
    for args, part in ((["-h"], b"Usage"), (["--help"], b"Usage"), (["-v"], b"."), (["--version"], b".")):
        n += 1
        r = k(args)
        if not r.ok or part not in r.out or r.err:
            chk.violation("%s" % args[0], "%r" % r.out[:100])
    ref = k([], PLAIN).out
    for args, ok in ((["--target-profile", "amd64-sysv-gas"], True), (["--target-profile=amd64-sysv-gas"], True), (["--target-profile", "none"], False), (["--target-profile", ""], False)):
        n += 1
        r = k(args, PLAIN)
        if ok and r.out != ref or not ok and not r.rejected:
            chk.violation("target: %s" % args, r.describe())
    # every documented option is known; unknown and malformed options are refused
    help = k(["-h"]).out.decode()
    import re
    known = set(re.findall(r"^    (?:(-\w),)?(--[\w-]+)( \w+)?", help, re.M))
    feats = re.findall(r"^    ([a-z][a-z-]+)  +[A-Z]", help.split("Supported features:")[1].split("Targets:")[0], re.M)
    if sorted(feats) != sorted(FEAT):
        chk.violation("help: features", "documented %s" % sorted(feats))
    for s, l, arg in known:
        if l.startswith(("--feature", "--no-feature")):
            continue
        n += 1
        val = {"--pp-timestamp": ["1"]}.get(l, [])
        if arg:
            val = {"--output": [d + "/o"], "--include-path": [d], "--include": [d + "/pre.h"], "--define": ["Z=1"], "--target-profile": ["amd64-sysv-gas"], "--source-id": ["s"]}[l]
        for o in filter(None, (s, l)):
            r = k([o] + val, "int a;\n")
            if not r.ok:
                chk.violation("documented option: %s" % o, "refused: %s" % r.err[-200:].decode("utf-8", "replace"))
            if val and k([o], "").ok:
                chk.violation("missing argument: %s" % o, "accepted")
    for f in FEAT:
        for o in ("--feature-", "--no-feature-"):
            n += 1
            if not k([o + f], "int a;\n").ok:
                chk.violation("documented option: %s%s" % (o, f), "refused")
            if k([o + f + "=1"], "int a;\n").ok or k([o + f + "x"], "int a;\n").ok:
                chk.violation("malformed option: %s%s" % (o, f), "accepted")
    for c in "abcdefgijklmnqrstuwxyzABCEFGHJKLMNOQRSTUVWXYZ0123456789?":
        n += 1
        if not k(["-" + c], "int a;\n").rejected:
            chk.violation("unknown option: -%s" % c, "accepted")
    for o in ("--nothing", "--feature-", "--feature-x", "--dump", "--dump-", "--dump-x", "--no-feature-", "--O2", "---", "--help=1", "--version=3", "-pz", "--json", "--preprocess=1"):
        n += 1
        r = k([o], "int a;\n")
        if o != "--json" and not r.rejected:
            chk.violation("unknown option: %s" % o, r.describe())
    shutil.rmtree(d, ignore_errors=True)
    chk.add("files, formats, unknown options", states=n, transitions=n, traces=n)


def run(chk):
    core.build_kserve()
    features(chk)
    stages(chk)
    macros(chk)
    files(chk)
    return chk.finish()

"""C23: no input crashes the compiler."""
TECHNIQUE = "exhaustive enumeration of inputs up to a bound (all byte strings, all token strings in every syntactic context, all directive lines, all single-token edits and truncations of representative programs, all nesting depths), each run to its end on the real compiler built with address and undefined-behaviour sanitizers"
NOTE = ("Every enumerated input is given to the real driver, for the stages that apply; a run has to end within its CPU limit with status 0, or with status 1 and a diagnostic. Inputs are run in batches inside one process; whatever dies, times out or fails silently there is run again alone before it is reported.")
import itertools
import os
import re
import struct
import subprocess
from mc import core
from checks.c24 import SRC

ENV = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8", UBSAN_OPTIONS="exitcode=98:print_stacktrace=0", LC_ALL="C.UTF-8")
CPU = 8000
_b = {}
FEAT = ["non-strict-qualifiers", "signed-enums", "implicit-function-decl", "missing-function-return-type", "designated-init-colons", "labels-as-values", "empty-structs", "ext-pointer-arithmetics", "missing-braces-subobj", "statement-expressions", "omitted-conditional-operand", "int-to-pointer"]
ALLF = ["--feature-" + f for f in FEAT]


def batch(args, ins):
    p = _b.get(os.getpid())
    if p is None:
        p = _b[os.getpid()] = subprocess.Popen([core.build_native("batch", "asan", ["batch.c"])], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, **ENV), cwd=core.scratch())
    a = [x.encode() for x in args]
    m = [struct.pack("<I", len(a))] + [struct.pack("<I", len(x)) + x for x in a] + [struct.pack("<II", CPU, len(ins))] + [struct.pack("<I", len(x)) + x for x in ins]
    p.stdin.write(b"".join(m))
    p.stdin.flush()
    r = p.stdout.read(16 * len(ins))
    if len(r) != 16 * len(ins):
        raise core.CheckError("the batch server died")
    return [(a, b) for a, b, _ in struct.iter_unpack("<IIQ", r)]


def _site(err):
    t = err.decode("utf-8", "replace")
    m = re.search(r"runtime error: (.*)", t)
    if m:
        w = re.search(r"([\w/.-]+\.[ch]):\d+(:\d+)?: runtime error", t)
        return "undefined behaviour (%s) in %s" % (m.group(1), w.group(1) if w else "?")
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", t)
    if m:
        fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)", t) if f.startswith("kefir") or f not in ("main", "memcpy")][:6]
        return "AddressSanitizer %s in %s" % (m.group(1), " < ".join(f for f in fr if not f.startswith("__"))[:200])
    return t[-200:]


def _alone(args, src):
    r = core.kefir(list(args), src, 30000, "asan")
    if r.timed_out:
        return "runs for more than 30 s of CPU time"
    if r.crashed:
        return "%s: %s" % (r.describe(), _site(r.err))
    if r.rejected and not r.err.strip():
        return "fails without a diagnostic"
    if r.ok and r.err.strip():
        return "succeeds, but prints a diagnostic: %s" % r.err[:200]
    return None


def _job(j):
    part, args, ins = j
    out = []
    for (st, fl), src in zip(batch(args, ins), ins):
        if fl & 1 or st > 1 or (st == 1 and not fl & 2) or (st == 0 and fl & 2):
            w = _alone(args, src)
            if w:
                out.append((src, w))
                if len(out) > 40:
                    break
    return part, args, len(ins), out


PUNCT = "[ ] ( ) { } . -> ++ -- & * + - ~ ! / % << < == | && || ? : ; ... = += , # ##".split()
KEY = "int char long unsigned float void _Bool struct union enum typedef static extern const sizeof _Alignof _Alignas _Generic _Static_assert if else while do for switch case default break continue goto return inline".split()
ATOM = ["x", "T", "f", "0", "1.5", '"s"', "'c'"]
TOK = ATOM + PUNCT + KEY
CORE = ["x", "T", "0", '"s"', "[", "]", "(", ")", "{", "}", ".", "*", "&", "-", "?", ":", ";", "=", ",", "int", "struct", "sizeof", "if", "case", "return"]
MINI = ["x", "T", "0", "(", ")", "{", "}", "[", "]", "*", ";", "=", ",", "int", "struct", "."]
CTX = {"file scope": "typedef int T; int f(int); %s\n",
       "declaration": "typedef int T; int f(int); int x = 1; int y %s ;\n",
       "initialiser": "typedef int T; struct s { int a; struct { int b[2]; } c; }; struct s x = { %s };\n",
       "member": "typedef int T; struct x { %s };\n",
       "parameters": "typedef int T; void f(%s);\n",
       "statement": "typedef int T; int f(int); void g(int x) { %s }\n",
       "expression": "typedef int T; int f(int); void g(int *x) { x = ( %s ) ; }\n",
       "type name": "typedef int T; int g(int x) { return sizeof ( %s ) ; }\n",
       "constant": "typedef int T; enum { x = 3 }; int a[ %s ]; struct s { int m : %s ; };\n",
       "static initialiser": "typedef int T; struct s { int a, *b; } x; void *p = %s ;\n"}
PPT = ["#", "##", "define", "undef", "if", "ifdef", "elif", "else", "endif", "include", "line", "pragma", "error", "X", "F", "(", ")", ",", "...", "__VA_ARGS__", "defined", "0", "1", '"s"', "<", ">", "'c'", "&&", "?", ":", "-", "/", "!", "\n", "__LINE__", "__FILE__", "1.5", "@", "\\\n"]
PPCORE = ["#", "##", "define", "if", "include", "X", "F", "(", ")", ",", "...", "__VA_ARGS__", "defined", "1", '"s"', "\n", "endif", "else"]
PPCTX = ["#define X 1 +\n#define F(x) x X #x\n%s\n", "#define X F\n#define F(x, ...) # x ## x #__VA_ARGS__ ## __VA_ARGS__ X F\n# %s\n1 X F(X, F) \n", "#if %s\nint a;\n#else\nint b;\n#endif\n",
         "#define X 1\n#define F(a, b) a ## b\n#define M %s\nM M(1, 2) M(X, F(1)) F(M, M)\n"]


def strings(toks, n):
    for k in range(n + 1):
        for t in itertools.product(toks, repeat=k):
            yield " ".join(t)


def bytes_inputs(quick):
    for n in (0, 1, 2):
        for t in itertools.product(range(256), repeat=n):
            yield bytes(t)
    inter = b"\0\n\t \"'\\/*#.0x1uLe+-aF(){}<?%:;\x80\xc3\xe2\xf0\xff"
    for t in itertools.product(inter, repeat=3):
        yield bytes(t)
    lit = b"\"'\\/*0x7uUn\n\0\x80\xc3\xa9"
    for pre in (b"int a = '", b"char *a = \"", b"int a = 0x", b"#include <", b"int \\u", b"double d = 1e"):
        for n in range(0, 4 if quick else 5):
            for t in itertools.product(lit, repeat=n):
                yield pre + bytes(t)


_tok = re.compile(r'[A-Za-z_]\w*|0[xX][\w.]+(?:[pP][+-]?\w+)?|\d[\w.]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||##|[-+*/%&|^]=|.', re.S)
SUBST = ["x", "0", '"s"', "int", "(", ")", "{", "}", "[", "*", ";", ",", "=", "struct", "...", "&"]


def edits(text, quick):
    toks = [t for t in _tok.findall(text)]
    idx = [i for i, t in enumerate(toks) if not t.isspace()]
    for n, i in enumerate(idx):
        yield "".join(toks[:i] + toks[i + 1:])
        yield "".join(toks[:i + 1] + [" "] + toks[i:])
        yield "".join(toks[:i])
        if n + 1 < len(idx):
            k = idx[n + 1]
            yield "".join(toks[:i] + [toks[k]] + toks[i + 1:k] + [toks[i]] + toks[k + 1:])
        for s in (SUBST if not quick else SUBST[::2]):
            if s != toks[i]:
                yield "".join(toks[:i] + [" ", s, " "] + toks[i + 1:])
    if not quick:
        for i in range(len(text)):
            yield text[:i]
            yield text[:i] + text[i + 1:]


NEST = {
    "parentheses": lambda n: "int a = " + "(" * n + "1" + ")" * n + ";", "open parentheses": lambda n: "int a = " + "(" * n, "blocks": lambda n: "void f(void) {" + "{" * n + "}" * n + "}", "open blocks": lambda n: "void f(void) {" + "{" * n,
    "pointers": lambda n: "int " + "*" * n + "p;", "arrays": lambda n: "int a" + "[1]" * n + ";", "functions": lambda n: "int " + "(*" * n + "f" + ")(void)" * n + ";", "declarator parentheses": lambda n: "int " + "(" * n + "f" + ")" * n + ";",
    "structures": lambda n: "".join("struct s%d { " % i for i in range(n)) + "int a;" + "".join(" } m%d;" % i for i in range(n)), "anonymous": lambda n: "struct { " * n + "int a;" + " };" * n, "initialiser": lambda n: "int a = " + "{" * n + "1" + "}" * n + ";",
    "unary": lambda n: "int x; int a(void) { return " + "- " * n + "x; }", "dereference": lambda n: "int x; int a(void) { return " + "*&" * n + "x; }", "casts": lambda n: "int a = " + "(int)" * n + "1;", "additions": lambda n: "int a = 1" + "+1" * n + ";", "conditional": lambda n: "int a = " + "1?" * n + "2" + ":3" * n + ";",
    "calls": lambda n: "int f(int); int a(void) { return " + "f(" * n + "1" + ")" * n + "; }", "subscripts": lambda n: "int x" + "[1]" * min(n, 60) + "; void g(void) { x" + "[0]" * min(n, 60) + "; }", "sizeof": lambda n: "int a = " + "sizeof " * n + "1;", "comma": lambda n: "int x; void f(void) { x" + ",x" * n + "; }",
    "if": lambda n: "void f(int x) { " + "if (x) " * n + "; }", "else": lambda n: "void f(int x) { " + "if (x) ; else " * n + "; }", "loops": lambda n: "void f(int x) { " + "for (;;) while (x) do " * n + ";" + "while (x);" * n + " }", "switch": lambda n: "void f(int x) { " + "switch (x) case 1: " * n + "; }", "labels": lambda n: "void f(void) { " + "".join("l%d: " % i for i in range(n)) + "; }",
    "generic": lambda n: "int a = " + "_Generic(1, int : " * n + "1" + ")" * n + ";", "statement expressions": lambda n: "int f(void) { return " + "({ " * n + "1;" + "})" * n + "; }", "strings": lambda n: "char *s = " + '"a" ' * n + ";", "long string": lambda n: 'char s[] = "' + "ab" * n * 8 + '";', "long identifier": lambda n: "int " + "i" * n * 8 + ";", "long number": lambda n: "double d = " + "9" * n + ".0;",
    "long integer": lambda n: "int d = " + "9" * n + ";", "long character": lambda n: "int d = '" + "a" * n + "';", "long hex escape": lambda n: "char *d = \"\\x" + "1" * n + "\";", "long comment": lambda n: "/*" + "a\n" * n + "*/", "splices": lambda n: "int" + "\\\n" * n + " a;", "enumerators": lambda n: "enum { " + "".join("e%d," % i for i in range(n)) + "};",
    "specifiers": lambda n: "const " * n + "int a;", "long": lambda n: "long " * n + "a;", "declarators": lambda n: "int a" + "".join(",*b%d" % i for i in range(n)) + ";", "parameters": lambda n: "int f(" + ",".join(["int"] * (n + 1)) + ");", "arguments": lambda n: "int f(); void g(void) { f(" + ",".join(["1"] * (n + 1)) + "); }", "typedefs": lambda n: "typedef int t0;" + "".join("typedef t%d *t%d;" % (i, i + 1) for i in range(n)) + "t%d x;" % n,
    "#if": lambda n: "#if 1\n" * n + "int a;\n" + "#endif\n" * n, "open #if": lambda n: "#if 1\n" * n, "#if 0": lambda n: "#if 0\n" * n + "int a;\n" + "#endif\n" * n, "#if expression": lambda n: "#if " + "(" * n + "1" + ")" * n + "\nint a;\n#endif", "#if unary": lambda n: "#if " + "!" * n + "1\nint a;\n#endif\nint b;",
    "macro chain": lambda n: "".join("#define m%d m%d\n" % (i, i + 1) for i in range(n)) + "int m0;", "macro calls": lambda n: "#define f(x) x\nint a = " + "f(" * n + "1" + ")" * n + ";", "macro arguments": lambda n: "#define f(...) __VA_ARGS__\nint a = 0" + "f(" + ",".join("+1" for _ in range(0)) + "+1" * n + ");", "open macro call": lambda n: "#define f(x) x\nint a = " + "f(" * n, "macro doubling": lambda n: "#define a0 1\n" + "".join("#define a%d a%d a%d\n" % (i + 1, i, i) for i in range(min(n, 9))) + "a%d" % min(n, 9),
    "macro parameters": lambda n: "#define f(" + ",".join("p%d" % i for i in range(n)) + ") p0\nint a;", "##": lambda n: "#define f(a) a" + " ## a" * n + "\nint f(x);", "stringification": lambda n: "#define s(x) #x\nchar *a = s(" + "\"\\\"\" " * n + ");", "self include": lambda n: '#include "/proc/self/fd/0"\n', "macro recursion": lambda n: "#define a(x) b(x)\n#define b(x) a(x) c\n#define c a b\nint a(b)(c)(a(b(c)))" + "(a)" * n + ";",
    "brackets": lambda n: "int a = " + "[" * n + ";", "designators": lambda n: "int a" + "[1]" * min(n, 40) + " = { " + "[0]" * min(n, 40) + " = 1 };", "case ranges": lambda n: "void f(int x) { switch (x) { " + "".join("case %d: " % i for i in range(n)) + "; } }", "string escapes": lambda n: 'char *s = "' + "\\n\\x1\\0\\u00e9" * n + '";', "gotos": lambda n: "void f(void) { " + "".join("goto l%d; l%d: ;" % (i, i) for i in range(min(n, 40))) + " }",
    "function bodies": lambda n: "".join("int f%d(void) { return %d; }" % (i, i) for i in range(min(n, 60))), "alignas": lambda n: "_Alignas(8) " * n + "int a;", "atomic": lambda n: "_Atomic(" * n + "int" + ")" * n + " a;", "address": lambda n: "int a; void f(void) { " + "&" * n + "a; }", "big array": lambda n: "int a[%d]; int b[%d] = { [%d] = 1 };" % (1 << min(n, 16), 1 << min(n, 12), (1 << min(n, 12)) - 1),
}
VALUES = ["0", "1", "-1", "127", "128", "2147483647", "2147483648", "-2147483647-1", "4294967295u", "9223372036854775807", "-9223372036854775807-1", "18446744073709551615u", "1.5", "1e308", "-1e308", "1e4000L", "3.5e38f", "0.0", "(char)-128", "(short)32767", "(_Bool)2", "&v", "(void*)0", "\"s\"", "'\\377'", "(float)16777217", "1e20", "-1e20", "(long double)1e4900L"]
FOLD = ["%s + %s", "%s - %s", "%s * %s", "%s / %s", "%s %% %s", "%s << %s", "%s >> %s", "%s & %s", "%s < %s", "%s == %s", "%s && %s", "%s ? %s : 2", "(int) (%s) + %s", "(unsigned char) (%s) + (%s)", "(long) (%s) - (%s)", "(unsigned long) (%s) ^ (%s)", "-(%s) + ~(%s)", "!(%s) | (%s)", "(_Bool) (%s) + (float) (%s)", "(long double) (%s) * (double) (%s)"]
FCTX = ["int v; long g = %s;\n", "int v; enum { E = %s };\n", "int v; int a[%s];\n", "int v; struct s { int b : %s; };\n", "int v; void f(int x) { switch (x) { case %s: ; } }\n", "int v; _Static_assert(%s, \"m\");\n", "int v; double g = %s;\n", "int v; int a[] = { [%s] = 1 };\n", "int v; _Alignas(%s) int a;\n", "#if %s\nint v;\n#endif\n", "int v; long f(void) { return %s; }\n", "int v; char *g = \"abc\" + (%s);\n"]


def jobs(quick):
    def part(name, args, it, size=1500):
        for c in core.chunks(it, size):
            yield name, args, [x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x for x in c]
    n = 2 if quick else 3
    yield from part("bytes", [], bytes_inputs(quick))
    yield from part("bytes -p", ["-p"], bytes_inputs(quick))
    if not quick:
        yield from part("bytes --dump-tokens", ["--dump-tokens"], bytes_inputs(quick))
    for c, t in CTX.items():
        k = t.count("%s")
        yield from part("tokens: " + c, [], (t % ((s,) * k) for s in strings(TOK, 2)), 800)
        yield from part("tokens: " + c, [], (t % ((s,) * k) for s in strings(MINI if quick else CORE, 3)), 800)
        if not quick:
            yield from part("tokens: " + c, [], (t % ((s,) * k) for s in strings(MINI[:12], 4)), 800)
        yield from part("tokens: " + c, ALLF, (t % ((s,) * k) for s in strings(TOK, 1 if quick else 2)), 800)
        yield from part("tokens: " + c, ALLF, (t % ((s,) * k) for s in strings(MINI if quick else CORE, 3)), 800)
    for t in PPCTX:
        yield from part("directives", ["-p"], (t % s for s in strings(PPT, 2)), 800)
        yield from part("directives", ["-p"], (t % s for s in strings(PPCORE if quick else PPT, 3)), 800)
        if not quick:
            yield from part("directives", ["-p"], (t % s for s in strings(PPCORE[:12], 4)), 800)
    for name, text in SRC.items():
        yield from part("edits: " + name, ALLF if name == "gnu" else [], edits(text, quick), 60)
    for k, f in NEST.items():
        for args in ([], ["-p"], ["--dump-tokens"], ["--dump-ast"], ["--dump-ir"]):
            yield from part("nesting: " + k, ALLF + args, (f(n) for n in ([1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200] if quick else range(1, 257))), 20)
    vals = VALUES[::2] if quick else VALUES
    for t in FCTX:
        yield from part("constant folding", [], (t % (f % (a, b)) for f in FOLD for a in VALUES for b in vals), 400)


def run(chk):
    core.build_kserve("asan")
    core.build_native("batch", "asan", ["batch.c"])
    seen = set()
    for part, args, n, out in core.pmap(_job, jobs(chk.quick)):
        chk.add(part.split(":")[0], states=n, transitions=n, traces=n)
        for src, w in out:
            key = (part, src)
            if key in seen:
                continue
            seen.add(key)
            chk.violation("%s: %s: %r" % (part, " ".join(a for a in args if a not in ALLF) or "compile", src[:300]), w, b"arguments: " + " ".join(args).encode() + b"\n" + src)
        if chk.too_many():
            break
    return chk.finish()

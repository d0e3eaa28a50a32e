"""C24: allocation failure."""
TECHNIQUE = "exhaustive fault injection on the real compiler: for representative sources and every stage, every single allocation of the run is made to fail in turn (fork at each allocation), and each resulting execution is run to its end and judged"
NOTE = ("The whole driver runs with an instrumented allocator in place of the system one. The undisturbed run has to release everything it allocated; a run with one failing allocation has to end by itself with a failing status and a diagnostic, or with the output of the undisturbed run, without touching released memory and without invalid frees.")
import os
import subprocess
from mc import core

SRC = {
    "types": """struct s { int a : 3; unsigned : 0; struct s *n; double d; union { int x; float y; }; };
enum e { A, B = 5, C };
typedef int arr[3][2];
extern arr q; static const volatile struct s g = { .a = 1, .d = 2.5, .x = 3 };
_Alignas(16) char buf[10] = "abc";
int (*fp)(int, ...); struct inc; struct inc *pi;
_Static_assert(sizeof(struct s) > 4, "size");
unsigned long long ll = 1 + B * sizeof(arr); long double ld = 1.5L; int *pp = &((int *) 0)[1]; char *str = "x" "y";
int arr2[] = { [2] = 1, 2, [0] = 3 };
""",
    "stmts": """int ext(int);
int f(int n) {
    int r = 0;
    for (int i = 0; i < n; i++) { if (i == 3) continue; r += i; }
    while (r > 100) { r--; if (r == 50) break; }
    do { r++; } while (r < 0);
    switch (n) { case 1: r = 2; break; case 2: { r = 3; } default: goto end; }
    { ; }
    if (r) ext(r); else return 1;
end:
    return r;
}
""",
    "exprs": """int printf(const char *, ...);
double h(float a, long double b, char c, short s, unsigned long u) {
    int x = c ? s : (int) a, *p = &x, v[3] = { 1, 2 };
    x += s << 2; x -= u % 7; p[0]++; --*p; v[1] ^= ~x & 3 | 4;
    x = !p || (a < b && c != s) ? sizeof v : sizeof(int);
    x = _Generic(a, float : 1, default : 2), x;
    return printf("%d %s\\n", v[x], __func__) + a * b / (u + 1) - (long double) c;
}
""",
    "structs": """struct p { int a; long b[3]; double c; }; struct q { float x, y; };
struct p mk(struct p v, struct q w, struct q *z) { struct p r = v; r.b[1] = (long) w.x; z->y = r.c; *z = (struct q) { 1, .y = 2 }; return r; }
union u { int i; struct q q; } gu = { .q = { 1, 2 } };
long use(void) { struct q t = { 0 }; return mk((struct p) { 1, { 2, 3 }, 4 }, t, &t).b[2]; }
struct bf { unsigned a : 5, b : 12; signed long c : 40; }; int bf(struct bf *p) { p->a = p->b; return p->c += 3; }
""",
    "vla": """void *memcpy(void *, const void *, unsigned long);
int f(int n, int m, int (*a)[2]) { int v[n + 1][m]; int (*p)[m]; { char w[n]; w[0] = 1; v[0][0] = w[0]; if (n) goto out; } out: return sizeof v + sizeof *p + a[1][0]; }
""",
    "varargs": """typedef __builtin_va_list va_list;
struct s { int a, b; };
int sum(int n, ...) { va_list l; __builtin_va_start(l, n); int r = __builtin_va_arg(l, int); r += __builtin_va_arg(l, double); r += __builtin_va_arg(l, struct s).a; __builtin_va_end(l); return r; }
int call(void) { return sum(3, 1, 2.0, (struct s) { 1, 2 }); }
""",
    "preproc": """#define ID(x) x
#define CAT(a, b) a ## b
#define STR(x) #x
#define V(f, ...) f(__VA_ARGS__)
#define OBJ ID(CAT(1, 2)) /* comment */
#if defined OBJ && OBJ == 12 || !(3 > 2 ? 1 : 0)
int a = V(ID, OBJ), b = __LINE__;
#elif 0
#error no
#else
@ junk
#endif
#ifdef UNDEF
#include <nothing.h>
#endif
#undef ID
#line 100 "file.c"
char *s = STR(a  "b\\n" 'c') __FILE__, *t = "x" CAT(, "y") ""; const void *w = L"wide" "z", *z = u8"q";
#pragma once
# // null
int c = 0x1p3 + .5e-3f + 'a' + L'c' + 0777ULL \\
;
""",
    "gnu": """int g(int); void t(int x) { void *l = &&lab; int y = ({ int z = x; z + 1; }); goto *l; lab: x ?: y; }
""",
    "inline": """inline int a(int x) { return x; } extern int a(int); static int s(void) { static int n = 5; extern int ev; return n++ + ev; } _Noreturn void die(void); int ev = 1; int u(void) { return s() + a(2); } _Thread_local int tl = 3; int gt(void) { return tl++; }
""",
    "knr": """int f(a, b) int a; char *b; { return a + *b; } int g() { return f(1, "x"); }
""",
    "bad-lex": "int a = 1;\nchar *p = \"abc;\n",
    "bad-pp": "#define F(x) x\nint a = F(1;\n#if 1\n#include \"nofile.h\"\n",
    "bad-syntax": "int f(int x) { return x + ; }\nint g(void) { if x; }\n",
    "bad-sem": "struct s { int a; };\nint f(struct s v) { int x = v.b; return y; }\nint x = f(1);\nint f(int, int);\n",
    "bad-flow": "int f(int x) { goto nowhere; switch (x) { case 1: case 1: break; } }\n",
    "bad-init": "int n; int a[2] = { 1, 2, 3 }; static int b = n; struct z { int a; } c = { .q = 1 };\n",
}
MODES = {"compile": [], "preprocess": ["-p"], "tokens": ["--dump-tokens"], "ast": ["--dump-ast"], "ir": ["--dump-ir"]}
OPTS = {"gnu": ["--feature-labels-as-values", "--feature-statement-expressions", "--feature-omitted-conditional-operand"]}
EXTRA = {("bad-syntax", "compile"): [["--json-errors"], ["--tabular-errors"]], ("stmts", "compile"): [["--feature-implicit-function-decl", "-D", "X=1", "-D", "Y", "-I", "/nonexistent", "--source-id", "zz.c"]],
         ("exprs", "ir"): [["--detailed-output"]], ("exprs", "ast"): [["--detailed-output"]]}


def _job(a):
    exe, args, frm, to = a
    p = subprocess.run([exe, "1" if to else "0", str(frm), str(to)] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800,
                       env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:quarantine_size_mb=4:allocator_may_return_null=1", LC_ALL="C.UTF-8"))
    return args, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def _where(exe, addrs):
    if not addrs:
        return {}
    p = subprocess.run(["addr2line", "-f", "-s", "-e", exe] + addrs, stdout=subprocess.PIPE)
    l = p.stdout.decode("utf-8", "replace").splitlines()
    return {a: "%s %s" % (l[2 * i], l[2 * i + 1]) for i, a in enumerate(addrs) if 2 * i + 1 < len(l)}


def _explore(chk, variant):
    exe = core.build_native("allocfail", variant, ["allocfail.c"], with_main=True, extra=["-Wl,--wrap=kefir_system_memalloc", "-no-pie"])
    jobs, names = [], {}
    for name, text in SRC.items():
        f = os.path.join(core.scratch(), name + ".c")
        with open(f, "w") as fd:
            fd.write(text)
        for m, margs in MODES.items():
            for extra in [[]] + EXTRA.get((name, m), []):
                args = margs + OPTS.get(name, []) + extra + [f]
                names[tuple(args)] = "%s %s%s" % (name, m, " " + " ".join(extra) if extra else "")
                jobs.append((exe, args, 0, 0))
    faults, total = [], {}
    for args, out, err in core.pmap(_job, jobs):
        n = names[tuple(args)]
        end = [l.split() for l in out.splitlines() if l.startswith("END")]
        if not end:
            chk.violation("undisturbed: %s" % n, "the run does not end by itself", out + err[-2000:])
            continue
        _, allocs, live, rc, _, bad = end[0]
        if int(bad):
            chk.violation("undisturbed: %s" % n, "%s invalid frees" % bad, out)
        elif int(rc) == 0 and int(live):
            chk.violation("undisturbed: %s" % n, "%s blocks are never released" % live, out)
        total[n] = int(allocs)
        if int(rc) != 0 and not n.startswith("bad-"):
            chk.violation("undisturbed: %s" % n, "exit status %s" % rc, out + err[-2000:])
        step = 400
        for i in range(1, int(allocs) + 1, step):
            faults.append((exe, args, i, i + step))
    viol = []
    runs = 0
    for args, out, err in core.pmap(_job, faults):
        n = names[tuple(args)]
        end = None
        for l in out.splitlines():
            f = l.split()
            if f[0] == "END":
                end = f
            elif f[0] == "R":
                viol.append((n, int(f[1]), f[2], f[3], f[4]))
        if end is None:
            raise core.CheckError("fault harness on %s: %s" % (n, err[-500:]))
        runs += int(end[4])
    w = _where(exe, sorted({v[4] for v in viol}))
    what = {"crash": "dies from signal %s", "hang": "runs forever (signal %s)", "sanitizer": "sanitizer report (status %s)", "exit": "leaves by exit(%s) in the middle", "badfree": "frees memory it does not own (status %s)",
            "success": "reports success (%s) with a different output", "silent": "fails (status %s) without a diagnostic"}
    for n, i, kind, st, addr in sorted(viol):
        chk.violation("%s: %s: allocation %d" % (variant, n, i), "when allocation %d (in %s) fails, the run %s" % (i, w.get(addr, addr), what[kind] % st), "%s\n%s\nallocation %d of the run: .build/bin/allocfail-%s-* 2 %d 0 %s\n" % (n, SRC[n.split()[0]], i, variant, i, " ".join(MODES[n.split()[1]] + OPTS.get(n.split()[0], []) + ["file.c"])))
    chk.add("%s: every single allocation failing, %d runs of %d sources" % (variant, len(names), len(SRC)), states=runs, transitions=runs, traces=runs + len(names), faults=runs)


def run(chk):
    core.build_kserve()
    _explore(chk, "opt")
    if not chk.quick:
        _explore(chk, "addr")
    return chk.finish()

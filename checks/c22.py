"""C22: accept and reject."""
TECHNIQUE = "exhaustive enumeration of constructs over a catalogue of operand kinds (every operator with every operand kind or pair, every cast, call, subscript, member access, statement, declaration pair and triple, initialiser, bit-field, array length, alignment) and of all token strings up to a bound; the compiler's verdict on each is compared with a reference compiler in its strictly conforming mode"
NOTE = ("Each case is one construct in an otherwise valid translation unit; the reference is gcc -std=c17 -pedantic-errors. Valid cases are compiled in batches (a rejected batch is bisected), invalid ones one by one. "
        "Exclusions (documented in DESIGN.md): kefir's documented extensions, conversions the standard leaves to the implementation, and diagnostics the reference gives beyond the constraints.")
import itertools
from mc import core, accept

HEAD = """struct S { int a; char b; int bf : 3; }; struct C { const int a; }; union U { int a; char b; }; struct I; enum E { E0, E1 = 1 };
extern int i; extern unsigned u; extern long l; extern char c; extern double d; extern float f; extern _Bool b; extern const int ci; extern int *p; extern const int *cp; extern char *q; extern void *v; extern struct S s; extern struct S *sp; extern const struct S *csp; extern struct C co;
extern union U un; extern union U *up; extern struct I *ip; extern enum E e; extern int a[3]; extern int aa[2][3]; extern int (*pa)[3]; extern int fn(int); extern int (*fp)(int); extern void vf(void); extern struct S sf(void); extern void (*vp)(void); extern int **pp; extern int ua[]; extern struct I si;
"""
OPERANDS = ["i", "u", "l", "c", "d", "f", "b", "ci", "e", "E1", "p", "cp", "q", "v", "s", "sp", "csp", "un", "up", "ip", "a", "aa", "pa", "fn", "fp", "vf()", "sf()", "s.bf", "1", "0", "1.5", "\"ab\"", "(void *)0", "&i", "*p", "a[1]", "fn(1)", "(int){1}", "(struct S){1}", "co", "pp", "ua", "s.a", "sp->b", "(i)", "(i, i)", "i = 1", "co.a", "csp->a"]
QUICK = ["i", "d", "b", "ci", "p", "cp", "v", "s", "sp", "ip", "a", "fn", "fp", "vf()", "0", "1", "un"]
UNARY = ["+%s", "-%s", "~%s", "!%s", "&%s", "*%s", "++%s", "--%s", "%s++", "%s--", "sizeof(%s)", "&*%s", "*&%s", "(%s)()", "(%s)(1)", "(%s)[0]", "0[%s]", "(%s).a", "(%s)->a", "(%s).z", "(void)(%s)", "(%s, 1)", "(%s)(1, 2)", "_Generic((%s), int: 1, default: 2)", "(%s)(s)", "(%s)(p)", "&(%s).a", "&(%s).bf", "sizeof((%s).bf)"]
BINARY = ["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||", ","]
ASSIGN = ["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="]
TYPES = ["int", "unsigned", "long", "char", "double", "_Bool", "enum E", "int *", "const int *", "char *", "void *", "void", "struct S", "struct S *", "union U", "struct I", "struct I *", "int [3]", "int (*)[3]", "int (*)(int)", "int (int)", "const int", "struct C", "int **"]
FUNCS = ("fn", "fp", "vp", "vf")


def named(t, n):
    for m in ("(*)",):
        if m in t:
            k = t.index(m)
            return t[:k] + "(*%s)" % n + t[k + 3:]
    if t == "int (int)":
        return "int %s(int)" % n
    if "[" in t:
        k = t.index("[")
        return t[:k] + n + t[k:]
    return t + " " + n


def unary():
    for o in OPERANDS:
        for u in UNARY:
            if (u, o) == ("*%s", "ip"):
                continue  # an incomplete lvalue evaluated as a void expression
            x = o if not u.startswith(("+", "-", "~", "!", "&", "*")) and not u.endswith(("++", "--")) else ("(%s)" % o if " " in o and not o.startswith("(") else o)
            yield "%s with %s" % (u, o), "void f@(void) { (void)(%s); }" % (u % x)


def paren(o):
    return "(%s)" % o if " " in o else o


def binary(ops, args):
    for op in ops:
        for x in args:
            for y in args:
                yield "%s %s %s" % (x, op, y), "void f@(void) { (void)(%s %s %s); }" % (paren(x), op, paren(y))


FPO = {"v", "(void *)0"}


def assign(ops, args):
    for op in ops:
        for x in args:
            for y in args:
                if x == "b" and op in ("+=", "-="):
                    continue  # the reference applies pointer arithmetic to _Bool
                yield "%s %s %s" % (x, op, y), "void f@(void) { %s %s %s; }" % (paren(x), op, paren(y))


def conditional(args):
    for x in OPERANDS:
        yield "%s ? 1 : 2" % x, "void f@(void) { (void)(%s ? 1 : 2); }" % paren(x)
    for x in args:
        for y in args:
            yield "i ? %s : %s" % (x, y), "void f@(void) { (void)(i ? %s : %s); }" % (paren(x), paren(y))


def casts():
    for t in TYPES:
        for o in OPERANDS:
            fpt, fpo = "(*)(" in t, o in ("fn", "fp")
            if fpt != fpo and ("*" in t and (o in FPO or fpo or o in ("p", "cp", "q", "sp", "csp", "up", "ip", "a", "aa", "pa", "&i", "pp", "ua", "\"ab\""))):
                continue  # conversions between object and function pointers: no constraint
            yield "(%s)%s" % (t, o), "void f@(void) { (void)((%s)%s); }" % (t, paren(o))
        yield "sizeof(%s)" % t, "void f@(void) { (void)sizeof(%s); }" % t
        yield "_Alignof(%s)" % t, "void f@(void) { (void)_Alignof(%s); }" % t
        yield "(%s){0}" % t, "void f@(void) { (void)(%s){0}; }" % t
        yield "_Generic %s" % t, "int x@ = _Generic(1, %s: 1, default: 0);" % t
        for t2 in TYPES:
            if t < t2 and {t, t2} != {"enum E", "unsigned"}:
                yield "_Generic %s, %s" % (t, t2), "int x@ = _Generic(1, %s: 1, %s: 2, default: 0);" % (t, t2)
            if t2 != "void":
                yield "%s function, %s parameter" % (t, t2), "%s;" % named(t, "f@(%s)" % named(t2, "x"))
        for kind in ("typedef", "extern", "static", "", "const", "_Atomic"):
            if kind != "_Atomic":
                yield "%s %s" % (kind, t), "%s %s;" % (kind, named(t, "x@"))
                yield "inner %s %s" % (kind, t), "void f@(void) { %s %s; }" % (kind, named(t, "x"))
        yield "array of %s" % t, "typedef %s;" % (named(t, "x@[2]") if "(" not in t else named(t, "x@"))
        yield "member %s" % t, "struct M@ { %s; };" % named(t, "x")
        yield "member %s, 2" % t, "union M@ { %s; int y; };" % named(t, "x")
        yield "returns %s" % t, "extern %s;" % named(t, "f@(void)")
        yield "pointer to %s" % t, "typedef %s T@; T@ *x@;" % "" if False else "typedef %s; extern T@ *x@;" % named(t, "T@")


def calls(args):
    for t in TYPES:
        if t in ("void", "struct I", "int (int)"):
            continue
        for o in args:
            yield "f(%s) called with %s" % (t, o), "extern void g@(%s); void f@(void) { g@(%s); }" % (t, o)
            yield "initialise %s with %s" % (t, o), "void f@(void) { %s = %s; }" % (named(t, "x"), o)
            yield "initialise %s with {%s}" % (t, o), "void f@(void) { %s = {%s}; }" % (named(t, "x"), o)
            yield "static %s with %s" % (t, o), "static %s = %s;" % (named(t, "x@"), o)
            if t not in ("int [3]",):
                yield "return %s from %s" % (o, t), "typedef %s; T@ f@(void) { return %s; }" % (named(t, "T@"), o)
    for n, sig in enumerate(["void", "", "int", "int, int", "int, ...", "int *", "struct S", "double, int, ..."]):
        for k in range(4):
            for vals in itertools.product(["1", "p", "s"] if k < 3 else ["1"], repeat=k):
                yield "f(%s) called with (%s)" % (sig, ", ".join(vals)), "extern int g@(%s); void f@(void) { g@(%s); }" % (sig, ", ".join(vals))
                yield "pointer to f(%s) called with (%s)" % (sig, ", ".join(vals)), "extern int (*g@)(%s); void f@(void) { g@(%s); (*g@)(%s); }" % (sig, ", ".join(vals), ", ".join(vals))


def members():
    bases = {"s": "s", "sp": "sp", "csp": "csp", "un": "un", "co": "co", "si": "si", "ip": "ip", "arr": "(&s)", "i": "i", "nested": "(*&s)"}
    for n, x in bases.items():
        for op in (".", "->"):
            for m in ("a", "b", "bf", "z"):
                for use in ("(void)(%s);", "%s = 1;", "(void)&%s;", "%s++;", "(void)sizeof(%s);"):
                    yield use % (n + op + m), "void f@(void) { %s }" % (use % (x + op + m))
    anon = "struct N@ { int x; struct { int y; union { int z; char w; }; }; struct Q@ { int k; } n; };"
    for m in ("x", "y", "z", "w", "k", "n", "n.k", "n.x", "y.z"):
        yield "anonymous " + m, anon + " int f@(struct N@ *p) { return sizeof(p->%s); }" % m
    for ms in itertools.product(["int x;", "int y;", "struct { int x; };", "struct { int y; };", "struct T@ { int x; };", "union { int x; char z; };", "int :3;", "int x:3;", "struct { int z; } x;", "int x[];", "int;", "struct I z;", "int z(void);", "int z[];", ";"], repeat=2):
        if not any(n in m for m in ms for n in ("x;", "y;", "z;", "x:", "} x", "(void)")):
            continue  # no named member: undefined
        yield "struct { %s }" % " ".join(ms), "struct M@ { %s };" % " ".join(ms)
        yield "union { %s }" % " ".join(ms), "union M@ { %s };" % " ".join(ms)


def bitfields():
    for t in ["int", "unsigned", "_Bool", "char", "signed char", "long", "unsigned long long", "short", "enum E", "float", "int *", "struct S", "const int", "void"]:
        for w in ["0", "1", "-1", "3", "7", "8", "9", "31", "32", "33", "64", "65", "1.5", "i", "sizeof(int)", "'a'", "E1", "(int)2.5", "2 + 1", "ci", "1 ? 2 : 3"]:
            if t in ("char", "signed char", "long", "unsigned long long", "short", "enum E"):
                continue  # implementation-defined bit-field types
            if t == "_Bool" and w in ("3", "7", "8", "sizeof(int)", "(int)2.5", "2 + 1", "1 ? 2 : 3"):
                continue  # the width of _Bool is implementation-defined
            yield "%s x : %s" % (t, w), "struct M@ { %s x : %s; };" % (t, w)
            yield "%s : %s" % (t, w), "struct M@ { int y; %s : %s; };" % (t, w)


def arrays():
    lens = ["1", "0", "-1", "3u", "1.0", "1.5", "i", "ci", "p", "s", "sizeof(int)", "E0", "E1", "(int)2.0", "1 + 1", "1 - 1", "1 - 2", "'a'", "fn(1)", "*p", "d", "b", "1 ? 2 : i", "", "*", "sizeof(i)", "(i, 1)", "1 || i", "0 ? i : 2", "(_Bool)5", "~0", "static 2", "const", "const 2"]
    for n in lens:
        for place, t in {"file object": "int x@[%s];", "extern": "extern int x@[%s];", "static": "static int x@[%s];", "local": "void f@(void) { int x[%s]; }", "local static": "void f@(void) { static int x[%s]; }", "local extern": "void f@(void) { extern int x@[%s]; }", "typedef": "typedef int x@[%s];", "local typedef": "void f@(void) { typedef int x[%s]; }",
                         "parameter": "void f@(int x[%s]) { }", "prototype": "void f@(int x[%s]);", "member": "struct M@ { int x[%s]; };", "inner member": "struct M@ { int z; int x[%s]; };", "type name": "void f@(void) { (void)sizeof(int[%s]); }", "cast": "void f@(void) { (void)(int (*)[%s])0; }", "pointer": "extern int (*x@)[%s];", "local pointer": "void f@(void) { int (*x)[%s]; }", "inner dimension": "void f@(void) { int x[2][%s]; }", "inner dimension, parameter": "void f@(int x[][%s]) { }", "inner dimension, prototype": "void f@(int x[2][%s]);", "outer dimension": "extern int x@[%s][2];", "return": "extern int (*f@(void))[%s];", "compound literal": "void f@(void) { (void)(int[%s]){1}; }", "initialised": "void f@(void) { int x[%s] = {1}; }", "local static pointer": "void f@(void) { static int (*x)[%s]; }", "alignas": "_Alignas(int[%s]) int x@;", "for": "void f@(void) { for (int x[%s];;) break; }", "generic": "void f@(void) { (void)_Generic((int *)0, int (*)[%s]: 1, default: 2); }", "block-scope prototype": "void f@(void) { int g@(int x[%s]); }", "enum": "enum { X@ = sizeof(int[%s]) };", "case": "void f@(void) { switch (i) { case sizeof(int[%s]): ; } }"}.items():
            yield "%s [%s]" % (place, n), t % n
    for kind in ("const", "enum", "label", "static"):
        for n in ("1", "i", "ci", "E1", "1.0", "1 + E1", "sizeof i", "&i", "p", "\"a\"", "(int)1.5", "-1", "!1", "1 ? 2 : 3", "1, 2", "(1, 2)", "i = 1", "fn(1)", "a[0]", "s.a", "'a'", "1 / 0", "1 % 0", "1 || 1 / 0", "sizeof(int[2])", "_Alignof(int)", "(long)1", "1u << 2", "0 && fn(1)", "1 ? 1 : i", "&s.a", "(int *)0", "i ? 1 : 2", "(void)0", "s", "+ - ~ 1", "_Generic(1, int: 3)", "_Generic(i, int: 3, default: i)"):
            if kind == "const" and n in ("0 && fn(1)", "1 ? 1 : i"):
                continue  # forms an implementation may or may not take as constant
            if kind == "const" and "/ 0" not in n and "% 0" not in n:
                yield "static initialiser " + n, "int x@ = %s;" % n
                yield "local static initialiser " + n, "void f@(void) { static int x = %s; }" % n
                yield "_Static_assert " + n, "_Static_assert(%s, \"\");" % n
            elif kind == "enum" and "/ 0" not in n and "% 0" not in n:
                yield "enum = " + n, "enum X@ { A@ = %s };" % n
            elif kind == "label" and "/ 0" not in n and "% 0" not in n:
                yield "case " + n, "void f@(int x) { switch (x) { case %s: ; } }" % n
            elif kind == "static" and "/ 0" not in n and "% 0" not in n:
                yield "designator [%s]" % n, "void f@(void) { int x[200] = {[%s] = 1}; }" % n
                yield "_Alignas(%s)" % n, "_Alignas(%s) int x@;" % n


def statements():
    for o in OPERANDS:
        for s in ("if (%s) ;", "while (%s) ;", "do ; while (%s);", "for (; %s;) ;", "for (%s;;) ;", "for (;;%s) ;", "switch (%s) { case 1: ; }", "return %s;", "%s;", "goto %s;", "case %s: ;", "switch (i) { case %s: ; }"):
            yield s % o, "void f@(void) { %s }" % (s % o)
        yield "int: return %s;" % o, "int f@(void) { return %s; }" % o
        yield "struct: return %s;" % o, "struct S f@(void) { return %s; }" % o
        yield "pointer: return %s;" % o, "int *f@(void) { return %s; }" % o
    B = ["break;", "continue;", "return;", "case 1: ;", "default: ;", "goto L;", "L: ;", "int x;", "x: ;", "{ int i; }", "int i; int i;", "extern int i;", "static int i = 1;", "typedef int T; T t;", "T t;", "_Static_assert(1, \"a\");", "_Static_assert(0, \"a\");", "_Static_assert(1);", ";", "", "L: L2: ;", "L: int x;", "case 1: int x;", "default: int x;", "else ;", "int i = i;", "int (*g)(void) = f@;", "extern int z@; extern long z@;", "int g(void);", "static int g(void);", "int g(void) { return 1; }", "register int r; &r;", "auto int r;", "goto *p;", "inline int g(void);", "_Noreturn void g(void);", "_Thread_local int t;", "static _Thread_local int t;", "extern _Thread_local int t;"]
    W = ["%s", "while (1) { %s }", "switch (i) { %s }", "if (1) { %s }", "for (;;) { %s }", "do { %s } while (0);", "{ %s }", "while (1) %s", "if (1) %s", "switch (i) %s", "for (int k = 0; ;) %s", "L: { %s }", "switch (i) { case 1: %s }", "switch (i) { default: %s }", "if (1) %s else ;", "while (1) switch (i) { %s }", "switch (i) while (1) { %s }"]
    for b in B:
        for w in W:
            yield "stmt " + w % b, "void f@(void) { %s }" % (w % b)
    for x, y in itertools.product(B[:19], repeat=2):
        yield "stmts %s %s" % (x, y), "int f@(int n) { switch (n) { %s %s } return 0; }" % (x, y)
        yield "stmts, block %s %s" % (x, y), "int f@(int n) { while (n) { %s { %s } } return 0; }" % (x, y)
    for x, y in itertools.product(["case 1:", "case 2:", "case 1 + 0:", "case 'a':", "case 97:", "default:", "case 1u:", "case 1L:", "case 0x100000001:", "case -1:", "case 0xffffffff:", "case E1:", "case 1 ... 2:"], repeat=2):
        for t in ("int", "char", "unsigned", "long"):
            if "..." in x + y:
                continue
            yield "switch (%s) { %s %s }" % (t, x, y), "void f@(%s x) { switch (x) { %s ; %s ; } }" % (t, x, y)
            yield "switch (%s) { %s { %s } }" % (t, x, y), "void f@(%s x) { switch (x) { %s { if (x) { %s ; } } } }" % (t, x, y)
            yield "nested switch (%s) { %s { %s } }" % (t, x, y), "void f@(%s x) { switch (x) { %s switch (x) { %s ; } } }" % (t, x, y)
    for place in ("goto L; { int n = 1; int a[n]; L: ; }", "goto L; int n = 1; int a[n]; L: ;", "int n = 1; { int a[n]; goto L; } L: ;", "int n = 1; int a[n]; goto L; L: ;", "switch (i) { int n = 1; int a[n]; case 1: ; }", "switch (i) { case 0: ; int a[i]; case 1: ; }", "switch (i) { case 0: { int a[i]; } case 1: ; }", "L: ; int a[i]; goto L;", "goto L; typedef int T[i]; L: ;", "{ L: ; } goto L;", "goto L; { int (*p)[i]; L: ; }"):
        yield "jump " + place, "void f@(void) { %s }" % place


DECLS = ["int x@;", "static int x@;", "extern int x@;", "int x@ = 1;", "extern int x@ = 1;", "static int x@ = 1;", "typedef int x@;", "int x@(void);", "static int x@(void);", "extern int x@(void);", "int x@(void) { return 1; }", "static int x@(void) { return 1; }", "enum { x@ };", "long x@;", "const int x@;", "int x@[];", "int x@[2];", "int x@[3];", "extern int x@[];", "int x@(int);", "int x@();", "inline int x@(void) { return 1; }", "static inline int x@(void) { return 1; }", "typedef long x@;", "_Thread_local int x@;", "extern _Thread_local int x@;", "struct x@ { int a; };", "static int x@[];", "int x@[2] = {1};", "typedef int x@(void);", "int x@(int a) { return a; }", "int x@(a) int a; { return a; }"]
INLINE = {("inline int x@(void) { return 1; }", "static int x@(void);")}


def declarations(q):
    for x, y in itertools.product(DECLS, repeat=2):
        if (x, y) in INLINE:
            continue  # undefined: linkage disagrees with an inline definition
        yield "file: %s %s" % (x, y), "%s %s" % (x, y)
    inner = [d for d in DECLS if "{ return" not in d]
    for x, y in itertools.product(inner, repeat=2):
        yield "block: %s %s" % (x, y), "void f@(void) { %s %s }" % (x, y)
        yield "file, block: %s { %s }" % (x, y), "%s void f@(void) { %s }" % (x, y)
        yield "block, inner: %s { %s }" % (x, y), "void f@(void) { %s { %s } }" % (x, y)
        yield "block, file: { %s } %s" % (x, y), "void f@(void) { %s } %s" % (x, y)
    for y in inner:
        yield "parameter, block: %s" % y, "void f@(int x@) { %s }" % y
        yield "parameter, inner: %s" % y, "void f@(int x@) { { %s } }" % y
        yield "for: %s" % y, "void f@(void) { for (%s 1;) break; }" % y
    if not q:
        core3 = ["int x@;", "static int x@;", "extern int x@;", "int x@ = 1;", "int x@[];", "int x@[2];", "extern int x@[];", "int x@(void);", "static int x@(void);", "int x@(void) { return 1; }", "int x@();", "typedef int x@;", "enum { x@ };"]
        for t in itertools.product(core3, repeat=3):
            yield "file: " + " ".join(t), " ".join(t)
    T = ["struct T@;", "struct T@ { int a; };", "struct T@ { int b; };", "union T@;", "union T@ { int a; };", "enum T@ { A@ };", "enum T@ { B@ };", "struct T@ *x@;", "struct T@ y@;", "enum T@ *w@;", "union T@ *z@;", "struct T@ { struct T@ *n; };", "struct T@ { struct T@ n; };", "enum T@ v@;", "typedef struct T@ T@;", "typedef int T@;", "T@ u@;", "struct T@ f@(struct T@ a);", "struct T@ f@(struct T@ a) { return a; }", "int g@[sizeof(struct T@)];"]
    for x, y in itertools.product(T, repeat=2):
        yield "tags: %s %s" % (x, y), "%s %s" % (x, y)
        if "{ return" not in y:
            yield "tags, block: %s { %s }" % (x, y), "%s void h@(void) { %s }" % (x, y)
    if not q:
        for t in itertools.product(T[:12], repeat=3):
            yield "tags: " + " ".join(t), " ".join(t)
    P = ["int a", "int", "int a[]", "int a[*]", "void", "const void", "static int a", "register int a", "int a, int a", "int a, int b[a]", "int b[a], int a", "int a, ...", "...", "", "a", "a, b", "struct P@ { int x; } a", "int (*a)(int a)", "int a(void)", "int a = 1", "int a : 3", "typedef int a", "inline int a", "_Alignas(8) int a", "extern int a", "void, int", "void, ...", "int, void", "struct I a", "struct I *a", "int a[][]", "int a[][2]", "_Thread_local int a", "int a[static 1]", "int a[static]", "int (*a)[static 1]"]
    for p in P:
        for w in ("void f@(%s);", "void f@(%s) { }", "typedef void f@(%s);", "void (*f@)(%s);", "void f@(void) { void g(%s); }", "void f@(void) { (void)(void (*)(%s))0; }"):
            yield "parameters: " + w % p, w % p
    for r in ("int", "void", "struct I", "struct S", "static", "inline int", "_Noreturn void", "typedef int", "register int", "auto int", "extern int", "const int", "int *", "_Alignas(8) int", "_Thread_local int", "inline _Noreturn static void", ""):
        for w in ("%s f@(void);", "%s f@(void) { }", "void g@(void) { %s f@(void); }", "%s x@;", "void g@(void) { %s x@; }", "struct M@ { %s x; };", "void g@(%s x) { }"):
            if (r, w) != ("inline int", "%s f@(void);"):
                yield "specifier: " + w % r, w % r
    for t in ("int f@[2](void);", "int f@(void)[2];", "int f@(void)(void);", "int *f@[2];", "int (*f@)(void)[2];", "int (f@)(void) { return 1; }", "int (*f@)(void) { return 1; }", "typedef int F@(void); F@ f@;", "typedef int F@(void); F@ f@ { return 1; }", "int a@, a@;", "int a@ = 1, b@ = a@;", "int *a@ = &a@;", "int x@ y@;", "int;", "int int x@;", "x@;", "x@ = 1;", "static x@;", "const x@;", "*x@;", "f@() { }", "void f@(a) { }", "int f@(a, b) int a; { return a; }", "int f@(a) int a, b; { return a; }", "int f@(a) int a = 1; { return a; }", "int f@(a) static int a; { return a; }", "int f@(a) register int a; { return a; }", "int f@(int a) int b; { return a; }", "int f@(a) int a; int a; { return a; }", "enum E@ { };", "enum E@ { A@, };", "enum E@ { A@, A@ };", "enum E@ { A@ } x@; enum { A@ };", "enum E@ { A@ = 0x7fffffff, B@ };", "enum E@ { A@ = 0x80000000 };", "enum E@ { A@ = -2147483648 };", "enum E@;", "enum E@ x@;", "struct S@ { };", "struct { int x; };", "struct S@ { int x; } ;;", "int x@ = { 1 };", "int x@ = { 1, 2 };", "int x@ = {{ 1 }};", "int x@[2] = { 1, 2, 3 };", "int x@[2] = 1;", "char x@[2] = \"abc\";", "char x@[3] = \"abc\";", "char x@[] = {\"abc\"};", "int x@[] = \"abc\";", "char *x@ = {\"abc\"};", "struct S x@ = { 1, 2, 3, 4 };", "struct S x@ = {.a = 1, .z = 2};", "struct S x@ = {[0] = 1};", "int x@[2] = {.a = 1};", "int x@[2] = {[2] = 1};", "int x@[2] = {[-1] = 1};", "int x@[] = {[3] = 1};", "int x@ = {};", "int x@[2] = {};", "struct I x@ = {0};", "int x@[] = {1}; int y@[sizeof x@ == 4 ? 1 : -1];", "int f@(void) = 1;", "extern int x@[]; int y@ = sizeof x@;", "extern int x@[]; int *y@ = x@;", "typedef int x@ = 1;", "struct S x@ = 1;", "struct S x@ = s;", "void f@(void) { struct S x = s; }", "void f@(void) { int x[3] = a; }", "void f@(void) { int x[] = {1, a[0]}; }", "int *x@ = &i + 1;", "int *x@ = p;", "int x@ = (int)&i;", "long x@ = (long)&i;", "int *x@ = &a[1];", "int *x@ = &a[i];", "int *x@ = &s.a;", "char x@ = 300;", "struct F@ { int n; int a[]; }; struct F@ x@[2];", "struct F@ { int n; int a[]; }; struct G@ { struct F@ f; };", "struct F@ { int n; int a[]; }; struct F@ x@;", "struct F@ { int a[]; };", "struct F@ { int a[]; int n; };", "union F@ { int n; int a[]; };", "struct F@ { int n; int a[]; }; int x@ = sizeof(struct F@);", "_Alignas(3) int x@;", "_Alignas(8) int x@;", "_Alignas(1) int x@;", "_Alignas(0) int x@;", "_Alignas(double) int x@;", "_Alignas(char) int x@;", "_Alignas(8) typedef int x@;", "_Alignas(8) int f@(void);", "struct B@ { _Alignas(8) int x : 3; };", "void f@(_Alignas(8) int x);", "void f@(void) { _Alignas(8) register int x; }", "_Alignas(8) struct A@ { int x; };", "_Static_assert(1, \"\"); int x@;", "_Static_assert(1 == 2, \"\");", "_Static_assert(i, \"\");", "_Static_assert(1, 2);", "struct A@ { _Static_assert(1, \"\"); int x; };", "struct A@ { _Static_assert(0, \"\"); int x; };", "inline int x@;", "_Noreturn int x@;", "typedef inline int f@(void);", "static static int x@;", "static extern int x@;", "typedef extern int x@;", "register int x@;", "auto int x@;", "_Thread_local static int x@;", "_Thread_local auto int x@;", "_Thread_local typedef int x@;", "_Thread_local int f@(void);", "const const int x@;", "const volatile int x@;", "int const *const volatile x@;", "int &x@;", "int x@ : 3;", "int (x@);", "int ((x@))[2];", "int (*(x@));", "int ();", "int (*);", "void x@;", "extern void x@;", "void *x@; ", "struct I x@;", "extern struct I x@;", "static struct I x@;", "static int x@[];", "int x@[];", "struct L@ x@; struct L@ { int a; };", "static struct L@ x@; struct L@ { int a; };", "typedef struct I T@; T@ x@;", "typedef void T@; T@ x@;", "typedef void T@; int f@(T@);", "void f@(void) { return 1; }", "int f@(void) { return; }", "void f@(void) { return vf(); }", "void f@(void) { f@(1); }", "void f@() { f@(1); }", "void f@(void) { undeclared; }", "void f@(void) { undeclared(); }", "void f@(void) { int x = x; }", "void f@(void) { sizeof(x); int x; }", "void f@(void) { { int x; } x; }", "void f@(int x) { int x; }", "void f@(int x) { { int x; } }", "void f@(void) { for (int x = 0;;) { int x; } }", "void f@(void) { for (int x = 0;;) ; x; }", "void f@(void) { int f@; f@(); }", "void f@(void) { f@: goto f@; }", "void f@(void) { L: ; L: ; }", "void f@(void) { L: ; { L: ; } }", "void f@(void) { goto M; }", "void f@(void) { __func__; }", "void f@(void) { __func__[0] = 'a'; }", "int x@ = sizeof __func__;", "void f@(void) { &s.bf; }", "void f@(void) { sizeof s.bf; }", "void f@(void) { &1; }", "void f@(void) { &(i); }", "void f@(void) { &fn; &*fn; &a; &\"a\"; &(int){1}; }", "void f@(void) { &fn(1); }", "void f@(void) { &(i + 1); }", "void f@(void) { &(i = 1); }", "void f@(void) { &sf(); }", "void f@(void) { sf().a = 1; }", "void f@(void) { sf().a; }", "void f@(void) { (i) = 1; }", "void f@(void) { (i, i) = 1; }", "void f@(void) { (i ? i : i) = 1; }", "void f@(void) { (int)i = 1; }", "void f@(void) { a = a; }", "void f@(void) { \"a\"[0] = 'b'; }", "void f@(void) { fn = fn; }", "void f@(void) { *fn = fn; }", "void f@(void) { 1++; }", "void f@(void) { i++++; }", "void f@(void) { ++i++; }", "void f@(void) { +i = 1; }", "void f@(void) { ci = 1; }", "void f@(void) { ci++; }", "void f@(void) { *cp = 1; }", "void f@(void) { csp->a = 1; }", "void f@(void) { co.a = 1; }", "void f@(void) { co = co; }", "void f@(void) { struct { struct C x; } y; y = y; }", "void f@(void) { struct { const int x[2]; } y; y = y; }", "void f@(void) { const int x[2] = {1}; x[0] = 1; }", "void f@(void) { (int){1} = 2; (const int){1}; }", "void f@(void) { (const int){1} = 2; }"):
        yield "form: " + t, t


ALPHA = ["int", "x", "1", "(", ")", "*", ";", ",", "=", "{", "}", "[", "]", "if", "else", "return", ":", "struct", "."]
ALPHA2 = ["int", "T", "x", "1", "(", ")", "*", ",", "=", "[", "]", "static", "const", "{", "}", "struct", ":", "..."]


def balanced(t):
    st = []
    for w in t:
        if w in "({[" and len(w) == 1:
            st.append({"(": ")", "{": "}", "[": "]"}[w])
        elif w in ")}]" and len(w) == 1:
            if not st or st.pop() != w:
                return False
    return not st


def strings(depth):
    for n in range(1, depth + 1):
        for t in itertools.product(ALPHA, repeat=n):
            if balanced(t):
                yield "body: " + " ".join(t), "int f@(int x, struct Z *z) { %s ; }" % " ".join(t)
        for t in itertools.product(ALPHA2, repeat=n):
            if balanced(t):
                yield "declaration: " + " ".join(t), "int y@ %s ;" % " ".join(w + "@" if w == "x" else w for w in t) if t[0] not in ("int", "static", "const", "struct", "T") else "%s ;" % " ".join(w + "@" if w == "x" else w for w in t)
    E = ["i", "1", "+", "*", "(", ")", "[", "]", "?", ":", "++", "sizeof", "int", "&", ",", "=", "->", "\"s\"", "{", "}", "!"]
    for n in range(1, depth + 1):
        for t in itertools.product(E, repeat=n):
            if balanced(t) and "( {" not in " ".join(t) and not (t[0] == "=" and n > 1 and t[1] != "="):
                yield "expression: " + " ".join(t), "void f@(int i, int *p) { (void)(p %s); }" % " ".join(t)


def broken(depth):
    for n in range(1, depth + 1):
        for t in itertools.product(ALPHA, repeat=n):
            if not balanced(t):
                yield "unbalanced: " + " ".join(t), "int f@(int x, struct Z *z) { %s ; }" % " ".join(t), False


def run(chk):
    q = chk.quick
    A = QUICK if q else OPERANDS
    X = lambda part, cases, lenient=None: accept.explore(chk, part, cases, HEAD, 60, lenient=lenient)
    X("unary", unary())
    X("binary", binary(BINARY, A))
    X("assignment", assign(ASSIGN, A))
    X("conditional", conditional(A))
    X("casts and types", casts())
    X("calls and initialisers", calls(A))
    X("members", members())
    X("bit-fields", bitfields())
    X("arrays and constants", arrays())
    X("statements", statements())
    # across scopes the types of two declarations of one object have to agree, but that is no constraint
    X("declarations", declarations(q), lambda k: k.startswith(("file, block", "block, inner", "block, file")))
    accept.explore(chk, "token strings", strings(3 if q else 4), "typedef int T; struct Z { int a; };\n", 60)
    accept.explore(chk, "unbalanced", broken(2 if q else 3), "", 100, model=True)
    return chk.finish()

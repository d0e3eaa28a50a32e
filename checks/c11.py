"""C11: automatic objects and compound literals start with exactly their initialiser."""
TECHNIQUE = 'exhaustive enumeration of initialiser lists (items x designators x braces) for automatic objects and compound literals over a set of aggregate types, with run-time values, on a dirtied stack; replayed on compiled code against the platform compiler as reference'
NOTE = 'Every initialiser list of up to the bound is generated, gcc -pedantic-errors decides which are valid C; every member of the object is observed, twice (the second execution finds the stack changed by the first).'
import itertools, re
from mc import core, diff, initgen
from mc.diff import Case

DIRTY = "static void dirty@(int v) { volatile char junk[600]; int i; for (i = 0; i < 600; i++) junk[i] = v; } "


def runtime(k):
    return "(int) id_i(%d)" % (k * 3 + 1 if k % 2 else -k * 5) if k % 3 else "(int) w%d" % 0


def value(k):
    return "v[%d]" % k


def aggregates(n, braces, depth, types=None, flag=False):
    """flag: only the lists that need the missing-braces-subobj feature; otherwise only the others"""
    for name, d, ty, x, tag in initgen.all_lists(n, braces, depth, types):
        if ("no braces" in tag) != flag:
            continue
        init = initgen.number(x, value)
        t = d.replace("D", "")
        body = "static void f@(int *v) { %s = %s; %s }" % (d.replace("D", "l"), init, initgen.observe(ty, "l"))
        if ty.kind == "array" and ty.n is None:
            cl = "static void g@(int *v) { obs_u(sizeof (%s) %s); }" % (t, init)
        else:
            acc = re.sub(r"\bP\b", "(*p)", initgen.observe(ty, "P"))
            cl = "static void g@(int *v) { typedef %s; T@ *p; { p = &(T@) %s; %s } }" % (d.replace("D", "T@"), init, acc)
        yield Case("%s = %s%s" % (name, x.replace("V", "v"), tag),
                   DIRTY + body + cl + "void t@(void) { int v[] = {9, 4, -10, 13, -20, 19, -30, 25, -40}; dirty@(0x5a); f@(v); dirty@(-1); f@(v); dirty@(0x33); g@(v); dirty@(-1); g@(v); }")


SCALARS = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "float", "double", "long double"]
VALS = [("int", "-1"), ("int", "300"), ("unsigned", "4294967295u"), ("long", "4294967298"), ("unsigned long", "255"), ("short", "-129"), ("unsigned char", "200"), ("double", "2.75"), ("float", "1.5f"), ("long double", "100.25L"), ("_Bool", "1"), ("double", "0.25")]


def scalars():
    for t in SCALARS:
        for vt, v in VALS:
            o = {"float": "obs_f", "double": "obs_d", "long double": "obs_ld"}.get(t, "obs_i")
            yield Case("%s = (%s) %s" % (t, vt, v), "static %s s@ = %s; void t@(void) { %s l = s@; %s a[3] = {s@, [2] = s@}; struct { char c; %s m; char d; } b = {1, s@, 2}; union { %s m; char c; } u = {s@}; %s(l); %s(a[0]); %s(a[1]); %s(a[2]); %s(b.m); obs_i(b.c); obs_i(b.d); %s(u.m); %s z = {s@}; %s(z); %s((%s) {s@}); { %s x = s@, y = x; %s(y); } }" % (
                vt, v, t, t, t, t, o, o, o, o, o, o, t, o, o, t, t, o))


def strings():
    from checks import c10
    import subprocess
    c = list(c10.strings())
    src = "\n".join("void f%d(void) { %s = %s; }" % (i, d.replace("D", "o"), x) for i, (d, x, _, _) in enumerate(c))
    r = subprocess.run(["gcc", "-std=c11", "-fsyntax-only", "-pedantic-errors", "-fmax-errors=0", "-fno-diagnostics-show-caret", "-x", "c", "-"], input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    bad = set(int(m) for m in re.findall(r"<stdin>:(\d+):\d+: error", r.stdout.decode("utf-8", "replace")))
    for i, (d, x, key, o) in enumerate(c, 1):
        if i not in bad:
            d = d.replace("static ", "")
            o = o.replace("o@", "l")
            lit = d.replace("D", "")
            extra = "" if "[]" in d or not x.startswith("{") else " { typedef %s; T *p = &(T) %s; obs_u(sizeof *p); obs_b(p, sizeof *p); }" % (d.replace("D", "T"), x) if d.startswith(("char", "unsigned", "signed", "int")) else ""
            yield Case(key, DIRTY + "static void f@(void) { %s = %s; %s%s } void t@(void) { dirty@(0x5a); f@(); dirty@(-1); f@(); }" % (d.replace("D", "l"), x, o, extra))


S = "struct s@ { int a; char b; double c; }; struct o@ { char x; struct s@ s; int arr[3]; struct s@ t[2]; }; static struct s@ mk@(int k) { struct s@ r = {k, k + 1, k + 0.5}; return r; } union u@ { struct s@ s; int i; }; "
OS = "obs_i(X.a); obs_i(X.b); obs_d(X.c);"
OO = "obs_i(X.x); obs_i(X.s.a); obs_i(X.s.b); obs_d(X.s.c); obs_i(X.arr[0]); obs_i(X.arr[1]); obs_i(X.arr[2]); obs_i(X.t[0].a); obs_d(X.t[0].c); obs_i(X.t[1].a); obs_i(X.t[1].b); obs_d(X.t[1].c);"


def struct_values():
    """members initialised from structure values, in every position, mixed with scalars and designators"""
    vals = ["v", "*pv", "mk@(5)", "av[1]", "(struct s@) {7, 8, 9.5}", "(id_i(1) ? v : av[0])", "(id_i(3), v)", "uv.s", "ov.t[1]"]
    pre = "struct s@ v = {1, 2, 3.5}, *pv = &v, av[2] = {{11, 12, 13}, {14, 15, 16}}; union u@ uv = {.s = {21, 22, 23}}; struct o@ ov = {.t = {[1] = {31, 32, 33}}}; "
    for x in vals:
        for form in ("{1, X, 2, 3, 4, X, X}", "{.s = X}", "{.t = {X, X}}", "{.t[1] = X, .x = 3}", "{.t = {[1] = X}, .s = X}", "{5, X, {6, 7}}", "{.arr = {1}, {X}}", "{.s = X, 4, 5, 6, X}", "{1, 2, 3, 4, 5, 6, 7, X}", "{.s.a = 5, .s = X}"):
            yield Case("struct o = %s with X = %s" % (form, x.replace("@", "")), DIRTY + S + "static void f@(void) { %s struct o@ l = %s; %s { struct o@ *p = &(struct o@) %s; %s } } void t@(void) { dirty@(77); f@(); dirty@(-1); f@(); }" % (
                pre, form.replace("X", x), OO.replace("X", "l"), form.replace("X", x), OO.replace("X", "(*p)")))
        yield Case("struct s = X with X = %s" % x.replace("@", ""), S + "void t@(void) { %s struct s@ l = %s; %s struct s@ a[] = {%s, {1, 2, 3}, %s}; obs_u(sizeof a); %s %s const struct s@ c = l; %s struct s@ self = l; self = self; %s }" % (
            pre, x, OS.replace("X", "l"), x, x, OS.replace("X", "a[0]"), OS.replace("X", "a[2]"), OS.replace("X", "c"), OS.replace("X", "self")))
        yield Case("union u = X with X = %s" % x.replace("@", ""), S + "void t@(void) { %s union u@ l = {%s}, m = {.s = %s}; %s %s }" % (pre, x, x, OS.replace("X", "l.s"), OS.replace("X", "m.s")))


def contexts():
    """initialisers in loops, switch, after goto, in for-headers; order of initialisers across declarators; lifetimes of compound literals"""
    C = []
    C.append(("loop re-initialises", "void t@(void) { int i; for (i = 0; i < 4; i++) { int a[4] = {i}; struct { int x, y; } s = {.y = i}; a[i] += 7; s.x += a[0]; obs_b(a, sizeof a); obs_i(s.x); obs_i(s.y); a[3] = 99; s.x = 98; } }"))
    C.append(("goto back re-initialises", "void t@(void) { int n = 0; again:; { int a[3] = {n, 5}; obs_b(a, sizeof a); a[2] = 9; a[1] = 8; } if (++n < 3) goto again; }"))
    C.append(("goto past initialiser", "void t@(void) { int n = id_i(3); goto in; { int a; a = 4; in: a = n; obs_i(a); } }"))
    C.append(("switch past declaration", "void t@(void) { int i; for (i = 0; i < 3; i++) switch (i) { int a; case 0: a = 5; obs_i(a); break; case 1: { int b = 6; obs_i(b); } break; default: a = 7; obs_i(a); } }"))
    C.append(("for declaration", "void t@(void) { int k = 0; for (int a[3] = {1, 2}, i = 0; i < 3; i++) { obs_i(a[i]); k += a[i]; } obs_i(k); }"))
    C.append(("declarators in order", "void t@(void) { int a = trace(1, 5), b = a + trace(2, 1), c[2] = {b, a + b}, *p = &c[1], d = *p; obs_i(d); obs_i(c[0]); }"))
    C.append(("object usable in own initialiser", "void t@(void) { void *p = &p; struct { void *q; int n; } s = {&s, sizeof s}; int a[3] = {sizeof a}; obs_i(p == &p); obs_i(s.q == &s); obs_i(s.n); obs_i(a[0]); }"))
    C.append(("compound literal in loop", "void t@(void) { int *p[3]; int i; for (i = 0; i < 3; i++) { int *q = (int[]) {i, i + 1}; obs_i(q[0]); obs_i(q[1]); q[0] = 50; } }"))
    C.append(("compound literal is an object", "struct s@ { int a, b; }; void t@(void) { struct s@ *p = &(struct s@) {1, 2}; p->a = 9; obs_i(p->a); obs_i(p->b); int *q = (int[3]) {4}; q[1] = 5; q[2]++; obs_b(q, 12); (struct s@) {3} = *p; obs_i((struct s@) {.b = 6}.b); }"))
    C.append(("compound literals are distinct", "void t@(void) { int *p = (int[]) {1}, *q = (int[]) {1}; obs_i(p != q); *p = 5; obs_i(*q); obs_i(*p); }"))
    C.append(("compound literal as argument", "struct s@ { long a; char b[20]; }; static int f@(struct s@ x, struct s@ *y, int *z) { y->a += x.a; return y->a + z[2] + x.b[3]; } void t@(void) { int i; for (i = 0; i < 3; i++) obs_i(f@((struct s@) {i, \"abcd\"}, &(struct s@) {.a = 100}, (int[]) {1, 2, i * 10})); }"))
    C.append(("compound literal scalar", "void t@(void) { int *p = &(int) {5}; *p += (int) {6}; obs_i(*p); obs_d((double) {3}); obs_i((_Bool) {7}); obs_i((unsigned char) {300}); }"))
    C.append(("nested compound literals", "struct n@ { int v; struct n@ *next; }; void t@(void) { struct n@ *l = &(struct n@) {1, &(struct n@) {2, &(struct n@) {3}}}; for (; l; l = l->next) obs_i(l->v); }"))
    C.append(("union members", "union u@ { char c; long l; double d; }; void t@(void) { union u@ a = {1}, b = {.l = -1}, c = {.d = 2.5}, d = b; obs_i(a.c); obs_i(b.l); obs_d(c.d); obs_i(d.l); obs_i(((union u@) {.l = 77}).l); }"))
    U = "union { struct { int a, b; } s; int c[3]; short h; } u = "
    C.append(("union: second member given later", "void t@(void) { int v = id_i(1); %s{.s = {v, 2}, .c = {3, v, 5}}; obs_b(u.c, 12); }" % U))
    C.append(("union: first member given later", "void t@(void) { int v = id_i(1); %s{.c = {3, v, 5}, .s.a = v}; obs_i(u.s.a); obs_i(u.s.b); }" % U))
    C.append(("union: same member again", "void t@(void) { int v = id_i(1); %s{.s.a = v, .s.b = 2}; obs_i(u.s.a); obs_i(u.s.b); }" % U))
    C.append(("union: narrow member given later", "void t@(void) { int v = id_i(1); %s{.c = {3, v, 5}, .h = v}; obs_i(u.h); struct { int x; union { short b; int c; }; int y; } p = {1, .b = 2, .c = v, .y = 4}; obs_i(p.c); obs_i(p.y); obs_i(p.x); }" % U))
    C.append(("large object", "void t@(void) { struct { char a[5000]; int b; } x = {.b = 5, .a = {[4999] = 1, [2] = 3}}; int i, n = 0; for (i = 0; i < 5000; i++) n += x.a[i] * (i + 1); obs_i(n); obs_i(x.b); int m[40][30] = {[39][29] = 7, [0] = {1, 2}, [20] = {[5] = 3}}; for (i = n = 0; i < 1200; i++) n += m[0][i] * i; obs_i(n); }"))
    C.append(("empty initialiser of characters", "void t@(void) { char a[40] = \"\"; char b[40] = {0}; char c[3] = {'a'}; int i, n = 0; for (i = 0; i < 40; i++) n += a[i] | b[i]; obs_i(n); obs_b(c, 3); }"))
    C.append(("pointers and functions", "static int f@(int x) { return x + 1; } void t@(void) { int x = 5; int *a[3] = {&x, [2] = &x}; int (*g[2])(int) = {f@, &f@}; obs_i(*a[0] + *a[2]); obs_i(a[1] == 0); obs_i(g[0](1) + g[1](2)); const char *s[] = {\"ab\", \"cde\", 0}; obs_s(s[0]); obs_s(s[1]); obs_i(s[2] == 0); obs_u(sizeof s); }"))
    C.append(("side effects once each", "void t@(void) { int a[3] = {[2] = trace(1, 3), [0] = 4}; int n = 0; int b[2] = {n++, 7}; obs_b(a, sizeof a); obs_b(b, sizeof b); obs_i(n); }"))
    C.append(("bit-fields", "void t@(void) { int v = id_i(-1); struct { int a : 3; unsigned b : 5; int : 0; _Bool c : 1; unsigned long d : 40; } s = {v, v, v, v}, t = {.d = v, .b = 6}, u[2] = {[1].a = 2, 3}; obs_i(s.a); obs_i(s.b); obs_i(s.c); obs_u(s.d); obs_i(t.a); obs_i(t.b); obs_i(t.c); obs_u(t.d); obs_i(u[0].a); obs_i(u[1].a); obs_i(u[1].b); obs_i(u[1].c); }"))
    for k, t in C:
        yield Case(k, t)


def run(chk):
    q = chk.quick
    diff.explore(chk, "scalars", scalars())
    diff.explore(chk, "strings", strings(), 30)
    diff.explore(chk, "structure values", struct_values(), 12)
    diff.explore(chk, "contexts", contexts(), 4)
    B = ["{V}", "{V, V}"]
    few = None if not q else ["int[3]", "int[2][2]", "struct{a,struct{b,c},d}", "struct{a,union{b,c},d}", "struct{n,struct{x[2]}y[2]}", "struct{a:4,:0,b:5,:2}[2]", "union{struct{a,b}s,c[3]}", "struct{a,b}[]"]
    diff.explore(chk, "aggregates: up to 2 items", aggregates(2, B, 2), 20)
    diff.explore(chk, "aggregates: up to 3 items", aggregates(3, [], 2 if not q else 1, few), 20)
    diff.explore(chk, "aggregates: braces after designators omitted", aggregates(2, ["{V}"], 2, few, True), 20, opts=["--feature-missing-braces-subobj"])
    if not q:
        diff.explore(chk, "aggregates: braces, 3 items", aggregates(3, B, 1), 20)
        diff.explore(chk, "aggregates: nested designators", aggregates(2, B + ["{[0] = V}", "{[1] = V, V}", "{.b = V}", "{.a = V, V}", "{{V}, V}"], 3), 20)
    chk.assumptions += ["gcc -pedantic-errors decides which initialisers are valid C"]
    return chk.finish()

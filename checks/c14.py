"""C14: variable-length arrays, variably modified types and alloca."""
TECHNIQUE = "exhaustive enumeration of variably modified declarations (element x shape x length) and of block trees holding them under every script of condition outcomes, run against a reference execution with stack-depth probes"
NOTE = ("All combinations of element type, array shape and length, and all trees of blocks with variable-length arrays up to a weight left by every route, are compiled by the real "
        "compiler and run under every script; contents, sizes, disjointness and stack depth at probes must equal the reference's. Trusts gcc -O0.")
import functools, itertools
from mc import core, diff
from mc.diff import Case

EL = ["char", "short", "int", "long", "float", "double", "long double", "char *", "struct { char x[3]; }", "struct { long a; char b; }", "_Bool", "unsigned char"]
# shape: declarator, size expression in elements, walk
SHAPES = [("v[n]", "n"), ("v[n + 1]", "n + 1"), ("v[n][3]", "n * 3"), ("v[2][n]", "2 * n"), ("v[n][m]", "n * m"), ("v[2][n][m]", "2 * n * m"), ("v[n][2][m]", "n * 2 * m"), ("v[n][m][2]", "n * m * 2"), ("v[n * m]", "n * m")]


def shapes(lens):
    for e in EL:
        for d, sz in SHAPES:
            nd = d.count("[")
            idx = "".join("[%s]" % x for x in ("0", "i", "j")[:0])
            sub = {1: "&v[i]", 2: "&v[i][0]", 3: "&v[i][1][0]"}[nd]
            first = d[d.index("[") + 1:d.index("]")]
            t = """static void f@(int n, int m) { typedef %(e)s E; int guard1 = 0x5a5a5a5a; E %(d)s; int guard2 = 0x3c3c3c3c; unsigned long k; int i; unsigned char *b = (unsigned char *) v;
obs_u(sizeof v); obs_i(sizeof v == (unsigned long) (%(sz)s) * sizeof(E)); obs_u(sizeof v[0]); obs_i((unsigned long) v %% _Alignof(E));
for (k = 0; k < sizeof v; k++) b[k] = k * 7 + 1; obs_i(guard1); obs_i(guard2); obs_i(n); obs_i(m);
for (i = 0; i < (%(first)s); i++) obs_i((unsigned char *) (%(sub)s) - b); E w = *(E *) b; unsigned long s = 0; for (k = 0; k < sizeof v; k++) s = s * 31 + b[k]; obs_u(s);
obs_u(sizeof(v) / sizeof(v[0])); obs_u(sizeof *v); n += 10; m += 10; obs_u(sizeof v); obs_u(sizeof(E[n])); for (i = 0, s = 0; (unsigned long) i < sizeof v; i++) s = s * 31 + b[i]; obs_u(s); }
void t@(void) { int n, m; for (n = 1; n <= %(l)d; n++) for (m = 1; m <= 3; m++) f@(n, m); }""" % dict(e=e, d=d, sz=sz, sub=sub, first=first, l=lens)
            yield Case("%s %s" % (e, d), t)


def frozen():
    """the lengths of a type are those at its declaration, whatever happens to the variables afterwards"""
    for e in ("char", "int", "struct { long a; char b; }"):
        for d, sz in SHAPES:
            nd = d.count("[")
            yield Case("%s %s" % (e, d), """static void f@(int n, int m) { typedef %s E; E %s; unsigned char *b = (unsigned char *) v; n += 10; m += 10; obs_u(sizeof v); obs_u(sizeof v[0]); obs_i((unsigned char *) &v[1] - b); obs_u(sizeof v / sizeof v[0]); }
void t@(void) { int n, m; for (n = 1; n <= 3; n++) for (m = 1; m <= 3; m++) f@(n, m); }""" % (e, d))


def vmtypes():
    C = [("pointer to VLA", "static void f@(int n, int m) { int a[4][6], i, (*p)[n]; p = (void *) a; for (i = 0; i < 24; i++) a[0][i] = i * i; obs_u(sizeof *p); obs_i(p[1][0]); obs_i(*p[2]); obs_i((*(p + 1))[m]); p++; obs_i(p[0][0]); obs_i((char *) p - (char *) a); p += m; obs_i((char *) p - (char *) a); p -= 1; obs_i((char *) p - (char *) a); --p; obs_i((char *) (p + 1) - (char *) p); obs_i(((char *) &p[2] - (char *) p)); } void t@(void) { int n; for (n = 1; n < 5; n++) f@(n, n - 1); }"),
         ("difference of pointers to VLA", "static void f@(int n) { int a[60]; int (*p)[n], (*q)[n]; p = (void *) a; q = p + 3; obs_i(q - p); obs_i(p - q); q++; obs_i(q - p); obs_i(q > p); obs_i(q == p + 4); } void t@(void) { int n; for (n = 1; n < 8; n++) f@(n); }"),
         ("pointer to two-dimensional VLA", "static void f@(int n, int m) { char buf[200]; int i; for (i = 0; i < 200; i++) buf[i] = i; char (*p)[n][m]; p = (void *) buf; obs_u(sizeof *p); obs_u(sizeof **p); obs_i(p[1][0][0]); obs_i((*p)[1][0]); obs_i(p[2][n - 1][m - 1]); char (*r)[m]; r = p[1]; obs_i(r[0][0]); obs_i((p + 1) == (void *) (buf + n * m)); } void t@(void) { f@(2, 3); f@(3, 2); f@(5, 7); f@(1, 1); }"),
         ("pointer to VLA, length changed later", "static void f@(int n) { int a[4][6], (*p)[n]; p = (void *) a; n += 3; obs_u(sizeof *p); obs_i((char *) (p + 1) - (char *) p); } void t@(void) { int n; for (n = 1; n < 5; n++) f@(n); }"),
         ("typedef of VLA, length changed later", "static void f@(int n) { typedef int A[n]; n *= 2; A x; obs_u(sizeof x); obs_u(sizeof(A)); } void t@(void) { int n; for (n = 1; n < 5; n++) f@(n); }"),
         ("typedef of VLA", "static void f@(int n) { typedef int A[n]; A x, y; int i; obs_u(sizeof x); obs_u(sizeof(A)); for (i = 0; i < (int) (sizeof x / sizeof *x); i++) { x[i] = i; y[i] = -i; } for (i = 0; i < (int) (sizeof x / sizeof *x); i++) obs_i(x[i] * 100 + y[i]); A *p; p = &x; obs_u(sizeof *p); obs_i((*p)[0]); { A z[2]; obs_u(sizeof z); } } void t@(void) { int n; for (n = 1; n < 5; n++) f@(n); }"),
         ("typedef evaluated once", "static void f@(int k) { typedef char T[trace(1, k)]; T a; T b; trace(2, 0); obs_u(sizeof a + sizeof b); obs_u(sizeof(T)); } void t@(void) { f@(3); f@(5); }"),
         ("lengths evaluated once each, in order of declaration", "static void f@(int k) { char a[trace(1, k)][trace(2, k + 1)], b[trace(3, 2)]; trace(4, 0); obs_u(sizeof a); obs_u(sizeof a[0]); obs_u(sizeof b); obs_u(sizeof a); } void t@(void) { f@(2); f@(4); }".replace("char a[trace(1, k)][trace(2, k + 1)], b[trace(3, 2)];", "char a[trace(1, k)]; char b[trace(3, 2)];").replace("sizeof a[0]", "sizeof a")),
         ("size side effects", "static void f@(int k) { int i = k; char a[i++]; obs_i(i); obs_u(sizeof a); char b[++i]; obs_u(sizeof b); obs_i(i); char c[i += 2]; obs_i(i); obs_u(sizeof c); } void t@(void) { f@(1); f@(4); }"),
         ("sizeof VLA type evaluates", "void t@(void) { int n = 3; obs_u(sizeof(int[n++])); obs_i(n); obs_u(sizeof(char[n++][2])); obs_i(n); }"),
         ("sizeof fixed does not evaluate", "void t@(void) { int n = 3; obs_u(sizeof(n++)); obs_i(n); int a[n]; obs_u(sizeof a[0]); obs_u(sizeof(a[n++])); obs_i(n); }"),
         ("sizeof VLA expression", "void t@(void) { int n; for (n = 1; n < 6; n++) { double a[n]; double (*p)[n]; p = &a; obs_u(sizeof a); obs_u(sizeof *p); obs_u(sizeof(a)); obs_u(sizeof p); obs_u(sizeof a / sizeof a[0]); } }"),
         ("parameters of VLA type", "static long f@(int n, int m, int a[n][m], int b[][m], int (*c)[m], int d[n]) { int i, j; long s = 0; for (i = 0; i < n; i++) for (j = 0; j < m; j++) s = s * 3 + a[i][j] + 2 * b[i][j] + 5 * c[i][j]; s += d[n - 1]; obs_u(sizeof a); obs_u(sizeof *a); obs_u(sizeof *c); return s; } void t@(void) { int x[3][4], i; for (i = 0; i < 12; i++) x[0][i] = i + 1; obs_i(f@(3, 4, x, x, x, x[0])); obs_i(f@(2, 6, (void *) x, (void *) x, (void *) x, x[1])); obs_i(f@(4, 3, (void *) x, (void *) x, (void *) x, x[2])); }"),
         ("parameter with expression bound", "static int f@(int n, char a[2 * n + 1][n]) { obs_u(sizeof a[0]); return a[2][n - 1]; } void t@(void) { char b[60]; int i; for (i = 0; i < 60; i++) b[i] = i; for (i = 1; i < 5; i++) obs_i(f@(i, (void *) b)); }"),
         ("star in prototype", "static int f@(int n, int a[*], int b[][*]); static int f@(int n, int a[n], int b[][n]) { return a[n - 1] + b[1][0]; } void t@(void) { int x[3] = {1, 2, 3}, y[2][3] = {{4, 5, 6}, {7, 8, 9}}; obs_i(f@(3, x, y)); }"),
         ("VLA of VLA pointers", "static void f@(int n) { int (*a[2])[n], x[2][5] = {{1, 2, 3, 4, 5}, {6, 7, 8, 9, 10}}; a[0] = (void *) x[0]; a[1] = (void *) x[1]; obs_i((*a[1])[n - 1]); obs_u(sizeof *a[0]); obs_i(a[0][1][0]); } void t@(void) { int n; for (n = 1; n < 5; n++) f@(n); }"),
         ("VLA decays", "static int sum@(const int *p, int n) { int s = 0; while (n--) s += *p++; return s; } void t@(void) { int n, i; for (n = 1; n < 7; n++) { int a[n]; for (i = 0; i < n; i++) a[i] = i * n; obs_i(sum@(a, n)); obs_i(sum@(a + 1, n - 1)); obs_i(*a); obs_i(a[n - 1]); obs_i((n - 1)[a]); obs_i(&a[n] - a); int *p = a; p[0] = 5; obs_i(a[0]); } }"),
         ("several VLAs are disjoint", "void t@(void) { int n; for (n = 1; n < 9; n++) { char a[n]; short b[n]; long c[n]; char d[n]; int i; for (i = 0; i < n; i++) { a[i] = 1; b[i] = 2; c[i] = 3; d[i] = 4; } for (i = 0; i < n; i++) { obs_i(a[i]); obs_i(b[i]); obs_i(c[i]); obs_i(d[i]); } } }"),
         ("VLA sizes of all index types", "void t@(void) { char c = 3; unsigned char uc = 200; short s = 4; unsigned short us = 300; long l = 5; unsigned long ul = 6; _Bool b = 1; long long ll = 7; enum { E = 8 } e = E; char a1[c]; char a2[uc]; char a3[s]; char a4[us]; char a5[l]; char a6[ul]; char a7[b]; char a8[ll]; char a9[e]; obs_u(sizeof a1); obs_u(sizeof a2); obs_u(sizeof a3); obs_u(sizeof a4); obs_u(sizeof a5); obs_u(sizeof a6); obs_u(sizeof a7); obs_u(sizeof a8); obs_u(sizeof a9); a2[199] = 1; a4[299] = 2; obs_i(a2[199] + a4[299]); }"),
         ("large VLA", "void t@(void) { int n = 100000; char a[n]; int b[n]; a[0] = 1; a[n - 1] = 2; b[0] = 3; b[n - 1] = 4; obs_i(a[0] + a[n - 1] * 10 + b[0] * 100 + b[n - 1] * 1000); obs_u(sizeof a + sizeof b); }"),
         ("VLA in recursion", "static int f@(int n) { int a[n + 1], i, r; for (i = 0; i <= n; i++) a[i] = n * 10 + i; r = n ? f@(n - 1) : 0; for (i = 0; i <= n; i++) obs_i(a[i]); return r + a[n]; } void t@(void) { obs_i(f@(5)); }"),
         ("VLA and calls with many arguments", "static long g@(int a, int b, int c, int d, int e, int f, long h, long i, char *p) { return a + b + c + d + e + f + h + i + p[0]; } void t@(void) { int n; for (n = 1; n < 4; n++) { char v[n], w[n]; v[0] = n; w[n - 1] = 9; obs_i(g@(1, 2, 3, 4, 5, 6, 7, 8, v)); obs_i(w[n - 1]); long double x[n]; x[n - 1] = 2.5L; obs_ld(x[n - 1]); } }"),
         ("expression temporaries around VLA", "void t@(void) { int n; for (n = 1; n < 5; n++) { int k = n * 3 + (int) sizeof(char[n]) * 2; obs_i(k); int a[k]; a[k - 1] = k; obs_i(a[k - 1] + n * (int) sizeof a); } }"),
         ("for-declared VLA", "static void f@(int n) { for (int i = 0, a[n]; i < 3; i++) { if (i == 0) { int j; for (j = 0; j < n; j++) a[j] = j; } else a[n - 1]++; obs_i(a[n - 1]); obs_u(sizeof a); } } void t@(void) { int n; for (n = 1; n < 5; n++) f@(n); }"),
         ("VLA in switch body blocks", "static void f@(int n) { switch (n) { case 1: { char a[n + 1]; a[n] = 1; obs_u(sizeof a); } case 2: { char a[n + 5]; a[n] = 2; obs_u(sizeof a); break; } case 3: case 4: { long a[n]; a[n - 1] = 4; obs_u(sizeof a); } } } void t@(void) { int n; for (n = 1; n < 5; n++) f@(n); }"),
         ("initialised pointer to VLA", "static void f@(int n) { int a[6] = {1, 2, 3, 4, 5, 6}; int (*p)[n] = (void *) a; obs_i((*p)[n - 1]); } void t@(void) { f@(2); f@(5); }"),
         ("static pointer to VLA", "static int z@[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; static void f@(int n) { int (*p)[n]; p = (int (*)[n]) z@; obs_i(p[1][0]); obs_u(sizeof *(int (*)[n]) z@); obs_i(((int (*)[n]) z@)[2][0]); } void t@(void) { int n; for (n = 1; n < 5; n++) f@(n); }"),
         ("VLA element addresses and memset-like loops", "void t@(void) { int n; for (n = 2; n < 6; n++) { struct { char c; int v; } a[n], *p = a, *e = &a[n]; int k = 0; for (; p < e; p++) { p->c = k; p->v = k * k; k++; } for (p = e - 1; p >= a; p--) obs_i(p->v * 10 + p->c); obs_i(e - a); } }"),
         ]
    for k, t in C:
        yield Case(k, t)


@functools.lru_cache(None)
def trees(w, loop, rich):
    if w == 1:
        return tuple(["T"] + (["break;", "continue;"] if loop else []) + ["goto O@;", "goto B@;", "return;"])
    out = []
    S, SL = trees(w - 1, loop, rich), trees(w - 1, True, rich)
    for s in S:
        out.append("V{ %s }V" % s)
        out.append("if (nx()) " + s)
    for s in SL:
        out.append("while (nx()) V{ %s }V" % s)
        out.append("do V{ %s }V while (nx());" % s)
        if rich:
            out.append("for (int i = 0; i < 2; i++) { %s }" % s)
            out.append("switch (nx2()) { case 1: V{ %s }V case 2: T case 0: case 3: V{ T }V }" % s if "continue" not in s or loop else "while (nx()) " + s)
    for a in range(1, w - 1):
        for x in trees(a, loop, rich):
            for y in trees(w - 1 - a, loop, rich):
                out.append("V{ %s %s }V" % (x, y))
                if rich:
                    out.append("{ %s V{ T }V %s }" % (x, y))
    return tuple(out)


def numbered(s):
    out, i, v = [], 0, 0
    stack = []
    while i < len(s):
        if s.startswith("V{", i):
            v += 1
            stack.append(v)
            out.append("{ int v%d[n + %d]; F(v%d, %d, (n + %d))" % (v, v, v, v, v))
            i += 2
        elif s.startswith("}V", i):
            k = stack.pop()
            out.append("G(v%d, %d, (n + %d)) obs_u(sizeof v%d); }" % (k, k, k, k))
            i += 2
        elif s[i] == "T":
            v += 1
            out.append("trace(%d, 0);" % (100 + v))
            i += 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def exits(maxw, rich, bits):
    mac = "#ifndef F\n#define F(a, id, n) for (int q = 0; q < n; q++) a[q] = id * 100 + q;\n#define G(a, id, n) for (int q = 0; q < n; q++) obs_i(a[q]);\n#endif\n"
    for w in range(2, maxw + 1):
        for s in trees(w, False, rich):
            if "V{" not in s:
                continue
            body = numbered(s)
            yield Case(s, mac + "static void f@(void) { int n = 3; int live = 77; B@: sp_probe(1); if (trace(1, nx())) return; %s O@: sp_probe(1); obs_i(live); } void t@(void) { unsigned m; for (m = 0; m < %d; m++) with_script(f@, m, %d, 12); }" % (body, 1 << bits, bits))


def bounded():
    """each exit route many times: a leak of the block's storage exhausts the stack"""
    ROUTES = {"end": "{ V }", "break": "while (1) { V break; }", "break nested": "while (1) { V { V2 break; } }", "continue": "while (k++ < 1) { V continue; }", "continue nested": "while (k++ < 1) { V { V2 continue; } }", "goto forward": "{ V { V2 goto O@; } }", "goto back": "B@: if (k++ < 2) { V { V2 goto B@; } }", "switch break": "switch (1) { case 1: { V break; } }",
              "switch nested loop break": "switch (1) { case 1: while (1) { V { V2 break; } } { V } }", "do": "do { V } while (k++ < 2);", "for": "for (int q = 0; q < 2; q++) { V if (q) continue; V2 }", "for declared": "for (int q = 0, w[n]; q < 2; q++) { w[0] = q; V }", "if": "if (n) { V } else { V2 }", "goto sideways": "{ { V goto L@; } { V2 } } L@: ;", "call": "g@(n);", "nested three": "{ V { V2 { char z[n]; z[0] = 1; } } }", "goto out of loop": "while (1) { while (1) { V { V2 goto O@; } } }", "backward loop with block": "B@: { V if (k++ < 2) goto B@; }", "return from callee": "h@(n);", "before declaration": "while (1) { if (k++) break; V continue; }", "before second": "while (1) { V if (k++) break; V2 }", "goto between declarations": "{ V L@: ; V2 if (k++ < 3) goto L@; }", "goto before both": "{ L@: ; V V2 if (k++ < 3) goto L@; }", "for declared without block": "while (k++ < 2) for (int q = 0, w[n]; q < 1; q++) w[0] = q;", "for declared, continue": "for (int q = 0, w[n]; q < 3; q++) { w[0] = 7; w[n - 1] = 7; { V V2 if (q) continue; } if (w[0] != 7 || w[n - 1] != 7) obs_i(q); }", "for declared, break": "while (k++ < 2) for (int q = 0, w[n]; ; q++) { w[0] = q; V if (q) break; V2 }", "for declared, goto out": "for (int q = 0, w[n], x[n]; ; q++) { w[0] = x[0] = q; { V if (q == 2) goto O@; } }", "switch between": "switch (n) { case 1: { V if (k) break; V2 break; } case 17: { V2 V break; } case 4000: { V V2 } }"}
    for name, r in ROUTES.items():
        for T in ("char", "long"):
            b = r.replace("V2", "%s b[n]; b[n - 1] = 2;" % T).replace("V", "%s a[n]; a[0] = 1; a[n - 1] = 3;" % T)
            yield Case("%s of %s" % (name, T), "static void g@(int n) { %s a[n]; a[n - 1] = 1; { %s b[n]; b[0] = 2; return; } } static int h@(int n) { if (n) { %s a[n]; a[0] = 4; { %s b[n]; b[0] = a[0]; return b[0]; } } return 0; } static void f@(int n) { int i; for (i = 0; i < 3000; i++) { int k = 0; if (i < 3 || i > 2997) sp_probe(2); %s O@: ; } obs_i(i); } void t@(void) { f@(4000); f@(1); f@(17); }" % (T, T, T, T, b))


def stmtexprs():
    R = {"one": "k = ({ V a[0]; });", "two": "k = ({ V V2 b[n - 1] + a[0]; });", "in call": "k += h@(({ V a[0] + n; }));", "nested": "k = ({ V a[0] + ({ V2 b[n - 1] + a[n - 1]; }); });", "operand": "k = 1000 * ({ V a[0]; }) + ({ V2 b[n - 1]; });"}
    for name, r in R.items():
        b = r.replace("V2", "char b[n]; b[n - 1] = 2;").replace("V", "char a[n]; a[0] = 1; a[n - 1] = 3;")
        yield Case(name, "static int h@(int n) { char c[n]; c[n - 1] = 6; return c[n - 1] + n; } static void f@(int n) { int i, k = 0; for (i = 0; i < 3000; i++) { %s O@: ; } obs_i(i); obs_i(k); } void t@(void) { f@(4000); f@(2); f@(17); }" % b)


def allocas():
    for n in list(range(1, 20)) + [31, 32, 33, 100, 1000, 4095, 4096, 70000]:
        yield Case("alloca %d" % n, "static void f@(int n) { int g1 = 11; unsigned char *p = __builtin_alloca(n), *q = __builtin_alloca(n); int g2 = 22, i; for (i = 0; i < n; i++) { p[i] = i + 1; q[i] = i * 3; } unsigned long s = 0; for (i = 0; i < n; i++) s = s * 7 + p[i] + 2 * q[i]; obs_u(s); obs_i(g1 + g2); obs_i((p + n <= q) || (q + n <= p)); obs_i((unsigned long) p %% 8); obs_i((unsigned long) q %% 8); } void t@(void) { f@(%d); f@(%d); f@(1); }" % (n, n))
        for al in (8, 16, 32, 64, 128, 256, 1024):
            yield Case("alloca_with_align %d bytes, %d bits" % (n, al), "static void f@(int n) { int g = 5, i; unsigned char *p = __builtin_alloca_with_align(n, %d), *q = __builtin_alloca_with_align(n, %d); obs_i((unsigned long) p %% %d); obs_i((unsigned long) q %% %d); for (i = 0; i < n; i++) { p[i] = i; q[i] = 2 * i; } unsigned long s = 0; for (i = 0; i < n; i++) s = s * 5 + p[i] + 3 * q[i]; obs_u(s); obs_i(g); obs_i((p + n <= q) || (q + n <= p)); } void t@(void) { f@(%d); f@(3); }" % (al, al, al // 8, al // 8, n))
    C = [("lives until the function ends", "static void f@(int n) { int i, j; unsigned char *p[10]; for (i = 0; i < 10; i++) { int pad = i; p[i] = __builtin_alloca(n + i); for (j = 0; j < n + i; j++) p[i][j] = i * 16 + j; { int more = pad; obs_i(more); } } for (i = 0; i < 10; i++) for (j = 0; j < n + i; j++) obs_i(p[i][j]); } void t@(void) { f@(1); f@(5); f@(16); }"),
         ("released at return", "static int f@(int n) { char *p = __builtin_alloca(n); p[0] = 1; p[n - 1] = 2; return p[0] + p[n - 1]; } void t@(void) { int i, s = 0; for (i = 0; i < 5000; i++) { s += f@(5000); if (i < 2 || i == 4999) sp_probe(1); } obs_i(s); }"),
         ("in argument", "static int g@(char *p, int n, char *q) { p[0] = n; q[0] = n + 1; return p[0] + q[0]; } void t@(void) { obs_i(g@(__builtin_alloca(8), 5, __builtin_alloca(24))); char *p = __builtin_alloca(4); p[3] = 9; obs_i(g@(__builtin_alloca(8), p[3], __builtin_alloca(4))); obs_i(p[3]); }"),
         ("in nested block survives block", "static void f@(int n) { char *p; { int k = n; p = __builtin_alloca(k); p[k - 1] = 7; } { long other[4] = {1, 2, 3, 4}; obs_i(other[3]); } obs_i(p[n - 1]); } void t@(void) { f@(1); f@(9); }"),
         ("before a VLA block survives", "static void f@(int n) { int i; char *p = __builtin_alloca(n); for (i = 0; i < n; i++) p[i] = i; { char v[n]; for (i = 0; i < n; i++) v[i] = 99; obs_i(v[n - 1]); } { int w[n]; w[0] = 5; w[n - 1] = 6; obs_i(w[0] + w[n - 1]); } for (i = 0; i < n; i++) obs_i(p[i]); } void t@(void) { f@(1); f@(8); f@(33); }"),
         ("inside a VLA block", "static void f@(int n) { int i; char v[n], *p = __builtin_alloca(n); for (i = 0; i < n; i++) { v[i] = i; p[i] = 2 * i; } char w[n]; for (i = 0; i < n; i++) w[i] = 3; for (i = 0; i < n; i++) { obs_i(v[i]); obs_i(p[i]); obs_i(w[i]); } } void t@(void) { f@(1); f@(8); f@(21); }"),
         ("linked list in allocas", "struct n@ { int v; struct n@ *next; }; static void f@(int n) { struct n@ *h = 0, *p; int i; for (i = 0; i < n; i++) { p = __builtin_alloca(sizeof *p); p->v = i * i; p->next = h; h = p; } for (p = h; p; p = p->next) obs_i(p->v); } void t@(void) { f@(0); f@(1); f@(50); }"),
         ("pointer stays valid in callees", "static void set@(int *p, int n) { while (n--) *p++ = n; } static void f@(int n) { int *p = __builtin_alloca(n * sizeof(int)), i; set@(p, n); set@(p, n / 2); for (i = 0; i < n; i++) obs_i(p[i]); } void t@(void) { f@(1); f@(10); }"),
         ("conditional alloca", "static void f@(int n) { char b[4] = {1, 2, 3, 4}, *p = n > 4 ? __builtin_alloca(n) : b; p[n - 1] = 9; obs_i(p[n - 1]); obs_i(b[0] + b[1]); } void t@(void) { f@(3); f@(8); }"),
         ("VLA released keeps earlier alloca in loop", "static void f@(int n) { char *keep = __builtin_alloca(16); int i; for (i = 0; i < 16; i++) keep[i] = i; for (i = 0; i < 2000; i++) { char v[n]; v[0] = i; v[n - 1] = i; } int s = 0; for (i = 0; i < 16; i++) s += keep[i]; obs_i(s); } void t@(void) { f@(8000); }"),
         ("alloca_with_align_and_max", "static void f@(int n) { char *p = __builtin_alloca_with_align_and_max(n, 256, 1000); obs_i((unsigned long) p % 32); p[n - 1] = 4; obs_i(p[n - 1]); } void t@(void) { f@(1); f@(100); }"),
         ("size types", "static void f@(void) { char c = 3; unsigned short u = 70; long l = 5; _Bool b = 1; char *p1 = __builtin_alloca(c), *p2 = __builtin_alloca(u), *p3 = __builtin_alloca(l), *p4 = __builtin_alloca(b); p1[2] = 1; p2[69] = 2; p3[4] = 3; p4[0] = 4; obs_i(p1[2] + p2[69] * 10 + p3[4] * 100 + p4[0] * 1000); } void t@(void) { f@(); }")]
    for k, t in C:
        yield Case(k, t)


def run(chk):
    q = chk.quick
    diff.explore(chk, "shapes", shapes(3 if q else 6), 6)
    diff.explore(chk, "frozen lengths", frozen(), 3)
    diff.explore(chk, "variably modified types", vmtypes(), 3)
    diff.explore(chk, "exits", exits(4 if q else 5, True, 5 if q else 6), 12)
    diff.explore(chk, "bounded stack", bounded(), 4)
    diff.explore(chk, "statement expressions", stmtexprs(), 4, opts=["--feature-statement-expressions"])
    diff.explore(chk, "alloca", allocas(), 10)
    return chk.finish()

"""C12: pointers, subscripts, members and aggregate copies designate the right bytes."""
TECHNIQUE = 'exhaustive enumeration of lvalue access paths (array/structure/pointer/union shapes up to a depth), pointer arithmetic over every index of small objects, and aggregate copies of every size, replayed on compiled code against the platform compiler as reference'
NOTE = 'Every access path of the grammar up to the bound is read, written, addressed and incremented at every index; the whole object is then compared byte for byte with what gcc made of it.'
import itertools
from mc import core, diff
from mc.diff import Case

BASE = """typedef struct in@ { char c; short h[3]; long l; } in@;
typedef struct out@ { in@ a; int n; in@ v[3]; in@ *p; int m[2][3]; union { int ui; char uc[4]; }; int (*q)[3]; struct { unsigned char x, y; } z[2]; double d; } out@;
static out@ g@, ga@[3], *gp@ = &g@; static in@ gi@[4]; static int gm@[3][4][2];
static out@ *ret@(out@ *x) { return x; } static out@ val@(void) { return g@; }
static void fill@(void) { unsigned char *b = (unsigned char *) &g@; unsigned long i; for (i = 0; i < sizeof g@; i++) b[i] = i * 7 + 3; g@.p = gi@; g@.q = g@.m; g@.d = 2.5; b = (unsigned char *) ga@; for (i = 0; i < sizeof ga@; i++) b[i] = i * 5 + 1; ga@[0].p = ga@[1].p = ga@[2].p = gi@ + 1; ga@[0].q = ga@[1].q = ga@[2].q = ga@[1].m; ga@[0].d = ga@[1].d = ga@[2].d = 1.5; b = (unsigned char *) gi@; for (i = 0; i < sizeof gi@; i++) b[i] = i * 3 + 2; b = (unsigned char *) gm@; for (i = 0; i < sizeof gm@; i++) b[i] = i * 9 + 4; }
static void look@(out@ *x) { obs_b(&x->a.c, 1); obs_b(x->a.h, 6); obs_i(x->a.l); obs_i(x->n); int i; for (i = 0; i < 3; i++) { obs_i(x->v[i].c); obs_b(x->v[i].h, 6); obs_i(x->v[i].l); } obs_b(x->m, sizeof x->m); obs_i(x->ui); obs_b(x->z, 4); obs_d(x->d); }
static void all@(void) { int i; look@(&g@); for (i = 0; i < 3; i++) look@(&ga@[i]); for (i = 0; i < 4; i++) { obs_i(gi@[i].c); obs_b(gi@[i].h, 6); obs_i(gi@[i].l); } obs_b(gm@, sizeof gm@); }
"""


def outs():
    """expressions designating an out@, with description"""
    return ["g@", "(*gp@)", "gp@[0]", "ga@[i]", "(*(ga@ + i))", "i[ga@]", "(*ret@(&ga@[i]))", "(*&g@)", "ret@(ga@ + 1)[i - 1]", "l", "(&l)[0]", "(i ? ga@[1] : g@)"]


def ins():
    r = []
    for o in ("g@", "ga@[i]", "(*ret@(gp@))", "l"):
        r += [o + ".a", o + ".v[i]", "(*" + o + ".p)", o + ".p[i]", "(" + o + ".p + i)[0]", "i[" + o + ".v]", "(*(" + o + ".v + i))", "(*" + o + ".v)"]
    r += ["gp@->a", "gp@->p[i]", "ret@(gp@)->v[2]", "gi@[i]", "(&gi@[2])[-i]", "(*(gi@ + 3 - i))", "gi@[(unsigned char) i]", "gi@[(long) i + 1]", "gi@[-1 + 2]"]
    return r


def scalars():
    r = []
    for o in outs():
        if o.startswith("(i ?"):
            continue
        r += [o + x for x in (".n", ".m[i & 1][2]", ".q[1][i]", ".ui", ".uc[i]", ".z[1].y", ".z[i & 1].x", ".d")]
        r += ["(*" + o + ".q)[i]", "*(*(" + o + ".m + 1) + i)", "(*(" + o + ".q + 1))[2]", "1[" + o + ".m][i]"]
    for e in ins():
        r += [e + x for x in (".c", ".h[i]", ".l", ".h[2]")]
        r += ["*" + e + ".h", "*(" + e + ".h + i)"]
    r += ["gm@[i][3 - i][1]", "(*gm@)[i][0]", "**gm@[i]", "*(*(*(gm@ + i) + 2) + 1)", "gm@[0][11][1]" if False else "gm@[2][i + 1][0]", "(&gm@[1])[i - 1][2][1]", "*((int *) gm@ + 7 * i)", "((char *) gm@)[5 + i]", "((short *) &g@.m)[i + 2]", "*(unsigned char *) &ga@[i]", "((in@ *) &g@)->l"]
    return r


def paths():
    for e in scalars():
        e = "(%s)" % e if e.startswith("*") else e
        yield Case("access %s" % e.replace("@", ""), BASE + "static void f@(int i) { out@ l = ga@[2]; l.q = l.m; obs_i(%(e)s); obs_u(sizeof(%(e)s)); %(e)s = 77 + i; obs_i(%(e)s); %(e)s += 3; ++%(e)s; obs_i(%(e)s--); obs_i(*&%(e)s); look@(&l); } void t@(void) { int i; for (i = 0; i < 3; i++) { fill@(); f@(i); all@(); } }" % dict(e=e))


def copies():
    for d in [o for o in outs() if not o.startswith("(i ?")]:
        for s in outs() + ["val@()", "(id_i(4), ga@[2])"]:
            if d == s:
                continue
            yield Case("copy %s = %s" % (d.replace("@", ""), s.replace("@", "")), BASE + "static void f@(int i) { out@ l = ga@[2]; out@ keep = %(s)s; look@(&keep); %(d)s = %(s)s; look@(&l); obs_i((%(d)s = %(s)s).v[1].c); out@ two; two = %(d)s = keep; look@(&two); } void t@(void) { int i; for (i = 0; i < 3; i++) { fill@(); f@(i); all@(); } }" % dict(d=d, s=s))
    e = ins()
    for d in e[::3]:
        for s in e[1::3]:
            yield Case("copy %s = %s" % (d.replace("@", ""), s.replace("@", "")), BASE + "static void f@(int i) { out@ l = ga@[1]; %(d)s = %(s)s; obs_i(%(d)s.l); look@(&l); } void t@(void) { int i; for (i = 0; i < 3; i++) { fill@(); f@(i); all@(); } }" % dict(d=d, s=s))


def sizes(maxn):
    """every size: copy between variables, through pointers, arrays of it, as member, pass and return; neighbours must not change"""
    for n in maxn:
        yield Case("aggregate of %d bytes" % n, """typedef struct { unsigned char b[%(n)d]; } S@; typedef struct { unsigned char before[3]; S@ s; unsigned char after[3]; } W@;
static S@ pass@(S@ x, int k) { x.b[%(l)d] += k; return x; } static W@ gw@[2];
void t@(void) { W@ w[3], *p = w, u; S@ s, arr[3], *q = arr; unsigned i; unsigned char *b = (unsigned char *) w; for (i = 0; i < sizeof w; i++) b[i] = i * 11 + 1; b = (unsigned char *) arr; for (i = 0; i < sizeof arr; i++) b[i] = i * 13 + 5;
obs_u(sizeof(W@)); s = w[1].s; obs_b(&s, sizeof s); w[0].s = arr[2]; p[2].s = *++q; obs_b(w, sizeof w); arr[0] = s; q[1] = q[-1]; obs_b(arr, sizeof arr); u = w[2]; obs_b(&u, sizeof u); w[1] = u; obs_b(w, sizeof w); gw@[1] = w[0]; obs_b(gw@, sizeof gw@); arr[1] = pass@(s, 5); obs_b(arr, sizeof arr); obs_b(&s, sizeof s); *p = *(p + 2); obs_b(w, sizeof w); obs_i(pass@(arr[2], 1).b[%(l)d]); }""" % dict(n=n, l=n - 1))


PT = ["char", "short", "int", "long", "float", "double", "long double", "char *", "struct { char x[3]; }", "struct { int a; char b; }", "int[3]", "char[7]", "struct { long v[6]; }", "void *", "unsigned short[2][3]", "char[300]", "struct { char c[4097]; }"]
IT = ["char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "_Bool"]


def arithmetic():
    for t in PT:
        b, br, d = (t, "", "") if t.startswith("struct") else t.partition("[")
        dim = br + d
        for it in IT:
            yield Case("pointer to %s with %s index" % (t, it), "typedef %s T@%s; static T@ a@[12]; void t@(void) { T@ *p = a@, *q; %s k; int i; char *z = (char *) a@; for (i = 0; i < 6; i++) { k = i; q = p + k; obs_i((char *) q - z); obs_i(q - p); obs_i(p - q); q = k + p; obs_i((char *) q - z); obs_i((char *) &p[k] - z); obs_i((char *) &k[p] - z); q = a@ + 11; q -= k; obs_i((char *) q - z); obs_i(a@ + 11 - q); q = a@; q += k; obs_i((char *) q - z); obs_i((char *) (q + 1 + k) - z); obs_i(q < p + 3); obs_i(q >= p + 1); obs_i(q == p); obs_i(q != a@ + 2); obs_i(!q); obs_i(q > p); obs_i(q <= a@ + 1); } q = a@ + 5; obs_i((char *) q++ - z); obs_i((char *) ++q - z); obs_i((char *) q-- - z); obs_i((char *) --q - z); obs_i((char *) &q[-1] - z); obs_i((char *) (&a@)[1] - z == sizeof a@); obs_i((char *) (&a@ + 1) - z == sizeof a@); }" % (b, dim, it))
    for it in ("char", "short", "int", "long"):
        yield Case("negative %s index" % it, "static int a@[10] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}; void t@(void) { int *m = a@ + 5; %s k; int i; for (i = -5; i < 5; i++) { k = i; obs_i(m[k]); obs_i(*(m + k)); obs_i(k[m]); obs_i(*(m - -k)); obs_i((m + k) - a@); obs_i(a@ - (m + k)); } }" % it)


def misc():
    C = [("null tests", "void t@(void) { int x, *p = 0, *q = &x; obs_i(p == 0); obs_i(!p); obs_i(!q); obs_i(p ? 1 : 2); obs_i(q ? 1 : 2); obs_i(p && 1); obs_i(q || 0); obs_i(q == (void *) 0); obs_i((void *) q == q); if (p) obs_i(1); else obs_i(2); while (q) { q = 0; obs_i(3); } }"),
         ("pointer integer round trip", "void t@(void) { int x = 5; unsigned long u = (unsigned long) &x; long s = (long) &x; obs_i(*(int *) u); obs_i((int *) s == &x); obs_u((unsigned long) (char *) 1234); obs_i((int) (long) (void *) 77); obs_u((unsigned char) (unsigned long) (void *) 0x1ff); }"),
         ("pointer to pointer", "void t@(void) { int x = 1, y = 2, *p = &x, **pp = &p, ***ppp = &pp; obs_i(***ppp); *pp = &y; obs_i(*p); **pp = 9; obs_i(y); ***ppp += 3; obs_i(y); *ppp = &p; obs_i(**pp); obs_i(*ppp == &p); }"),
         ("function pointers", "static int f@(int x) { return x + 1; } static int g@(int x) { return x * 2; } static int (*sel@(int k))(int) { return k ? f@ : g@; } void t@(void) { int (*p)(int) = f@, (**pp)(int) = &p, (*a[2])(int) = {f@, &g@}; obs_i(p(1)); obs_i((*p)(2)); obs_i((**p)(3)); obs_i((***pp)(4)); obs_i(a[1](5)); obs_i(sel@(0)(6)); obs_i((&f@)(7)); obs_i((*&f@)(8)); obs_i(p == f@); obs_i(*p == &f@); p = sel@(0); obs_i(p(9)); obs_i((id_i(1) ? f@ : g@)(10)); obs_i(((int (*)(int)) (void *) g@)(11)); }"),
         ("arrow chains", "struct n@ { int v; struct n@ *l, *r; }; void t@(void) { struct n@ a = {1}, b = {2, &a, 0}, c = {3, &b, &a}; a.l = &c; obs_i(c.l->l->v); obs_i(c.l->l->l->r->v); c.l->l->l->v = 30; obs_i(c.v); obs_i((&(*c.l))->v); obs_i((*(*c.l).l).v); obs_i(c.r == c.l->l); }"),
         ("volatile const", "void t@(void) { volatile int v = 4; const int c = 5; const volatile int *p = &v; int const *const q = &c; obs_i(*p + *q); v++; obs_i(*p); volatile struct { int a; char b[3]; } s = {1, {2, 3, 4}}; s.b[1] = 9; obs_i(s.a + s.b[1]); }"),
         ("restrict and register", "static int f@(int *restrict a, const int *restrict b, int n) { register int i, s = 0; for (i = 0; i < n; i++) s += a[i] * b[i]; return s; } void t@(void) { int x[3] = {1, 2, 3}, y[3] = {4, 5, 6}; obs_i(f@(x, y, 3)); }"),
         ("array parameters", "static int f@(int a[3], int b[][2], int n, int c[static 2], int d[const]) { a[0] = 9; return a[1] + b[1][1] + c[1] + d[0] + (int) sizeof a + (int) sizeof b + (int) sizeof *b + n; } void t@(void) { int x[3] = {1, 2, 3}, y[2][2] = {{4, 5}, {6, 7}}; obs_i(f@(x, y, 1, x, x + 1)); obs_i(x[0]); }"),
         ("multi-dimensional walk", "void t@(void) { int a[3][4][5], i, j, k, n = 0; for (i = 0; i < 3; i++) for (j = 0; j < 4; j++) for (k = 0; k < 5; k++) a[i][j][k] = n++; int *p = &a[0][0][0]; for (i = 0; i < 60; i += 7) obs_i(p[i]); int (*q)[5] = a[1]; obs_i(q[2][3]); obs_i((*(q + 1))[4]); int (*r)[4][5] = a + 1; obs_i((*r)[3][1]); obs_i(r[1][0][2]); obs_i(&a[2] - &a[0]); obs_i(&a[1][3] - &a[1][0]); obs_u(sizeof a[0]); obs_u(sizeof *q); }"),
         ("aliasing through char", "void t@(void) { long x = 0x0123456789abcdef; unsigned char *c = (unsigned char *) &x; int i; for (i = 0; i < 8; i++) obs_i(c[i]); c[3] = 0xff; obs_i(x); *(short *) (c + 4) = -2; obs_i(x); *(int *) c = 5; obs_i(x); double d = 1.0; obs_i(*(long *) &d); float f = -2.5f; obs_i(*(int *) &f); }"),
         ("struct with flexible array", "struct f@ { int n; short d[]; }; void t@(void) { long buf[8]; struct f@ *p = (struct f@ *) buf; int i; p->n = 5; for (i = 0; i < 5; i++) p->d[i] = i * i; obs_i(p->d[4] + p->d[2]); obs_u(sizeof *p); obs_i((char *) &p->d[1] - (char *) p); }"),
         ("large offsets", "static struct { char pad[70000]; int x; struct { short a[40000]; long y; } in; } s@; void t@(void) { s@.x = 5; s@.in.y = 6; s@.in.a[39999] = 7; int i = 39999; obs_i(s@.x + s@.in.y + s@.in.a[i]); obs_i((char *) &s@.in.y - (char *) &s@); int *p = &s@.x; obs_i(*p); obs_i(*(short *) ((char *) &s@ + ((char *) &s@.in.a[i] - (char *) &s@))); }"),
         ("address of member zero", "struct o@ { char a; int b; struct { char c; double d; } e[3]; }; void t@(void) { obs_u((unsigned long) &((struct o@ *) 0)->b); obs_u((unsigned long) &((struct o@ *) 0)->e[2].d); static const unsigned long k = (unsigned long) &((struct o@ *) 64)->e[1].c; obs_u(k); }"),
         ("comma, conditional as aggregates", "struct s@ { int a[3]; }; void t@(void) { struct s@ x = {{1, 2, 3}}, y = {{4, 5, 6}}; int k; for (k = 0; k < 2; k++) { obs_i((k ? x : y).a[1]); obs_i((id_i(2), x).a[k]); struct s@ z = k ? y : x; obs_i(z.a[2]); int *p = (k ? &x : &y)->a; obs_i(p[0]); } }"),
         ("struct returned and chained", "struct s@ { int v; struct s@ *self; }; static struct s@ f@(int v) { static struct s@ keep; struct s@ r; r.v = v; keep = r; r.self = &keep; return r; } void t@(void) { obs_i(f@(5).v); obs_i(f@(6).self->v); struct s@ a = f@(7), b = f@(8); obs_i(a.v * 10 + b.v); obs_i(a.self == b.self); }"),
         ("overlap through union", "union u@ { struct { int a, b; } s; long l; char c[8]; }; void t@(void) { union u@ x; x.l = 0; x.s.b = 1; obs_i(x.l); x.c[0] = 5; obs_i(x.s.a); union u@ y = x, *p = &y; p->s.a = 9; obs_i(y.l); obs_i(p->c[4]); }"),
         ("string pointers", "void t@(void) { const char *s = \"hello\", *e = s; while (*e) e++; obs_i(e - s); obs_i(*--e); obs_i(\"abc\"[1]); obs_i(1[\"xyz\"]); obs_i(*\"q\"); char b[] = \"copy\", *d = b; while ((*d = *s++)) { d++; if (d - b == 4) break; } obs_b(b, 5); }"),
         ("bool through pointers", "void t@(void) { _Bool b[3] = {0, 1, 5}, *p = b; *p++ = 77; obs_i(b[0]); obs_i(*p); p[1] += 3; obs_i(b[2]); obs_i(p - b); *(unsigned char *) p = 1; obs_i(*p == 1); }"),
         ]
    for k, t in C:
        yield Case(k, t)
    # extension: arithmetic on void * and function pointers
def ext():
    C = [("void pointer arithmetic", "void t@(void) { char a[10]; void *p = a, *q = p + 3; obs_i(q - p); obs_i((char *) (4 + p) - a); obs_i((char *) (q - 2) - a); obs_u(sizeof(void)); obs_u(sizeof *p); }"),
         ("function pointer arithmetic", "static void f@(void) {} void t@(void) { void (*p)(void) = f@; obs_i((char *) (p + 3) - (char *) p); obs_u(sizeof(f@)); }"),
         ("void pointer compound assignment", "void t@(void) { char a[10]; void *p = a; p += 3; obs_i((char *) p - a); p -= 2; obs_i((char *) p - a); }"),
         ("void pointer increment", "void t@(void) { char a[10]; void *p = a; p++; obs_i((char *) p - a); ++p; obs_i((char *) p - a); p--; obs_i((char *) p - a); }")]
    for k, t in C:
        yield Case(k, t)


def run(chk):
    q = chk.quick
    diff.explore(chk, "access paths", paths(), 5)
    diff.explore(chk, "copies", copies(), 5)
    diff.explore(chk, "sizes", sizes(range(1, 41) if q else list(range(1, 140)) + [255, 256, 257, 1000, 4096, 65537]), 6)
    diff.explore(chk, "pointer arithmetic", arithmetic(), 8)
    diff.explore(chk, "misc", misc(), 4)
    diff.explore(chk, "extension: pointer arithmetic", ext(), 4, opts=["--feature-ext-pointer-arithmetics"])
    return chk.finish()

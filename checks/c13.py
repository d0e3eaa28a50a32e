"""C13: scope, linkage and storage duration."""
TECHNIQUE = "exhaustive enumeration of declaration arrangements (scope nests x kinds of declaration x name spaces; pairs of translation units x linkage forms x compilers), each compiled and run against a reference execution"
NOTE = ("All nests of up to four scopes with every kind of declaration of one name in each, and all pairs of linkage forms across two translation units under all four "
        "assignments of compilers, are compiled by the real compiler; every use's observation must match the reference compiler's. Threads are run one at a time. Trusts gcc -O0.")
import itertools
from mc import core, diff, multi
from mc.diff import Case
from mc.multi import MCase

# kind -> (declaration at block scope, use); V is a per-scope value
BLOCK = {
    "none": "",
    "auto": "int x = %(v)d;",
    "char": "char x = %(v)d;",
    "static": "static short x = %(v)d;",
    "enum": "enum { x = %(v)d };",
    "typedef": "typedef char x[%(v)d];",
    "fn": "int x(void);",
    "ext": "extern int x;",
    "arr": "int x[2] = {%(v)d, %(v)d + 1};",
    "self": "int x = sizeof x + %(v)d;",
    "tag": "struct x { char c[%(v)d]; }; struct x x@v; x@v.c[0] = %(v)d;",
}
USE = {"auto": "obs_i(x); x += 100; obs_u(sizeof x);", "char": "obs_i(x); x++; obs_u(sizeof x);", "static": "obs_i(x); x += 3; obs_u(sizeof x);", "enum": "obs_i(x); obs_u(sizeof x);",
       "typedef": "obs_u(sizeof(x)); { x y; y[0] = 7; obs_i(y[0]); obs_u(sizeof y); }", "fn": "obs_i(x());", "ext": "obs_i(x); x += 1000; obs_u(sizeof x);", "arr": "obs_i(x[0] + x[1]); x[0]++; obs_u(sizeof x);", "self": "obs_i(x); x++; obs_u(sizeof x);"}
USE["fobj"] = USE["ext"]
USE["fstat"] = USE["ext"]
FILE = {"fobj": "int x = %(v)d;", "fstat": "static int x = %(v)d;", "enum": "enum { x = %(v)d };", "typedef": "typedef char x[%(v)d];", "fn": "int x(void) { static int n = %(v)d; return n++; }"}


def scope_case(f, pk, ks, form):
    """f: file kind; pk: parameter kind; ks: kinds of nested blocks; form: how the innermost scope is made"""
    env = [f]
    t = FILE[f] % dict(v=11)
    vis = f
    par = {"none": "int q", "int": "int x", "char": "char x", "arr": "int x[3]", "fn": "int x(void)"}[pk]
    cur = {"none": f, "int": "auto", "char": "char", "arr": None, "fn": "fn"}[pk]
    body = ""
    v = 20

    def use(k):
        if k is None:
            return "obs_i(x[0]); x[0]++;"
        return USE[k]

    close = []
    stack = [cur]
    body += use(cur)
    for n, k in enumerate(ks):
        v += 10
        if k in ("ext",) and (f not in ("fobj", "fstat") or (f == "fstat" and any(s not in ("fstat",) for s in stack))):
            return None
        if k == "fn" and f != "fn":
            return None
        last = n == len(ks) - 1
        d = BLOCK[k] % dict(v=v)
        if k == "none" or k == "tag":
            nk = stack[-1]
        else:
            nk = k
        inner = use(nk)
        if k == "self":
            pass
        if k == "tag":
            inner += "obs_u(sizeof(struct x)); obs_i(x@v.c[0]);"
        if last and form != "block":
            if form == "for":
                if k not in ("auto", "char", "arr", "none", "self"):
                    return None
                body += "{ int z = 0; for (%s z < 2; z++) { %s } }" % (d if d else ";", inner)
            elif form == "forbody":
                body += "{ int z; for (z = 0; z < 3; z++) { %s %s } }" % (d, inner)
            elif form == "if":
                body += "if (id_i(1)) { %s %s } else { obs_i(-1); }" % (d, inner)
            elif form == "switch":
                body += "switch (id_i(2)) { case 1: obs_i(-1); case 2: { %s %s } }" % (d, inner)
            elif form == "do":
                body += "{ int z = 0; do { %s %s } while (++z < 2); }" % (d, inner)
            elif form == "late":
                body += "{ %s %s %s }" % (use(stack[-1]) if k not in ("none",) else "", d, inner)
            elif form == "goto":
                if k in ("self",):
                    return None
                body += "{ int z = 0; again@%d:; { %s %s if (z++ < 2) goto again@%d; } }" % (n, d, inner, n)
        else:
            body += "{ %s %s" % (d, inner)
            close.append(use(nk) + "}")
        stack.append(nk)
    if len(close) < len(ks):
        pass
    while close:
        body += close.pop()
    body += use(cur)
    arg = {"none": "1", "int": "2", "char": "3", "arr": "w@", "fn": "g@"}[pk]
    pre = "static int w@[3] = {71, 72, 73}; static int g@(void) { return 55; } "
    text = t + " " + pre + "static void f@(%s) { %s } void t@(void) { f@(%s); f@(%s); }" % (par, body, arg, arg)
    key = "%s / param %s / %s / innermost %s" % (f, pk, ", ".join(ks), form)
    text = text.replace("x@v", "XV@")
    import re
    text = re.sub(r"\bx\b", "x@", text)
    return Case(key, text)


def scopes(q):
    kinds = ["none", "auto", "char", "static", "enum", "typedef", "fn", "ext", "arr", "self", "tag"]
    forms = ["block", "for", "forbody", "if", "switch", "do", "late", "goto"]
    few = ["none", "auto", "static", "typedef", "enum", "ext"]
    for f in FILE:
        for pk in ("none", "int", "char", "arr", "fn"):
            for k in kinds:
                for form in forms:
                    c = scope_case(f, pk, (k,), form)
                    if c: yield c
            if pk in ("none", "int") or not q:
                for ks in itertools.product(kinds if not q else few + ["tag", "fn"], few if q else kinds):
                    for form in (("block", "forbody", "late") if q else forms):
                        c = scope_case(f, pk, ks, form)
                        if c: yield c
            if not q and pk in ("none", "int"):
                for ks in itertools.product(few + ["tag"], few, few):
                    for form in ("block", "forbody", "late", "goto"):
                        c = scope_case(f, pk, ks, form)
                        if c: yield c


def namespaces():
    """one spelling used at once in every subset of the name spaces"""
    for tag, member, label, obj in itertools.product(("", "struct", "union", "enum"), (0, 1, 2), (0, 1), ("auto", "typedef", "enum", "fn", "static")):
        t = ""
        b = ""
        if tag in ("struct", "union"):
            b += "%s n@ { int q; char r[5]; };" % tag
        if tag == "enum":
            b += "enum n@ { e@1 = 4, e@2 };"
        if member:
            b += "struct m@ { char pad; int n@; }; struct m@ mm = {1, 42};"
        if member == 2:
            b += "struct m2@ { struct m@ in; struct { long n@; } s2; }; struct m2@ m2 = {{2, 43}, {44}};"
        b += {"auto": "int n@ = 5;", "typedef": "typedef short n@;", "enum": "enum { n@ = 6 };", "fn": "", "static": "static int n@ = 8;"}[obj]
        if obj == "fn":
            t += "static int n@(void) { return 77; }"
        if label:
            b += "int z = 0; n@: z++; if (z < 3) goto n@; obs_i(z);"
        b += {"auto": "obs_i(n@); n@++; obs_i(n@);", "typedef": "n@ v = -3; obs_i(v); obs_u(sizeof(n@));", "enum": "obs_i(n@);", "fn": "obs_i(n@());", "static": "obs_i(n@++);"}[obj]
        if tag in ("struct", "union"):
            b += "%s n@ y; y.q = 3; y.r[1] = 4; obs_i(y.q); obs_u(sizeof(%s n@));" % (tag, tag)
        if tag == "enum":
            b += "enum n@ y = e@2; obs_i(y); obs_u(sizeof(enum n@));"
        if member:
            b += "obs_i(mm.n@); struct m@ *p = &mm; p->n@++; obs_i(p->n@);"
        if member == 2:
            b += "obs_i(m2.in.n@ + m2.s2.n@); struct m2@ *p2 = &m2; obs_i(p2->s2.n@);"
        yield Case("tag %s, member %d, label %d, ordinary %s" % (tag or "-", member, label, obj), "%s static void f@(void) { %s } void t@(void) { f@(); f@(); }" % (t, b))


def tags():
    """tags: visibility, shadowing, completion, forward references, in every scope"""
    C = [("shadowed struct tag", "struct s@ { char a[3]; }; void t@(void) { obs_u(sizeof(struct s@)); { struct s@ { char a[9]; }; obs_u(sizeof(struct s@)); { struct s@ { char a[20]; } v; obs_u(sizeof v); } obs_u(sizeof(struct s@)); } obs_u(sizeof(struct s@)); }"),
         ("forward declaration hides", "struct s@ { char a[3]; }; void t@(void) { struct s@; struct s@ *p; struct s@ { char a[11]; }; obs_u(sizeof *p); { struct s@ *q; obs_u(sizeof *q); } }"),
         ("mutual recursion", "struct a@; struct b@ { struct a@ *x; int v; }; struct a@ { struct b@ *y; int w; }; void t@(void) { struct a@ a = {0, 5}; struct b@ b = {&a, 6}; a.y = &b; obs_i(b.x->y->x->w + a.y->v); }"),
         ("mutual recursion in block over outer tag", "struct a@ { char c; }; void t@(void) { struct a@; struct b@ { struct a@ *x; }; struct a@ { long l[4]; }; struct b@ b; obs_u(sizeof *b.x); }"),
         ("union and enum share tag space by scope", "union u@ { long l; }; void t@(void) { enum u@ { u@a, u@b }; obs_u(sizeof(enum u@)); enum u@ e = u@b; obs_i(e); { struct u@ { char c[13]; }; obs_u(sizeof(struct u@)); } }"),
         ("tag declared in parameter list", "static int f@(struct p@ { int a; char b[9]; } *p) { return sizeof(struct p@); } void t@(void) { obs_i(f@(0)); }"),
         ("tag declared in sizeof", "void t@(void) { obs_u(sizeof(struct q@ { char c[6]; })); struct q@ v; obs_u(sizeof v); }"),
         ("enumerators in nested scopes", "enum { A@ = 1, B@ = A@ + 5 }; void t@(void) { obs_i(B@); { enum { A@ = 10, B@ = A@ + 1, C@ = B@ }; obs_i(A@ + B@ + C@); { int B@ = A@; obs_i(B@); enum { A@ = 3 }; obs_i(A@); } } obs_i(A@); }"),
         ("enumerator scope starts after itself", "enum { E@ = 4 }; void t@(void) { enum { E@ = E@ + 1, F@ = E@ + 1 }; obs_i(E@); obs_i(F@); }"),
         ("members of unnamed enum in struct", "void t@(void) { struct { enum { P@ = 9, Q@ } e; int v; } s = {Q@, P@}; obs_i(s.e + s.v + P@); }"),
         ("struct tag in function return", "struct r@ { int a; } static f@(void) { struct r@ v = {6}; return v; } void t@(void) { obs_i(f@().a); }".replace("struct r@ { int a; } static", "static struct r@ { int a; }")),
         ("inner extern hidden by auto", "int g@ = 3; void t@(void) { int g@ = 5; obs_i(g@); { extern int g@; obs_i(g@); g@++; { int g@ = 9; obs_i(g@); } } obs_i(g@); }"),
         ("function declared in block", "void t@(void) { int f@(int); obs_i(f@(3)); { extern int f@(int); obs_i(f@(4)); } int (*p)(int) = f@; obs_i(p(5)); } int f@(int x) { return x * 3; }"),
         ("tentative definitions", "int a@; int a@; static int b@; static int b@ = 6; extern int c@; int c@ = 7; int c@; int d@ = 1; extern int d@; static int e@[]; static int e@[3]; void t@(void) { obs_i(a@ + b@ + c@ + d@); obs_u(sizeof e@); obs_i(e@[2]); }".replace("static int e@[]; static int e@[3];", "int e@[]; int e@[3];")),
         ("incomplete array completed later", "extern int h@[]; static int gh@(void) { return h@[1]; } int h@[] = {4, 5, 6}; void t@(void) { obs_i(gh@()); obs_u(sizeof h@); }"),
         ("tentative incomplete array has one element", "int l@[]; void t@(void) { obs_i(l@[0]); l@[0] = 5; obs_i(l@[0]); }"),
         ("static function before use", "static int s@(void); void t@(void) { obs_i(s@()); } static int s@(void) { return 12; }"),
         ("extern after static stays internal", "static int k@ = 3; extern int k@; static int f@(void); extern int f@(void); static int f@(void) { return k@; } void t@(void) { extern int k@; k@++; obs_i(f@()); }"),
         ("static per function", "static int c1@(void) { static int n = 10; return n++; } static int c2@(void) { static int n = 20; return n++; } void t@(void) { int i; for (i = 0; i < 3; i++) { obs_i(c1@()); obs_i(c2@()); { static int n; obs_i(n++); } { static int n = 5; obs_i(n += 2); } } }"),
         ("static of aggregate type", "static int *f@(int k) { static int a[4] = {1, 2, 3, 4}; a[k] *= 2; return a; } void t@(void) { f@(0); f@(1); int *p = f@(1); obs_i(p[0]); obs_i(p[1]); obs_i(p[3]); }"),
         ("static pointer to itself and to others", "static int x@ = 4; static int *f@(void) { static int *p = &x@; static int **pp = &p; **pp += 1; return *pp; } void t@(void) { obs_i(*f@()); obs_i(*f@()); }"),
         ("recursion has own automatics", "static int f@(int n) { int a = n, b[3]; b[0] = n; b[1] = n ? f@(n - 1) : 0; b[2] = a; return b[0] * 10 + b[1] + b[2]; } void t@(void) { obs_i(f@(6)); }"),
         ("recursion through pointers to own automatics", "static int f@(int n, int *up) { int v = n; if (n) { f@(n - 1, &v); } *up += v; return v; } void t@(void) { int z = 0; obs_i(f@(5, &z)); obs_i(z); }"),
         ("static shared by recursion", "static int f@(int n) { static int depth; int r; depth++; r = n ? f@(n - 1) : depth; depth--; return r; } void t@(void) { obs_i(f@(4)); obs_i(f@(2)); }"),
         ("mutual recursion of functions", "static int odd@(int); static int even@(int n) { return n ? odd@(n - 1) : 1; } static int odd@(int n) { return n ? even@(n - 1) : 0; } void t@(void) { obs_i(even@(10)); obs_i(odd@(7)); }"),
         ("parameter hides function", "static int f@(int f@) { return f@ + 1; } void t@(void) { obs_i(f@(4)); }"),
         ("prototype scope", "static int p@(int n, int a[n], int (*f)(int n)); static int p@(int n, int a[n], int (*f)(int)) { return f(a[n - 1]); } static int d@(int n) { return n * 2; } void t@(void) { int v[3] = {1, 2, 3}; obs_i(p@(3, v, d@)); }"),
         ("old-style empty list", "static int e@(); static int e@() { return 5; } void t@(void) { obs_i(e@()); }"),
         ("typedef redeclared in scope", "typedef int T@; void t@(void) { T@ a = 70000; { typedef char T@; T@ b = (T@) 70000; obs_i(b); { T@ T@ = 5; obs_i(T@); obs_u(sizeof T@); } obs_u(sizeof(T@)); } obs_i(a); }"),
         ("typedef hidden in for statement only", "typedef int T@; void t@(void) { for (int T@ = 0; T@ < 2; T@++) obs_i(T@); T@ a = 5; obs_i(a); for (T@ T@ = 3; T@ < 4; T@++) { obs_i(T@); } T@ b = 6; obs_i(b); }"),
         ("typedef hidden by later declarators", "typedef int T@; void t@(void) { T@ a = 4, T@ = a + 1, b = T@ * 2; obs_i(b); obs_u(sizeof T@); { int c = T@, d[T@]; obs_u(sizeof d); obs_i(c); } }"),
         ("parameter hides typedef in declarator after it", "typedef char T@; static int f@(int T@, int a[T@ + 1], int b) { return T@ + b + (int) sizeof(T@); } void t@(void) { int v[4]; obs_i(f@(3, v, 4)); T@ z = 300; obs_i(z); }"),
         ("typedef hidden in prototype only", "typedef short T@; int p@(int T@, int); static T@ g@(T@ a) { return a * 2; } int p@(int x, int y) { T@ z = x + y; return g@(z); } void t@(void) { obs_i(p@(3, 4)); }"),
         ("typedef name as enumerator, tag and member in block", "typedef long T@; void t@(void) { struct T@ { int T@; } s = {4}; { enum e@ { T@ = 9 }; obs_i(T@ + s.T@); } T@ l = 1; obs_u(sizeof l); }"),
         ("typedef same again", "typedef int I@; typedef int I@; typedef struct s@ S@; typedef struct s@ S@; struct s@ { int a; }; void t@(void) { I@ i = 3; S@ s = {i}; obs_i(s.a); }"),
         ("typedef as member and label", "typedef int T@; struct s@ { T@ T@; }; void t@(void) { struct s@ v = {3}; goto T@; v.T@ = 9; T@: obs_i(v.T@); }"),
         ("inline functions", "static inline int i@(int a) { static int n = 3; return a + n++; } void t@(void) { obs_i(i@(1)); obs_i(i@(1)); }"),
         ("noreturn and register", "static int f@(register int a, register char b) { register int c = a + b; { register int c = 4; a += c; } return c + a; } void t@(void) { obs_i(f@(1, 2)); }"),
         ("__func__", "static const char *n@(void) { return __func__; } void t@(void) { obs_i(sizeof __func__ == sizeof \"t\" + sizeof \"k0_\" - 1 || sizeof __func__ > 3); obs_i(n@()[0]); { const char *p = __func__; obs_i(p[0]); obs_i(p == __func__); } }"),
         ("for scope is nested", "void t@(void) { int i = 9; for (int i = 0; i < 2; i++) { obs_i(i); int i = 5; obs_i(i); } obs_i(i); for (int i = 0, j = 3; i < j; i++, j--) obs_i(i * 10 + j); obs_i(i); }"),
         ("automatic reinitialised each iteration", "void t@(void) { int k; for (k = 0; k < 3; k++) { int a = k, b[2] = {a}; obs_i(a + b[0] + b[1]); a = 50; b[1] = 60; } }"),
         ("address of automatic stable in block", "void t@(void) { int k, *p = 0; for (k = 0; k < 3; k++) { int a; if (!p) p = &a; a = k; obs_i(&a == p); } }"),
         ("siblings do not disturb outer", "void t@(void) { int a = 1, b[3] = {2, 3, 4}; { int a = 7, c[4] = {8, 8, 8, 8}; obs_i(a + c[3]); } { long d[2] = {5, 6}; obs_i(d[1]); } { char e = 9; obs_i(e); { int f[9] = {1}; obs_i(f[8]); } } obs_i(a); obs_i(b[0] + b[1] + b[2]); }"),
         ]
    for k, t in C:
        yield Case(k, t)


LT = [("int", "int %s", "%s", "%d"), ("char array", "char %s[5]", "%s[2]", "{0, 0, %d}"), ("struct", "struct st@ %s", "%s.b", "{1, %d}"), ("double", "double %s", "%s", "%d.5"), ("pointer", "int *%s", "*%s", "&base@"),
      ("array of struct", "struct st@ %s[3]", "%s[1].b", "{{1, 2}, {3, %d}}"), ("function pointer", "int (*%s)(int)", "%s(4)", None), ("const int", "const int %s", "%s", "%d"), ("long long", "long long %s", "%s", "%d"), ("short", "short %s", "%s", "%d")]
# forms: text pieces, whether it defines, whether visible externally
FORMS = {
    "static initialised": ("static %(d)s = %(i)s;", "int"), "static tentative": ("static %(d)s;", "int"), "static then extern": ("static %(d)s = %(i)s; extern %(d)s;", "int"),
    "initialised": ("%(d)s = %(i)s;", "def"), "tentative": ("%(d)s;", "def"), "extern then initialised": ("extern %(d)s; %(d)s = %(i)s;", "def"),
    "initialised then extern": ("%(d)s = %(i)s; extern %(d)s;", "def"), "tentative twice": ("%(d)s; %(d)s;", "def"),
    "extern": ("extern %(d)s;", "use"), "extern twice": ("extern %(d)s; extern %(d)s;", "use"), "extern in block": ("", "blk"), "unused": ("", "no"), "extern initialised": ("extern %(d)s = %(i)s;", "def"),
}


def linkage(tls):
    head = "struct st@ { char a; int b; }; "
    for (tn, d, u, ini) in LT:
        if tls and tn in ("function pointer", "pointer", "const int"):
            continue
        for fa, fb in itertools.product(FORMS, repeat=2):
            ka, kb = FORMS[fa][1], FORMS[fb][1]
            ext = [k for k in (ka, kb) if k in ("use", "blk", "def")]
            if ka == "def" and kb == "def":
                continue
            if ("use" in (ka, kb) or "blk" in (ka, kb)) and "def" not in (ka, kb):
                continue
            if tn == "const int" and ("tentative" in fa or "tentative" in fb):
                pass

            def unit(f, n, main):
                k = FORMS[f][1]
                dd = d % "x@"
                if tls:
                    dd = "_Thread_local " + dd
                i = ini
                if tn == "function pointer":
                    i = "fun@"
                i = i % (30 + n) if i and "%d" in i else i
                txt = FORMS[f][0]
                if tls:
                    if "tentative twice" in f:
                        return None
                    txt = txt.replace("static %(d)s", "static _Thread_local " + (d % "x@")).replace("extern %(d)s", "extern _Thread_local " + (d % "x@")).replace("%(d)s", "_Thread_local " + d % "x@").replace("%(i)s", str(i))
                else:
                    txt = txt % dict(d=dd, i=i)
                pre = head + ("static int base@ = %d; " % (50 + n) if tn == "pointer" else "") + ("static int fun@(int a) { return a + %d; } " % n if tn == "function pointer" else "")
                use = u % "x@"
                bl = ("extern %s;" % dd) if k == "blk" else ""
                upd = ""
                if k != "no":
                    nul = tn in ("pointer", "function pointer") and (k != "int" or "tentative" in f)
                    get = "obs_i(%s);" % use
                    if nul:
                        get = "if (x@) obs_i(%s); else obs_i(-1);" % use
                    chg = "" if tn in ("const int", "function pointer") else ("%s += %d;" % (use, n) if not (tn == "pointer" and nul) else "")
                    upd = get + chg + get + "obs_u(sizeof x@); " if tn != "x" else ""
                fn = "void u%d@(void) { %s %s }" % (n, bl, upd)
                return pre + txt + " " + fn

            a, b = unit(fa, 1, True), unit(fb, 2, False)
            if a is None or b is None:
                continue
            th = "in_thread(u1@); in_thread(u2@);" if tls else ""
            a += " void u2@(void); void t@(void) { u1@(); u2@(); u1@(); %s u2@(); u1@(); }" % th
            yield MCase("%s: %s | %s" % (tn, fa, fb), a, b)


FF = {"static": ("static int f@(int a) { return a + %d; }", "int"), "static declared first": ("static int f@(int); static int f@(int a) { return a + %d; }", "int"),
      "static then plain declaration": ("static int f@(int); int f@(int a) { return a + %d; }", "int"), "static inline": ("static inline int f@(int a) { return a + %d; }", "int"),
      "plain": ("int f@(int a) { return a + %d; }", "def"), "extern": ("extern int f@(int a) { return a + %d; }", "def"), "declared then defined": ("extern int f@(int); int f@(int a) { return a + %d; }", "def"),
      "inline with extern": ("extern inline int f@(int a) { return a + %d; }", "def"), "inline then extern declaration": ("inline int f@(int a) { return a + %d; } extern int f@(int);", "def"),
      "declared": ("int f@(int);", "use"), "declared extern": ("extern int f@(int);", "use"), "in block": ("", "blk"), "block extern": ("", "blke")}


def functions():
    for fa, fb in itertools.product(FF, repeat=2):
        ka, kb = FF[fa][1], FF[fb][1]
        if ka == kb == "def":
            continue
        if any(k in ("use", "blk", "blke") for k in (ka, kb)) and "def" not in (ka, kb):
            continue

        def unit(f, n):
            t, k = FF[f]
            t = t % (n * 100) if "%d" in t else t
            bl = {"blk": "int f@(int);", "blke": "extern int f@(int);"}.get(k, "")
            return t + " void u%d@(void) { %s obs_i(f@(%d)); int (*p)(int) = f@; obs_i(p(%d)); obs_i((&f@)(1)); static int (*q)(int) = 0; q = f@; obs_i(q == p); }" % (n, bl, n, n + 1)
        yield MCase("%s | %s" % (fa, fb), unit(fa, 1) + " void u2@(void); void t@(void) { u1@(); u2@(); u1@(); }", unit(fb, 2))


def tls_local():
    for ty, ini in (("int", "5"), ("char", "3"), ("long", "-9"), ("double", "2.5"), ("struct { char a; short b[3]; }", "{1, {2, 3, 4}}"), ("int *", "0"), ("short", None), ("struct { long l[5]; }", None), ("char", None), ("long double", "1.25L")):
        for form in ("block static", "file static", "file external", "several"):
            u = {"struct { char a; short b[3]; }": "v.b[1]", "struct { long l[5]; }": "v.l[4]"}.get(ty, "v")
            ini_ = " = " + ini if ini is not None else ""
            o = "obs_d" if "double" in ty else "obs_i"
            inc = "v = v ? 0 : &w@;" if ty == "int *" else "%s += 1;" % u
            get = "%s(%s);" % (o, u) if ty != "int *" else "obs_i(v == &w@);"
            if form == "block static":
                t = "static int w@; static void b@(void) { static _Thread_local %s v%s; %s %s %s }" % (ty, ini_, get, inc, get)
            else:
                q = {"file static": "static ", "file external": "", "several": "static "}[form]
                more = "static _Thread_local char p@ = 1; static _Thread_local long p2@;" if form == "several" else ""
                t = "static int w@; %s %s_Thread_local %s v@%s; static _Thread_local int tail@ = 77; static void b@(void) { %s %s %s obs_i(tail@--); }" % (more, q, ty, ini_, get.replace("v", "v@").replace("ov@", "ov"), inc.replace("v", "v@"), get.replace("v", "v@").replace("ov@", "ov"))
                if form == "several":
                    t = t.replace("obs_i(tail@--);", "obs_i(tail@--); obs_i(p@++); obs_i(p2@--);")
            yield Case("%s%s, %s" % (ty, ini_, form), t + " static void twice@(void) { b@(); b@(); in_thread(b@); b@(); } void t@(void) { b@(); in_thread(b@); b@(); in_thread(twice@); b@(); }")


def tls_addr():
    yield Case("addresses differ per thread", "static _Thread_local int v@ = 4; static int *m@; static void f@(void) { obs_i(m@ == &v@); obs_i(v@); v@ = 9; *m@ += 1; } void t@(void) { m@ = &v@; f@(); in_thread(f@); obs_i(v@); in_thread(f@); obs_i(v@); }")
    yield Case("array per thread", "static _Thread_local int v@[10]; static void f@(void) { int i; for (i = 0; i < 10; i++) { v@[i] += i * i; obs_i(v@[i]); } } void t@(void) { f@(); in_thread(f@); f@(); }")
    yield Case("member pointer per thread", "static _Thread_local struct { int a; struct { char c[3]; int d; } e[2]; } v@ = {1, {{{2}, 3}, {{4, 5}, 6}}}; static void f@(void) { int *p = &v@.e[1].d; char *q = v@.e[1].c; ++*p; q[1]++; obs_i(v@.e[1].d); obs_i(v@.e[1].c[1]); obs_i(v@.a++); } void t@(void) { f@(); in_thread(f@); f@(); }")


def run(chk):
    q = chk.quick
    diff.explore(chk, "scopes", scopes(q), 30)
    diff.explore(chk, "name spaces", namespaces(), 20)
    diff.explore(chk, "declarations", tags(), 4)
    multi.explore(chk, "linkage of objects", linkage(False), 25)
    multi.explore(chk, "linkage of functions", functions(), 25)
    multi.explore(chk, "linkage of thread-local objects", linkage(True), 25)
    diff.explore(chk, "thread-local", itertools.chain(tls_local(), tls_addr()), 8)
    return chk.finish()

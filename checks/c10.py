"""C10: objects with static storage start with exactly their initialiser."""
TECHNIQUE = 'exhaustive enumeration of initialiser lists (items x designators x braces) over a set of aggregate types and of constant expressions over scalar types, replayed on compiled code against the platform compiler as reference'
NOTE = 'Every initialiser list of up to the bound is generated, gcc -pedantic-errors decides which are valid C, and the resulting object of each valid one is compared member by member with gcc.'
import itertools
from mc import core, diff, initgen
from mc.diff import Case


def aggregates(n, braces, depth, types=None, nobraces=False):
    for name, d, ty, x, tag in initgen.all_lists(n, braces, depth, types):
        if ("no braces" in tag) != nobraces:
            continue
        init = initgen.number(x, lambda k: str(k * 3 + 1) if k % 2 else "-%d" % (k * 5))
        e = "o@" if ty.kind != "x" else ""
        yield Case("%s = %s%s" % (name, x.replace("V", "v"), tag), "static %s = %s; void t@(void) { %s { static %s = %s; %s } }" % (
            d.replace("D", "o@"), init, initgen.observe(ty, "o@"), d.replace("D", "l"), init, initgen.observe(ty, "l")))


STRS = [("char", '"abc"', "i"), ("char", '"ab\\0c"', "i"), ("unsigned char", '"\\xff\\101"', "i"), ("signed char", '"\\xff"', "i"), ("int", 'L"ab"', "i"), ("unsigned short", 'u"ab\\xffff"', "i"), ("unsigned", 'U"ab\\U0001F600"', "i"), ("char", 'u8"\\u00e9"', "i"), ("char", '""', "i"), ("char", '"ab" "cd"', "i")]


def strings():
    for t, s, _ in STRS:
        for dim in ("", "3", "4", "6", "9"):
            for br in ("%s", "{%s}", "{%s,}"):
                ini = br % s
                key = "%s[%s] = %s" % (t, dim, ini)
                yield ("static %s D[%s]" % (t, dim), ini, key, "obs_u(sizeof o@); obs_b(o@, sizeof o@);")
        for ini in ("{{1, %s, 2}}", "{1, %s, 2}", "{.b = %s}", "{.b = {%s}, .c = 5}", "{.b = {[1] = 'x'}, 7}", "{.b = %s, .b[1] = 'z'}", "{1, {%s}, 3}", "{.b[0] = 'q', 'r', 's', 't', 'u', 'v', 9}"):
            ini = ini % s if "%s" in ini else ini
            yield ("static struct { short a; %s b[6]; short c; } D" % t, ini, "struct { short a; %s b[6]; short c; } = %s" % (t, ini), "obs_i(o@.a); obs_b(o@.b, sizeof o@.b); obs_i(o@.c);")
        for ini in ("{%s, %s}", "{[1] = %s}", "{{%s}, {'a', 'b'}}", "{'a', 'b', [1] = %s}", "{[1] = %s, [0] = {%s}}", "{%s, [0][1] = 'k'}"):
            k = ini.replace("%s", s)
            yield ("static %s D[2][7]" % t, k, "%s[2][7] = %s" % (t, k), "obs_b(o@, sizeof o@);")
            yield ("static %s D[][7]" % t, k, "%s[][7] = %s" % (t, k), "obs_u(sizeof o@); obs_b(o@, sizeof o@);")


def string_cases():
    import subprocess, re
    c = list(strings())
    src = "\n".join("void f%d(void) { %s = %s; }" % (i, d.replace("D", "o"), x) for i, (d, x, _, _) in enumerate(c))
    r = subprocess.run(["gcc", "-std=c11", "-fsyntax-only", "-pedantic-errors", "-fmax-errors=0", "-fno-diagnostics-show-caret", "-x", "c", "-"], input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    bad = set(int(m) for m in re.findall(r"<stdin>:(\d+):\d+: error", r.stdout.decode("utf-8", "replace")))
    for i, (d, x, key, o) in enumerate(c, 1):
        if i not in bad:
            yield Case(key, "%s = %s; void t@(void) { %s }" % (d.replace("D", "o@"), x, o))


SCALARS = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "float", "double", "long double"]
CONSTS = ["0", "1", "-1", "2", "255", "256", "-129", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615u", "0x8000000000000000u", "1u", "-1u", "3.0", "2.75", "-2.75", "0.5", "1e10", "1.5f", "-0.0", "1e-310", "3.25L", "'a'", "'\\377'", "L'\\xffff'", "sizeof(long)", "_Alignof(int)", "(char) 300", "(unsigned char) -1", "1 ? 7 : 8.5", "3 / 2", "3 / 2.0", "-7 % 3", "1 << 31u >> 3", "~0u >> 4", "!5", "5 && 0", "E@", "(short) 70000", "1.0 / 3", "(float) 0.1", "(int) 3.9", "2 > 1.5", "(_Bool) 0.25"]


def scalars():
    # results of out-of-range float conversions are undefined
    big = {"1e10", "18446744073709551615u"}
    for t in SCALARS:
        for c in CONSTS:
            isf = "." in c or "e" in c and not c.startswith(("0x", "s", "E"))
            if isf and t in ("char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long"):
                if "1e10" in c and t not in ("long", "unsigned long"):
                    continue
                if c.startswith("-2") and t.startswith("unsigned"):
                    continue
            o = {"float": "obs_f", "double": "obs_d", "long double": "obs_ld"}.get(t, "obs_i")
            yield Case("%s = %s" % (t, c.replace("@", "")), "enum { Z@, E@ = 77 }; static %s o@ = %s; static %s p@[2] = {[1] = %s}; static struct { char c; %s m; char d; } s@ = {1, %s, 2}; static union { %s m; char c; } u@ = {%s}; void t@(void) { %s(o@); %s(p@[0]); %s(p@[1]); %s(s@.m); obs_i(s@.c); obs_i(s@.d); %s(u@.m); static _Thread_local %s w = %s; %s(w); }" % (
                t, c, t, c, t, c, t, c, o, o, o, o, o, t, c, o))


OBJ = "static int g@; static int a@[5]; static struct q@ { char c; int m[3]; struct { long k; short h[4]; } n[2]; } s@; static int f@(int x) { return x + 1; } static char str@[] = \"hello\"; "
ADDR = [("int *", "&g@"), ("int *", "a@"), ("int *", "a@ + 2"), ("int *", "&a@[3]"), ("int *", "&a@[5]"), ("int *", "2 + a@"), ("int *", "&a@[4] - 2"), ("int *", "a@ + 4 - 1"), ("int *", "&*a@"), ("int *", "&*(a@ + 1)"), ("int *", "s@.m"), ("int *", "&s@.m[2]"), ("int *", "s@.m + 1"), ("int *", "(int *) &s@"), ("int *", "(int *) ((char *) &s@ + 8)"), ("int *", "0"), ("int *", "(void *) 0"), ("int *", "(int *) 1234"),
        ("long *", "&s@.n[1].k"), ("short *", "&s@.n[1].h[3]"), ("short *", "s@.n[0].h + 2"), ("void *", "&s@.n[1]"), ("void *", "f@"), ("void *", "&f@"), ("char *", "str@ + 1"), ("char *", "&str@[4]"), ("char *", "(char *) a@ + 5"), ("const char *", "\"lit\""), ("const char *", "\"lit\" + 1"), ("const char *", "&\"lit\"[2]"), ("const char *", "1 ? \"yes\" : \"no\""), ("const char *", "(0 ? \"yes\" : \"no\")"),
        ("int (*)(int)", "f@"), ("int (*)(int)", "&f@"), ("int (*)(int)", "*f@"), ("int (*)[5]", "&a@"), ("int (*)[5]", "&a@ + 1"), ("unsigned long", "(unsigned long) &a@[2]"), ("long", "(long) a@"), ("struct q@ *", "&s@"), ("struct q@ *", "&s@ + 1"), ("int *", "&(&s@)->m[1]"), ("long *", "&(*(&s@)).n[0].k"), ("int *", "&((int *) a@)[2]"), ("int *", "(int[]) {4, 5, 6}"), ("int *", "(int[]) {4, 5, 6} + 1"), ("struct q@ *", "&(struct q@) {.m = {7, 8}}"), ("const int *", "(const int *) a@ + 3"), ("_Bool", "a@"), ("_Bool", "f@"), ("int *", "(1, 0) ? 0 : a@" if False else "1 ? a@ : 0"), ("wchar", None)]


def addresses():
    for t, e in ADDR:
        if e is None:
            continue
        obs = "obs_i((char *) X - (char *) B)"
        if "\"" in e:
            look = "obs_s(X);"
        elif "{4" in e:
            look = "obs_i(X[0]); obs_i(X[1]);"
        elif "(struct q@) {" in e:
            look = "obs_i(X->m[0]); obs_i(X->m[1]); obs_i(X->n[1].k);"
        elif e in ("0", "(void *) 0", "(int *) 1234") or t == "_Bool":
            look = "obs_u((unsigned long) X);"
        elif "f@" in e:
            look = "obs_i(X == f@); " + ("obs_i(X(4)); " if t != "void *" else "")
        else:
            b = "str@" if "str@" in e else "a@" if "a@" in e else "s@" if "s@" in e else "g@"
            look = "obs_i((char *) X - (char *) &%s);" % b
        d = t.replace("(*)", "(*V)") if "(*)" in t else t + " V"
        dd = lambda n, suf="": d.replace("V", n + suf)
        yield Case("%s = %s" % (t.replace("@", ""), e.replace("@", "")), OBJ + "static %s = %s; static %s = {0, %s}; static struct { char c; %s; char d; } z@ = {1, %s, 2}; void t@(void) { %s %s %s { static %s = %s; %s } obs_i(z@.c + z@.d); }" % (
            dd("o@"), e, dd("v@", "[3]"), e, dd("m"), e, look.replace("X", "o@"), look.replace("X", "v@[1]"), look.replace("X", "z@.m"), dd("l"), e, look.replace("X", "l")))


def defaults():
    """no initialiser: zero; tentative definitions; incomplete arrays completed later; external visibility"""
    ts = [("int", "obs_i(V);"), ("double", "obs_d(V);"), ("char *", "obs_p(V);"), ("int[3]", "obs_b(V, sizeof V);"), ("struct { char a; double b; int *c; }", "obs_i(V.a); obs_d(V.b); obs_p(V.c);"), ("long double", "obs_ld(V);"), ("float[5]", "obs_b(V, sizeof V);"), ("union { int a; long b; }", "obs_i(V.b);")]
    for t, o in ts:
        b, _, d = t.partition("[")
        d = "[" + d if d else ""
        for st in ("static ", "", "static _Thread_local ", "_Thread_local "):
            for loc in (False, True):
                if loc and not st.startswith("static"):
                    continue
                n = "l" if loc else "o@"
                decl = "%s%s %s%s;" % (st, b, n, d)
                yield Case("%s%s%s" % (st, t, " local" if loc else ""), "%s void t@(void) { %s %s }" % ("" if loc else decl, decl if loc else "", o.replace("V", n)))
    for forms in itertools.product(("int o@;", "extern int o@;", "int o@ = 5;", ""), repeat=3):
        if sum("=" in f for f in forms) > 1 or not any(f and not f.startswith("extern") for f in forms) or not any(forms[:2]):
            continue
        yield Case("tentative %s" % " ".join(f or "-" for f in forms).replace("@", ""), "%s %s void t@(void) { obs_i(o@); o@++; obs_i(o@); } %s" % forms)
        yield Case("tentative static %s" % " ".join(f or "-" for f in forms).replace("@", ""), "%s %s void t@(void) { obs_i(o@); o@++; obs_i(o@); } %s" % tuple(f if f.startswith("extern") or not f else "static " + f for f in sorted(forms, key=lambda x: x.startswith("extern") or not x)))
    yield Case("array completed later", "extern int o@[]; int o@[] = {1, 2, 3}; void t@(void) { obs_u(sizeof o@); obs_i(o@[2]); }")
    yield Case("tentative array completed", "static int o@[4]; int q@[]; int q@[3] = {1, 2}; void t@(void) { obs_u(sizeof o@); obs_i(o@[3]); obs_u(sizeof q@); obs_i(q@[1]); obs_i(q@[2]); }")
    yield Case("self reference", "static struct n@ { struct n@ *next; int v; } x@ = {&x@, 3}, y@ = {&x@, 4}; static void *p@ = &p@; void t@(void) { obs_i(x@.next == &x@); obs_i(y@.next->v); obs_i(p@ == &p@); }")
    yield Case("mutual reference", "struct n@ { struct n@ *next; int v; }; extern struct n@ b@; struct n@ a@ = {&b@, 1}; struct n@ b@ = {&a@, 2}; void t@(void) { obs_i(a@.next->v); obs_i(b@.next->v); obs_i(a@.next->next == &a@); }")
    yield Case("function table", "static int f@(int x) { return x + 1; } static int g@(int x) { return x * 2; } static int (*const tab@[])(int) = {f@, g@, [4] = f@}; void t@(void) { obs_u(sizeof tab@ / sizeof *tab@); obs_i(tab@[0](4)); obs_i(tab@[1](4)); obs_i(tab@[2] == 0); obs_i(tab@[4](9)); }")
    yield Case("flexible array member", "static struct { int n; int f[]; } o@ = {3}; void t@(void) { obs_i(o@.n); obs_u(sizeof o@); }")
    U = "static union { struct { int a, b; } s; int c[3]; short h; } "
    for k, ini, o in (("second member given later", "{.s = {1, 2}, .c = {3, 4, 5}}", "c"), ("first member given later", "{.c = {3, 4, 5}, .s.a = 6}", "s"), ("same member again", "{.s.a = 1, .s.b = 2}", "s"), ("narrow member given later", "{.c = {3, 4, 5}, .h = 7}", "h")):
        yield Case("union: " + k, U + "o@ = %s; static struct { int x; union { short b; int c; }; int y; } p@ = {1, .b = 2, .c = 3, .y = 4}; void t@(void) { %s %s }" % (ini, {"c": "obs_b(o@.c, 12);", "s": "obs_i(o@.s.a); obs_i(o@.s.b);", "h": "obs_i(o@.h);"}[o], "obs_i(p@.c); obs_i(p@.y); obs_i(p@.x);" if o == "c" else ""))
    yield Case("large sparse array", "static short o@[70000] = {[3] = 1, [69999] = 2, [40000] = 3}; void t@(void) { unsigned long i; for (i = 0; i < 70000; i++) if (o@[i]) { obs_u(i); obs_i(o@[i]); } obs_u(sizeof o@); }")
    yield Case("persistence", "static int *c@(void) { static int n = 3; static int a[2] = {1}; n++; a[1] += n; return n & 1 ? &n : a; } void t@(void) { obs_i(*c@()); obs_i(*c@()); obs_i(c@()[1]); obs_i(*c@()); }")


def run(chk):
    q = chk.quick
    diff.explore(chk, "scalars", scalars())
    diff.explore(chk, "addresses", addresses(), 20)
    diff.explore(chk, "strings", string_cases())
    diff.explore(chk, "defaults", defaults(), 20)
    B = ["{V}", "{V, V}"]
    diff.explore(chk, "aggregates: up to 2 items", aggregates(2, B, 2))
    diff.explore(chk, "aggregates: up to 3 items", aggregates(3, [], 2 if not q else 1))
    diff.explore(chk, "aggregates: braces after designators omitted", aggregates(2, ["{V}"], 2, ["int[2][2]", "struct{struct{a,b}s,c}"], True), opts=["--feature-missing-braces-subobj"])
    if not q:
        diff.explore(chk, "aggregates: braces, 3 items", aggregates(3, B, 1))
        diff.explore(chk, "aggregates: nested designators", aggregates(2, B + ["{[0] = V}", "{[1] = V, V}", "{.b = V}", "{.a = V, V}", "{{V}, V}"], 3))
        diff.explore(chk, "aggregates: up to 4 items", aggregates(4, [], 1))
    chk.assumptions += ["gcc -pedantic-errors decides which initialisers are valid C"]
    return chk.finish()

"""C04: assignment, compound assignment, increment/decrement and sequencing: value, stored value, one evaluation of each operand."""
TECHNIQUE = "exhaustive enumeration of assignment forms x lvalue forms x types x values, and of all sequencing expression trees with all condition outcomes"
NOTE = ("All operators on all pairs of the 15 arithmetic types through every lvalue form of the alphabet, on every valuation of the value sets; and every "
        "expression tree of sequenced operators up to the leaf bound under every outcome script, comparing call traces. Reference: gcc -O0.")
import itertools
from mc import core, valdiff, diff
from mc.valdiff import VCase, INT_TYPES, iset
from mc.diff import Case
from checks.c02 import F, f32, f64, fld

T = list(INT_TYPES) + F
ASG = ["=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="]
SIG = "void t@(const unsigned long long *v, unsigned long long *o)"
FV = [1.0, -2.5, 3.0, 0.1, 1e10, 16777217.0, 100.5, 0.0]
FW = [1.0, 0.0, -1.0, 3.0, 1e10]


def val(t, n, i):
    return "%s %s = *(const %s *) (v + %d);" % (t, n, t, 2 * i) if t in F else "%s %s = (%s) v[%d];" % (t, n, t, 2 * i)


# (name, file-scope text, setup, lvalue, read back, extra observation)
def forms():
    G = "1 + 0"
    yield "local", "", "L x = a;", "x", "x", "0"
    yield "paren", "", "L x = a;", "((x))", "x", "0"
    yield "static", "", "static L x; x = a;", "x", "x", "0"
    yield "file", "static L gx@;", "gx@ = a;", "gx@", "gx@", "0"
    yield "extern", "L ex@;", "ex@ = a;", "ex@", "ex@", "0"
    yield "tls", "static _Thread_local L tx@;", "tx@ = a;", "tx@", "tx@", "0"
    yield "volatile", "", "volatile L x = a;", "x", "x", "0"
    yield "register", "", "register L x = a;", "x", "x", "0"
    yield "deref", "", "L x = a; L *p = &x;", "*p", "x", "p == &x"
    yield "deref2", "", "L x = a; L *p = &x; L **pp = &p;", "**pp", "x", "p == &x"
    yield "*++p", "", "L y[3]; y[0] = y[2] = 1; y[1] = a; L *p = y;", "*++p", "y[1]", "(p - y) * 4 + (y[0] == 1) * 2 + (y[2] == 1)"
    yield "*p++", "", "L y[3]; y[0] = y[2] = 1; y[1] = a; L *p = y + 1;", "*p++", "y[1]", "(p - y) * 4 + (y[0] == 1) * 2 + (y[2] == 1)"
    yield "y[i++]", "", "L y[3]; y[0] = y[2] = 1; y[1] = a; int i = 1;", "y[i++]", "y[1]", "i * 4 + (y[0] == 1) * 2 + (y[2] == 1)"
    yield "i--[y]", "", "L y[3]; y[0] = y[2] = 1; y[1] = a; long i = 1;", "i--[y]", "y[1]", "i * 4 + (y[0] == 1) * 2 + (y[2] == 1)"
    yield "*f()", "static int n@; static L *f@(L *p) { n@++; return p; }", "n@ = 0; L x = a;", "*f@(&x)", "x", "n@"
    yield "f()[1]", "static int n@; static L *f@(L *p) { n@++; return p; }", "n@ = 0; L x[2]; x[0] = 1; x[1] = a;", "f@(x)[1]", "x[1]", "n@ * 2 + (x[0] == 1)"
    yield "s.x", "struct s@ { char c; L x; char d; };", "struct s@ s; s.c = 5; s.d = 6; s.x = a;", "s.x", "s.x", "s.c * 16 + s.d"
    yield "ps->x", "struct s@ { char c; L x; char d; };", "struct s@ s; s.c = 5; s.d = 6; s.x = a; struct s@ *p = &s;", "p->x", "s.x", "s.c * 16 + s.d"
    yield "(p++)->x", "struct s@ { char c; L x; char d; };", "struct s@ s[2]; s[0].c = 5; s[0].d = 6; s[0].x = a; s[1].x = 1; struct s@ *p = s;", "(p++)->x", "s[0].x", "(p - s) * 256 + s[0].c * 16 + s[0].d + (s[1].x == 1)"
    yield "f()->x", "struct s@ { char c; L x; char d; }; static int n@; static struct s@ *f@(struct s@ *p) { n@++; return p; }", "n@ = 0; struct s@ s; s.c = 5; s.d = 6; s.x = a;", "f@(&s)->x", "s.x", "n@ * 256 + s.c * 16 + s.d"
    yield "s.i.y[k]", "struct s@ { short q; struct { char c; L y[3]; char d; } i; };", "struct s@ s; s.q = 1; s.i.c = 5; s.i.d = 6; s.i.y[0] = 1; s.i.y[2] = 1; s.i.y[1] = a; unsigned char k = 1;", "s.i.y[k++]", "s.i.y[1]", "k * 4096 + s.i.c * 256 + s.i.d * 16 + (s.i.y[0] == 1) * 2 + (s.i.y[2] == 1)"
    yield "u.x", "union u@ { char c; L x; long double z; };", "union u@ u; u.x = a;", "u.x", "u.x", "0"
    yield "m[i][j]", "", "L m[2][2]; m[0][0] = m[0][1] = m[1][1] = 1; m[1][0] = a; int i = 1, j = 0;", "m[i--][j++]", "m[1][0]", "i * 8 + j * 4 + (m[0][0] == 1) * 2 + (m[1][1] == 1)"
    yield "*(c ? &x : &y)", "", "L x = a, y = 1; int c = 1;", "*(c-- ? &x : &y)", "x", "c * 4 + (y == 1)"
    yield "(n++, &x)[0]", "", "L x = a; int n = 0;", "(n++, &x)[0]", "x", "n"


def bset(t, lhs):
    if t in F:
        return "bool " + t if lhs == "_Bool" else "fin " + t
    return "small " + t


def assign(ops, fs, ts=T):
    for name, top, setup, lv, rd, ex in fs:
        for L in ts:
            for R in T:
                for op in ops:
                    if op in ("%=", "&=", "|=", "^=", "<<=", ">>=") and (L in F or R in F):
                        continue
                    if L == "_Bool" and R in F and op in ("/=", "*="):
                        continue        # fractions converted to _Bool: known finding of C02
                    t = "typedef %s L@; typedef %s W@; " % (L, L if L in F else "long long") + (top + " %s { %s %s %s W@ r = (%s %s b); *(W@ *) o = r; *(L@ *) (o + 2) = %s; o[4] = %s; o[5] = sizeof(%s %s b); }" % (
                        SIG, val(L, "a", 0), val(R, "b", 1), setup, lv, op, rd, ex, lv, op)).replace("L ", "L@ ")
                    yield VCase("%s: %s %s %s" % (name, L, op, R), t, [bset(L, R if R != "_Bool" else ""), bset(R, L)], "m")


def incdec():
    for name, top, setup, lv, rd, ex in forms():
        for L in T:
            for e, n in (("++(%s)", "pre++"), ("--(%s)", "pre--"), ("(%s)++", "post++"), ("(%s)--", "post--")):
                e = e % lv
                t = "typedef %s L@; typedef %s W@; " % (L, L if L in F else "long long") + (top + " %s { %s %s W@ r = (%s); *(W@ *) o = r; *(L@ *) (o + 2) = %s; o[4] = %s; o[5] = sizeof(%s); }" % (
                    SIG, val(L, "a", 0), setup, e, rd, ex, e)).replace("L ", "L@ ")
                yield VCase("%s: %s %s" % (name, n, L), t, [("wide " + L) if L not in F else "fin " + L], "m")


def chain():
    """assignments used as operands; the converted value travels, not the right operand"""
    for A, B, C in itertools.product(["_Bool", "char", "unsigned short", "int", "unsigned int", "long", "float", "double", "long double"], repeat=3):
        cs = "whole " + C if C in F else "small " + C
        yield VCase("%s = %s = %s" % (A, B, C), "%s { %s %s y; %s x = y = c; *(%s *) o = x; *(%s *) (o + 2) = y; }" % (SIG, val(C, "c", 0), B, A, A, B), [cs], "m")
        yield VCase("%s = (%s += %s)" % (A, B, C), "%s { %s %s y = 1; %s x; x = y += c; *(%s *) o = x; *(%s *) (o + 2) = y; }" % (SIG, val(C, "c", 0), B, A, A, B), [cs], "m")
        if B not in F and A not in F:
            yield VCase("%s = %s++ (%s)" % (A, B, C), "%s { %s %s y = c; %s x = y++; o[0] = x; o[2] = y; x = ++y; o[4] = x; o[5] = y; }" % (SIG, val(C, "c", 0), B, A), [cs], "m")


def pointers():
    for E in ("char", "short", "int", "double", "long double", "struct e@", "int *", "int@3"):
        decl = "struct e@ { char c[6]; }; " + ("typedef int E@[3];" if E == "int@3" else "typedef %s E@;" % E)
        for I in INT_TYPES:
            for op in ("+=", "-="):
                yield VCase("%s* %s %s" % (E, op, I), "%s %s { static E@ m[9]; E@ *p = m + 4; %s E@ *q = (p %s i); o[0] = q - m; o[1] = p - m; o[2] = (char *) p - (char *) m; o[4] = sizeof(p %s i); }" % (
                    decl, SIG, val(I, "i", 0), op, op), ["tiny " + I], "u")
        for e, n in (("++p", "pre++"), ("--p", "pre--"), ("p++", "post++"), ("p--", "post--")):
            yield VCase("%s %s*" % (n, E), "%s %s { static E@ m[9]; E@ *p = m + v[0]; E@ *q = %s; o[0] = q - m; o[1] = p - m; E@ **pp = &p; q = %s; o[2] = q - m; o[3] = p - m; o[4] = sizeof(%s); }" % (
                decl, SIG, e, e.replace("p", "(*pp)"), e), ["index"], "u")


# --------------------------------------------------------------------------------- sequencing trees
def trees(n, i0=0, ops=("&&", "||", ",")):
    """all expression trees with n numbered leaves"""
    if n == 1:
        yield "X%d" % i0
        return
    for k in range(1, n):
        for l in trees(k, i0, ops):
            for r in trees(n - k, i0 + k, ops):
                for op in ops:
                    yield "(%s %s %s)" % (l, op, r)
    for a in range(1, n - 1):
        for b in range(1, n - a):
            for x in trees(a, i0, ops):
                for y in trees(b, i0 + a, ops):
                    for z in trees(n - a - b, i0 + a + b, ops):
                        yield "(%s ? %s : %s)" % (x, y, z)


LEAF = {"int": "trace(%d, nx())", "!": "!trace(%d, nx())", "long": "((long) trace(%d, nx()) << 40)", "double": "(trace(%d, nx()) * 0.5)",
        "ptr": "(void *) (long) trace(%d, nx())", "uchar": "(unsigned char) trace(%d, nx())", "ld": "(long double) trace(%d, nx())"}
LONG = {k: v for k, v in LEAF.items() if k not in ("ptr",)}


def sub(tree, leaf):
    for i in range(8, -1, -1):
        tree = tree.replace("X%d" % i, leaf[i % len(leaf)] % i)
    return tree


def seq_case(key, body, n, pre=""):
    return Case(key, "%s static void b@(void) { %s } void t@(void) { for (int m = 0; m < %d; m++) with_script(b@, m, %d, 1000); }" % (pre, body, 1 << n, n))


CTX = {"value": "obs_i(%s);", "if": "if (%s) trace(90, 0); else trace(91, 0);", "while": "int k = 0; while (%s) { trace(92, 0); if (++k > 1) break; }",
       "for": "int k = 0; for (; %s; trace(93, 0)) if (++k > 1) break;", "do": "int k = 0; do trace(94, 0); while ((%s) && ++k < 2);",
       "not": "obs_i(!%s);", "index": "int a[2] = {7, 8}; obs_i(a[!!%s]);", "discard": "%s; trace(95, 0);", "void": "(void) %s; trace(95, 0);",
       "init": "int x = %s; obs_i(x);", "arg": "trace(%s ? 96 : 97, 0);", "stmt": "int x; x = %s; obs_i(x);", "return": None}


def seq(maxn, ctxs, leaves, typed):
    for n in range(1, maxn + 1):
        for t in trees(n):
            for c in ctxs:
                if CTX[c] is None:
                    pre = "static int r@(void) { return %s; }" % sub(t, [LEAF["int"]])
                    yield seq_case("%s %s" % (c, t), "obs_i(r@());", n, pre)
                else:
                    yield seq_case("%s %s" % (c, t), CTX[c] % sub(t, [LEAF["int"]]), n)
    # leaves of every type, in the value positions C allows (?: arms of one type)
    for n in range(1, typed + 1):
        for t in trees(n, ops=("&&", "||")):
            if "?" in t:
                continue
            for lt in itertools.product(leaves, repeat=n):
                if lt == ("ptr",):
                    continue
                yield seq_case("%s %s" % (",".join(lt), t), "obs_i(%s); if (%s) trace(90, 0);" % ((sub(t, [LEAF[x] for x in lt]),) * 2), 2 * n)
    # the same with arithmetic around a single side effect
    for t in trees(2):
        for op in ("+", "-", "*", "==", "<", "&"):
            yield seq_case("%s %s k" % (t, op), "int k = 3; obs_i(%s %s k);" % (sub(t, [LEAF["int"]]), op), 2)
            yield seq_case("k %s %s" % (op, t), "int k = 3; obs_i(k %s %s);" % (op, sub(t, [LEAF["int"]])), 2)


def full_expressions():
    """side effects of a full expression are complete before the next one starts"""
    ctx = ["x = x + 1; obs_i(x);", "x++; obs_i(x++); obs_i(x);", "if (x++ == 0) obs_i(x);", "for (int i = x++; i < 3; i++) obs_i(x += i);",
           "while (x++ < 3) obs_i(x);", "do obs_i(x); while (x++ < 3);", "switch (x++) { case 0: obs_i(x); default: obs_i(x + 10); }",
           "int y = x++, z = x++; obs_i(x); obs_i(y); obs_i(z);", "int a[2] = {5, 6}; a[x++] = 9; obs_i(a[0]); obs_i(x);", "x++, obs_i(x), x++, obs_i(x);",
           "obs_i(x++ || x++ ? x : -1); obs_i(x);", "obs_i((x++, x)); obs_i(x);", "x = (x++, 5); obs_i(x);", "int v[(x++, 3)]; obs_i(sizeof v); obs_i(x);",
           "int *p = &x; *p = (*p)++ ? 1 : 2; obs_i(1);", "obs_i(sizeof(x++)); obs_i(x);", "obs_i(_Generic(x++, int: 1, default: 2)); obs_i(x);", "obs_i(_Alignof(int)); obs_i(x);"]
    for i, c in enumerate(ctx):
        yield Case("full %d" % i, "void t@(void) { int x = 0; %s }" % c)
    # values of every type discarded in loops leave the stack where it was
    for t in T + ["struct q@", "void *", "void"]:
        d = "struct q@ { long a[5]; }; "
        e = {"void": "(void) 0"}.get(t, "x")
        setup = "" if t == "void" else "%s x = %s;" % (t, "{{1}}" if t.startswith("struct") else "1" if t != "void *" else "0")
        uses = ["%s;" % e, "(void) %s;" % e, "(%s, 1);" % e, "(1, %s);" % e, "for (int j = 0; j < 2; j++, %s);" % e, "for (%s; 0; );" % e, "(void) (1 ? %s : %s);" % (e, e), "((%s), (%s));" % (e, e)]
        if t != "void":
            uses += ["f@();", "f@(), f@();", "x = x;", "x = f@();", "(void) f@();", "for (f@(); 0;);", "for (int j = 0; j < 2; f@(), j++);", "p@(x);", "p@(f@());", "g@(&x)[0] = f@();"]
            if t not in ("struct q@",):
                uses += ["!x;", "x && x;", "x == x;", "x ? 1 : 2;"]
                if t != "void *":
                    uses += ["x++;", "--x;", "x += 1;", "-x;", "x + x;", "(_Bool) x;", "(long double) x;", "(char) x;"]
        pre = d
        if t != "void":
            pre += "static %s z@; static %s f@(void) { return z@; } static void p@(%s a) { } static %s *g@(%s *q) { return q; } " % ((t,) * 5)
        for k, u in enumerate(uses):
            yield Case("discard %s: %s" % (t, u), "%s void t@(void) { %s for (int i = 0; i < 3; i++) { sp_probe(0); %s sp_probe(1); } obs_i(1); }" % (pre, setup, u))


def run(chk):
    sets = {"small " + t: iset(t, "small") for t in INT_TYPES}
    sets.update({"wide " + t: iset(t) for t in INT_TYPES})
    for t, e in (("float", f32), ("double", f64), ("long double", fld)):
        sets["fin " + t] = [e(x) for x in FV]
        sets["bool " + t] = [e(x) for x in FW]
        sets["whole " + t] = [e(x) for x in (1.0, -2.5, 3.0, 100.5, 1e10)]
    for t in INT_TYPES:
        sets["tiny " + t] = [(x & ((1 << 64) - 1), 0) for x in ([0, 1] if t == "_Bool" else [0, 1, 2, 4] + ([-1, -4] if INT_TYPES[t][1] else []))]
    sets["index"] = [(1, 0), (4, 0), (7, 0)]
    fs = list(forms())
    rep = ["_Bool", "signed char", "unsigned short", "int", "unsigned int", "long", "unsigned long", "float", "double", "long double"]
    if chk.quick:
        valdiff.explore(chk, "assign", assign(ASG, fs[:1]), sets)
        valdiff.explore(chk, "assign lvalues", assign(["=", "+=", "*=", "-=", ">>="], fs[1:], ["_Bool", "signed char", "int", "unsigned long", "float", "long double"]), sets)
    else:
        valdiff.explore(chk, "assign", assign(ASG, fs), sets)
    valdiff.explore(chk, "incdec", incdec(), sets)
    valdiff.explore(chk, "chain", chain(), sets)
    valdiff.explore(chk, "pointers", pointers(), sets)
    ctxs = list(CTX)
    if chk.quick:
        diff.explore(chk, "sequencing", seq(3, ctxs, list(LEAF), 2))
        diff.explore(chk, "sequencing 4", (c for c in seq(4, ["value", "if"], [], 0) if c.key.count("X") >= 4))
    else:
        diff.explore(chk, "sequencing", seq(4, ctxs, list(LEAF), 3))
        diff.explore(chk, "sequencing 5", (c for c in seq(5, ["value", "if"], [], 0) if c.key.count("X") >= 5))
    diff.explore(chk, "full expressions", full_expressions())
    chk.assumptions += ["gcc -O0 is the reference; valuations it traps as undefined are skipped"]
    return chk.finish()

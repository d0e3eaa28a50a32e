"""C03: constant expressions evaluated by the compiler have the value the same expression has at run time (C17)."""
TECHNIQUE = 'exhaustive enumeration of constant expressions against an executable model of C integer arithmetic and the reference compiler'
NOTE = "Every constant expression of the bound is placed in each constant context of a real compilation; the value observed in the linked program must equal the model's. Trusts the Python model, itself cross-checked with gcc."
import itertools
from mc import core, diff, csem
from mc.diff import Case
from mc.valdiff import int_values

BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]
T = list(csem.BITS)


def vals(t):
    lo, hi = csem.rng(t)
    out = []
    for v in ([0, 1, 3, hi, lo, 7] + ([-1, -5] if csem.SIGNED[t] else [hi - 1])):
        if lo <= v <= hi and v not in out:
            out.append(v)
    return out


def arr(key, exprs, ty="unsigned long long"):
    """the same expressions as static data, and as the values the reference computes"""
    return Case(key, "static %s d@[] = { %s }; void t@(void) { obs_b(d@, sizeof(d@)); }" % (ty, ", ".join(exprs)))


def binary():
    for a in T:
        for b in T:
            for op in BIN:
                ex = []
                for x in vals(a):
                    for y in vals(b):
                        if csem.binop(op, a, x, b, y) is not None:
                            ex.append("%s %s %s" % (csem.lit(a, x), op, csem.lit(b, y)))
                if ex:
                    yield arr("%s %s %s" % (a, op, b), ex)


def unary():
    for a in T:
        for op in "+-~!":
            ex = ["%s%s" % (op, csem.lit(a, x)) for x in vals(a) if csem.unop(op, a, x) is not None]
            yield arr("%s%s" % (op, a), ex)
        for b in T:
            yield arr("(%s)%s" % (b, a), ["(%s)%s" % (b, csem.lit(a, x)) for x in vals(a)])
            # implicit conversion to the initialised object's type
            yield arr("init %s = %s" % (b, a), [csem.lit(a, x) for x in vals(a)], b)


def cond():
    for a in T:
        for b in T:
            ex = ["%s ? %s : %s" % (c, csem.lit(a, x), csem.lit(b, y)) for c in ("0", "1", "5l") for x in vals(a)[:5] for y in vals(b)[:5]]
            yield arr("c ? %s : %s" % (a, b), ex)


def depth2(ts, ops):
    for a, b, c in itertools.product(ts, repeat=3):
        for o1 in ops:
            for o2 in ops:
                ex = []
                for x, y, z in itertools.product(vals(a)[:5], vals(b)[:5], vals(c)[:4]):
                    r = csem.binop(o1, a, x, b, y)
                    if r is None:
                        continue
                    if csem.binop(o2, r[0], r[1], c, z) is not None:
                        ex.append("(%s %s %s) %s %s" % (csem.lit(a, x), o1, csem.lit(b, y), o2, csem.lit(c, z)))
                    if csem.binop(o2, c, z, r[0], r[1]) is not None:
                        ex.append("%s %s (%s %s %s)" % (csem.lit(c, z), o2, csem.lit(a, x), o1, csem.lit(b, y)))
                for i in range(0, len(ex), 60):
                    yield arr("(%s %s %s) %s %s #%d" % (a, o1, b, o2, c, i // 60), ex[i:i + 60])


def contexts():
    """every place that takes an integer constant expression"""
    exprs = []
    for a in ("int", "unsigned int", "long", "unsigned char", "unsigned long", "short", "_Bool"):
        for b in ("int", "unsigned int", "unsigned char", "long"):
            for op in BIN:
                for x in vals(a):
                    for y in vals(b):
                        r = csem.binop(op, a, x, b, y)
                        if r is not None and 1 <= r[1] <= 40:
                            exprs.append(("%s %s %s" % (csem.lit(a, x), op, csem.lit(b, y)), r[1]))
    seen = set()
    for e, v in exprs:
        k = (e.split()[1], v, e[:5])
        if k in seen:
            continue
        seen.add(k)
        body = ("enum en@ { EA@ = %(e)s, EB@ }; static char ar@[%(e)s]; struct bf@ { unsigned long f : %(e)s; unsigned long g : 3; }; _Static_assert((%(e)s) == %(v)d, \"x\");"
                "static int di@[] = { [%(e)s] = 7, 8 }; struct st@ { char c[%(e)s]; int x; };"
                "static int sw@(long x) { switch (x) { case %(e)s: return 100; case 1000 + (%(e)s): return 200; default: return 300; } }"
                "void t@(void) { struct bf@ b; char loc[(%(e)s) + 1]; int k; b.f = ~0ul; b.g = 5; obs_u(b.f); obs_u(b.g); obs_i(EA@); obs_i(EB@); obs_u(sizeof ar@); obs_u(sizeof di@); obs_u(sizeof loc);"
                "obs_u(sizeof(struct st@)); for (k = 0; k < (int) (sizeof di@ / sizeof *di@); k++) obs_i(di@[k]); for (k = 0; k < 45; k++) obs_i(sw@(k)); obs_i(sw@(1000 + %(v)d)); obs_i(sw@(999 + %(v)d)); }")
        yield Case("context %s" % e, body % {"e": e, "v": v})
    for n in (1, 2, 4, 8, 16, 32, 64):
        for e in ("%d" % n, "%du * 1" % n, "%dl + 0" % n, "1 << %d" % (n.bit_length() - 1), "sizeof(char[%d])" % n):
            yield Case("_Alignas %s" % e, "_Alignas(%s) static char al@[3]; struct al@ { char c; _Alignas(%s) char d; }; void t@(void) { obs_u((unsigned long) al@ %% %d); obs_u(sizeof(struct al@)); obs_u(_Alignof(struct al@)); }" % (e, e, n))
    # sizeof, alignof, generic, enumerators, casts of float, logical short circuits in constants
    extra = ["sizeof(int)", "sizeof(struct { char a; long b; })", "_Alignof(double)", "_Generic(1l, int: 3, long: 4)", "_Generic('a', int: 3, char: 4)", "(int) 3.99", "(int) -3.99 + 5", "(unsigned char) 200.5",
             "1 || 1 / 0", "0 && 1 / 0", "1 ? 5 : 1 / 0", "0 ? 1 / 0 : 6", "(3.5 > 2) + 1", "!0.0 + 1", "!1.5 + 1", "(2.5 + 2.5 == 5) * 9", "sizeof(\"abc\")", "sizeof((char) 1)", "sizeof(1 ? 1 : 1l)", "'a' - 'b' + 5", "(1.5 ? 7 : 8)",
             "(long) 1e10 / 1000000000", "sizeof(long double) + _Alignof(long double)", "(0.5 && 1) + 1", "(0.0 || 0) + 1", "-(-3)", "~-4", "!!7", "(char) 257", "(short) 65539", "(_Bool) 77", "(_Bool) 0.5"]
    for e in extra:
        yield Case("misc %s" % e, "static long d@ = %s; enum e@ { A@ = %s }; static char c@[%s]; void t@(void) { obs_i(d@); obs_i(A@); obs_u(sizeof c@); switch (5) { case %s: obs_i(1); break; default: obs_i(2); } }" % (e, e, e, e))


FV = {"float": ["0.0f", "1.0f", "-2.5f", "0.1f", "3e10f", "1e-10f", "16777217.0f"], "double": ["0.0", "1.0", "-2.5", "0.1", "1e300", "1e-300", "9007199254740993.0"],
      "long double": ["0.0L", "1.0L", "-2.5L", "0.1L", "1e300L", "18446744073709551615.0L"], "int": ["0", "1", "-7", "2147483647"], "unsigned long": ["1ul", "18446744073709551615ul", "9223372036854775809ul"], "unsigned int": ["5u", "4294967295u"], "long": ["3l", "-9223372036854775807l"]}


def floats():
    F = ("float", "double", "long double")
    for a in FV:
        for b in FV:
            if a not in F and b not in F:
                continue
            for op in ("+", "-", "*", "/"):
                for t in F:
                    ex = ["%s %s %s" % (x, op, y) for x in FV[a] for y in FV[b] if not (op == "/" and float(y.rstrip("fLul")) == 0)]
                    yield Case("%s %s %s as %s" % (a, op, b, t), "static %s d@[] = { %s }; void t@(void) { int i; for (i = 0; i < (int) (sizeof(d@) / sizeof(*d@)); i++) %s(d@[i]); }" % (
                        t, ", ".join(ex), {"float": "obs_f", "double": "obs_d", "long double": "obs_ld"}[t]))
            for op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                yield arr("%s %s %s" % (a, op, b), ["%s %s %s" % (x, op, y) for x in FV[a] for y in FV[b]], "int")
    for a in FV:
        for t in F:
            for u in F:
                yield Case("(%s)(%s)%s" % (t, u, a), "static %s d@[] = { %s }; void t@(void) { int i; for (i = 0; i < (int) (sizeof(d@) / sizeof(*d@)); i++) %s(d@[i]); }" % (
                    t, ", ".join(x2 for x in FV[a] for x2 in ("(%s) %s" % (u, x), "-(%s) %s" % (u, x))), {"float": "obs_f", "double": "obs_d", "long double": "obs_ld"}[t]))
    for t in T:
        yield arr("floating to %s" % t, ["(%s) %s" % (t, x) for x in ("0.0", "1.5", "100.99", "0.5f", "127.0L")] + (["(%s) -1.5" % t, "(%s) -100.0f" % t] if csem.SIGNED[t] else []), "long")
        yield arr("implicit floating to %s" % t, ["0.0", "1.5", "100.99", "127.0L"] + (["-1.5", "-100.0f"] if csem.SIGNED[t] else []), t)
    for t in ("unsigned long", "unsigned long long"):
        yield arr("huge floating to %s" % t, ["(%s) 9223372036854775808.0" % t, "(%s) 1.8e19" % t, "(%s) 1.5e19L" % t], "unsigned long")


def run(chk):
    parts = [("unary", unary()), ("binary", binary()), ("conditional", cond()), ("contexts", contexts()), ("floating", floats())]
    if chk.quick:
        parts.append(("depth2", depth2(["int", "unsigned int", "long", "unsigned char"], ["+", "-", "*", "/", "%", "<<", ">>", "<", "==", "|"])))
    else:
        parts.append(("depth2", depth2(["int", "unsigned int", "long", "unsigned long", "unsigned char", "short"], BIN)))
    for n, g in parts:
        diff.explore(chk, n, g, per_batch=40)
    chk.assumptions += ["expressions with undefined behaviour are excluded by an independent executable model of C17 integer arithmetic (mc/csem.py)", "gcc is the reference for the remaining values"]
    return chk.finish()

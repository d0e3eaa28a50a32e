"""C09: variadic calls and va_list interoperate with the platform."""
TECHNIQUE = 'exhaustive exploration of register-save-area states x variadic argument types x va_list operation scripts, replayed in both call directions against gcc-compiled code in one process'
NOTE = 'The state is (named general registers, named vector registers, consumed variadic registers of each class); every type is fetched from every state. va_list objects are copied, passed on, and consumed by code of the other compiler.'
import itertools
from mc import core, diff
from mc.diff import Case
from checks.c08 import T, AGG, lit, see, observe, fill, zero

VT = [t for t in T if t not in ("_Bool", "signed char", "unsigned char", "short", "unsigned short", "float", "enum")]
DEFS = "typedef __builtin_va_list VA@; "


class Gen:
    def __init__(self):
        self.n = 0

    def case(self, key, named, var, split=None, how="direct"):
        """how: how the callee consumes: direct | pass (another function of the same side) | cross (a function of the other side)
        | copy (two cursors) | twice (va_start again)"""
        self.n += 1
        c = "v%d" % self.n
        used = []
        for t in list(named) + list(var):
            if t not in used:
                used.append(t)
        ty = lambda t: "Y%d@" % used.index(t)
        defs = DEFS + " ".join(T[t][0].replace("N", "Y%d@" % i) + ";" for i, t in enumerate(used))
        params = ", ".join("%s a%d" % (ty(t), i) for i, t in enumerate(named))
        sig = lambda n: "long %s(%s, ...)" % (n, params)
        last = "a%d" % (len(named) - 1)
        fetch = lambda seq, ap, b: " ".join("{ %s v = __builtin_va_arg(%s, %s); %s }" % (ty(t), ap, ty(t), observe(t, "v")) for t in seq)
        k = len(var) // 2 if split is None else split
        obsn = " ".join(observe(t, "a%d" % i) for i, t in enumerate(named))

        def body(other, own):
            if how == "direct":
                return "VA@ ap; __builtin_va_start(ap, %s); %s __builtin_va_end(ap);" % (last, fetch(var, "ap", 0))
            if how == "twice":
                return "VA@ ap; __builtin_va_start(ap, %s); %s __builtin_va_end(ap); __builtin_va_start(ap, %s); %s __builtin_va_end(ap);" % (last, fetch(var[:k], "ap", 0), last, fetch(var, "ap", 0))
            if how == "copy":
                return "VA@ ap, aq; __builtin_va_start(ap, %s); %s __builtin_va_copy(aq, ap); %s %s __builtin_va_end(aq); __builtin_va_end(ap);" % (last, fetch(var[:k], "ap", 0), fetch(var[k:], "aq", 0), fetch(var[k:], "ap", 0))
            f = own if how == "pass" else other
            return "VA@ ap, aq; __builtin_va_start(ap, %s); %s __builtin_va_copy(aq, ap); %s(ap); %s __builtin_va_end(aq); __builtin_va_end(ap);" % (last, fetch(var[:k], "ap", 0), f, fetch(var[k:], "aq", 0))
        tail = lambda n: "void %s(VA@ ap) { %s }" % (n, fetch(var[k:], "ap", 0))
        callee = lambda n, other, own, g: "%s { %s %s %s return 40 + %d; }" % (sig(n), "abi_state(__builtin_frame_address(0));" if g else "", obsn, body(other, own), len(var))
        setup = " ".join("%s x%d; %s%s" % (ty(t), i, zero(t, "x%d" % i), fill(t, "x%d" % i, i + 3)) for i, t in enumerate(list(named) + list(var)))
        use = lambda f: "obs_i(%s(%s));" % (f, ", ".join("x%d" % i for i in range(len(named) + len(var))))
        tk = "%s extern %s; extern void %s_tg(VA@); %s %s extern void %s_gc(void); void t@(void) { %s sp_probe(1); %s sp_probe(1); %s sp_probe(1); %s_gc(); { %s = %s_g; %s } }" % (
            defs, sig(c + "_g"), c, tail(c + "_tk"), callee(c + "_k", c + "_tg", c + "_tk", 0), c, setup, use(c + "_k"), use(c + "_g"), c, sig("(*fp)"), c, use("fp"))
        tg = "%s extern %s; extern void %s_tk(VA@); %s %s static %s static void mid@(%s) { %s %s } void %s_gc(void) { mid@(%s_k); } void t@(void) { %s sp_probe(1); %s sp_probe(1); %s sp_probe(1); mid@(%s_h); %s }" % (
            defs, sig(c + "_k"), c, tail(c + "_tg"), callee(c + "_g", c + "_tk", c + "_tg", 1), callee(c + "_h", c + "_tg", c + "_tg", 0), sig("(*fun)"), setup, use("fun"), c, c,
            setup, use(c + "_h"), use(c + "_g"), c, use(c + "_g"))
        return Case(key, tk, tg)


PROMO = [("char", "signed char", "(signed char) -5", "int"), ("uchar", "unsigned char", "(unsigned char) 250", "int"), ("short", "short", "(short) -300", "int"), ("ushort", "unsigned short", "(unsigned short) 65000", "int"), ("_Bool", "_Bool", "(_Bool) 1", "int"),
         ("float", "float", "1.5f", "double"), ("int", "int", "-7", "int"), ("bit-field", None, "s.b", "int"), ("array", None, "arr", "char *"), ("function", None, "id_i", "void *"), ("string", None, "\"abc\"", "char *"), ("null", None, "(void *) 0", "void *"), ("lvalue char", "char", "(s.c, s.c)", "int"), ("conditional", None, "(1 ? s.c : s.d)", "int")]


def promotions():
    """default argument promotions at a variadic and at an unprototyped call"""
    n = 0
    for (ka, ta, va, pa), (kb, tb, vb, pb) in itertools.product(PROMO, repeat=2):
        n += 1
        d = "struct p%d@ { unsigned b : 5; signed char c; short d; }; " % n
        l = "struct p%d@ s = {21, -4, -9}; char arr[4] = \"xyz\"; " % n
        rec = "long q%d(int n, ...);" % n
        text = d + rec + "void t@(void) { %s obs_i(q%d(2, %s, %s)); obs_i(q%d(2, %s, 3.5, %s)); }" % (l, n, va, vb, n, va, vb)
        fx = lambda p: {"int": "obs_i(__builtin_va_arg(ap, int));", "double": "obs_d(__builtin_va_arg(ap, double));"}.get(p, "{ char *z = __builtin_va_arg(ap, char *); obs_i(z != 0); if (%d) obs_i(z[1]); }" % (1 if p == "char *" else 0))
        ref = "long q%d(int n, ...) { static int calls; __builtin_va_list ap; __builtin_va_start(ap, n); %s if (calls++ %% 2) obs_d(__builtin_va_arg(ap, double)); %s __builtin_va_end(ap); return 9; } " % (n, fx(pa), fx(pb)) + d + "void t@(void) { %s obs_i(q%d(2, %s, %s)); obs_i(q%d(2, %s, 3.5, %s)); }" % (l, n, va, vb, n, va, vb)
        yield Case("promotions: f(2, %s, %s)" % (ka, kb), text, ref)


def run(chk):
    q = chk.quick
    g = Gen()
    P = diff.PRELUDE + "extern int abi_state(void *);\n"

    def states(types, ints, dbls, hows):
        for how in hows:
            for i in ints:
                for d in dbls:
                    if i + d == 0:
                        continue
                    for t in types:
                        yield g.case("named %d long %d double, variadic %s, int, double (%s)" % (i, d, t, how), ["long"] * i + ["double"] * d, [t, "int", "double"], None, how)

    def consumed(types, ints, dbls, hows):
        for how in hows:
            for i in ints:
                for d in dbls:
                    for t in types:
                        yield g.case("variadic %d long %d double %s, long, double (%s)" % (i, d, t, how), ["int"], ["long"] * i + ["double"] * d + [t, "long", "double"], i + d, how)

    def last(types):
        for t in types:
            for v in ("int", "double", "struct{long,double}", "struct{char[17]}"):
                yield g.case("last named %s, variadic %s, int" % (t, v), ["int", t], [v, "int"], 1, "pass")

    def seqs(types, n, how):
        for s in itertools.product(types, repeat=n):
            yield g.case("variadic %s (%s)" % (", ".join(s), how), ["int"], list(s), None, how)

    few = ["int", "unsigned", "long", "double", "long double", "char *", "struct{char}", "struct{long,double}", "struct{double,long}", "struct{float,float}", "struct{double,double}", "struct{long,long}", "struct{char[17]}", "struct{long double}", "union{double,long}"]
    HOW = ("direct", "pass", "cross", "copy", "twice")
    diff.explore(chk, "promotions", promotions(), 30, prelude=P)
    diff.explore(chk, "last named", last([t for t in T if t not in ("_Bool", "signed char", "unsigned char", "short", "unsigned short", "float", "enum")]), 12, prelude=P)
    if q:
        diff.explore(chk, "named registers", states(few, (0, 1, 4, 5, 6, 7), (0, 1, 7, 8, 9), ("cross",)), 12, prelude=P)
        diff.explore(chk, "consumed registers", consumed(VT, (0, 3, 4, 5), (0, 6, 7, 8), ("direct",)), 12, prelude=P)
        diff.explore(chk, "consumed registers, passed on", consumed(few, (0, 4, 5), (0, 7, 8), ("cross", "copy", "twice", "pass")), 12, prelude=P)
        diff.explore(chk, "sequences", seqs(few, 2, "cross"), 12, prelude=P)
    else:
        diff.explore(chk, "named registers", states(VT, range(8), range(10), ("cross",)), 12, prelude=P)
        diff.explore(chk, "consumed registers", consumed(VT, range(8), range(10), ("copy",)), 12, prelude=P)
        diff.explore(chk, "consumed registers, passed on", consumed(few, range(7), range(10), HOW), 12, prelude=P)
        for h in HOW:
            diff.explore(chk, "sequences (%s)" % h, seqs(few, 3 if h in ("cross", "copy") else 2, h), 12, prelude=P)
    chk.assumptions += ["gcc implements the platform's variadic convention"]
    return chk.finish()

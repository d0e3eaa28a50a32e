"""C08: calls interoperate with the platform's C compiler in both directions."""
TECHNIQUE = 'exhaustive exploration of the argument-register allocation states x argument/result types, replayed in both call directions against gcc-compiled code in one process'
NOTE = 'The state is (general registers used 0..7, vector registers used 0..9, hidden result pointer or not); every argument and result type is passed from every state, kefir calling gcc, gcc calling kefir and kefir calling kefir. Callee-saved registers, stack pointer and alignment, direction flag, x87 stack and control words are checked around every call.'
import itertools
from mc import core, diff
from mc.diff import Case

# name -> (declaration of a typedef named N, list of leaves (accessor, kind))
T = {}


def S(name, decl, leaves):
    T[name] = (decl, leaves)


for t, k in (("_Bool", "b"), ("signed char", "i"), ("unsigned char", "i"), ("short", "i"), ("unsigned short", "i"), ("int", "i"), ("unsigned", "i"), ("long", "i"), ("unsigned long", "i"), ("float", "f"), ("double", "d"), ("long double", "l"), ("char *", "p")):
    S(t, "typedef %s N" % t, [("", k)])
S("enum", "typedef enum { EA@, EB@ } N", [("", "e")])
S("fptr", "typedef int (*N)(int)", [("", "p")])
for n, d, l in (
        ("{char}", "char a", ".a:i"), ("{short}", "short a", ".a:i"), ("{int}", "int a", ".a:i"), ("{long}", "long a", ".a:i"), ("{float}", "float a", ".a:f"), ("{double}", "double a", ".a:d"), ("{long double}", "long double a", ".a:l"), ("{ptr}", "char *a", ".a:p"),
        ("{char[3]}", "char a[3]", ".a[0]:i .a[1]:i .a[2]:i"), ("{char[5]}", "char a[5]", ".a[0]:i .a[1]:i .a[4]:i"), ("{char[16]}", "char a[16]", ".a[0]:i .a[7]:i .a[8]:i .a[15]:i"), ("{char[17]}", "char a[17]", ".a[0]:i .a[8]:i .a[16]:i"),
        ("{int,int}", "int a, b", ".a:i .b:i"), ("{int,long}", "int a; long b", ".a:i .b:i"), ("{long,int}", "long a; int b", ".a:i .b:i"), ("{long,char}", "long a; char b", ".a:i .b:i"), ("{long,long}", "long a, b", ".a:i .b:i"), ("{long,long,long}", "long a, b, c", ".a:i .b:i .c:i"),
        ("{int[3]}", "int a[3]", ".a[0]:i .a[1]:i .a[2]:i"), ("{short[3],char}", "short a[3]; char b", ".a[0]:i .a[2]:i .b:i"),
        ("{float,float}", "float a, b", ".a:f .b:f"), ("{float[3]}", "float a[3]", ".a[0]:f .a[1]:f .a[2]:f"), ("{float[4]}", "float a[4]", ".a[0]:f .a[3]:f"), ("{float[5]}", "float a[5]", ".a[0]:f .a[4]:f"), ("{double,double}", "double a, b", ".a:d .b:d"), ("{double,double,double}", "double a, b, c", ".a:d .b:d .c:d"), ("{float,double}", "float a; double b", ".a:f .b:d"), ("{double,float}", "double a; float b", ".a:d .b:f"),
        ("{float,int}", "float a; int b", ".a:f .b:i"), ("{int,float}", "int a; float b", ".a:i .b:f"), ("{double,long}", "double a; long b", ".a:d .b:i"), ("{long,double}", "long a; double b", ".a:i .b:d"), ("{double,char}", "double a; char b", ".a:d .b:i"), ("{char,double}", "char a; double b", ".a:i .b:d"), ("{float,float,int}", "float a, b; int c", ".a:f .b:f .c:i"), ("{int,float,float}", "int a; float b, c", ".a:i .b:f .c:f"), ("{float,int,double}", "float a; int b; double c", ".a:f .b:i .c:d"), ("{char,float,short,int}", "char a; float b; short c; int d", ".a:i .b:f .c:i .d:i"),
        ("{long double,int}", "long double a; int b", ".a:l .b:i"), ("{long double,long double}", "long double a, b", ".a:l .b:l"), ("{int,long double}", "int a; long double b", ".a:i .b:l"),
        ("{{float},float}", "struct { float a; } s; float b", ".s.a:f .b:f"), ("{{char,short},{float,double}}", "struct { char a; short b; } s; struct { float a; double b; } t", ".s.a:i .s.b:i .t.a:f .t.b:d"), ("{{char,int},double}", "struct { char a; int b; } s; double c", ".s.a:i .s.b:i .c:d"), ("{{float}[2],long}", "struct { float a; } s[2]; long b", ".s[0].a:f .s[1].a:f .b:i"), ("{{double},{long}}", "struct { double a; } s; struct { long b; } t", ".s.a:d .t.b:i"),
        ("{union{int,float},double}", "union { int i; float f; } u; double b", ".u.i:i .b:d"), ("{union{float,float},float}", "union { float i; float f; } u; float b", ".u.i:f .b:f"), ("{int:3,int:7}", "int a : 3, b : 7", ".a:t .b:t"), ("{int:20,unsigned long:40,int}", "int a : 20; unsigned long b : 40; int c", ".a:i .b:i .c:i")):
    S("struct" + n, "typedef struct { %s; } N" % d, [tuple(x.split(":")) for x in l.split()])
for n, d, l in (("{int,char}", "int a; char b", ".a:i"), ("{int,float}", "int a; float b", ".a:i"), ("{float,double}", "float a; double b", ".b:d"), ("{double,long}", "double a; long b", ".b:i"), ("{char[9],double}", "char a[9]; double b", ".a[0]:i .a[8]:i"), ("{double[2],long}", "double a[2]; long b", ".a[0]:d .a[1]:d"), ("{double,long[2]}", "double a; long b[2]", ".b[0]:i .b[1]:i"),
                ("{struct{float,float},double}", "struct { float p, q; } a; double b", ".a.p:f .a.q:f"), ("{struct{double,int},struct{int,double}}", "struct { double p; int q; } a; struct { int p; double q; } b", ".b.p:i .b.q:d"), ("{char[17],long}", "char a[17]; long b", ".a[0]:i .a[16]:i"), ("{long double,int}", "long double a; int b", ".a:l"), ("{long double,long[3]}", "long double a; long b[3]", ".b[0]:i .b[2]:i")):
    S("union" + n, "typedef union { %s; } N" % d, [tuple(x.split(":")) for x in l.split()])
SCALAR = [t for t in T if T[t][1][0][0] == ""]
AGG = [t for t in T if T[t][1][0][0] != ""]


def lit(kind, seed):
    if kind == "b":
        return str(seed & 1)
    if kind == "e":
        return "(N)%d" % (seed & 1) if False else str(seed & 1)
    if kind == "i":
        return "-%d" % (seed * 37 % 119 + 3) if seed % 3 == 1 else str(seed * 41 % 113 + 2)
    if kind == "t":
        return str(seed % 3)
    if kind in "fd":
        return "%d.25%s" % (seed * 7 % 97 - 30, "f" if kind == "f" else "")
    if kind == "l":
        return "%d.125L" % (seed * 11 % 89 - 40)
    return "(void *) %dL" % (seed * 4099 + 65537)


def see(kind, e):
    return {"f": "obs_f(%s);", "d": "obs_d(%s);", "l": "obs_ld(%s);", "p": "obs_p((const void *) (%s));"}.get(kind, "obs_i(%s);") % e


def observe(t, e):
    return " ".join(see(k, e + a) for a, k in T[t][1])


def fill(t, var, seed):
    """statements giving var a value"""
    return " ".join("%s%s = %s;" % (var, a, lit(k, seed * 5 + i)) for i, (a, k) in enumerate(T[t][1]))


def zero(t, var):
    return "" if T[t][1][0][0] == "" else "{ unsigned long z; for (z = 0; z < sizeof %s; z++) ((char *) &%s)[z] = 0; } " % (var, var)


class Gen:
    def __init__(self):
        self.n = 0

    def case(self, key, args, ret):
        """all call directions of one signature"""
        self.n += 1
        c = "c%d" % self.n
        used = []
        for t in list(args) + [ret]:
            if t != "void" and t not in used:
                used.append(t)
        ty = lambda t: "void" if t == "void" else "Y%d@" % used.index(t)
        defs = " ".join(T[t][0].replace("N", "Y%d@" % i).replace("EA@", "EA%d@" % i).replace("EB@", "EB%d@" % i) + ";" for i, t in enumerate(used))
        params = ", ".join("%s a%d" % (ty(t), i) for i, t in enumerate(args)) or "void"
        sig = lambda n: "%s %s(%s)" % (ty(ret), n, params)
        body = " ".join(observe(t, "a%d" % i) for i, t in enumerate(args))
        # parameters are objects of the callee
        mod = " ".join("a%d%s = %s; %s" % (i, T[t][1][0][0], lit(T[t][1][0][1], 90 + i), see(T[t][1][0][1], "a%d%s" % (i, T[t][1][0][0]))) for i, t in enumerate(args[-2:], max(0, len(args) - 2)))
        res = "" if ret == "void" else "%s r; %s%s return r;" % (ty(ret), zero(ret, "r"), fill(ret, "r", 77))
        callee = lambda n, g: "%s { %s %s %s %s }" % (sig(n), "abi_state(__builtin_frame_address(0));" if g else "", body, mod, res)
        setup = " ".join("%s x%d; %s%s" % (ty(t), i, zero(t, "x%d" % i), fill(t, "x%d" % i, i + 3)) for i, t in enumerate(args))
        call = "%%s(%s)" % ", ".join("x%d" % i for i in range(len(args)))
        use = lambda f: "{ %s %s; obs_i(1); %s %s }" % ("" if ret == "void" else "%s r =" % ty(ret), call % f, "" if ret == "void" else observe(ret, "r"), " ".join(observe(t, "x%d" % i) for i, t in enumerate(args[-1:], max(0, len(args) - 1))))
        ptr = "{ %s = %%s; sp_probe(1); %s; sp_probe(1); %s%s; sp_probe(1); }" % (sig("(*f)"), call % "f", "" if ret == "void" else "obs_i(sizeof(%s)); " % (call % "f"), call % "(*f)")
        direct = ""
        if ret != "void" and T[ret][1][0][0]:
            a, k = T[ret][1][-1]
            if "[" not in a:
                direct = see(k, call % "%s" + a)
        tk = "%s extern %s; %s extern void %s_gc(void); void t@(void) { %s obs_i(10); %s obs_i(11); %s %s %s %s obs_i(12); %s_gc(); }" % (
            defs, sig(c + "_g"), callee(c + "_k", 0), c, setup, use(c + "_k"), use(c + "_g"), ptr % (c + "_g"), ptr % (c + "_k"), (direct % (c + "_g")) if direct else "", c)
        # reference: the same sequence entirely in gcc. In the kefir run, kefir->kefir calls have no frame probe, so the reference's twin of c_k has none either
        tg = "%s %s %s extern %s; static void mid@(%s (*fun)(%s)) { %s %s } void %s_gc(void) { mid@(%s_k); } void t@(void) { %s obs_i(10); %s obs_i(11); %s %s %s %s obs_i(12); mid@(%s_h); }" % (
            defs, callee(c + "_g", 1), "static " + callee(c + "_h", 0), sig(c + "_k"), ty(ret), params, setup, use("fun"), c, c,
            setup, use(c + "_h"), use(c + "_g"), ptr % (c + "_g"), ptr % (c + "_h"), (direct % (c + "_g")) if direct else "", c)
        return Case(key, tk, tg)


def run(chk):
    q = chk.quick
    g = Gen()
    A = list(T)

    def results():
        for r in A + ["void"]:
            yield g.case("%s f(void)" % r, [], r)
            yield g.case("%s f(int)" % r, ["int"], r)
            yield g.case("%s f(double, long)" % r, ["double", "long"], r)
            yield g.case("%s f(%s)" % (r, r), [r if r != "void" else "int"], r)

    def states(types, ints, dbls, rets):
        for ret in rets:
            for i in ints:
                for d in dbls:
                    for t in types:
                        yield g.case("%s f(%d x long, %d x double, %s, int, double)" % (ret, i, d, t), ["long"] * i + ["double"] * d + [t, "int", "double"], ret)

    def pairs(types):
        for a, b in itertools.product(types, repeat=2):
            yield g.case("void f(%s, %s)" % (a, b), [a, b], "void")

    def triples(types, rets):
        for r in rets:
            for seq in itertools.product(types, repeat=3):
                yield g.case("%s f(%s)" % (r, ", ".join(seq)), list(seq), r)

    P = diff.PRELUDE + "extern int abi_state(void *);\n"
    few = ["int", "double", "long double", "struct{char[3]}", "struct{long,double}", "struct{float,float}", "struct{long,long,long}", "union{double,long}"]
    diff.explore(chk, "results", results(), 12, prelude=P)
    if q:
        diff.explore(chk, "allocation states", states(A, (0, 4, 5, 6, 7), (0, 6, 7, 8, 9), ("void",)), 12, prelude=P)
        diff.explore(chk, "allocation states, result in memory", states(["int", "double", "struct{long,long}", "struct{long,double}", "struct{double,double}", "struct{char[17]}", "long double"], (4, 5, 6), (7, 8), ("struct{long,long,long}",)), 12, prelude=P)
        diff.explore(chk, "pairs", pairs(few + ["struct{int}", "float"]), 12, prelude=P)
    else:
        diff.explore(chk, "allocation states", states(A, range(8), range(10), ("void",)), 12, prelude=P)
        diff.explore(chk, "allocation states, result in memory", states(A, (0, 3, 4, 5, 6, 7), (0, 7, 8, 9), ("struct{long,long,long}", "struct{long double,int}")), 12, prelude=P)
        diff.explore(chk, "pairs", pairs(A), 12, prelude=P)
        diff.explore(chk, "triples", triples(few, ("void", "struct{char[17]}", "struct{long,double}")), 12, prelude=P)
    chk.assumptions += ["gcc implements the platform calling convention", "up to 17 arguments"]
    return chk.finish()

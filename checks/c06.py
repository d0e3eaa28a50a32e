"""C06: sizes, alignments and member layout agree with the platform ABI."""
TECHNIQUE = 'exhaustive enumeration of type shapes up to a bound, replayed on compiled code against the platform compiler as reference'
NOTE = 'Every sequence of member shapes within the bound is declared and its sizeof/_Alignof/offsets/byte images compared with gcc. Trusts gcc as the definition of the platform ABI.'
import itertools
from mc import core, diff
from mc.diff import Case

# member shape: declaration with N as the member's name
BASE = {"char": "char N", "short": "short N", "int": "int N", "long": "long N", "float": "float N", "double": "double N", "long double": "long double N", "pointer": "char *N", "_Bool": "_Bool N",
        "char[3]": "char N[3]", "short[3]": "short N[3]", "int[2]": "int N[2]", "struct{char,int}": "struct { char p; int q; } N", "union{double,char[9]}": "union { double p; char q[9]; } N",
        "struct{long double,char}": "struct { long double p; char q; } N", "enum": "enum e@ N", "fptr": "int (*N)(int)", "struct{char}[3]": "struct { char p; } N[3]"}
SMALL = ["char", "short", "int", "double", "long double", "char[3]", "struct{char,int}", "union{double,char[9]}"]
PRE = "enum e@ { E@a, E@b }; "


def observe(tag, names, kind="struct"):
    t = "%s s@" % kind
    o = "obs_u(sizeof(%s)); obs_u(_Alignof(%s)); obs_u(sizeof(%s [3])); static %s a[2]; obs_u((char *) &a[1] - (char *) a); " % (t, t, t, t)
    o += "%s *p = a, *z = 0; obs_u((unsigned long) p %% _Alignof(%s)); %s l; obs_u((unsigned long) &l %% (_Alignof(%s) > 16 ? 16 : _Alignof(%s))); obs_u(sizeof l); " % (t, t, t, t, t)
    for n in names:
        o += "obs_u((char *) &p->%s - (char *) p); obs_u(sizeof(p->%s)); obs_u((unsigned long) &z->%s); static unsigned long q_%s = (unsigned long) &((%s *) 0)->%s; obs_u(q_%s); " % (n, n, n, n.replace(".", "_").replace("[", "_").replace("]", "_"), t, n, n.replace(".", "_").replace("[", "_").replace("]", "_"))
    return o


def rec(kind, decls, names, key, pre=PRE, extra=""):
    return Case("%s { %s }" % (kind, key), "%s %s s@ { %s }; void t@(void) { %s %s }" % (pre, kind, " ".join(d + ";" for d in decls), observe("s@", names, kind), extra))


def sequences(shapes, n, kinds=("struct",)):
    for kind in kinds:
        for seq in itertools.product(shapes, repeat=n):
            decls = [BASE[s].replace("N", "m%d" % i) for i, s in enumerate(seq)]
            yield rec(kind, decls, ["m%d" % i for i in range(n)], ", ".join(seq))


def nested(shapes):
    """a record inside a record, named, anonymous, or in an array, struct or union at both levels"""
    for ok, ik in itertools.product(("struct", "union"), repeat=2):
        for a, b, c, d in itertools.product(shapes, repeat=4):
            da, db, dc, dd = (BASE[x].replace("N", n) for x, n in zip((a, b, c, d), ("a", "b", "c", "d")))
            yield rec(ok, [da, "%s { %s; %s; }" % (ik, db, dc), dd], ["a", "b", "c", "d"], "%s, anonymous %s {%s, %s}, %s" % (a, ik, b, c, d))
        for a, b, c in itertools.product(shapes, repeat=3):
            da, db, dc = (BASE[x].replace("N", n) for x, n in zip((a, b, c), ("a", "b", "c")))
            yield rec(ok, [da, "%s { %s; %s; } i" % (ik, db, dc)], ["a", "i", "i.b", "i.c"], "%s, %s {%s, %s}" % (a, ik, b, c))
            yield rec(ok, [da, "%s { %s; %s; } i[2][3]" % (ik, db, dc)], ["a", "i", "i[1]", "i[1][2]", "i[1][2].b", "i[0][1].c"], "%s, %s {%s, %s}[2][3]" % (a, ik, b, c))


def flexible(shapes):
    for a, f in itertools.product(shapes, repeat=2):
        yield Case("flexible %s, %s[]" % (a, f), "%s typedef %s; struct s@ { %s; F@ f[]; }; void t@(void) { struct s@ *p = 0; obs_u(sizeof(struct s@)); obs_u(_Alignof(struct s@)); obs_u((unsigned long) p->f); obs_u((unsigned long) &p->f[2]); obs_u((unsigned long) &p->a); }" % (
            PRE, BASE[f].replace("N", "F@"), BASE[a].replace("N", "a")))


ALIGN = {"char": 1, "short": 2, "int": 4, "long": 8, "double": 8, "long double": 16, "char[3]": 1, "struct{char,int}": 4}


def alignas(als):
    for kind in ("struct", "union"):
        for a, b in itertools.product(ALIGN, repeat=2):
            for al in als:
                for pos in (0, 1):
                    if ALIGN[(a, b)[pos]] > al:
                        continue
                    d = [BASE[x].replace("N", "m%d" % i) for i, x in enumerate((a, b))]
                    d[pos] = "_Alignas(%d) " % al + d[pos]
                    yield rec(kind, d, ["m0", "m1"], "%s, %s; _Alignas(%d) on %d" % (a, b, al, pos))
    for a, b in itertools.product(ALIGN, repeat=2):
        if ALIGN[b] >= ALIGN[a]:
            yield rec("struct", ["char c", "_Alignas(%s) %s" % (BASE[b].replace("N", "") if b != "char[3]" else "char [3]", BASE[a].replace("N", "m")), "char d"], ["c", "m", "d"], "_Alignas(%s) %s" % (b, a))
    for x, y in itertools.product((0, 1, 2, 8, 16, 32, 128, 256, 4096), repeat=2):
        yield rec("struct", ["char c", "_Alignas(%d) _Alignas(%d) char m" % (x, y), "char d"], ["c", "m", "d"], "_Alignas(%d) _Alignas(%d) char" % (x, y))
        yield rec("struct", ["char c", "struct { _Alignas(%d) char x; _Alignas(%d) char y; } m" % (x, y), "char d"], ["c", "m", "m.x", "m.y", "d"], "struct { _Alignas(%d) char; _Alignas(%d) char }" % (x, y))
        yield rec("struct", ["char c", "struct { _Alignas(%d) char x; _Alignas(%d) char y; }" % (x, y), "char d"], ["c", "x", "y", "d"], "anonymous struct { _Alignas(%d) char; _Alignas(%d) char }" % (x, y))


BITS = {"int:1": "int N : 1", "int:7": "int N : 7", "int:8": "int N : 8", "unsigned:31": "unsigned N : 31", "unsigned:32": "unsigned N : 32", "unsigned:17": "unsigned N : 17", "char:5": "unsigned char N : 5",
        "short:9": "short N : 9", "long:33": "long N : 33", "ulong:63": "unsigned long N : 63", "_Bool:1": "_Bool N : 1", "int:0": "int : 0", "unnamed int:5": "int : 5", "char:0": "char : 0", "long:0": "long : 0", "unnamed long:40": "long : 40",
        "char": "char N", "int": "int N", "long": "long N", "short": "short N", "char[3]": "char N[3]"}


def bit_records(kind, n):
    for seq in itertools.product(BITS, repeat=n):
        if not any(":" in s for s in seq) or all("unnamed" in s or s.endswith(":0") for s in seq):
            continue
        decls, names, w = [], [], ""
        for i, s in enumerate(seq):
            decls.append(BITS[s].replace("N", "m%d" % i))
            if "N" not in BITS[s]:
                continue
            tgt = "m%d" % i
            val = "-1" if "[" not in s else None
            if val is None:
                w += "CLR; x.%s[0] = x.%s[1] = x.%s[2] = -1; obs_b(&x, sizeof x); " % (tgt, tgt, tgt)
            else:
                w += "CLR; x.%s = %s; obs_b(&x, sizeof x); " % (tgt, "1" if s == "_Bool:1" else val)
        w = w.replace("CLR", "for (i = 0; i < sizeof x; i++) ((unsigned char *) &x)[i] = 0")
        yield Case("%s { %s }" % (kind, ", ".join(seq)), "%s s@ { %s }; void t@(void) { %s s@ x; unsigned long i; obs_u(sizeof x); obs_u(_Alignof(%s s@)); %s }" % (kind, " ".join(d + ";" for d in decls), kind, kind, w))


def scalars():
    ts = ["_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double", "void *", "char *", "int (*)(void)", "int (*)[3]", "enum e@"]
    dims = ["", "[1]", "[3]", "[2][5]", "[1][2][3]"]
    for t in ts:
        for d in dims:
            if d and "(" in t:
                continue
            n = t + d
            yield Case("sizeof(%s)" % n.replace("@", ""), PRE + "void t@(void) { obs_u(sizeof(%s)); obs_u(_Alignof(%s)); obs_u(sizeof(const %s)); static char q[sizeof(%s) + 1]; obs_u(sizeof q); _Static_assert(sizeof(%s) %% _Alignof(%s) == 0, \"\"); }" % ((n,) * 6))
    yield Case("type of sizeof", "void t@(void) { obs_u(sizeof(sizeof(int))); obs_i(sizeof(int) - 5 > 0); }")
    yield Case("type of _Alignof", "void t@(void) { obs_u(sizeof(_Alignof(int))); obs_i(_Alignof(int) - 5 > 0); }")
    for e in ("(char) 1", "(short) 1", "1", "1u", "1l", "1.0f", "1.0", "1.0L", "'a'", "L'a'", "u'a'", "U'a'", "\"abc\"", "L\"abc\"", "u\"abc\"", "U\"abc\"", "(char) 1 + (char) 1", "1 ? (short) 1 : (char) 1", "(float) 1 + 1", "1 == 1.0", "&a", "*a", "a", "a[0]", "&a[1]", "a + 1", "(char *) 0 - (char *) 0", "(char) 1, (short) 2", "f@", "f@(1)", "&f@", "!1.0L", "-(char) 1", "~(unsigned short) 1", "b = 3", "b++", "s.c", "s.b", "&s", "s", "(struct q@) {1, 2}", "(int[]) {1, 2, 3}", "(char[7]) {0}"):
        yield Case("sizeof expression %s" % e.replace("@", ""), "struct q@ { char c; short b; }; static double f@(int x) { obs_i(99); return x; } void t@(void) { int a[7]; short b = 1; struct q@ s = {0}; obs_u(sizeof(%s)); obs_i(b); }" % (
            e if e != "f@" else "(f@)(1)"))


def objects():
    """objects get the declared alignment whatever surrounds them, and do not overlap"""
    decls = [("char", 1), ("short", 2), ("int", 4), ("double", 8), ("long double", 16), ("struct o@", 8), ("_Alignas(16) char", 16), ("_Alignas(8) short", 8), ("_Alignas(4) char", 4)]
    for n in (2, 3):
        for seq in itertools.product(decls, repeat=n):
            for st in ("", "static ", "static _Thread_local ", "global "):
                if n == 3 and st not in ("", "static "):
                    continue
                d = " ".join("%s%s x%d%s;" % ("static " if st == "global " else st, t, i, "" if st != "global " else "@") for i, (t, _) in enumerate(seq))
                u = "@" if st == "global " else ""
                fill = " ".join("for (i = 0; i < sizeof x%d%s; i++) ((unsigned char *) &x%d%s)[i] = %d;" % (k, u, k, u, k + 65) for k in range(n))
                chk = " ".join("obs_u((unsigned long) &x%d%s %% %d); for (i = 0; i < sizeof x%d%s; i++) obs_i(((unsigned char *) &x%d%s)[i]);" % (k, u, a, k, u, k, u) for k, (_, a) in enumerate(seq))
                yield Case(("objects %s%s" % (st, ", ".join(t for t, _ in seq))).replace("@", ""), "struct o@ { char c; long l; }; %s void t@(void) { %s unsigned long i; %s %s }" % (d if u else "", "" if u else d, fill, chk))


def run(chk):
    q = chk.quick
    diff.explore(chk, "scalars", scalars(), 20)
    diff.explore(chk, "sequences 1", sequences(list(BASE), 1, ("struct", "union")))
    diff.explore(chk, "sequences 2", sequences(list(BASE), 2, ("struct", "union")))
    diff.explore(chk, "sequences 3", sequences(SMALL if q else list(BASE), 3, ("struct", "union") if not q else ("struct",)))
    diff.explore(chk, "nested", nested(["char", "int", "double", "char[3]", "long double"] if not q else ["char", "int", "long double"]))
    diff.explore(chk, "flexible", flexible(list(BASE)))
    diff.explore(chk, "alignas", alignas((8, 16, 32) if q else (1, 2, 4, 8, 16, 32, 64)))
    diff.explore(chk, "bit-fields struct", itertools.chain(bit_records("struct", 1), bit_records("struct", 2)))
    diff.explore(chk, "bit-fields union", itertools.chain(bit_records("union", 1), bit_records("union", 2)))
    if not q:
        diff.explore(chk, "bit-fields struct 3", bit_records("struct", 3))
    diff.explore(chk, "objects", objects())
    chk.assumptions += ["gcc is the definition of the platform ABI", "member sequences up to 3 (bit-fields: 2 quick, 3 thorough), two levels of nesting"]
    return chk.finish()

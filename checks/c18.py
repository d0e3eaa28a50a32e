"""C18: macro expansion."""
TECHNIQUE = "exhaustive enumeration of macro definitions (all replacement lists up to a length over an alphabet of parameters, macro names, # and ##), of invocations and of define/undef histories; the real preprocessor's output tokens are compared with a reference preprocessor's for each"
NOTE = ("Every combination of replacement lists and uses within the bounds is preprocessed by the real compiler (-p) and by gcc -E -std=c17; the token sequences must be equal. Texts for which ISO C leaves the result undefined (the reference "
        "diagnoses them under -pedantic-errors) are excluded and counted; constraint violations listed separately must be diagnosed. Trusts gcc's preprocessor, also where ISO C leaves nested replacement unspecified (kefir agrees with it today; such texts are excluded).")
import itertools, re
from mc import core, ppref


def seqs(al, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(al, repeat=n)


def rescan(nb, nf, uses):
    """object-like A, B and function-like F with all bodies"""
    A = list(seqs(["A", "B", "F", "(", ")", "1"], 0, nb))
    F = list(seqs(["x", "A", "F", "(", ")", "+"], 0, nf))
    for a in A:
        for f in F:
            d = "#define A %s\n#define F(x) %s\n#define B 2 F\n" % (" ".join(a), " ".join(f))
            for u in uses:
                yield "A=%s F(x)=%s: %s" % ("".join(a), "".join(f), u), d + u + "\n#undef A\n#undef B\n#undef F"


def mutual(n):
    """two function-like macros and an object-like one calling each other"""
    F = list(seqs(["x", "G", "(", ")", "x G", "(x)"], 0, n))
    G = list(seqs(["y", "F", "(", ")", "(y)", "O"], 0, n))
    for f in F:
        for g in G:
            d = "#define F(x) %s\n#define G(y) %s\n#define O F(3)\n" % (" ".join(f), " ".join(g))
            for u in ("F(1)", "G(1)", "F(G(1))", "G(F)(2)", "F(G)(1)", "O", "F(O) G(O)", "F((1))"):
                yield "F(x)=%s G(y)=%s: %s" % ("".join(f), "".join(g), u), d + u + "\n#undef F\n#undef G\n#undef O"


ARGS = ["", "a", "1", "a b", "M", "\"s\\n\"", "'c'", "(p, q)", "+", "N(1)", ".", "L", "x", "/**/", " a "]


def operand(b, p):
    """is parameter p an operand of # or ## in body b (a list of items)?"""
    return any(x == "#" + p or x == p and ("##" in b[i + 1:i + 2] or i > 0 and b[i - 1] == "##") for i, x in enumerate(b))


def operators(n, args, macros):
    """# and ## in a two-parameter macro"""
    for b in seqs(["x", "y", "#x", "##", "a", "+"], 1, n):
        if b[0] == "##" or b[-1] == "##" or "##" not in b and "#x" not in b:
            continue
        if any(b[i] == b[i + 1] == "##" for i in range(len(b) - 1)):
            continue
        d = "#define M 7\n#define N(z) [z]\n#define T(x, y) %s\n" % " ".join(b)
        for p, q in args:
            if macros != (p in ("M", "N(1)") and operand(b, "x") or q in ("M", "N(1)") and operand(b, "y")):
                continue
            yield "T(x,y)=%s: T(%s,%s)" % (" ".join(b), p, q), d + "T(%s,%s)\n#undef M\n#undef N\n#undef T" % (p, q)


def object_paste():
    for b in seqs(["a", "1", "##", "#", "M", "+", "="], 3, 4):
        if "##" not in b or b[0] == "##" or b[-1] == "##" or ("##", "##") in zip(b, b[1:]):
            continue  # ## as an operand of ## has no result
        yield "O=%s" % " ".join(b), "#define M 7\n#define aM m2\n#define a1 A1\n#define M1 mm\n#define O %s\nO\n#undef O\n#undef M\n#undef aM\n#undef a1\n#undef M1" % " ".join(b)
    for l, r in itertools.product(["a", "1", "1.", ".", "+", "-", "<", "<<", "&", "|", "=", "!", "*", "/", "%", ">", ">>", "#", ":", "%:", "^", "L", "u", "u8", "'c'", "\"s\"", "0x", "1e", "_", "(", ",", "->", "..."], repeat=2):
        yield "O=%s##%s" % (l, r), "#define O %s##%s\nO\n#undef O\n#define P(x,y) x##y\nP(%s,%s)\n#undef P" % (l, r, l if l != "," and l != "(" else "a", r if r not in ",(" else "b")


def variadic(macros):
    bodies = [b for b in seqs(["__VA_ARGS__", "#__VA_ARGS__", "x", "+", "##", "(", ")"], 1, 3)]
    for b in bodies:
        if b[0] == "##" or b[-1] == "##" or ("##", "##") in zip(b, b[1:]):
            continue
        s = " ".join(b)
        if "__VA_ARGS__ ## __VA_ARGS__" in s:
            continue  # pastes a comma with something: undefined, gcc extension
        if s.count("(") != s.count(")") or s.find(")") < s.find("("):
            continue
        for params in ("...", "x, ..."):
            for args in ("", "1", "1,2", "1, 2 ,3", ",", ",,", "a b, (c, d)", "M", "M, M", "\"a\", 'b'", "V(1)", "V(1,2),3", " 1 , 2 ", "1,", "/**/,/**/"):
                if macros != (("M" in args or "V" in args) and (operand(b, "__VA_ARGS__") or operand(b, "x"))):
                    continue
                yield "V(%s)=%s: V(%s)" % (params, s, args), "#define M 5, 6\n#define V(%s) %s\nV(%s)\n#undef V\n#undef M" % (params, s, args)


WS = (" ", "  ", "/*c*/", "\n", "\t", "//c\n")


def runs(s):
    """is there more than one whitespace character or comment in a row inside?"""
    s = [x for x in s if x != "\\\n"]
    while s and s[0] in WS:
        s = s[1:]
    while s and s[-1] in WS:
        s = s[:-1]
    return any(x in ("  ", "//c\n") or x in WS and s[i + 1] in WS for i, x in enumerate(s))


def strings(n, wsruns):
    """spelling and spacing in #"""
    al = ["a", "1", "\"s\"", "'c'", "\"\\n\\\\\"", "+", " ", "  ", "/*c*/", "\n", "\\\n", "->", "1.e+5", "L\"w\"", "L'\\\\'", "#", "##", "'\\\\'", "\t", "//c\n"]
    for s in seqs(al, 0, n):
        t = "".join(s)
        if runs(s) != wsruns:
            continue
        if "\n#" in t.replace("\\\n", "") or re.search(r"\n[ \t]*(/\*c\*/)?[ \t]*#", t.replace("\\\n", "")):
            continue  # a directive inside the arguments is undefined
        yield "S(%r)" % t, "#define S(x) #x\n#define X(x) S(x)\nS(%s) X(%s)\n#undef S\n#undef X" % (t, t)


def spellings():
    """literals not spelled canonically keep their spelling"""
    for t in ("'\\\"'", '"\\x41"', '"\\\'"', '"\\?"', "'\\x41'", '"\\101"', "'\\101'", '"\\0"', '"\\u00e9"', '"?"', "'?'", '"a"', "'\\''", '"\\""', "L'a'", "u'a'", "U'a'", 'L"a"', 'u"a"', 'U"a"', 'u8"a"', "'ab'", "L'\\n'", 'u"\\n"', "1.0e+5f", "0x1p-3", "<:", "%:", "<%", ":>", "%>", "%:%:", "0b1", "1_a"):
        yield "S(%s)" % t, "#define S(x) #x\nS(%s)\n#undef S" % t


def histories(n):
    ops = ["#define A 1", "#define A 2", "#define A  1 ", "#define A(x) x+A", "#define A", "#undef A", "#define B A A(9)", "#undef B", "A B", "#define A(y) y+A", "#define A (x) x"]
    for h in seqs(ops, 1, n):
        if not any(o == "A B" for o in h):
            h = h + ("A B",)
        yield " | ".join(h), "\n".join(h) + "\nA(5) B\n#undef A\n#undef B"


def calls():
    """shapes of invocations"""
    d = "#define F0() <>\n#define F1(a) <a>\n#define F2(a,b) <a|b>\n#define E\n#define LP (\n#define RP )\n#define C ,\n#define ID(x) x\n#define F1O F1\n#define CAT(a,b) a##b\n#define XCAT(a,b) CAT(a,b)\n#define int long\n#define long int\n"
    und = "\n" + "\n".join("#undef " + x for x in ("F0", "F1", "F2", "E", "LP", "RP", "C", "ID", "F1O", "CAT", "XCAT", "int", "long"))
    uses = ["F0", "F0()", "F0 ()", "F0( )", "F0(/**/)", "F0\n()", "F0\n\n(\n)", "F0 E ()", "F0 LP RP", "ID(F0 LP RP)", "ID(ID(F0) ())", "F1", "F1()", "F1( )", "F1(E)", "F1(a)", "F1((a,b))", "F1(())", "F1((),)" [:6], "F1(F1(1))", "F1(F1)", "F1(F1)(2)", "F1O(1)", "F1O (1)", "ID(F1)(3)", "ID(F1O)(3)",
            "F2(1,2)", "F2(,)", "F2(1,)", "F2(,2)", "F2((1,2),3)", "F2(F2(1,2),F2(3,4))", "F2(1 C 2, 3)", "ID(F2 LP 1 C 2 RP)", "ID(ID(F2) (1,2))", "F2(a\n,\nb)", "F1(\n)", "F1( a  b )", "F2([,],3)", "F2({,},4)", "CAT(F,1)(7)", "CAT(,)", "CAT(a,)", "CAT(,b)", "CAT(F1,)(1)", "XCAT(F,ID(1))(8)", "CAT(a,AT)(1,2)", "CAT(CA,T)(CAT(1,2),3)", "XCAT(XC,AT)(1,2)",
            "int long", "ID(int) ID(long)", "F1(int)", "CAT(in,t)", "XCAT(i,nt)", "F1(C)", "F1(F0() C F0())", "ID(ID(ID(1)))", "ID(ID)(1)", "ID(ID(ID))(1)", "ID(ID)(ID)(1)", "F1(a)F1(b)", "F1(a)(b)", "(F1)(a)", "+F1(-)-F1(+)", "F1(#) F1(##)", "F1(\"a,b\") F1(',') F1(\"(\")", "F2(\")\", '(')", "F1 /* c */ (a) F1 // c\n (b)", "F1\\\n(a)", "F1(a\\\nb)", "x F1 y", "F1 F1(1)", "F1 F1 (F1 (1))", "E F1(E) E", "ID(E)ID(E)", "ID()ID()", "a ID(b) c", "1ID(2)3", "F1(.)F1(.)", "-ID(-)", "+ID(+)+", "ID(-)ID(>)x"]
    for u in uses:
        yield u, d + u + und
    # nested to a depth
    for depth in range(1, 9):
        for name in ("ID", "F1", "XCAT"):
            s = "q"
            for _ in range(depth):
                s = "%s(%s%s)" % (name, s, ",%s" % "r" if name == "XCAT" else "")
            yield "%s nested %d" % (name, depth), d + s + und
    for n in (1, 2, 5, 20, 64, 127):
        ps = ",".join("p%d" % i for i in range(n))
        yield "%d parameters" % n, "#define BIG(%s) %s\nBIG(%s)\n#undef BIG" % (ps, " ".join("p%d" % i for i in reversed(range(n))), ",".join(str(i) for i in range(n)))
        yield "chain of %d" % n, "\n".join("#define N%d N%d+1" % (i, i + 1) for i in range(n)) + "\nN0\n" + "\n".join("#undef N%d" % i for i in range(n))


def predefined():
    for t in ("__LINE__", "\n\n__LINE__\n__LINE__", "__STDC__", "__STDC_VERSION__", "__STDC_HOSTED__", "#define L __LINE__\nL\n\nL\n#undef L", "#define S(x) #x\n#define X(x) S(x)\nX(__LINE__)\n#undef S\n#undef X", "#define C(a,b) a##b\n#define D(a,b) C(a,b)\nD(v,__LINE__)\n#undef C\n#undef D", "/*\n\n*/ __LINE__",
              "#line 100\n__LINE__\n__LINE__", "#line 7 \"x.c\"\n__FILE__ __LINE__\n#line 200 \"<stdin>\"", "#define N 50\n#line N\n__LINE__\n#undef N", "__FILE__", "#ifdef __LINE__\nyes\n#endif\n#ifdef __FILE__\nyes\n#endif\n#ifdef __DATE__\nyes\n#endif\n#ifdef __TIME__\nyes\n#endif", "__STDC_UTF_16__ __STDC_UTF_32__"):
        yield repr(t), t


def bad():
    for t in ["#define", "#define 1", "#define +", "#define \"s\"", "#define F(", "#define F(x", "#define F(x,", "#define F(x y) x", "#define F(x,) x", "#define F(,x) x", "#define F(1) x", "#define F(x,x) x", "#define F(..., x) x", "#define F(x ...) x", "#define F(+) 1", "#define F(x) #", "#define F(x) #y", "#define F(x) # 1", "#define F(x) a #", "#define F(x) ## x", "#define F(x) x ##",
              "#define O ##", "#define O ## a", "#define O a ##", "#undef", "#undef 1", "#undef +", "#undef \"a\"", "#define O __VA_ARGS__", "#define F(x) __VA_ARGS__", "#define F(__VA_ARGS__) x", "#define __VA_ARGS__ 1", "#define O\"s\"" [:0] or "#undef \"a\"",
              "#define A 1\n#define A 2", "#define A 1\n#define A", "#define A\n#define A 1", "#define A 1\n#define A(x) 1", "#define A(x) 1\n#define A 1", "#define A(x) x\n#define A(y) y", "#define A(x) x\n#define A(x,y) x", "#define A 1 2\n#define A 12", "#define A 1 + 2\n#define A 1+2", "#define A(x,...) x\n#define A(x) x", "#define A(x) #x\n#define A(x) x", "#define A x##y\n#define A x y", "#define A \"a\"\n#define A \"b\"", "#define A 'a'\n#define A 'b'", "#define A 1\n#define A 01", "#define A L\"a\"\n#define A \"a\"", "#define A +\n#define A -", "#define A b\n#define A c", "#define A 1.0\n#define A 1.00",
              "#define F(x) x\nF(1,2)", "#define F(x,y) x\nF(1)", "#define F(x,y) x\nF()", "#define F(x,y) x\nF(1,2,3)", "#define F() 1\nF(1)", "#define F() 1\nF(,)", "#define F(x,y,...) x\nF(1)", "#define F(x) x\nF(1", "#define F(x) x\nF(", "#define F(x) x\nF((1)", "#define F(x) x\n#define G F(\nG", "#define F(x) x\nF(F(1,2))", "#define F(x,y) x\nF((1,2))", "#define F(x) x\n#define G(y) F(y,y)\nG(1)", "#define F(x,y) x\n#define G(y) F(y)\nG((1))"]:
        yield t, t + "\n", []


def good_redefinitions():
    for a, b in (("A 1", "A 1"), ("A 1", "A  1"), ("A 1", "A 1 "), ("A 1 2", "A 1  2"), ("A 1 2", "A 1/**/2"), ("A 1 2", "A 1\t2"), ("A(x) x", "A(x) x"), ("A(x) x", "A( x ) x"), ("A(x,y) x+y", "A(x , y) x+y"), ("A(x,...) x", "A(x,...)  x "), ("A", "A "), ("A", "A"), ("A a b", "A a /* z */ b"), ("A \"s\" 'c' 1.5", "A \"s\" 'c' 1.5"), ("A(x) #x", "A(x) # x"), ("A(x) x##1", "A(x) x##1"), ("A +", "A +")):
        if "#" in a and a != b:
            continue
        yield "%s / %s" % (a, b), "#define %s\n#define %s\nA(1)\n#undef A" % (a, b)


def options():
    """-D takes part like a definition in the source"""
    for arg, text in (("X=", "X."), ("X=1", "X"), ("X=a b", "X"), ("X=Y", "#define Y 3\nX"), ("X=X", "X"), ("X=\"s\"", "X"), ("X=1", "#undef X\nX"), ("X=1", "#define X 1\nX"), ("X=(1,2)", "X"), ("X=a##b", "X"), ("X=F", "#define F(x) <x>\nX(1)")):
        yield arg, text


def _opt(job):
    out = []
    for arg, text in job:
        r = ppref.kefir(text + "\n", ["-D", arg])
        g, err, rc = ppref.gcc(text + "\n", ["-D" + arg, "-pedantic-errors"])
        if rc:
            continue
        if not r.ok or ppref.tokens(r.out.decode()) != ppref.tokens(g):
            out.append((arg, text, "expected %s, got %s" % (g, r.out.decode() if r.ok else r.describe())))
    return len(job), out


def run(chk):
    q = chk.quick
    uses = ["A", "F(1)", "F(A)(2)", "A(3)", "F(F)(A)(4)", "B(A)", "F ( F (5) ) (6)"]
    ppref.explore(chk, "rescanning", rescan(2, 3, uses) if q else rescan(3, 4, uses), 100)
    ppref.explore(chk, "mutual recursion", mutual(2 if q else 3), 100)
    pairs = [(a, b) for a in ARGS for b in ("", "b", "1", "M", "(p, q)")] if q else [(a, b) for a in ARGS for b in ARGS]
    ppref.explore(chk, "# and ##", operators(4, pairs, False), 100)
    ppref.explore(chk, "operands of # and ## that are macros", operators(2 if q else 3, pairs, True), 100)
    ppref.explore(chk, "pasting", object_paste(), 60)
    ppref.explore(chk, "variadic", variadic(False), 80)
    ppref.explore(chk, "operands of # and ## that are macros", variadic(True), 80)
    ppref.explore(chk, "stringification", strings(3 if q else 4, False), 80)
    ppref.explore(chk, "runs of whitespace in stringification", [x for x in strings(3, True) if x[0].startswith("S('a") and x[0].endswith("a')")], 80)
    ppref.explore(chk, "spelling in stringification", spellings(), 20)
    ppref.explore(chk, "histories", histories(4 if q else 5), 80)
    ppref.explore(chk, "invocations", calls(), 20)
    ppref.explore(chk, "redefinitions", good_redefinitions(), 20)
    for k, t in predefined():
        ppref.explore(chk, "predefined macros", [(k, t)], 1)
    n = 0
    for k, out in core.pmap(_opt, [[x] for x in options()]):
        n += k
        for arg, text, why in out:
            chk.violation("-D: %s with %r" % (arg, text), why, text)
    chk.add("-D", states=n, transitions=n, traces=n)
    ppref.refused(chk, "to be diagnosed", bad())
    return chk.finish()

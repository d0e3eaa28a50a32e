"""C19: conditional inclusion and the other directives."""
TECHNIQUE = "exhaustive enumeration of directive sequences (all nestings and truth values up to a length) and of controlling expressions (all trees up to a depth over boundary operands), preprocessed by the real compiler and by a reference preprocessor; malformed sequences must be diagnosed"
NOTE = ("Every sequence of conditional directives and text lines up to the bound is either well-formed, then exactly the lines of the groups ISO C selects must come out, or ill-formed, then it must be diagnosed; controlling expressions are "
        "enumerated over all operators with intmax_t/uintmax_t boundary operands and observed through value and signedness probes. Reference: a model of the directive grammar for the sequences, gcc -E -std=c17 -pedantic-errors for the expressions.")
import itertools, re
from mc import core, ppref

TRUE, FALSE = ("#if 1", "#ifdef D", "#ifndef U"), ("#if 0", "#ifdef U", "#ifndef D")


def model(seq):
    """-> list of selected line numbers, None when malformed, "?" when malformed only inside a skipped group (whose
    directives are only tracked for nesting)"""
    st = []  # [taken already, active now, else seen]
    out = []
    for n, d in enumerate(seq):
        live = all(x[1] for x in st)
        if d in TRUE or d in FALSE:
            t = d in TRUE
            st.append([t, t, False])
        elif d.startswith("#elif"):
            if not st or st[-1][2]:
                return "?" if st and not all(x[1] for x in st[:-1]) else None
            t = d == "#elif 1"
            st[-1][1] = t and not st[-1][0]
            st[-1][0] |= t
        elif d == "#else":
            if not st or st[-1][2]:
                return "?" if st and not all(x[1] for x in st[:-1]) else None
            st[-1] = [True, not st[-1][0], True]
        elif d == "#endif":
            if not st:
                return None
            st.pop()
        elif live:
            out.append("t%d" % n)
    return "open" if st else out


def _seq(job):
    bad, good, tr = [], [], 0
    nbad = 0
    for seq in job:
        m = model(seq)
        if m == "?":
            continue
        text = "\n".join(d if d != "t" else "t%d" % n for n, d in enumerate(seq))
        if m is None or m == "open":
            r = ppref.kefir("#define D\n" + text + "\n")
            nbad += 1
            if not r.rejected:
                bad.append((("crash: " if r.crashed else "unterminated: " if m == "open" else "") + " | ".join(seq), "is malformed and has to be diagnosed, but the preprocessor printed %r" % r.out.decode()[:200], text))
        else:
            good.append((" | ".join(seq), text, m))
        tr += len(seq)
    if good:
        text = "#define D\n" + "\n".join(t + "\nZsep" for _, t, _ in good) + "\n"
        r = ppref.kefir(text)
        parts = ppref.split(r.out.decode("utf-8", "replace")) if r.ok else None
        if parts is None or len(parts) != len(good) or any(p != m for p, (_, _, m) in zip(parts, good)):
            for k, t, m in good:
                r = ppref.kefir("#define D\n" + t + "\n")
                if not r.ok or ppref.tokens(r.out.decode("utf-8", "replace")) != m:
                    bad.append((k, "expected %s, got %s" % (" ".join(m), r.out.decode() if r.ok else r.describe() + r.err.decode()[:300]), t))
    return len(job), tr, nbad, bad


def sequences(chk, n):
    core.build_kserve()
    al = ["#if 1", "#if 0", "#elif 1", "#elif 0", "#else", "#endif", "t"]

    def gen():
        for k in range(1, n + 1):
            for s in itertools.product(al, repeat=k):
                if s.count("#endif") > s.count("#if 1") + s.count("#if 0") + 1:
                    continue
                yield s
        al2 = ["#ifdef D", "#ifdef U", "#ifndef D", "#ifndef U", "#elif 1", "#else", "#endif", "t"]
        for s in itertools.product(al2, repeat=4):
            if s[0].startswith("#if"):
                yield s + ("#endif",)
    c = [0, 0, 0]
    for a, b, nb, bad in core.pmap(_seq, core.chunks(gen(), 200)):
        c[0] += a
        c[1] += b
        c[2] += nb
        for k, why, text in bad:
            chk.violation("sequences: " + k, why, "#define D\n" + text + "\n")
        if chk.too_many():
            break
    chk.add("sequences", states=c[0], transitions=c[1], traces=c[0], malformed=c[2])


INTS = ["0", "1", "-1", "2", "3", "7", "9223372036854775807", "(-9223372036854775807-1)", "0u", "1u", "18446744073709551615u", "0x8000000000000000", "9223372036854775808u"]
BIN = ["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"]


def probe(e):
    """value and signedness of a controlling expression"""
    ls = ["#if %s" % e, "T", "#else", "F", "#endif"]
    for c in ("(%s) < 0", "(%s) * 0 - 1 < 0", "((%s) & 1) == 1", "(%s) > 2", "(%s) == 1", "(%s) == -1", "((%s) >> 62 & 3) == 3", "((%s) >> 62 & 3) == 1", "((%s) >> 62 & 3) == 2"):
        ls += ["#if " + c % e, "T", "#endif", ";"]
    return "\n".join(ls)


def expressions(depth2):
    for a in INTS:
        for u in ("", "-", "+", "~", "!", "- -", "!!", "~-", "-!"):
            yield u + a, probe(u + a)
    for a in INTS:
        for b in INTS:
            for o in BIN:
                if o in ("<<", ">>") and (b not in ("0", "1", "2", "3", "7", "0u", "1u") or o == "<<" and a[-1] != "u" and a not in ("0", "1", "2", "3", "7")):
                    continue  # undefined
                e = "%s %s %s" % (a, o, b)
                yield e, probe(e)
            e = "%s ? %s : 5" % (a, b)
            yield e, probe(e)
            e = "1 ? %s : %s" % (a, b)
            yield e, probe(e)
            e = "0 ? %s : %s" % (a, b)
            yield e, probe(e)
    small = ["0", "1", "-2", "3u"]
    sh = ("<<", ">>")
    for x, y, z in itertools.product(small, repeat=3):
        for o, p in itertools.product(BIN, repeat=2):
            if o in sh and (y == "-2" or p in "+*-" and z == "-2" or p == "-" and z != "0") or p in sh and z == "-2":
                continue  # may be undefined
            if depth2 or (x, z) in (("1", "-2"), ("3u", "1"), ("0", "0")):
                e = "%s %s %s %s %s" % (x, o, y, p, z)
                yield e, "#if %s\nT\n#else\nF\n#endif\n#if (%s) < 1\nT\n#endif" % (e, e)
        for o in BIN:
            for f in ("%s ? %s : %s %s %s", "%s %s %s ? %s : %s"):
                e = f % ((x, y, z, o, "1") if f[3] == "?" else (x, o, y, z, "7"))
                if o in sh and f[3] != "?" and y == "-2":
                    continue
                yield e, "#if %s\nT\n#else\nF\n#endif\n#if (%s) < 1\nT\n#endif" % (e, e)


def operands():
    d = "#define D\n#define ONE 1\n#define F(x) (x)\n#define EMPTY\n#define E2 ONE + ONE\n#define SELF SELF\n#define REC REC + 1\n#define F2(x, y) x y\n#define NOT !\n#define PAR (\n#define OBJ F\n"
    u = "\n" + "\n".join("#undef " + m for m in ("D", "ONE", "F", "EMPTY", "E2", "SELF", "REC", "F2", "NOT", "PAR", "OBJ"))
    es = ["defined D", "defined U", "defined(D)", "defined ( U )", "!defined D", "!defined(U)", "defined D && defined U", "defined D || defined U", "defined D + defined U", "defined ONE == 1", "U", "!U", "U + 1", "U == 0", "D + 1" [:0] or "ONE", "E2 == 2", "E2 * 2 == 3", "F(0)", "F(1)", "F(ONE) + F(U) == 1", "F(defined)" [:0] or "1", "SELF", "SELF + 1", "REC", "REC == 1", "NOT 0", "NOT 1", "EMPTY 1", "1 EMPTY", "EMPTY ONE EMPTY",
          "'a'", "'a' == 97", "'\\0'", "'\\377' < 0", "'\\n' == 10", "'ab' > 255" [:0] or "1", "L'a' == 97", "u'a' == 97", "U'a' == 97", "'\\x41' == 'A'", "'\\'' == 39", "L'\\0'", "'z' - 'a' == 25", "'0' == 48",
          "if", "while + 1", "int", "sizeof", "int == 0", "true", "false", "_Bool", "return + 2 == 2", "__LINE__ > 0", "__STDC__ == 1", "__STDC_VERSION__ == 201710L", "__STDC_VERSION__ >= 201112L", "__STDC_HOSTED__", "__FILE_UNKNOWN__", "defined __LINE__", "defined __FILE__ && defined __DATE__", "defined(__STDC__)", "defined defined" [:0] or "1",
          "1L == 1", "1ll == 1", "1ull == 1u", "1UL > -1", "0x1F == 31", "017 == 15", "0xFFFFFFFF == 4294967295", "0xFFFFFFFF > 0", "2147483648 > 0", "-2147483649 < 0", "4294967296 == 0", "0 ? 1 / 0 : 2", "1 || 1 / 0", "0 && 1 / 0", "0 && 1 % 0", "1 ? 2 : 1 / 0", "(1) ? (0) : (1)", "1 ? 0 : 1 ? 1 : 1", "0 ? 1 : 0 ? 1 : 1", "( ( 1 ) )", "1 /* c */ + /* d */ 1 == 2", "1 // c", "1 \\\n + 1 == 2", "\\\n1", "(1 \\\n)", "-1 > 0u", "-1 < 0", "~0u == 18446744073709551615u", "~0 == -1", "- 1u > 0", "(-1) >> 1 == -1", "1 << 63 < 0" [:0] or "1", "1u << 63 > 0", "(2 || 3) != 1", "(4 && 5) == 1", "!5 == 0", "3 > 2 > 1", "1 == 1 == 1", "7 & 3 == 3", "1 | 2 ^ 3 & 4", "10 - 5 - 5", "16 / 4 / 2 == 2", "-7 / 2 == -3", "-7 % 2 == -1", "1 + 2 * 3 == 7", "OBJ(1)", "OBJ (0)", "F2(1,)", "F2(,1)", "F2(0,|| 1)", "F2(defined,D)" [:0] or "1"]
    for e in es:
        yield e, d + "#if %s\nT\n#else\nF\n#endif%s" % (e, u)
        if "\\\n" not in e and "//" not in e:
            yield "elif " + e, d + "#if 0\n#elif %s\nT\n#else\nF\n#endif%s" % (e, u)
            yield "skipped " + e, d + "#if 1\nA\n#elif %s\nT\n#else\nF\n#endif%s" % (e, u)


def skipped():
    """what a skipped group may contain"""
    junk = ["'", "\"", "it's", "\"unterminated", "'unterminated", "#error no", "#include <no/such/file>", "#include \"no\"", "#define X 1\n#undef Y", "#undef X", "#line 5000", "#pragma nope", "#", "# 33", "#unknown directive", "#if 1/0\n#endif", "#if (\n#endif", "#if\n#endif", "#ifdef\n#endif", "#ifdef 1 2 3\n#endif", "#if 0\n#else\nx\n#endif", "#if 1\n#elif\n#endif", "#if 1\ny\n#if 0\n#endif\nz\n#endif", "/* #endif */ a", "/*\n#endif\n*/ b", "// #endif", "\"#endif\"", "x #endif", "x #else", "\\\n", "a \\\n#endif", "@ ` $", "L'", "#define", "#define 1", "#define F(", "#ifndef\n#else\n#endif", "0x.p", "1.2.3.4", "#elif_not", "#endifx", "#elsewhere", "#iffy", "##", "## endif", "# /* c */ if 1\n#endif", "%:if 1\n%:endif", " # if 1\n # endif", "#if 1 // c\n#endif // d", "#if 1 /* c\n */\n#endif", "/**/#if 1\n#endif", "/* c */ # /* d */ endif_not"]
    for j in junk:
        for pre, post in (("#if 0\n", "\n#endif\nend"), ("#ifdef U\n", "\n#else\nalive\n#endif"), ("#if 1\nalive\n#else\n", "\n#endif\nend"), ("#if 1\nalive\n#elif 1\n", "\n#endif\nend"), ("#if 0\n#elif 0\n", "\n#elif 1\nalive\n#endif"), ("#if 0\n#if 1\n", "\n#else\nq\n#endif\n#endif\nend"), ("#if 0\n#if 0\n", "\n#else\nq\n#endif\nq\n#else\nalive\n#endif")):
            yield repr(pre + j), "#undef X\n#define Y y\n" + pre + j + post + "\nX Y __LINE__\n#undef Y\n#undef X"


def spelling():
    """the same directive in all spellings"""
    for ind in ("", " ", "\t", "/**/", " /* c */ ", "\\\n", " \\\n "):
        for h in ("#", "# ", "#\t", "#/**/", "# /* c */ ", "#\\\n", "%:", "%: ", "??="):
            for body, end in (("if 1", "endif"), ("ifdef D", "endif"), ("if(1)", "endif"), ("if!0", "endif"), ("if-1", "endif"), ("if'a'", "endif"), ("if 1/**/", "endif/**/"), ("if/**/1", "endif // c"), ("i\\\nf 0", "en\\\ndif"), ("ifndef/**/D", "endif"), ("if defined D&&1", "endif"), ("if defined(D)", "endif")):
                if h == "??=" and (ind or body != "if 1"):
                    continue
                t = "#define D\n%s%s%s\nT\n%s%selse\nF\n%s%s%s\n#undef D" % (ind, h, body, ind, h, ind, h, end)
                yield repr(ind + h + body), t


def others():
    for t in ["#", "# ", "#\n#\n x", "#pragma", "#pragma once_not a b c\nx", "#pragma STDC FP_CONTRACT ON\nx", "_Pragma(\"x\") y" [:0] or "y", "#line 10\n__LINE__", "#line 10 \"a.c\"\n__LINE__ __FILE__\n#line 20 \"<stdin>\"", "#line 2147483647\nx\n#line 30", "#define N 40\n#line N\n__LINE__\n#undef N", "#define N 40 \"b.c\"\n#line N\n__LINE__ __FILE__\n#undef N\n#line 50 \"<stdin>\"", "#line 7 // c\n__LINE__", "#undef NOTDEF\nx", "#if 0\n#error x\n#endif\ny", "#ifdef U\n#error x\n#else\nok\n#endif", "#if 1\n#else\n#error x\n#endif\nok", "x\n#define A 1\nA\n#undef A\nA", "#define EMPTYMAC\nEMPTYMAC # not a directive\n#undef EMPTYMAC",
              "a # b", "a\n #define Q 1\nQ\n#undef Q", "#line 0x10\nx" [:0] or "z", "#line 100 \"\"\n__FILE__\n#line 1 \"<stdin>\""]:
        yield repr(t), t


def bad():
    for t in ["#if", "#if\n#endif", "#if 1", "#ifdef A", "#ifndef A", "#endif", "#else", "#elif 1", "#if 1\n#else\n#else\n#endif", "#if 1\n#else\n#elif 1\n#endif", "#if 0\n#else\n#else\n#endif", "#if 0\n#else\n#elif 0\n#endif", "#if 1\n#endif\n#endif", "#if 1\n#if 1\n#endif", "#ifdef\n#endif", "#ifndef\n#endif", "#ifdef 1\n#endif", "#ifdef +\n#endif", "#ifdef \"s\"\n#endif", "#if 1 +\n#endif", "#if (1\n#endif", "#if 1)\n#endif", "#if 1 2\n#endif", "#if +\n#endif", "#if \"s\"\n#endif", "#if 1.0\n#endif", "#if 1.0 == 1\n#endif", "#if 1 / 0\n#endif", "#if 1 % 0\n#endif", "#if 1 = 1\n#endif", "#if 1 += 1\n#endif", "#if x++\n#endif", "#if ++x\n#endif", "#if --1\n#endif", "#if 1 ? 2\n#endif", "#if 1 : 2\n#endif", "#if defined\n#endif", "#if defined(\n#endif", "#if defined(A\n#endif", "#if defined 1\n#endif", "#if defined()\n#endif", "#if defined(1)\n#endif", "#if defined(A B)\n#endif", "#if !\n#endif", "#if ()\n#endif", "#if 1 ||\n#endif", "#if && 1\n#endif", "#if #\n#endif", "#if ;\n#endif", "#if [1]\n#endif", "#if a.b\n#endif", "#if 1->x\n#endif", "#if @\n#endif", "#if 1x\n#endif", "#if 08\n#endif", "#if 0x\n#endif", "#if 18446744073709551616\n#endif", "#if f(1)\n#endif", "#if 1(2)\n#endif", "#if (int)1\n#endif", "#if sizeof(int)\n#endif", "#if 0\n#elif\n#endif", "#if 0\n#elif 1 +\n#endif", "#if 0\n#elif 1/0\n#endif",
              "#if 1\n#elif 1\n", "#if 0\n", "#if 0\n#else\n", "#if 0\n#if 1\n#endif\n", "#error", "#error x", "#error 'it", "#if 1\n#error y\n#endif", "#if 0\n#else\n#error z\n#endif", "#include", "#include x", "#include 1", "#include <", "#include <a", "#include \"a", "#include \"no_such_file.h\"", "#include <no_such_file.h>", "#line", "#line x", "#line \"a\"", "#line 1 2", "#line 1 x", "#line 1.5", "#line -1", "#line 1 L\"a\"", "#line 1u" , "#unknown_directive" [:0] or "#error q", "#if 1, 2\n#endif" [:0] or "#error q2", "/* unterminated", "#if 0\n/* unterminated\n#endif", "'", "\"", "#if 'a\n#endif", "#if ''\n#endif", "#if {1}\n#endif", "#if 1 ? 2 : \n#endif", "#if !defined\n#endif", "#if 1 == \n#endif", "#if ~\n#endif"]:
        yield t, t + "\n", []


UNTERMINATED = ["#if 1", "#ifdef A", "#ifndef A", "#if 1\n#if 1\n#endif", "#if 1\n#elif 1\n", "#if 0\n", "#if 0\n#else\n", "#if 0\n#if 1\n#endif\n"]


def trailing():
    """tokens after the directive: gcc and kefir both let them pass; what matters is the group selected"""
    for t in ("#ifdef D\nT\n#endif",):
        yield t, "#define D\n" + t + "\n#undef D"


def run(chk):
    q = chk.quick
    sequences(chk, 6 if q else 7)
    ppref.explore(chk, "controlling expressions", expressions(not q), 60)
    ppref.explore(chk, "operands", operands(), 20)
    ppref.explore(chk, "skipped groups", skipped(), 10)
    ppref.explore(chk, "spelling", spelling(), 40, flags=("-trigraphs",))
    for k, t in others():
        ppref.explore(chk, "other directives", [(k, t)], 1)
    ppref.refused(chk, "to be diagnosed", (b for b in bad() if b[0] not in UNTERMINATED))
    ppref.refused(chk, "unterminated", (b for b in bad() if b[0] in UNTERMINATED))
    return chk.finish()

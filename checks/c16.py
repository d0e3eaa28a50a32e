"""C16: values and types of constants."""
TECHNIQUE = "exhaustive enumeration of constant spellings (bases, digits at every power-of-two boundary, all suffixes, all exponent boundaries, all escapes and prefixes), compiled and run against a reference compiler; malformed spellings decided by a model of the grammar"
NOTE = ("Every enumerated spelling is used in an expression, in a static initialiser and (integers, characters) in #if by the real compiler; type (by _Generic) and value bits must equal the reference's. "
        "Spellings that the grammar or the range rules of ISO C exclude must be rejected. Trusts gcc's constants and the model lexer for validity.")
import itertools
from mc import core, diff, clex
from mc.diff import Case

T = "_Generic((%s), int: 1, unsigned: 2, long: 3, unsigned long: 4, long long: 5, unsigned long long: 6, float: 7, double: 8, long double: 9, char: 10, unsigned short: 11, default: 0)"
SUF = ["", "u", "U", "l", "L", "ll", "LL"] + [a + b for a in "uU" for b in ("l", "L", "ll", "LL")] + [b + a for a in "uU" for b in ("l", "L", "ll", "LL")]


def ints(kmax_step):
    vals = set(range(0, 17))
    for k in range(3, 65):
        for d in (-1, 0, 1):
            vals.add((1 << k) + d)
    vals |= {10 ** k for k in range(1, 20)} | {10 ** k - 1 for k in range(1, 21)}
    for v in sorted(vals):
        for f in ("%d", "0x%x", "0X%X", "0%o", "0x0%x", "00%o"):
            s = f % v
            for suf in SUF:
                yield s + suf


def floats():
    mants = ["0", "1", "9", "12", "1.5", "0.1", ".5", "5.", "3.14159265358979323846264338327950288", "1.7976931348623157", "2.2250738585072014", "4.9406564584124654", "3.4028235", "3.4028234", "1.17549435", "1.4012984643", "0.000001", "123456789012345678901234567890", "9007199254740993", "16777217.0", "9007199254740992.5", "18446744073709551615.", "18446744073709551617.5", "0.30000000000000004", "1.00000005960464477539", "1.000000059604644775390625", "1.00000011920928955078125"]
    exps = ["", "e0", "E1", "e+2", "e-1", "e10", "e22", "e-22", "e38", "e-38", "e-45", "e-46", "e307", "e308", "e-307", "e-308", "e-323", "e-324", "e-325", "e4931", "e-4931", "e-4950", "e-4951", "e0000001", "e-00002"]
    for m in mants:
        for e in exps:
            for s in ("", "f", "F", "l", "L"):
                yield m + e + s
    hm = ["0x0", "0x1", "0x1.", "0x.8", "0x1.8", "0xA.Fc", "0x1.fffffffffffff", "0x1.fffffffffffff8", "0x1.fffffffffffff7", "0x1.000001", "0x1.0000010000001", "0x1.ffffffp0".replace("p0", ""), "0xffffffffffffffff", "0x1.0000000000000001", "0x0.0000000000000001", "0X1.8"]
    he = ["p0", "P1", "p+2", "p-1", "p10", "p127", "p-126", "p-149", "p-150", "p1023", "p-1022", "p-1074", "p-1075", "p16383", "p-16382", "p-16445"]
    for m in hm:
        for e in he:
            for s in ("", "f", "F", "l", "L"):
                yield m + e + s


def in_range(c):
    """in range and valid per the model; constants that overflow their type are undefined and not compared"""
    try:
        m = clex.lex(c)
    except clex.Invalid:
        return None
    if len(m) != 1 or (m[0][0] == "flt" and m[0][2] is None):
        return False
    return True


def table(cs, flt):
    body = []
    stat = []
    for i, c in enumerate(cs):
        body.append("obs_i(%s);" % (T % c))
        if flt:
            t = {"float": "f", "double": "d", "long_double": "ld"}[clex.lex(c)[0][1]]
            body.append("obs_%s(%s); obs_%s(s%d@);" % (t, c, t, i))
            stat.append("static %s s%d@ = %s;" % ({"f": "float", "d": "double", "ld": "long double"}[t], i, c))
        else:
            body.append("obs_u(%s); obs_u(s%d@);" % (c, i))
            stat.append("static unsigned long s%d@ = %s;" % (i, c))
    return "%s void t@(void) { %s }" % (" ".join(stat), " ".join(body))


def cases(cs, flt, n=12):
    for ch in core.chunks(cs, n):
        yield Case("%s ... %s" % (ch[0], ch[-1]) if len(ch) > 1 else ch[0], table(ch, flt))


def pptable(cs):
    """the value and signedness in #if, where every constant has a widest type"""
    out = []
    for i, c in enumerate(cs):
        m = clex.lex(c)[0]
        out.append("#if (%s) == %s\nobs_i(%d);\n#else\nobs_i(-%d - 1);\n#endif\n#if -1 < (%s)\nobs_i(1);\n#else\nobs_i(0);\n#endif\n#if (%s) + 0\nobs_i(2);\n#endif" % (c, c, i, i, c, c))
        for b in (0, 7, 15, 31, 32, 47, 62, 63):
            out.append("#if (%s) >> %d & 1\nobs_i(%d);\n#endif" % (c, b, b))
    return "void t@(void) {\n%s\n}" % "\n".join(out)


def chars():
    body = [chr(c) for c in range(32, 127) if chr(c) not in "'\\@"] + ["\\" + c for c in "'\"?\\abfnrtv"] + ["\\%o" % i for i in range(256)] + ["\\%03o" % i for i in (0, 1, 7, 8, 63, 64)] + ["\\x%x" % i for i in range(256)] + ["\\x%02X" % i for i in (10, 171, 255)] + ["\\x00041"]
    for b in body:
        for p in ("", "L", "u", "U"):
            yield "%s'%s'" % (p, b)
    for v in (0x100, 0x1ff, 0x7fff, 0x8000, 0xffff):
        for p in "LuU":
            yield "%s'\\x%x'" % (p, v)
    for v in (0x10000, 0x10ffff, 0x7fffffff, 0x80000000, 0xffffffff):
        for p in "LU":
            yield "%s'\\x%x'" % (p, v)
    for c in ("é", "中", "ÿ", "€"):
        for p in "LuU":
            yield "%s'%s'" % (p, c)
            yield "%s'\\u%04x'" % (p, ord(c))
    for p in "LU":
        yield "%s'😀'" % p
        yield "%s'\\U0001F600'" % p
    for a, b in itertools.product(["a", "Z", " ", "\\n", "\\0", "\\x7f", "\\'", "\\\\"], repeat=2):
        yield "'%s%s'" % (a, b)
    for w in ("abc", "abcd", "\\1\\2\\3", "a\\0b", "\\x12\\x34\\x56\\x78"):
        yield "'%s'" % w


def rejected(cs):
    """every spelling must be refused, whatever it is used for"""
    def gen():
        for c in cs:
            for ctx in ("long double x = %s;", "int f(void) { return (int) (%s); }", "_Static_assert((%s) || 1, \"\");"):
                yield c, ctx % c
    return gen()


def _rej(job):
    out = []
    for c, src in job:
        r = core.kefir([], (src + "\n").encode("utf-8", "surrogatepass"), 10000)
        if not r.rejected:
            out.append((c, src, "timed out" if r.timed_out else "crashed" if r.crashed else "accepted"))
    return len(job), out


def malformed():
    for s in ("18446744073709551616", "18446744073709551615", "9223372036854775808", "9223372036854775808L", "9223372036854775808ll", "99999999999999999999", "36893488147419103232", "18446744073709551616u", "18446744073709551616ULL", "0x10000000000000000", "0x1ffffffffffffffff", "02000000000000000000000", "07777777777777777777777u", "0x10000000000000000u",
              "184467440737095516150", "1844674407370955161500u"):
        yield s
    bodies = ["1", "12", "0", "07", "0x1f", "1.5", ".5", "1e5", "0x1p3", "1."]
    for b in bodies:
        for suf in ["a", "x", "uu", "lul", "lll", "lL", "Ll", "ulL", "uLl", "fl", "ff", "lf", "_", "u_", "e", "e+", "e-", "p", "p1", "fu", "uf", "i", "z", "1x", "e1f1", "..", ".1.2", "LLUL", "e5.5", "e5e5", "e1u", "ULLU", "lLu", "b1"]:
            yield b + suf
    for s in ("08", "09", "018", "0x", "0xg", "0X.", "0x.p1", "0xp1", "0x1.8", "0x1p", "0x1p+", "0x1pf", "0b1", "0b102", "1e", ".e1", "0x1e+1", "0xe+1", "0x1.p", "0e", "00x1", "0128", "0x1.8f", "1e+f", "0x1p1.5"):
        yield s
    for s in ("''", "L''", "u''", "U''", "'\\8'", "'\\9'", "'\\x'", "'\\xg'", "'\\u12'", "'\\U1234'", "'\\q'", "'\\ '", "'\\x100'", "'\\400'", "'\\777'", "u'\\x10000'", "L'\\x100000000'", "U'\\x1ffffffff'", "'\\ud800'", "'\\U00110000'", "'", "'a", "'\\'", "u8'a'", "'\\N'", "'\\e1'"):
        yield s


def run(chk):
    q = chk.quick
    good = [c for c in dict.fromkeys(ints(1)) if in_range(c)]
    bad = [c for c in dict.fromkeys(ints(1)) if in_range(c) is None]
    if q:
        # every value and base with every suffix class; one spelling of each class
        keep = ("", "u", "L", "uL", "ll", "LLU")
        good = [c for c in good if c.lstrip("0123456789abcdefABCDEFxX") in keep or len(c) > 18]
    diff.explore(chk, "integer constants", cases(good, False), 5)
    fl = [c for c in dict.fromkeys(floats()) if in_range(c) and clex.lex(c)[0][0] == "flt"]
    lib = ("0x1.000001p-150f", "0x1.000001p-150F")
    fl = [c for c in fl if c not in lib]
    diff.explore(chk, "floating constants", cases(lib[:1], True), 1)
    diff.explore(chk, "floating constants", cases(fl[::1] if not q else [c for c in fl if c[-1] not in "FL"], True, 10), 5)
    ch = [c for c in dict.fromkeys(chars()) if in_range(c)]
    diff.explore(chk, "character constants", cases(ch, False, 12), 5)
    small = [c for c in good if len(c) < 5 or len(c) > 16][:: 3 if q else 1]
    diff.explore(chk, "constants in #if", (Case("%s ... %s" % (x[0], x[-1]), pptable(x)) for x in core.chunks([c for c in small + [c for c in ch if c[0] == "'" and clex.lex(c)[0][2] is not None]], 10)), 4)
    mal = [c for c in dict.fromkeys(list(malformed()) + bad[:: 7 if q else 1]) if in_range(c) is None]
    n = 0
    for k, out in core.pmap(_rej, core.chunks(rejected(mal), 60)):
        n += k
        for c, src, why in out:
            chk.violation("malformed constants: %s" % src, "%s is not a constant, but the compiler %s it" % (c, why), src)
    chk.add("malformed constants", states=n, transitions=n, traces=n)
    return chk.finish()

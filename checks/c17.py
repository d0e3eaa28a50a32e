"""C17: string literals."""
TECHNIQUE = "exhaustive enumeration of string literals (all short sequences of characters and escapes under every prefix), of all concatenations of up to three literals with all prefixes, and of every context of use, compiled and run against a reference compiler; invalid literals must be refused"
NOTE = ("Every enumerated literal or concatenation is compiled by the real compiler and by gcc; element type (by _Generic), size and all bytes including the terminating zero must be equal in every context (expression, sizeof, automatic and static arrays "
        "of unknown, exact, larger and smaller size, static pointers, structure members, arguments, subscripts, compound literals). Concatenations ISO C forbids and escapes out of range must be rejected. Trusts gcc's literals.")
import itertools
from mc import core, diff
from mc.diff import Case

PRE = ["", "u8", "L", "u", "U"]
ET = {"": "char", "u8": "char", "L": "int", "u": "unsigned short", "U": "unsigned int"}
T = "_Generic(%s, char *: 1, int *: 2, unsigned short *: 3, unsigned int *: 4, default: 0)"
ATOMS = ["a", "0", "9", "F", "g", " ", "\\0", "\\n", "\\\\", "\\\"", "\\'", "'", "?", "\\?", "%", "/*", "//", "\\x4", "\\xfe", "\\1", "\\12", "\\377", "\\008", "é", "中", "😀", "\\u00e9", "\\u4e2d", "\\U0001F600", "\\t", "\\\n", "\\a", "\\v"]
WIDE = {"u": ["\\xffff", "\\x100", "\\uffff", "\\x8000"], "U": ["\\xffffffff", "\\x10000", "\\U0010FFFF", "\\x80000000"], "L": ["\\xffffffff", "\\x7fffffff", "\\U0010FFFF", "\\x80000000"]}


def eff(ps):
    """the prefix of a concatenation, or None where it is not allowed"""
    s = {p for p in ps if p}
    if not s:
        return ""
    return s.pop() if len(s) == 1 else None


def lit(parts):
    return " ".join('%s"%s"' % (p, b) for p, b in parts)


def plain(s):
    """type, size and bytes in an expression"""
    return "{ obs_i(%s); obs_i(sizeof(%s)); obs_i(sizeof((%s)[0])); obs_b(%s, sizeof(%s)); }" % (T % s, s, s, s, s)


def group(keys, n):
    """n literals per case"""
    for ch in core.chunks(keys, n):
        yield Case(ch[0] if len(ch) == 1 else "%s ... %s" % (ch[0], ch[-1]), "void t@(void) {\n%s\n}" % "\n".join(plain(s) for s in ch))


def contexts(parts, n):
    """every use of one literal; n: its number of elements with the terminating zero"""
    p = eff([x for x, _ in parts])
    e = ET[p]
    s = lit(parts)
    top, body = [], []
    o = lambda x: body.append("obs_i(sizeof(%s)); obs_b(%s, sizeof(%s));" % (x, x, x))
    k = 0
    for q in ("", "const "):
        top += ["static %s%s sa%d@[] = %s;" % (q, e, k, s), "%s%s ga%d@[%d] = %s;" % (q, e, k, n, s), "static %s%s sb%d@[%d] = {%s};" % (q, e, k, n + 3, s), "static %s%s sm%d@[%d] = %s;" % (q, e, k, n - 1 or 1, s)]
        top += ["static %s%s *sp%d@ = %s;" % (q, e, k, s), "static %s%s *sq%d@ = %s + %d;" % (q, e, k, s, n - 1), "static %s (*sr%d@)[%d] = &%s;" % (e, k, n, s), "%s%s s2%d@[][%d] = {%s, {%s}, %s};" % (q, e, k, n, s, s, s)]
        top += ["struct st%d@ { char c; %s a[%d]; const %s *p; %s b[%d]; };" % (k, e, n, e, e, n + 1), "static %sstruct st%d@ ss%d@ = { 'x', %s, %s, { %s } };" % (q, k, k, s, s, s), "static %sstruct st%d@ sd%d@[2] = { [1] = { .b = %s, .a = {%s} } };" % (q, k, k, s, s)]
        for v in ("sa%d@", "ga%d@", "sb%d@", "sm%d@", "s2%d@"):
            o(v % k)
        body.append("obs_b(sp%d@, %d * sizeof(%s)); obs_b(sq%d@, sizeof(%s)); obs_i(*(sq%d@ - %d)); obs_b(*sr%d@, sizeof *sr%d@);" % (k, n, e, k, e, k, n - 1, k, k))
        for m in ("ss%d@" % k, "sd%d@[0]" % k, "sd%d@[1]" % k):
            body.append("obs_i(%s.c); obs_b(%s.a, sizeof %s.a); obs_b(%s.b, sizeof %s.b);" % (m, m, m, m, m))
        body.append("obs_b(ss%d@.p, sizeof ss%d@.a);" % (k, k))
        body.append("{ %s%s a[] = %s, b[%d] = {%s}, c[%d] = %s, d[%d] = (%s), e[2][%d] = {%s, %s}; static %s%s f[] = {(%s)};" % (q, e, s, n, s, n + 3, s, n - 1 or 1, s, n, s, s, q, e, s))
        for v in "abcdef":
            o(v)
        body.append("%sstruct st%d@ g = { .p = %s, .a = %s, .b = %s }, h[2] = { { 'q', %s }, { .b = {%s} } };" % (q, k, s, s, s, s, s))
        body.append("obs_b(g.a, sizeof g.a); obs_b(g.b, sizeof g.b); obs_b(g.p, sizeof g.a); obs_b(h[0].a, sizeof h[0].a); obs_b(h[1].b, sizeof h[1].b); obs_b(h[1].a, sizeof h[1].a);")
        body.append("%s%s *p = %s; obs_b(p, %d * sizeof *p); p = %s; obs_b(p, %d * sizeof *p); obs_b((%s%s[]){%s}, sizeof((%s%s[]){%s})); obs_b((%s%s[%d])%s, 1); }" % (q, e, s, n, s, n, q, e, "(" + s + ")", q, e, "(" + s + ")", q, e, n + 1, "{" + s + "}"))
        k += 1
    top.append("static const %s *id@(const %s *p, int i) { obs_b(p, %d * sizeof *p); return p + i; } static const %s *ret@(int i) { return i ? %s : %s \"z\"; }" % (e, e, n, e, s, s))
    body.append("obs_i(*id@(%s, %d)); obs_b(ret@(1), %d * sizeof(%s)); obs_b(ret@(0), %d * sizeof(%s));" % (s, n - 1, n, e, n + 1, e))
    for i in range(n):
        body.append("obs_i((%s)[%d]); obs_i(%d[%s]); obs_i(*(%s + %d)); obs_i((&(%s)[%d])[0]); obs_i((*&%s)[%d]);" % (s, i, i, s, s, i, s, i, s, i))
    body.append("obs_i(sizeof(&%s)); obs_i(sizeof(*&%s)); obs_i(sizeof(%s + 0)); obs_i(sizeof *%s); obs_i(!%s); obs_i((%s) != 0); obs_i(%s && 1); obs_i(_Generic(&%s, const %s (*)[%d]: 2, %s (*)[%d]: 3, default: 4)); obs_i(_Generic(*%s, %s: 1, default: 2)); obs_i((id_i(1) ? %s : %s \"y\")[0]); obs_i(((void) 0, %s)[0]); obs_i(_Alignof(%s));" % (s, s, s, s, s, s, s, s, e, n, e, n, s, e, s, s, s, e))
    return Case(s, "%s\nvoid t@(void) {\n%s\n}" % ("\n".join(top), "\n".join(body)))


def elems(parts):
    """number of elements with terminator (contexts use plain bodies only)"""
    p = eff([x for x, _ in parts])
    n = 1
    for _, b in parts:
        for c in CTX[b]:
            n += len(c.encode({"": "utf-8", "u8": "utf-8", "u": "utf-16-le", "U": "utf-32-le", "L": "utf-32-le"}[p])) // {"": 1, "u8": 1, "u": 2, "U": 4, "L": 4}[p]
    return n


CTX = {"": "", "a": "a", "ab\\0c": "ab\0c", "\\0": "\0", "\\x7f\\n": "\x7f\n", "é€": "é€", "😀": "😀", "\\\\\\\"": "\\\"", "abcdefghijklmnopqrstuvwxyz": "abcdefghijklmnopqrstuvwxyz"}


def bad_sources():
    uses = ["const void *p = %s;", "void f(void) { %s; }", "int n = sizeof(%s);", "void f(void) { const void *a = %s; (void) a; }"]
    prefs = [(a, b) for a, b in itertools.product(PRE, repeat=2) if eff((a, b)) is None]
    prefs += [t for t in itertools.product(PRE, repeat=3) if eff(t) is None]
    for ps in prefs:
        for u in uses:
            s = " ".join('%s"%s"' % (p, c) for p, c in zip(ps, "abc"))
            yield "mixed prefixes " + s, u % s
    for p in PRE:
        rng = {"": ["\\400", "\\777", "\\x100", "\\x1ff", "\\xffffffff", "\\x1234567890abcdef0"], "u8": ["\\400", "\\x100", "\\xffffffff"], "u": ["\\x10000", "\\xfffff"], "L": ["\\x100000000", "\\x1ffffffff"], "U": ["\\x100000000", "\\x1ffffffffffffffff"]}[p]
        for b in rng + ["\\x", "\\xg", "\\8", "\\9", "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\U0001F60", "\\U", "\\ud800", "\\udfff", "\\U00110000", "\\q", "\\c", "\\z", "\\ "]:
            for w in ("%s", "a%s", "%s z", "ab%sz"):
                for u in uses:
                    s = '%s"%s"' % (p, w % b)
                    if w == "%s z" and b[1:] in ("\\",):
                        continue
                    yield "invalid " + s, u % s
        for s in ('%s"' % p, '%s"a' % p, '%s"a\\"' % p, '%s"a\n"' % p, '%s"a" "' % p):
            for u in uses:
                yield "unterminated " + s, u % s
    for p, e in ET.items():
        for e2 in ("char", "unsigned char", "signed char", "short", "unsigned short", "int", "unsigned", "long", "float", "char *"):
            if e2 == e or (e == "char" and e2 in ("signed char", "unsigned char")) or (e == "unsigned int" and e2 == "unsigned"):
                continue
            for f in ("%s x[] = %s;", "%s x[4] = {%s};", "void f(void) { %s x[] = %s; }", "void f(void) { static %s x[3] = %s; }"):
                s = '%s"ab"' % p
                if e2 == "char *" and ("{" in f.split("=")[1]) and p in ("", "u8"):
                    continue
                if "{%s}" in f:
                    continue  # a brace makes the first element the target of a pointer: a different constraint (C22)
                yield "array of %s from %s" % (e2, s), f % (e2, s)


def _rej(job):
    out = []
    for key, src in job:
        r = core.kefir([], (src + "\n").encode("utf-8", "surrogatepass"), 10000)
        if not r.rejected:
            out.append((key, src, "timed out" if r.timed_out else "crashed" if r.crashed else "accepted"))
    return len(job), out


def run(chk):
    q = chk.quick
    # all sequences of atoms in one literal
    def seqs():
        for p in PRE:
            al = ATOMS + WIDE.get(p, [])
            for n in (0, 1, 2):
                for s in itertools.product(al, repeat=n):
                    if p == "" and n == 2 and "\\x4" == s[0] and s[1][0] in "09F":
                        pass
                    b = "".join(s)
                    if bad_hex(p, b):
                        continue
                    yield '%s"%s"' % (p, b)
    diff.explore(chk, "one literal", group(seqs(), 16), 4)
    # every single byte value
    allb = [f % i for i in range(256) for f in ("\\x%x", "\\%o", "\\%03o")] + [chr(c) for c in range(32, 127) if chr(c) not in "\\\"@"]
    diff.explore(chk, "every code", group(('%s"%s"' % (p, b) for p in PRE for b in allb), 24), 4)
    if not q:
        small = ["a", "0", "F", "\\0", "\\x4", "\\1", "\\12", "é", "😀", "\\u00e9", "\\\n", "\\\"", "\\xfe"]
        diff.explore(chk, "one literal, three atoms", group(('%s"%s"' % (p, "".join(s)) for p in PRE for s in itertools.product(small, repeat=3) if not bad_hex(p, "".join(s))), 16), 4)
    # concatenations
    cat = ["", "a", "\\x4", "1", "\\1", "\\xfe", "é", "\\0", "😀", "\\u00e9"] if q else ["", "a", "\\x4", "1", "F", "\\1", "\\12", "é", "\\0", "😀", "\\u00e9", "\\xfe", "\\n", "中"]
    def cats():
        for ps in itertools.product(PRE, repeat=2):
            if eff(ps) is not None:
                for bs in itertools.product(cat, repeat=2):
                    yield lit(list(zip(ps, bs)))
            e = eff(ps)
            if e in ("L", "u", "U") and all(ps):
                for bs in itertools.product(WIDE[e] + ["\\xd83d", "\\xde00", "a", ""], repeat=2):
                    yield lit(list(zip(ps, bs)))
        c3 = ["", "\\x4", "1", "é"] if q else cat[:8]
        for ps in itertools.product(PRE, repeat=3):
            if eff(ps) is not None:
                for bs in itertools.product(c3, repeat=3):
                    yield lit(list(zip(ps, bs)))
    def byte_in_wide(x):
        """an unprefixed part with an escape above 0x7f takes another part's wide prefix"""
        import re
        return re.search(r'(^| )"\\(xfe|377)', x) and re.search(r'(^| )[LuU]"', x)
    diff.explore(chk, "concatenations", group((x for x in cats() if not byte_in_wide(x)), 16), 4)
    diff.explore(chk, "byte escapes joined to wide parts", group(('%s"%s" %s"%s"' % (a, x, b, y) for a, x, b, y in (("", "\\xfe", "L", "a"), ("", "\\377", "u", "b"), ("U", "a", "", "\\xfe"), ("", "\\xc3", "L", "\\xa9"), ("", "\\xc3\\xa9", "L", "a"))), 1), 1)
    def glue():
        """what may stand between the parts, and macros"""
        for sep in ("", " ", "\n", "\t\n ", "/**/", "//x\n", "\\\n", "\n#define ZZ 1\n", "\n#undef ZZ\n", "\n#\n"):
            for ps in itertools.product(PRE, repeat=2):
                if eff(ps) is not None and not (sep in ("", "\\\n") and False):
                    s = '%s"a\\x1"%s%s"2b"' % (ps[0], sep, ps[1])
                    yield Case(repr(s), "void t@(void) { const void *p = %s; obs_b(p, 5 * sizeof(*(%s))); }" % (s, '%s""' % eff(ps)))
        for ps in itertools.product(PRE, repeat=2):
            if eff(ps) is not None:
                d = "#define A@ %s\"x\\n\"\n#define B@(z) z\n#define S@(x) #x\n#define C@(a, b) a b A@\n" % ps[0]
                for u in ('A@ %s"y"', '%s"y" A@', 'B@(A@) %s"q"', 'C@(A@, %s"v")', 'B@(%s"w" A@)', '%s"k" S@(a b\n"\\n" \'c\')'):
                    s = u % ps[1]
                    e = eff((ps[1], "")) if "S@" in u else eff(ps)
                    yield Case("macro %r with %s" % (s, ps[0]), d + "void t@(void) { const void *p = %s\n; obs_i(sizeof(%s\n)); obs_b(p, sizeof(%s\n)); }\n#undef A@\n#undef B@\n#undef S@\n#undef C@\n" % (s, s, s))
    diff.explore(chk, "between the parts", glue(), 12)
    def ctx():
        for p in PRE:
            for b in CTX:
                if len(b) > 20 and q and p in ("u8", "L"):
                    continue
                yield contexts([(p, b)], elems([(p, b)]))
        for ps in itertools.product(PRE, repeat=2):
            if eff(ps) is not None and any(ps):
                for bs in ((("a", "ab\\0c"), ("é€", "a")) if q else itertools.product(list(CTX)[:7], repeat=2)):
                    pr = list(zip(ps, bs))
                    yield contexts(pr, elems(pr))
    diff.explore(chk, "contexts", ctx(), 2)
    def distinct():
        """literals are usable at the same time and are not overwritten by one another or by copies"""
        for p in PRE:
            e = ET[p]
            yield Case("independent " + p, "static const %s *a@ = %s\"one\", *b@ = %s\"two\"; static %s m@[] = %s\"one\"; void t@(void) { const %s *c = %s\"one\", *d = %s\"three\"; %s k[] = %s\"three\"; for (int i = 0; i < 3; i++) { %s l[] = %s\"one\"; k[i] = m@[i] = l[i] = 'Z'; obs_b(l, sizeof l); obs_b(a@, 4 * sizeof *a@); obs_b(b@, 4 * sizeof *b@); obs_b(c, 4 * sizeof *c); obs_b(d, 6 * sizeof *d); obs_b(k, sizeof k); obs_b(m@, sizeof m@); } }" % (e, p, p, e, p, e, p, p, e, p, e, p))
        for n in (1, 15, 16, 17, 127, 128, 255, 256, 257, 1000, 4095, 4096, 5000):
            for p in PRE:
                s = "".join(chr(97 + i % 26) for i in range(n))
                yield Case("length %d %s" % (n, p), "static %s a@[] = %s\"%s\"; void t@(void) { obs_i(sizeof a@); obs_b(a@, sizeof a@); obs_b(%s\"%s\" \"!\", sizeof(%s\"%s\" \"!\")); }" % (ET[p], p, s, p, s, p, s))
    diff.explore(chk, "independence and length", distinct(), 3)
    n = 0
    for k, out in core.pmap(_rej, core.chunks(dict.fromkeys(bad_sources()), 60)):
        n += k
        for key, src, why in out:
            chk.violation("to be refused: %s in %r" % (key, src), "the compiler %s it" % why, src)
    chk.add("to be refused", states=n, transitions=n, traces=n)
    return chk.finish()


def bad_hex(p, b):
    """hexadecimal escapes that run on past the range of the element"""
    import re
    lim = {"": 0xff, "u8": 0xff, "u": 0xffff, "L": 0xffffffff, "U": 0xffffffff}[p]
    s = b.replace("\\\n", "").replace("\\\\", "..")
    return any(int(m, 16) > lim for m in re.findall(r"\\x([0-9a-fA-F]+)", s))

"""C20: separately preprocessed output means the same as the source."""
TECHNIQUE = "exhaustive enumeration of token adjacencies (all pairs of the token alphabet, all triples of its pasting-prone part) produced by macro expansion, of literal contents and of statement programs; each is compiled directly and through -p followed by -P (and by a second preprocessing), and the token streams / assembly must be identical"
NOTE = ("No reference compiler is involved: the oracle is kefir's own token stream of the original (--dump-tokens), compared with the token stream of its printed form read back with -P and, where no printed line could be taken for a directive, preprocessed again. "
        "Programs of the C05, C10, C13 and C14 generators are compared by generated assembly.")
import itertools, json, re
from mc import core, diff

PUNCT = "[ ] ( ) { } . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : ; ... = *= /= %= += -= <<= >>= &= ^= |= , # ## <: :> <% %> %: %:%:".split()
WORDS = ["x", "E", "e", "p", "u", "U", "L", "u8", "R", "int", "_Bool", "if", "_x1", "ä", "\\u00e4"]
NUMS = ["0", "1", "12", "0x1", "0xE", "0x1e", "017", "1u", "1L", "1ull", "1.", ".5", "1.5", "1e5", "1e+5", "1E-5", "0x1p3", "0x1.8p-3", "1.f", "1.0L", "0xep1"]
CHARS = ["'a'", "'\\''", "'\\n'", "'\\0'", "'\\\\'", "'\"'", "L'a'", "u'a'", "U'a'", "'\\377'", "'ab'", "L'\\xff'"]
STRS = ['"s"', '""', '"\\""', '"\\n"', "\"'\"", 'L"w"', 'u"c"', 'U"d"', 'u8"e"', '"\\0"', '"\\377"', '"a\\\\"']
ALL = PUNCT + WORDS + NUMS + CHARS + STRS
PRONE = ["+", "-", "++", "--", "&", "<", ">", "=", "/", "*", ".", ":", "%", "#", "|", "->", "<<", "...", "x", "L", "u", "u8", "E", "1", "0x1", "1.", ".5", "1e", "0x1p", "'a'", '"s"', "%:", "!", "^", "&&"]
PRONE = [t for t in PRONE if t not in ("1e", "0x1p")] + ["0xE", "e1"]


DIGRAPH = {"<:": "[", ":>": "]", "<%": "{", "%>": "}", "%:": "#", "%:%:": "##"}


def tokens(text, opts):
    r = core.kefir(list(opts) + ["--dump-tokens"], text)
    # escapes that are not JSON (\\', \\a ...) are the subject of C26
    fix = lambda s: re.sub(r"\\(.)", lambda m: m.group(0) if m.group(1) in '"\\/bfnrtu' else "\\\\" + m.group(1), s)
    if not r.ok:
        return None, r
    t = json.loads(fix(r.out.decode("utf-8", "surrogateescape")))
    for x in t:
        if x.get("punctuator") in DIGRAPH:  # both spellings behave the same (ISO C 6.4.6)
            x["punctuator"] = DIGRAPH[x["punctuator"]]
    return t, r


def cut(toks):
    out, cur = [], []
    for t in toks:
        if t.get("identifier") == "Zsep":
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    return out


def hashy(s):
    return re.search(r"(?m)^[ \t]*(#|%:)", s)


def judge(text, opts=()):
    """-> None (excluded), "" (holds) or what is wrong"""
    want, r = tokens(text, opts)
    if want is None:
        return None
    p = core.kefir(list(opts) + ["-p"], text)
    if not p.ok:
        return "compiles, but -p fails: " + p.describe() + p.err.decode("utf-8", "replace")[:300]
    got, r = tokens(p.out, ["-P"])
    if got != want:
        return "printed as %r, which read back with -P %s" % (p.out.decode("utf-8", "replace")[-300:], "is rejected: " + r.err.decode("utf-8", "replace")[:200] if got is None else "has other tokens")
    if not hashy(p.out.decode("utf-8", "replace")):
        got, r = tokens(p.out, [])
        if got != want:
            return "printed as %r, which preprocessed again %s" % (p.out.decode("utf-8", "replace")[-300:], "is rejected: " + r.err.decode("utf-8", "replace")[:200] if got is None else "has other tokens")
    return ""


HEAD = "#define F(x) x\n#define EMPTY\n#define G(x,y) x y\n#define H(x) [x]\n"


def _job(a):
    cases, opts = a
    text = HEAD + "".join(t + "\nZsep\n" for _, t in cases)
    if judge(text, opts) == "":
        return len(cases), 0, []
    ex, bad = 0, []
    if len(cases) > 6:
        n = len(cases) // 2
        for part in (cases[:n], cases[n:]):
            _, e, b = _job((part, opts))
            ex += e
            bad += b
        return len(cases), ex, bad
    for k, t in cases:
        w = judge(HEAD + t + "\nZsep\n", opts)
        if w is None:
            ex += 1
        elif w:
            bad.append((k, w, HEAD + t + "\n"))
    return len(cases), ex, bad


def explore(chk, part, cases, per=100, opts=()):
    core.build_kserve()
    n = ex = 0
    for k, e, bad in core.pmap(_job, ((b, opts) for b in core.chunks(cases, per))):
        n += k
        ex += e
        for key, why, text in bad:
            chk.violation("%s: %s" % (part, key), why, text)
        if chk.too_many():
            break
    chk.add(part, states=n, transitions=3 * n, traces=n - ex, excluded=ex)


def wrap(t):
    return "(,)" if t == "," else t


def pairs():
    for a in ALL:
        for b in ALL:
            for k, f in (("F()F()", "F(%s)F(%s)"), ("direct", "%s%s"), ("spaced", "%s %s"), ("F() b", "F(%s) %s"), ("aF()", "%sF(%s)"), ("F()b", "F(%s)%s"), ("empty", "%sEMPTY %s"), ("F()EMPTY F()", "F(%s)EMPTY F(%s)"), ("comment", "%s/**/%s"), ("G", "G(%s,%s)"), ("newline", "F(%s)\n%s")):
                if k != "direct" and (a in "()," or b in "(),") and "F" in f + k:
                    continue
                t = f % (a, b)
                yield "%s: %s %s" % (k, a, b), ("x " + t if t.lstrip()[:1] in "#%" else t)
    for a in ALL:
        for b in ALL:
            if a in "#(),##%:%:%:" or b in "#(),##%:%:%:":
                continue
            yield "objects: %s %s" % (a, b), "#define A %s\n#define B %s\nx A B-A+B A\n#undef A\n#undef B" % (a, b)
            yield "in replacement: %s %s" % (a, b), "#define A %s%s\nx A;A\n#undef A" % (a, b)
            yield "in brackets: %s %s" % (a, b), "x H(%s)H(%s)" % (a, b)


def triples(al):
    for a, b, c in itertools.product(al, repeat=3):
        yield "%s %s %s" % (a, b, c), "x F(%s)F(%s)F(%s)" % (a, b, c)
        yield "mixed %s %s %s" % (a, b, c), "x F(%s)%s F(%s)" % (a, b, c)


def literals():
    for i in range(256):
        for p in ("", "L", "u", "U", "u8"):
            for e in ("\\%o" % i, "\\x%x" % i, "\\%03oa" % i, "\\x%xg" % i, "\\%03o7" % i) + ((chr(i),) if 32 <= i < 127 and chr(i) not in "\"\\'\n" else ()):
                yield "string " + p + e, '%s"%s"' % (p, e)
                yield "string in the middle " + p + e, '%s"a%sb" x' % (p, e)
                if p != "u8":
                    yield "character " + p + e, "%s'%s'" % (p, e)
    for e in ["\\'", "\\\"", "\\?", "\\\\", "\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v", "\\u00e9", "\\U0001F600", "é", "😀", "日", "\\u20ac", "??/", "/*", "//", "%:", "\\x41\\102"]:
        for p in ("", "L", "u", "U", "u8"):
            yield "escape " + p + e, '%s"%s"' % (p, e)
            yield "escapes " + p + e, '%s"%s%s" %s"1%s2"' % (p, e, e, p, e)
            if p != "u8" and len(e) < 3 and e[0] == "\\":
                yield "escape character " + p + e, "%s'%s'" % (p, e)
    for a in ['"a"', 'L"a"', 'u8"\\xc3"', '"\\1"', '"\\x1"', '"\\12"', '"\\"', '""'][:7]:
        for b in ['"1"', '"a"', 'L"f"', '"\\n"', '"9"', '"\\\\"', '""']:
            for s in ("", " ", "\n", "/**/", "EMPTY "):
                yield "concatenated %r" % (a + s + b), a + s + b
    for n in ("stringified",):
        for a in ['"q"', "'\\''", "\"\\n\"", "a  b", "\\", "\"\\\\\"", "'\"'", "L'x'", "u8\"z\"", "1 .. 2", "+ +", "\"/*\"", "%:", "a/**/b"]:
            if a != "\\":
                yield "%s %s" % (n, a), "#define S(x) #x\nS(%s) S( %s ) x\n#undef S" % (a, a)
    for t in ("__FILE__", "__LINE__", "__DATE__", "__TIME__", "__STDC__ __STDC_VERSION__ __STDC_HOSTED__"):
        yield t, t


def layout():
    for t in ["x\n\n\ny", "\n\n\nx", "x // c\ny", "x /* a\n b */ y", "x \\\n y", "x\\\ny", "#if 1\nx\n#else\ny\n#endif\nz", "#define M a\\\n b\nM", "#define M(a) a\nM\n(\n1\n)\n#undef M", "#define N # define Q\nx N 1\n", "#define N #\nN include <x>", "#define N #\nx\nN N\nN error y\n", "x\n#\ny", "x #define", "#define A -\n-A-A\n-A\n#undef A", "#define A(x) -x\nA(-1)A(-A(-2))\n#undef A", "#define L_ L\nL_'a' L_\"b\"", "#define S \"a\"\nL S u8 S u S", "#define Z 1\nx Z.5 Z.Z .Z Ze5 Z e5 Z+Z", "#define P 0x1p\n#define Q 1e\nx P +1 Q +1" [:0] or "x", "#define D .\nx D D D D. .D 1D 1 D D1", "#define D .\nx D.. ...", "#define SL /\nx SL/ y\nx SL* z SL SL", "#define ST *\nx /ST y", "#define B \\\n\nx B y", "#define C <\n#define CO :\nx CCO C CO C: <CO", "x\f\vy", "\tx\t\ty\t", "x" + " " * 100 + "y"]:
        yield repr(t), t


def _asm(a):
    key, text, opts = a
    d = core.kefir(list(opts), text)
    if not d.ok:
        return key, None, text
    p = core.kefir(list(opts) + ["-p"], text)
    if not p.ok:
        return key, "compiles, but -p fails", text
    s = core.kefir(list(opts) + ["-P"], p.out)
    if s.out != d.out:
        return key, "direct and separately preprocessed compilation differ (%s)" % s.describe(), text
    s = core.kefir(list(opts), p.out)
    if s.out != d.out:
        return key, "direct and twice preprocessed compilation differ (%s)" % s.describe(), text
    return key, "", text


def programs(chk, step):
    from checks import c05, c10, c13, c14
    gens = [("C05", itertools.chain(c05.tree_cases(2, False), c05.label_cases(2, False), c05.returns(), c05.switch_types()), []),
            ("C10", itertools.chain(c10.scalars(), c10.addresses(), c10.defaults(), c10.string_cases()), []),
            ("C13", itertools.chain(c13.namespaces(), c13.tags()), []),
            ("C14", itertools.chain(c14.frozen(), c14.vmtypes()), [])]

    def jobs():
        for name, g, opts in gens:
            g = (c for c in g if hasattr(c, "text"))
            for i, b in enumerate(core.chunks(g, 20)):
                if i % step:
                    continue
                yield "%s batch %d" % (name, i), diff.PRELUDE + "\n" + "\n".join(c.text.replace("@", str(j)) for j, c in enumerate(b)), opts
    n = ex = 0
    for key, why, text in core.pmap(_asm, jobs()):
        n += 1
        ex += why is None
        if why:
            chk.violation("programs: " + key, why, text)
    chk.add("programs", states=n, transitions=4 * n, traces=n - ex, excluded=ex)


def run(chk):
    q = chk.quick
    core.build_kserve()
    explore(chk, "pairs", pairs())
    explore(chk, "triples", triples(PRONE if not q else PRONE[:24]))
    explore(chk, "literals", literals())
    explore(chk, "layout", layout(), 1)
    programs(chk, 8 if q else 1)
    return chk.finish()

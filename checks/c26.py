"""C26: machine-readable dumps."""
TECHNIQUE = "exhaustive enumeration of literal contents (every byte, every pair of special bytes, UTF-8 boundaries), of token sequences x layouts and of one program per construct x separators between all tokens; every dump of the real compiler is read by a strict JSON parser and compared with a model of contents and positions"
NOTE = ("The oracle is Python's strict JSON parser plus a model of token values and positions. Bytes that are not part of a valid UTF-8 sequence have no JSON spelling of their own; they are only required to come out as \\u00xx. In syntax trees the positions of identifiers are compared exactly, those of other nodes have to be the start of a token of the source. Deep nesting beyond the writer's limit of 1024 levels is a diagnosed error and not claimed.")
import itertools
import json
import re
from mc import core
from checks import c27

SPECIAL = [1, 7, 8, 9, 10, 11, 12, 13, 27, 31, 32, 34, 39, 47, 48, 63, 65, 92, 117, 127, 128, 0xa9, 0xc2, 0xc3, 0xe2, 0xed, 0xf0, 0xff]


def strict(b):
    def no(x):
        raise ValueError("not JSON: " + x)
    def pairs(l):
        if len({k for k, v in l}) != len(l):
            raise ValueError("duplicate key in %r" % [k for k, v in l])
        return dict(l)
    return json.loads(b.decode("utf-8"), parse_constant=no, object_pairs_hook=pairs)


def dump(args, text):
    r = core.kefir(args + ["--source-id", "main.c"], text if isinstance(text, bytes) else text.encode())
    if not r.ok:
        return None, "refused: %s %s" % (r.describe(), r.err.decode("utf-8", "replace")[:300])
    try:
        return strict(r.out), None
    except (ValueError, UnicodeDecodeError) as x:
        return None, "not valid JSON: %s: %r" % (x, r.out[-300:])


def find(n, cls):
    if isinstance(n, dict):
        if n.get("class") == cls:
            yield n
        for v in n.values():
            yield from find(v, cls)
    elif isinstance(n, list):
        for v in n:
            yield from find(v, cls)


def decoded(bs):
    """the text a JSON string has to hold for these bytes"""
    out, i = "", 0
    while i < len(bs):
        for n in (1, 2, 3, 4):
            try:
                c = bytes(bs[i:i + n]).decode("utf-8")
            except UnicodeDecodeError:
                continue
            if len(c) == 1:
                out += c
                i += n
                break
        else:
            out += chr(bs[i])
            i += 1
    return out


def _lit(j):
    bs, stage = j
    key = "bytes %s in %s" % (" ".join("%02x" % b for b in bs), stage)
    if bs == (0x66,):
        return key, None, None  # collides with __func__
    text = 'char s[] = "%s";\nvoid *f(void) { return "%s"; }\n' % (("".join("\\%03o" % b for b in bs),) * 2)
    d, bad = dump(["--dump-" + stage], text)
    cesc = None
    if bad and "Invalid \\escape" in bad and {7, 11, 63} & set(bs):
        cesc = bad  # K62: read on leniently, so that anything else that is wrong shows
        r = core.kefir(["--dump-" + stage, "--source-id", "main.c"], text.encode())
        fix = re.sub(rb"\\(.)", lambda m: {b"a": rb"\u0007", b"v": rb"\u000b", b"?": b"?"}.get(m.group(1), m.group(0)), r.out)
        try:
            d, bad = strict(fix), None
        except ValueError:
            pass
    if bad:
        return key, bad, text
    want = decoded(list(bs) + [0])
    if stage == "tokens":
        got = [t["content"] for t in find(d, "string_literal")]
    elif stage == "ast":
        got = [t["content"] for t in find(d, "string_literal") if t["content"] != "f\0"]
    else:
        got = [x["literal"] for x in d["string_literals"] if x["literal"] != "f\0"]
        if not got:
            return key, "the literal is missing", text
        got += got[:1]
    if bs == (ord("f"),):
        return key, None, None
    if got[:2] != [want, want]:
        return key, "content %r instead of %r" % (got, want), text
    if cesc:
        return "C escape in JSON: " + key, cesc, text
    return key, None, None


def _wide(j):
    p, cs = j
    text = "%s\"%s\"; %s'%s'\n" % (p, "".join("\\x%x\"%s\"" % (c, p) for c in cs), p, "\\x%x" % cs[0])
    key = "wide %s %s" % (p, " ".join("%x" % c for c in cs))
    d, bad = dump(["--dump-tokens"], text)
    if bad:
        return key, bad, text
    got = [x for t in find(d, "string_literal") for x in t["content"][:-1]]
    want = [c for c in cs]
    if got != want:
        return key, "content %r instead of %r" % (got, want), text
    return key, None, None


TOKS = {"int": ("keyword", "int"), "ab1": ("identifier", "ab1"), "\u00e9x": ("identifier", "\u00e9x"), "12": ("constant", 12), "0x1F": ("constant", 31), "'a'": ("constant", 97), "+": ("punctuator", "+"), ">>=": ("punctuator", ">>="), "...": ("punctuator", "..."), "_Static_assert": ("keyword", "static_assert"), '"s"': ("string_literal", "s\0"), "1.5": ("constant", "0x1.8p+0"), "2u": ("constant", 2), "3ll": ("constant", 3)}
LAYS = [k for k in c27.ITEMS if "@" not in c27.ITEMS[k] and k not in ("#include", "macro", "call", "use")]


def val(t):
    return t["class"], t.get(t["class"], t.get("value", t.get("content")))


def _toks(j):
    lays, toks = j
    text, want = "", []
    for l, t in zip(lays, toks):
        text += c27.layout((l,)) + " "
        f, line, col = c27.walk(text, "main.c")
        want.append(TOKS[t] + (f, line, col))
        text += t
    text += "\n"
    key = "tokens %s" % " ".join("{%s} %s" % x for x in zip(lays, toks))
    d, bad = dump(["--dump-tokens", "--detailed-output"], text)
    if bad:
        return key, bad, text
    got = [val(t) + (t["source_location"]["source"], t["source_location"]["line"], t["source_location"]["column"]) for t in d if t["class"] not in ("sentinel", "pp_whitespace")]
    if got != want:
        return key, "tokens %r instead of %r" % (got, want), text
    return key, None, None


DECLS = ["int v1 ;", "static const volatile unsigned long long v2 = 1 , * p2 = 0 , a2 [ 3 ] = { 1 , [ 2 ] = 3 } ;", "struct s3 { int m3 ; unsigned b3 : 3 , : 0 ; struct { int n3 ; } ; } x3 = { . m3 = 4 , 5 } ;", "union u4 { int m4 ; double d4 ; } x4 ;", "enum e5 { k5 , l5 = 7 } x5 ;", "typedef int ( * t6 ) ( int q6 , ... ) ; t6 g6 ;",
         "_Static_assert ( 1 , \"yes\" ) ;", "_Alignas ( 16 ) char c8 [ 4 ] ; _Alignas ( double ) char c9 ;", "_Thread_local int tl ; extern int ex ; _Noreturn void nr ( void ) ; inline int il ( void ) { return 1 ; }", "int kr ( a , b ) int a ; char b ; { return a + b ; }", "int arr ( int n , int a [ static 3 ] , int b [ const ] , int c [ * ] ) ;", "_Bool bo ; float fl = 1.5f ; double db = 2.25 ; long double ld = 0.5L ; _Complex_absent ;",
         "char cc = 'x' ; int wc = L'y' ; int e1 = u'z' ; char * str = \"q\\n\" \"r\" ;", "void ( * ( * fp ) [ 3 ] ) ( int ) ;", "int m1 [ 2 ] [ 3 ] = { { 1 , 2 } , { [ 1 ] = 4 } } ;"]
STM = ["a = b ;", "a += b -= c * d / e % f ;", "a = b ? c : d , e ;", "a = - b + ! c - ~ d + + e ;", "a ++ ; -- b ;", "* p = & a - p ;", "s . m = t -> m ;", "h ( a , b ) ; h ( ) ;", "a = sizeof ( int ) + sizeof b + _Alignof ( long ) ;", "a = ( char ) b ;", "p = ( int [ ] ) { 1 , 2 } ;", "a = _Generic ( b , int : c , default : d ) ;", "a = r [ b ] ;",
       "if ( a ) b ; else c ;", "while ( a ) { b ; break ; }", "do a -- ; while ( a ) ;", "for ( int i = 0 ; i < a ; i ++ ) continue ;", "for ( ; ; ) { return ; }", "switch ( a ) { case 1 : b ; break ; default : ; }", "l1 : goto l1 ;", "{ int a ; { char a ; } }", "a = b << c >> d & e ^ f | a && b || c == d != e < f <= a > b >= c ;", "a = \"text\" [ 1 ] ;", "int v [ a ] ; typedef int loc ; loc z ;"]
SEPS = [" ", "\n", "\t", " /*c*/", " /*\n*/", " \\\n ", " //\u00e9\n", "\n\n  ", "\r"]


def programs():
    for i, d in enumerate(DECLS):
        if "_Complex_absent" in d:
            d = d.replace("_Complex_absent ;", "")
        yield "declaration %d" % i, d.split(), []
    for i, s in enumerate(STM):
        yield "statement %d" % i, ("struct S { int m ; } ; int h ( ) ; void fun ( int a , int b , int c , int d , int e , int f , int * p , int * r , struct S s , struct S * t ) { %s }" % s).split(), ["fun"]


def nopos(n):
    if isinstance(n, dict):
        return {k: nopos(v) for k, v in n.items() if k != "source_location"}
    return [nopos(x) for x in n] if isinstance(n, list) else n


def _prog(j):
    name, toks, funs, sep = j
    key = "%s separated by %r" % (name, sep)
    text, at = "", {}
    for t in toks:
        f, line, col = c27.walk(text, "main.c")
        at.setdefault((line, col), []).append(t)
        text += t + sep
    text += "\n"
    n = 0
    plain = " ".join(toks) + "\n"
    ref, bad = dump(["--dump-ast"], plain)
    if bad:
        return key, "plain " + bad, plain
    d, bad = dump(["--dump-ast", "--detailed-output"], text)
    if bad:
        return key, "ast: " + bad, text
    if nopos(d) != ref:
        return key, "another tree than without the separators", text
    def walk(x, path):
        if isinstance(x, dict):
            l = x.get("source_location")
            if l is not None:
                if l["source"] != "main.c" or (l["line"], l["column"]) not in at:
                    yield "%s located at %r, where no token starts" % (x.get("class", path), l)
                elif x.get("class") == "identifier" and isinstance(x.get("identifier"), str) and at[(l["line"], l["column"])] != [x["identifier"]]:
                    yield "identifier %s located at %r, where %r is" % (x["identifier"], l, at[(l["line"], l["column"])])
            for k, v in x.items():
                yield from walk(v, k)
        elif isinstance(x, list):
            for v in x:
                yield from walk(v, path)
    for w in walk(d, ""):
        return key, "ast: " + w, text
    ids = sorted(t for t in toks if re.fullmatch(r"fun|p2|x3|g6|tl|kr|fp|m1|str", t))
    names = [x["identifier"] for x in find(d, "identifier") if isinstance(x.get("identifier"), str)]
    for i in ids:
        if i not in names:
            return key, "ast: identifier %s is missing" % i, text
    d, bad = dump(["--dump-ir"], text)
    if bad:
        return key, "ir: " + bad, text
    r2, bad = dump(["--dump-ir"], plain)
    if bad or d != r2:
        return key, "ir: differs from that without the separators", text
    if [x["name"] for x in d["functions"]] != [t for t in toks if t in ("fun", "kr", "il") and "{" in toks][:1]:
        return key, "ir: functions %r" % [x["name"] for x in d["functions"]], text
    return key, None, None


def _err(j):
    kind, c = j
    ch = chr(c)
    key = "%s with character %x" % (kind, c)
    if kind == "source name":
        r = core.kefir(["--json-errors", "--source-id", "a%sb" % ch], b"int x = ;\n")
    elif kind == "renamed source":
        r = core.kefir(["--json-errors"], ('#line 1 "a\\%03ob"\nint x = ;\n' % c).encode() if c < 128 else ('#line 1 "a%sb"\nint x = ;\n' % ch).encode())
    else:
        r = core.kefir(["--json-errors", "--source-id", "ab"], ("int x = undeclared%sb;\n" % ch).encode())
    if not r.rejected:
        return key, "not rejected: " + r.describe(), None
    try:
        e = strict(r.err)
    except (ValueError, UnicodeDecodeError) as x:
        return key, "not valid JSON: %s: %r" % (x, r.err), None
    if kind != "identifier" and (e[0]["source_location"]["source"] != "a%sb" % ch or not e[0]["message"].startswith("a%sb@1:9 " % ch)):
        return key, "wrong name: %r" % e[0], None
    if kind == "identifier" and "undeclared%sb" % ch not in e[0]["message"]:
        return key, "wrong identifier: %r" % e[0]["message"], None
    return key, None, None


def _go(j):
    return j[0](*j[1:])


def run(chk):
    core.build_kserve()
    q = chk.quick
    jobs = []
    for st in ("tokens", "ast", "ir"):
        jobs += [("literal contents", _lit, (bs, st)) for bs in [()] + [(b,) for b in range(1, 256)] + list(itertools.product(SPECIAL, repeat=2))]
    jobs += [("literal contents", _lit, (bs, "tokens")) for bs in itertools.product(SPECIAL if not q else [1, 10, 34, 92, 117, 0xc3, 0xa9, 0xe2], repeat=3)]
    uni = [0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff]
    jobs += [("literal contents", _lit, (tuple(chr(c).encode()), st)) for c in uni for st in ("tokens", "ast", "ir")]
    for p, top in (("L", 0x7fffffff), ("u", 0xffff), ("U", 0xffffffff)):
        cs = [1, 9, 34, 92, 127, 128, 255, 256, 0x7fff, 0xd800, 0xffff] + ([0x10000, 0x10ffff, 0x110000, 0x7fffffff] if p != "u" else []) + ([0x80000000, 0xffffffff] if p == "U" else [])
        jobs += [("literal contents", _wide, (p, x)) for k in (1, 2) for x in itertools.product(cs, repeat=k)]
    jobs += [("tokens and positions", _toks, ((a,), (t,))) for a in LAYS for t in TOKS]
    jobs += [("tokens and positions", _toks, ((a, b), (s, t))) for a in LAYS for b in LAYS for s in TOKS for t in (TOKS if not q else ("ab1", ">>=", "12")) if s != '"s"' or t != '"s"']
    if not q:
        jobs += [("tokens and positions", _toks, ((a, b, c), ("ab1", "+", "int"))) for a in LAYS for b in LAYS for c in LAYS]
    jobs += [("programs", _prog, (n, t, f, s)) for n, t, f in programs() for s in SEPS]
    for k in ("source name", "renamed source"):
        jobs += [("structured errors", _err, (k, c)) for c in list(range(1, 127)) + [0xe9, 0x20ac, 0x10348] if not (k == "renamed source" and c == 10 and False)]
    jobs += [("structured errors", _err, ("identifier", c)) for c in [0x41, 0x5f, 0xe9, 0x20ac if False else 0x3b1, 0x4e2d, 0x10348]]
    for part, r in core.pmap(_part, jobs, chunksize=16):
        chk.add(part, states=1, transitions=1, traces=1)
        if r[1]:
            chk.violation(*r)
            if chk.too_many():
                break
    return chk.finish()


def _part(j):
    return j[0], _go(j[1:])

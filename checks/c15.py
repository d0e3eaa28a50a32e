"""C15: tokenisation."""
TECHNIQUE = "exhaustive enumeration of all texts up to a length over several alphabets; the token sequence reported by the real lexer is compared with an independent model lexer (both the preprocessing and the direct path)"
NOTE = ("Every text over each alphabet up to the stated length is lexed by the real compiler (--dump-tokens, with and without preprocessing) and by a model lexer written from ISO C; "
        "token classes, spellings, constant values and literal contents must be equal, and texts the model rejects must be diagnosed. Trusts the model lexer and that separator lines isolate texts.")
import itertools, json
from mc import core, clex

SEP = "Zsep"


def classify(texts):
    """-> (valid [(text, tokens)], invalid [text])"""
    good, bad = [], []
    for t in texts:
        if (t + "\n").endswith("\\\n"):
            continue  # a file may not end in a spliced line
        try:
            m = clex.lex(t + "\n" + SEP + "\n")
        except clex.Mixed:
            continue  # separate tokens until the parser refuses them: see C17
        except clex.Invalid:
            bad.append(t)
            continue
        if ("chr", "unicode16", None) in m:
            continue  # a character that needs two UTF-16 units in a character constant: implementation-defined, may be refused
        if m[-1] != ("id", SEP) or m.count(("id", SEP)) != 1:
            # the text swallows the separator: judged on its own
            try:
                good.append((t, clex.lex(t + "\n"), False))
            except clex.Invalid:
                bad.append(t)
        else:
            good.append((t, m[:-1], True))
    return good, bad


def dump(text, opts):
    return core.kefir(["--dump-tokens"] + opts, text.encode("utf-8", "surrogatepass"), 20000)


def show(r):
    return (r.err or r.out or b"")[:400].decode("utf-8", "replace") if not r.timed_out else "timed out"


def check_one(t, m, opts):
    r = dump(t + "\n", opts)
    if not r.ok:
        return "expected tokens %r\nbut the compiler failed: %s" % (m, show(r))
    try:
        got = clex.load_dump(r.out)
    except ValueError as e:
        return "dump is not JSON: %s" % e
    if got[-1:] != [("sentinel", None)]:
        return "no sentinel at the end: %r" % got[-1:]
    if not clex.same(m, got[:-1]):
        return "expected %r\ngot      %r" % (m, got[:-1])
    return None


def batch(job):
    kind, items, opts = job
    out = []
    if kind == "bad":
        for t in items:
            r = dump(t + "\n", opts)
            if not r.rejected:
                why = "timed out" if r.timed_out else "crashed" if r.crashed else "accepted as %r" % r.out[:300]
                out.append((t, "no valid tokenisation, but the compiler %s" % why))
        return out, len(items)
    text = "".join("%s\n%s\n" % (t, SEP) for t, m, _ in items)
    r = dump(text, opts)
    if r.ok:
        try:
            got = clex.load_dump(r.out)
        except ValueError:
            got = None
        if got is not None:
            want = []
            for t, m, _ in items:
                want += m + [("id", SEP)]
            if clex.same(want, got[:-1]) and got[-1] == ("sentinel", None):
                return [], sum(len(m) for _, m, _ in items)
    for t, m, _ in items:
        d = check_one(t, m, opts)
        if d:
            out.append((t, d))
    if not out:
        out.append(("batch starting %r" % items[0][0], "each text alone is lexed as expected but not the sequence of them: " + show(r)))
    return out, len(items)


def explore(chk, part, texts, paths=(("preprocessed", []), ("direct", ["-P"])), per=150, reject=True):
    texts = list(dict.fromkeys(texts))
    good, bad = classify(texts)
    jobs = []
    for name, opts in paths:
        multi = [g for g in good if g[2]]
        solo = [g for g in good if not g[2]]
        jobs += [(name, ("good", c, opts)) for c in core.chunks(multi, per)]
        jobs += [(name, ("good1", [g], opts)) for g in solo]
        if reject and name == "preprocessed":
            jobs += [(name, ("bad", c, opts)) for c in core.chunks(bad, 200)]
    n = 0
    for name, (viol, k) in core.pmap(run_named, jobs):
        n += k
        for t, d in viol:
            chk.violation("%s: %s: %r" % (part, name, t), d, t)
    chk.add(part, states=len(texts), transitions=n, traces=len(good) * len(paths) + len(bad), samples=[{"text": t[0], "tokens": repr(t[1])[:200]} for t in good[len(good) // 2:len(good) // 2 + 2]],
            valid=len(good), invalid=len(bad))


def run_named(x):
    return x[0], run_job(x[1])


def run_job(job):
    if job[0] == "good1":
        d = check_one(job[1][0][0], job[1][0][1], job[2])
        return ([(job[1][0][0], d)] if d else []), 1
    return batch(job)


def noeol(job):
    """texts that are whole files, with no newline at their end"""
    out = []
    for t in job:
        try:
            m = clex.lex(t)
        except clex.Mixed:
            continue
        except clex.Invalid:
            m = None
        for opts in ([], ["-P"]):
            r = core.kefir(["--dump-tokens"] + opts, t.encode(), 20000)
            if m is None:
                bad = None if r.rejected or opts else "no valid tokenisation, but the compiler %s" % ("timed out" if r.timed_out else "crashed" if r.crashed else "accepted it")
                if opts and (r.timed_out or r.crashed):
                    bad = "the compiler hangs or crashes"
            elif not r.ok:
                bad = "expected %r but the compiler failed: %s" % (m, show(r))
            else:
                got = clex.load_dump(r.out)
                bad = None if clex.same(m, got[:-1]) else "expected %r\ngot      %r" % (m, got[:-1])
            if bad:
                out.append((t, bad))
    return out, len(job)


def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(alpha, repeat=n):
            yield "".join(w)


def run(chk):
    q = chk.quick
    core.build_kserve()
    P = list("[](){}.-+&*~!/%<>=^|?:;,#")
    explore(chk, "punctuators", ("x " + w for w in words(P, 1, 2)))
    explore(chk, "punctuators, longer", ("x " + w for w in words(list("<>%:=.-+&#|/"), 3, 3 if q else 4)))
    explore(chk, "punctuators and names", ("x " + "".join(w) for w in itertools.product(["a", "1", "", " "], P, P, ["b", "2", ".5", ""])))
    explore(chk, "percent-colon and dot runs", ("x " + w for w in words(list("%:.1"), 4, 6 if q else 8)))
    explore(chk, "numbers", words(list("0189axXepPuUlLfF.+_")[:: 1], 1, 3) if q else words(list("0189axXepPuUlLfF.+_"), 1, 4))
    explore(chk, "numbers, longer", words(list("01xep.+") if q else list("018xepfu.+-L"), 4, 5))
    explore(chk, "numbers, with text around", ("%s%s%s" % (a, n, b) for a in ("", "a", ".", "-", "(", "\"s\"") for n in ("0", "7", "08", "1.", ".5", "1e5", "0x1p-3", "1u", "1ULL", "2.5f", "0xFUL", "1.5e+3L") for b in ("", "a", ".", "+1", "-", "e", "e+", "u", "'c'", "\"s\"", "\\\n5", "/**/5", " 5", "...")))
    explore(chk, "quotes and prefixes", words(["a", "L", "u", "U", "8", "'", '"', "\\", "n"], 1, 5 if q else 6))
    explore(chk, "escapes", (p + quote + w + quote for p in ("", "L", "u", "U", "u8") for quote in "'\"" for w in words(["\\", "x", "0", "7", "8", "f", "u", "'", "n"], 1, 3 if q else 4)))
    explore(chk, "comments and splices", words(["/", "*", "\\\n", "\n", "a", '"', "'"], 1, 6 if q else 7))
    explore(chk, "comments and punctuators", ("x " + w for w in words(["/", "*", "=", "a", "\\\n", " ", "-"], 1, 5 if q else 6)))
    eof = [w for w in words(["/", "*", "\\", "\n", "a", '"', "'", "0", "x", "L", "."], 1, 3 if q else 4)]
    for viol, k in core.pmap(noeol, core.chunks(eof, 100)):
        for t, d in viol:
            chk.violation("whole file: %r" % t, d, t)
        chk.add("whole files without final newline", states=k, transitions=2 * k, traces=2 * k)
    kws = sorted(clex.KEYWORDS | set(clex.EXT_KEYWORDS))
    edits = []
    for k in kws:
        edits += [k, k.upper(), "_" + k, k + "_", k + "1", "1" + k] + [k[:i] + k[i + 1:] for i in range(len(k))] + [k[:i] + "\\\n" + k[i:] for i in range(len(k) + 1)] + [k[:i] + " " + k[i:] for i in range(1, len(k))]
        edits += [k[:i] + "x" + k[i + 1:] for i in range(len(k))] + [k[:i] + "_" + k[i:] for i in range(len(k))] + [k + p for p in "+(.'\"" if p not in "'\""]
        edits += [k[:i] + "\\u00%02x" % ord(k[i]) + k[i + 1:] for i in (0, len(k) - 1)]
    explore(chk, "keywords and their edits", edits)
    pref = [w for w in words(list("LuU8R"), 1, 3)]
    explore(chk, "literal prefixes", (p + mid + l for p in pref for mid in ("", " ", "\\\n", "/**/") for l in ("'a'", '"a"', "x", "1")))
    ucn = ["\\u00e9", "\\u4e2d", "\\U000000e9", "\\U0001F600", "\\u0024", "\\u0040", "\\u0041", "\\u00a0", "\\u009f", "\\ud800", "\\udfff", "\\uE000", "\\U00110000", "\\U0010FFFF", "\\u12", "\\u123g", "\\U1234567", "\\u", "\\U", "\\Uffffffff"]
    explore(chk, "universal character names", [a + n + b for n in ucn for a in ("", "a", "a1", "\"", "L\"", "u\"", "U\"", "u8\"", "L'", "U'", "u'") for b in (("", "b", "1") if a[-1:] not in "'\"" or a == "" else (a[-1:],)) if a[-1:] in ("'", '"') or n not in ("\\u0024", "\\u0040")] + ["\\u00e9\\u4e2d", "a\\\nb", "\\\\\nu00e9", "\\u00\\\ne9"])
    explore(chk, "characters", [chr(c) for c in range(1, 127) if chr(c) != "#"] + ["a" + chr(c) + "b" for c in range(1, 127) if chr(c) != "#"] + ["\"a" + chr(c) + "b\"" for c in range(1, 127)] + ["'" + chr(c) + "'" for c in range(1, 127)]
            + ["\"%s\"" % c for c in ("é", "中", "😀", "é中😀")] + ["L'%s'" % c for c in ("é", "中", "😀")] + ["U'%s'" % c for c in ("é", "中", "😀")] + ["u'%s'" % c for c in ("é", "中")])
    explore(chk, "identifier lengths", ["a" * n for n in range(1, 255, 7)] + ["\\u00e9" * n for n in (1, 60, 63)] + ["a" * n + "b" for n in (62, 63, 64, 126, 127, 128, 253)])
    explore(chk, "adjacent literals", ("%s%s%s" % (a, s, b) for a in ('""', '"a"', 'L"a"', 'u"a"', 'U"a"', 'u8"a"', '"\\x1"', 'L"\\x1"') for s in ("", " ", "\n", "/**/", "\\\n", "//\n") for b in ('""', '"1"', 'L"1"', 'u"1"', 'U"1"', 'u8"1"', "'1'", "x", '"b" L"c"', '"b" "c"', 'L"b" "c"')))
    return chk.finish()

"""Preprocessor comparison: many small independent texts are preprocessed in one file by the real compiler (-p) and by the
reference (gcc -E); the token sequences between separators are compared. Texts the reference diagnoses are classified."""
import re, subprocess
from . import core

TOK = re.compile(r'''(?:u8|[LuU])?"(?:\\.|[^"\\\n])*"|[LuU]?'(?:\\.|[^'\\\n])*'|\.?\d(?:[eEpP][+-]|[\w.])*|[^\W\d]\w*|\.\.\.|<<=|>>=|%:%:|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\*=|/=|%=|\+=|-=|&=|\^=|\|=|\#\#|<:|:>|<%|%>|%:|[^\s]''')
SEP = "Zsep"
GFLAGS = ["gcc", "-E", "-P", "-std=c17", "-x", "c", "-fno-diagnostics-show-caret", "-fmax-errors=0", "-ftrack-macro-expansion=0", "-Wno-builtin-macro-redefined"]


ESC = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "f": 12, "v": 11}
ELEM = re.compile(r"\\x([0-9a-fA-F]+)|\\([0-7]{1,3})|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\(.)|(.)", re.S)


DIGRAPHS = {"<:": "[", ":>": "]", "<%": "{", "%>": "}", "%:": "#", "%:%:": "##"}


def value(t):
    """a literal with every element in one canonical spelling (the compiler may respell literals, not change them)"""
    i = min([k for k in (t.find('"'), t.find("'")) if k >= 0], default=-1)
    if i < 0 or t[:i] not in ("", "u8", "L", "u", "U") or len(t) < i + 2:
        return DIGRAPHS.get(t, t)
    out = []
    narrow = t[:i] in ("", "u8")
    for h, o, u, U, e, c in ELEM.findall(t[i + 1:-1]):
        if h or o:
            out.append(int(h, 16) if h else int(o, 8))
        elif u or U or c or e not in ESC:
            ch = chr(int(u or U, 16)) if u or U else c or e
            if narrow:
                out += ch.encode("utf-8", "surrogatepass")
            elif t[:i] == "u" and ord(ch) > 0xffff:
                out += [0xd800 + (ord(ch) - 0x10000 >> 10), 0xdc00 + (ord(ch) & 0x3ff)]
            else:
                out.append(ord(ch))
        else:
            out.append(ESC[e])
    return t[:i + 1] + "".join(chr(x) if 32 <= x < 127 and x not in (34, 39, 92) else "<%x>" % x for x in out) + t[-1]


def tokens(text):
    return [value(t) for t in TOK.findall(text)]


def split(text):
    """the token lists between separators"""
    out, cur = [], []
    for t in TOK.findall(text):
        if t == SEP:
            out.append(cur)
            cur = []
        else:
            cur.append(value(t))
    return out


def build(cases):
    """cases: list of texts; -> (file, list of first lines)"""
    lines, starts = [], []
    for c in cases:
        starts.append(len(lines) + 1)
        lines += c.split("\n")
        lines.append(SEP)
    return "\n".join(lines) + "\n", starts


def gcc(text, flags=(), cwd=None):
    r = subprocess.run(GFLAGS + list(flags) + ["-"], input=text.encode("utf-8", "surrogatepass"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd)
    # a preprocessor may but need not hand pragmas on
    return re.sub(r"(?m)^#pragma.*$", "", r.stdout.decode("utf-8", "replace")), r.stderr.decode("utf-8", "replace"), r.returncode


def reference(cases, flags=("-pedantic-errors",)):
    """-> list of token lists, None where the reference diagnoses the text (or it swallows its separator)"""
    import bisect
    res = [None] * len(cases)
    todo = list(range(len(cases)))
    while todo:
        text, starts = build([cases[i] for i in todo])
        out, err, rc = gcc(text, flags)
        bad = set()
        for m in re.finditer(r"^<stdin>:(\d+):(?:\d+:)? (?:fatal )?error", err, re.M):
            bad.add(bisect.bisect_right(starts, int(m.group(1))) - 1)
        if not bad:
            if rc:
                raise core.CheckError("reference preprocessor failed: " + err[:500])
            parts = split(out)
            if len(parts) != len(todo):
                raise core.CheckError("a text swallows its separator: %d of %d\n%s" % (len(parts), len(todo), text[:600]))
            for i, p in zip(todo, parts):
                res[i] = p
            break
        todo = [i for k, i in enumerate(todo) if k not in bad]
    return res


def kefir(text, opts=()):
    return core.kefir(["-p"] + list(opts), text.encode("utf-8", "surrogatepass"), 20000)


def compare(cases, opts=(), flags=(), accept=None):
    """cases: [(key, text)]; -> (compared, excluded, transitions, [(key, detail, text)])"""
    refs = reference([t for _, t in cases], tuple(flags) + ("-pedantic-errors",))
    good = [(k, t, r) for (k, t), r in zip(cases, refs) if r is not None]
    bad = []
    _compare(good, opts, bad, accept)
    return len(good), len(cases) - len(good), sum(len(r) for _, _, r in good), bad


def _compare(good, opts, bad, accept):
    if not good:
        return
    text, _ = build([t for _, t, _ in good])
    r = kefir(text, opts)
    parts = split(r.out.decode("utf-8", "replace")) if r.ok else None
    if parts is not None and len(parts) == len(good):
        for (k, t, ref), got in zip(good, parts):
            if got != ref and not (accept and accept(t, ref, got)):
                if len(good) > 1:
                    _compare([(k, t, ref)], opts, bad, accept)
                    if not bad or bad[-1][0] != k:
                        bad.append((k, "expected %s\ngot      %s\n(only after the texts before it)" % (" ".join(ref), " ".join(got)), text))
                else:
                    bad.append((k, "expected %s\ngot      %s" % (" ".join(ref), " ".join(got)), t))
        return
    if len(good) == 1:
        k, t, ref = good[0]
        bad.append((k, "expected %s\nbut the preprocessor %s: %s" % (" ".join(ref), r.describe() if not r.ok else "loses the following line", (r.err or r.out)[:300].decode("utf-8", "replace")), t))
        return
    h = len(good) // 2
    _compare(good[:h], opts, bad, accept)
    _compare(good[h:], opts, bad, accept)


def _job(a):
    cases, opts, flags, accept = a
    return compare(cases, opts, flags, accept)


def explore(chk, part, cases, per=60, opts=(), flags=(), accept=None):
    core.build_kserve()
    n = ex = tr = 0
    first = None
    for k, e, t, bad in core.pmap(_job, ((b, opts, flags, accept) for b in core.chunks(cases, per))):
        n += k
        ex += e
        tr += t
        for key, why, text in bad:
            chk.violation("%s: %s" % (part, key), why, text)
        if chk.too_many():
            break
    chk.add(part, states=n, transitions=tr, traces=n, excluded=ex)
    return n


def _rej(job):
    out = []
    for key, text, opts in job:
        r = kefir(text, opts)
        if not r.rejected:
            out.append((key, text, "timed out" if r.timed_out else "crashed" if r.crashed else "accepted it as: " + r.out.decode("utf-8", "replace")[:200]))
    return len(job), out


def refused(chk, part, items):
    """items: [(key, text, opts)] every one of which has to be diagnosed"""
    core.build_kserve()
    n = 0
    for k, out in core.pmap(_rej, core.chunks(items, 60)):
        n += k
        for key, text, why in out:
            chk.violation("%s: %s" % (part, key), "has to be diagnosed, but the preprocessor " + why, text)
    chk.add(part, states=n, transitions=n, traces=n)

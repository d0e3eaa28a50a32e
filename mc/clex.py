"""A reference lexer for C17 (translation phases 2, 3, 5, 6 and 7) for x86-64 System V, UTF-8 in and out.

Written from ISO/IEC 9899:2018 5.1.1.2 and 6.4, not from the compiler. lex(text) returns the token list or raises
Invalid. A token is one of
  ("id", name) ("kw", word) ("p", spelling) ("int", type, value) ("flt", type, Fraction) ("chr", kind, value or None)
  ("str", kind, (units...))
chr with value None: implementation-defined value that is not compared; ("flt", type, None): value out of range.
"""
import re
from fractions import Fraction

KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if inline int long
register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while _Alignas
_Alignof _Atomic _Bool _Complex _Generic _Imaginary _Noreturn _Static_assert _Thread_local""".split())
EXT_KEYWORDS = {"__attribute__": "__attribute__", "__asm__": "asm", "asm": "asm"}
PUNCT = """[ ] ( ) { } . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : ; ... = *= /= %= += -= <<= >>= &= ^=
|= , # ## <: :> <% %> %: %:%:""".split()
_PUNCT_SET = set(PUNCT)
_DIG = "0123456789"
_ND = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
_HEX = "0123456789abcdefABCDEF"


class Invalid(Exception):
    pass


class Mixed(Invalid):
    pass


def splice(text):
    return text.replace("\\\n", "")


# ------------------------------------------------------------------------------------------- numbers
def rnd(x, prec, emin, emax):
    """Round-to-nearest-even of a non-negative Fraction to a binary format; None when it overflows."""
    if x == 0:
        return x
    n, d = x.numerator, x.denominator
    e = n.bit_length() - d.bit_length()
    if Fraction(n, d) < (Fraction(1 << e) if e >= 0 else Fraction(1, 1 << -e)):
        e -= 1
    q = max(e, emin) - (prec - 1)
    ulp = Fraction(1 << q) if q >= 0 else Fraction(1, 1 << -q)
    m = x / ulp
    i = m.numerator // m.denominator
    f = m - i
    if f > Fraction(1, 2) or (f == Fraction(1, 2) and i & 1):
        i += 1
    r = i * ulp
    if r >= Fraction(1 << (emax + 1)):
        return None
    return r


FMT = {"double": (53, -1022, 1023), "float": (24, -126, 127), "long_double": (64, -16382, 16383)}
_DEC = re.compile(r"(?:(\d*)\.(\d+)|(\d+)\.?)(?:[eE]([+-]?\d+))?([fFlL]?)\Z")
_HEXF = re.compile(r"0[xX](?:([0-9a-fA-F]*)\.([0-9a-fA-F]+)|([0-9a-fA-F]+)\.?)[pP]([+-]?\d+)([fFlL]?)\Z")
_INT = re.compile(r"(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)((?:[uU](?:ll|LL|[lL])?|(?:ll|LL|[lL])[uU]?)?)\Z")


def number(s):
    m = _INT.match(s)
    if m:
        body, suf = m.groups()
        dec = body[0] != "0"
        v = int(body, 16) if body[:2] in ("0x", "0X") else int(body, 8) if body[0] == "0" else int(body)
        suf = suf.lower()
        u, l = "u" in suf, suf.replace("u", "")
        chain = [("integer", 31), ("unsigned", 32), ("long_integer", 63), ("long_unsigned", 64),
                 ("long_long_integer", 63), ("long_long_unsigned", 64)]
        chain = chain[{"": 0, "l": 2, "ll": 4}[l]:]
        for t, bits in chain:
            uns = t.endswith("unsigned")
            if u and not uns:
                continue
            if not u and uns and dec:
                continue
            if v < (1 << bits):
                return ("int", t, v)
        raise Invalid("integer constant too large")
    m = _HEXF.match(s)
    if m:
        a, b, c, e, suf = m.groups()
        digits = (a + b) if b is not None else c
        sc = int(e) - 4 * (len(b) if b is not None else 0)
        v = int(digits, 16)
        base = 2
    else:
        m = _DEC.match(s)
        if not m:
            raise Invalid("bad pp-number %s" % s)
        a, b, c, e, suf = m.groups()
        if b is None and "." not in s and e is None:
            raise Invalid("bad pp-number %s" % s)
        digits = (a + b) if b is not None else c
        sc = int(e or "0") - (len(b) if b is not None else 0)
        v = int(digits)
        base = 10
    t = {"": "double", "f": "float", "l": "long_double"}[suf.lower()]
    if v == 0:
        return ("flt", t, Fraction(0))
    if abs(sc) > 30000:
        return ("flt", t, None if sc > 0 else Fraction(0))
    x = Fraction(v) * (Fraction(base) ** sc)
    return ("flt", t, rnd(x, *FMT[t]))


# ------------------------------------------------------------------------------------------- literals
_SIMPLE = {"'": 39, '"': 34, "?": 63, "\\": 92, "a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11}


def ucn_ok(c):
    return not (c < 0xA0 and c not in (0x24, 0x40, 0x60)) and not 0xD800 <= c <= 0xDFFF and c <= 0x10FFFF


def escape(s, i):
    """s[i] == '\\'; returns (is_raw, value, next)."""
    c = s[i + 1] if i + 1 < len(s) else ""
    if c and c in _SIMPLE:
        return False, _SIMPLE[c], i + 2
    if c and c in "01234567":
        j = i + 1
        while j < len(s) and j < i + 4 and s[j] in "01234567":
            j += 1
        return True, int(s[i + 1:j], 8), j
    if c == "x":
        j = i + 2
        while j < len(s) and s[j] in _HEX:
            j += 1
        if j == i + 2:
            raise Invalid("empty hexadecimal escape")
        return True, int(s[i + 2:j], 16), j
    if c in ("u", "U") and c:
        v, j = ucn(s, i)
        return False, v, j
    raise Invalid("unknown escape")


def ucn(s, i):
    n = 4 if s[i + 1] == "u" else 8
    h = s[i + 2:i + 2 + n]
    if len(h) != n or any(x not in _HEX for x in h):
        raise Invalid("incomplete universal character name")
    v = int(h, 16)
    if not ucn_ok(v):
        raise Invalid("universal character name designates a basic character or a surrogate")
    return v, i + 2 + n


WIDTH = {"multibyte": 8, "unicode8": 8, "unicode16": 16, "unicode32": 32, "wide": 32, "char": 8}


def encode(kind, raw, v):
    w = WIDTH[kind]
    if raw:
        if v >= (1 << w):
            raise Invalid("escape out of range")
        return [v]
    if w == 8:
        return list(chr(v).encode("utf-8"))
    if w == 16:
        b = chr(v).encode("utf-16-le")
        return [b[k] | b[k + 1] << 8 for k in range(0, len(b), 2)]
    return [v]


def quoted(s, i, q):
    """Parses from just after the opening quote; returns (list of (raw, value), next)."""
    out = []
    while True:
        if i >= len(s) or s[i] == "\n":
            raise Invalid("unterminated literal")
        c = s[i]
        if c == q:
            return out, i + 1
        if c == "\\":
            raw, v, i = escape(s, i)
            out.append((raw, v))
        else:
            out.append((False, ord(c)))
            i += 1


def character(kind, items):
    if not items:
        raise Invalid("empty character constant")
    enc = [encode(kind, r, v) for r, v in items]
    units = [u for e in enc for u in e]
    if kind == "char":
        if len(units) == 1:
            v = units[0]
            return ("chr", kind, v - 256 if v >= 128 else v)
        return ("chr", kind, None)
    if len(units) != 1:
        return ("chr", kind, None)
    v = units[0]
    if kind == "wide" and v >= 1 << 31:
        v -= 1 << 32
    return ("chr", {"wide": "wide_char", "unicode16": "unicode16_char", "unicode32": "unicode32_char"}[kind], v)


SPACE = " \t\v\f\n\r"


def pptokens(text):
    """Preprocessing tokens of a text without directives: (kind, spelling/payload, space before)."""
    s = splice(text)
    i, n, out, sp = 0, len(s), [], False
    while i < n:
        c = s[i]
        if c in SPACE:
            i += 1
            sp = True
            continue
        if s.startswith("//", i):
            while i < n and s[i] != "\n":
                i += 1
            sp = True
            continue
        if s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                raise Invalid("unterminated comment")
            i = j + 2
            sp = True
            continue
        start = i
        m = re.compile(r'(u8|u|U|L|)"').match(s, i)
        if m:
            items, i = quoted(s, m.end(), '"')
            kind = {"u8": "unicode8", "u": "unicode16", "U": "unicode32", "L": "wide", "": "multibyte"}[m.group(1)]
            out.append(("str", (kind, items), sp, s[start:i]))
            sp = False
            continue
        m = re.compile(r"(u|U|L|)'").match(s, i)
        if m:
            items, i = quoted(s, m.end(), "'")
            kind = {"u": "unicode16", "U": "unicode32", "L": "wide", "": "char"}[m.group(1)]
            out.append(("chr", (kind, items), sp, s[start:i]))
            sp = False
            continue
        if c in _DIG or (c == "." and i + 1 < n and s[i + 1] in _DIG):
            i += 1
            while i < n:
                if s[i] in "eEpP" and i + 1 < n and s[i + 1] in "+-":
                    i += 2
                elif s[i] in _DIG or s[i] in _ND or s[i] == ".":
                    i += 1
                elif s[i] == "\\" and i + 1 < n and s[i + 1] in "uU":
                    _, i = ucn(s, i)
                else:
                    break
            out.append(("num", s[start:i], sp, s[start:i]))
            sp = False
            continue
        if c in _ND or (c == "\\" and i + 1 < n and s[i + 1] in "uU"):
            name = ""
            while i < n:
                if s[i] in _ND or s[i] in _DIG:
                    name += s[i]
                    i += 1
                elif s[i] == "\\" and i + 1 < n and s[i + 1] in "uU":
                    v, i = ucn(s, i)
                    name += chr(v)
                else:
                    break
            out.append(("id", name, sp, s[start:i]))
            sp = False
            continue
        for k in (4, 3, 2, 1):
            if s[i:i + k] in _PUNCT_SET and len(s[i:i + k]) == k:
                out.append(("p", s[i:i + k], sp, s[i:i + k]))
                i += k
                sp = False
                break
        else:
            raise Invalid("stray character %r" % c)
    return out


def lex(text):
    out = []
    pend = None
    toks = pptokens(text)
    i = 0
    while i < len(toks):
        kind, payload = toks[i][0], toks[i][1]
        if kind == "str":
            j = i
            k, pieces = "multibyte", []
            while j < len(toks) and toks[j][0] == "str":
                kk, items = toks[j][1]
                if kk != "multibyte":
                    if k != "multibyte" and k != kk:
                        break
                    k = kk
                pieces.append(items)
                j += 1
            if j < len(toks) and toks[j][0] == "str":
                raise Mixed("adjacent string literals with different encoding prefixes")
            units = []
            for it in pieces:
                for raw, v in it:
                    units += encode(k, raw, v)
            out.append(("str", k, tuple(units) + (0,)))
            i = j
            continue
        if kind == "chr":
            out.append(character(*payload))
        elif kind == "num":
            out.append(number(payload))
        elif kind == "id":
            if payload in KEYWORDS:
                out.append(("kw", payload))
            elif payload in EXT_KEYWORDS:
                out.append(("kw", EXT_KEYWORDS[payload]))
            else:
                out.append(("id", payload))
        else:
            out.append(("p", payload))
        i += 1
    return out


# --------------------------------------------------------------------------------- reading the compiler's dump
def hexfloat(s):
    m = re.match(r"(-?)0x([0-9a-f]+)(?:\.([0-9a-f]*))?p([+-]?\d+)\Z", s)
    if not m:
        return None
    f = m.group(3) or ""
    v = Fraction(int(m.group(2) + f, 16)) * Fraction(2) ** (int(m.group(4)) - 4 * len(f))
    return -v if m.group(1) else v


def from_json(t):
    c = t["class"]
    if c == "identifier":
        return ("id", t["identifier"])
    if c == "keyword":
        return ("kw", t["keyword"])
    if c == "punctuator":
        return ("p", t["punctuator"])
    if c == "constant":
        ty, v = t["type"], t["value"]
        if ty in ("float", "double", "long_double"):
            return ("flt", ty, hexfloat(v))
        if ty.endswith("char"):
            return ("chr", ty, v)
        return ("int", ty, v)
    if c == "string_literal":
        ty, v = t["type"], t["content"]
        if isinstance(v, str):
            # bytes of the literal; where it is not UTF-8 the dump shows each undecodable byte as U+00XX
            u = tuple(v.encode("utf-8", "surrogatepass"))
            if len(u) != t["length"]:
                u = tuple(min(ord(x), 255) for x in v) if len(v) == t["length"] else ("?", v, t["length"])
            return ("str", ty, u)
        return ("str", ty, tuple(v) if len(v) == t["length"] else ("?", tuple(v), t["length"]))
    return (c, None)


def norm(t):
    return ("kw", t[1].strip("_").lower()) if t[0] == "kw" else t


def same(model, got):
    if len(model) != len(got):
        return False
    for a, b in zip(model, got):
        if norm(a) == norm(b):
            continue
        if a[0] == b[0] == "chr" and a[2] is None and (a[1] == b[1] or b[1].startswith(a[1])):
            continue
        if a[0] == b[0] == "flt" and a[2] is None and a[1] == b[1]:
            continue
        return False
    return True


_CESC = {"a": "\\u0007", "v": "\\u000b", "?": "?"}


def load_dump(out):
    """Parses --dump-tokens output. The three C escapes the repository's own tests pin in literal contents are
    translated first (see C26)."""
    import json
    t = out.decode("utf-8") if isinstance(out, bytes) else out
    t = re.sub(r"\\(.)", lambda m: _CESC.get(m.group(1), m.group(0)), t, flags=re.S)
    return [from_json(x) for x in json.loads(t)]

"""C02: floating-point expressions (float, double, long double) compute what C17/IEEE define."""
TECHNIQUE = 'exhaustive enumeration of floating expressions and valuations, replayed on compiled code against a reference executor'
NOTE = 'Every operator, type pair and conversion in the bound is run on every valuation of value sets holding all IEEE special classes, compared bit for bit with gcc. Trusts gcc and the value sets; NaN payloads ignored.'
import math, struct
from mc import core, valdiff
from mc.valdiff import VCase, INT_TYPES, iset

F = ["float", "double", "long double"]
T = list(INT_TYPES)
SIG = "void t@(const unsigned long long *v, unsigned long long *o)"
M64 = (1 << 64) - 1


def ld_bits(mant, exp):  # mant * 2^exp, mant an int (exactly representable in 64 bits)
    s = 0x8000 if mant < 0 else 0
    m = abs(mant)
    if m == 0:
        return (0, s)
    sh = 64 - m.bit_length()
    return ((m << sh) & M64, s | (exp - sh + 63 + 16383))


def f32(x):
    return (struct.unpack("<I", struct.pack("<f", x))[0], 0)


def f64(x):
    return (struct.unpack("<Q", struct.pack("<d", x))[0], 0)


def fld(x):
    if x != x:
        return (0xC000000000000000, 0x7fff)
    if math.isinf(x):
        return (1 << 63, 0x7fff if x > 0 else 0xffff)
    if x == 0:
        return (0, 0x8000 if math.copysign(1, x) < 0 else 0)
    m, e = math.frexp(x)
    return ld_bits(int(m * (1 << 60)), e - 60)


COMMON = [0.0, 1.0, -1.0, 0.5, -0.5, 2.5, -2.5, 3.0, 0.1, 127.0, -128.5, 255.0, 65535.0, 1e10, -1e10, 2147483647.0, 2147483648.0, -2147483648.0, 4294967296.0, 16777216.0, 16777217.0,
          9007199254740993.0, 9223372036854775808.0, 1.8e19, 1e-10]
SPECIAL = [-0.0, math.inf, -math.inf, math.nan]
SMALL = [0.0, 1.0, -1.0, 0.5, -2.5, 3.0, 0.1, 1e10, 16777217.0]


def fset(t, which="full"):
    enc = {"float": f32, "double": f64, "long double": fld}[t]
    if which == "small":
        return [enc(x) for x in SMALL + [math.inf, math.nan, -0.0]]
    xs = list(COMMON)
    if which in ("full",):
        xs += SPECIAL
    if which == "truth":     # no negative zero: see the separate cases
        xs += [math.inf, -math.inf, math.nan]
    if which == "whole":     # no fraction inside (-1, 1), nothing at or above 2^63
        return [enc(x) for x in COMMON if (x == 0 or abs(x) >= 1) and x < 2.0 ** 63]
    vals = [enc(x) for x in xs]
    if which == "full":
        if t == "float":
            vals += [(b, 0) for b in (0x00000001, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x3f800001, 0x33800000)]
        elif t == "double":
            vals += [(b, 0) for b in (1, 0x8000000000000001, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x3ff0000000000001,
                                      0x3690000000000000, 0x47efffffe0000000, 0x47efffffefffffff, 0x3810000000000000, 0x43dfffffffffffff, 0x43f0000000000000 - 1)]
        else:
            vals += [(1, 0), (M64, 0x7ffe), (1 << 63, 1), (M64, 16383 + 62), (M64, 16383 + 63), ld_bits((1 << 63) + 1, 0), ld_bits((1 << 53) + 1, 0), ((1 << 63) | 1, 16383), (M64, 16383 + 127)]
    out = []
    for v in vals:
        if v not in out:
            out.append(v)
    return out


def arg(t, n, i):
    if t in F:
        return "%s %s = *(const %s *) (v + %d);" % (t, n, t, 2 * i)
    return "%s %s = (%s) v[%d];" % (t, n, t, 2 * i)


KIND = {"float": "f", "double": "d", "long double": "l"}


def common(a, b):
    for t in ("long double", "double", "float"):
        if t in (a, b):
            return t
    return None


def ret(t, e):
    if t in F:
        return "*(%s *) o = %s;" % (t, e), KIND[t]
    return "o[0] = (unsigned long long) (%s);" % e, "u"


def case(key, args, body, sets, kind="u"):
    return VCase(key, "%s { %s %s }" % (SIG, " ".join(arg(t, n, i) for i, (t, n) in enumerate(args)), body), sets, kind)


def unary():
    for t in F:
        for op in ("+", "-", "- -", "+ -"):
            b, k = ret(t, "%s a" % op)
            yield case("%s%s" % (op, t), [(t, "a")], b, [t], k)
        yield case("!%s" % t, [(t, "a")], "o[0] = !a; o[1] = !!a; o[2] = sizeof(!a);", [t + " truth"])
        yield case("store/load %s" % t, [(t, "a")], "%s x; %s *p = &x; *p = a; %s" % (t, t, ret(t, "*p")[0]), [t], KIND[t])


ARITH = ["+", "-", "*", "/"]
REL = ["<", ">", "<=", ">=", "==", "!="]


def binary():
    for a in F + T:
        for b in F + T:
            c = common(a, b)
            if c is None:
                continue
            for op in ARITH:
                body, k = ret(c, "a %s b" % op)
                yield case("%s %s %s" % (a, op, b), [(a, "a"), (b, "b")], body + (" o[3] = sizeof(a %s b);" % op), [a, b], k)
            for op in REL:
                yield case("%s %s %s" % (a, op, b), [(a, "a"), (b, "b")], "o[0] = a %s b; o[1] = sizeof(a %s b); if (a %s b) o[2] = 5; o[3] = !(a %s b);" % (op, op, op, op), [a, b])
            for op in ("&&", "||"):
                yield case("%s %s %s" % (a, op, b), [(a, "a"), (b, "b")], "o[0] = a %s b; if (a %s b) o[1] = 3;" % (op, op),
                           [t + " truth" if t in F else t for t in (a, b)])


def conversions():
    for a in F:
        for b in F:
            for c in F:
                body, k = ret(c, "(%s) (%s) a" % (c, b))
                yield case("cast %s->%s->%s" % (a, b, c), [(a, "a")], body, ["tie " + a], k)
            body, k = ret(b, "a")
            yield VCase("implicit %s->%s" % (a, b), "static %s r@(%s x) { return x; } static %s p@(%s x) { return x; } %s { %s %s x = a; %s y; y = a; %s o[2] = (x == y || x != x) && (r@(a) == x || x != x) && (p@(a) == x || x != x); }" % (
                b, a, b, b, SIG, arg(a, "a", 0), b, b, ret(b, "x")[0]), ["tie " + a], k)
    for a in T:
        for b in F:
            body, k = ret(b, "(%s) a" % b)
            yield case("cast %s->%s" % (a, b), [(a, "a")], body, ["round " + a], k)
            body, k = ret(b, "y")
            yield case("implicit %s->%s" % (a, b), [(a, "a")], "%s y; y = a; %s" % (b, body), ["round " + a], k)
    for a in F:
        for b in T:
            s = a if b not in ("_Bool", "unsigned long", "unsigned long long") else a + " whole"
            yield case("cast %s->%s" % (a, b), [(a, "a")], "o[0] = (unsigned long long) (%s) a; %s x = a; o[1] = x; x = 1; x = a; o[2] = x;" % (b, b), [s])
            if b == "_Bool":
                yield case("fraction %s->_Bool" % a, [(a, "a")], "o[0] = (_Bool) a;", [a + " fraction"])
            elif s != a:
                yield case("huge %s->%s" % (a, b), [(a, "a")], "o[0] = (%s) a;" % b, [a + " huge"])


def control():
    for a in F:
        yield case("if (%s)" % a, [(a, "a")], "if (a) o[0] = 1; else o[0] = 2; o[1] = 1; while (a) { o[1] = 2; break; } o[2] = 1; for (; a; ) { o[2] = 2; break; } o[3] = 0; do { o[3]++; if (o[3] > 3) break; } while (a);", [a])
        yield case("%s ? :" % a, [(a, "a")], "o[0] = a ? 3 : 4;", [a + " truth"])
        for b in F + T:
            if b == a:
                yield case("c ? %s : %s" % (a, b), [("int", "c"), (a, "a"), (b, "b")], ret(a, "c ? a : b")[0], ["bit", a + " small", b + " small"], KIND[a])
            else:
                body, k = ret(common(a, b), "c ? a : b")
                yield case("mixed c ? %s : %s" % (a, b), [("int", "c"), (a, "a"), (b, "b")], body, ["bit", a + " small", (b + " small") if b in F else b], k)
                body, k = ret(common(a, b), "c ? b : a")
                yield case("mixed c ? %s : %s" % (b, a), [("int", "c"), (a, "a"), (b, "b")], body, ["bit", a + " small", (b + " small") if b in F else b], k)
        # truth of negative zero and of a value narrowed to zero
        yield case("negative zero %s" % a, [(a, "a")], "o[0] = !a; o[1] = a ? 1 : 2; o[2] = a && 1; o[3] = a || 0;", [a + " negzero"])
    yield case("narrowed zero (float) double", [("double", "a")], "o[0] = !(float) a; o[1] = (float) a ? 1 : 2; o[2] = (float) a && 1; o[3] = (float) a || 0;", ["tiny"])
    yield case("narrowed zero float product", [("float", "a"), ("float", "b")], "o[0] = !(a * b); o[1] = (a * b) ? 1 : 2; o[2] = (a * b) && 1; o[3] = (a * b) || 0;", ["ftiny", "ftiny"])
    yield case("narrowed zero double product", [("double", "a"), ("double", "b")], "o[0] = !(a * b); o[1] = (a * b) ? 1 : 2; o[2] = (a * b) && 1; o[3] = (a * b) || 0;", ["tiny", "tiny"])
    yield case("float of int difference", [("int", "a"), ("int", "b")], "o[0] = !(float) (a - b); o[1] = (float) (a - b) ? 1 : 2;", ["bit", "bit"])


def depth2(ts, ops, size):
    for a in ts:
        for b in ts:
            for c in ts:
                r = common(common(a, b) or "int", c)
                if r is None:
                    continue
                for o1 in ops:
                    for o2 in ops:
                        body, k = ret(r, "(a %s b) %s c" % (o1, o2))
                        if r in F:
                            yield case("(%s %s %s) %s %s" % (a, o1, b, o2, c), [(a, "a"), (b, "b"), (c, "c")], body, [x + " " + size for x in (a, b, c)], k)
                            body, k = ret(r, "c %s (a %s b)" % (o2, o1))
                            yield case("%s %s (%s %s %s)" % (c, o2, a, o1, b), [(a, "a"), (b, "b"), (c, "c")], body, [x + " " + size for x in (a, b, c)], k)


def compound():
    for a in F + T:
        for b in F + T:
            if common(a, b) is None:
                continue
            for op in ARITH:
                # the result converted back to the left operand's type may be out of range: the reference traps and it is skipped
                body, k = ret(a, "a")
                if a in ("_Bool",):
                    continue
                s = [a + " mid" if a in F else a, b + " mid" if b in F else b]
                if a in ("unsigned long", "unsigned long long"):
                    s = ["small " + a, b + " mid"]
                yield case("%s %s= %s" % (a, op, b), [(a, "a"), (b, "b")], "a %s= b; %s" % (op, body), s, k)
    for a in F:
        for e in ("++a", "--a", "a++", "a--"):
            yield case("%s %s" % (e, a), [(a, "a")], "%s r; r = %s; o[2] = r == a || r != r; %s" % (a, e, ret(a, "a")[0]), [a], KIND[a])
            yield case("value of %s %s" % (e, a), [(a, "a")], ret(a, e)[0], [a], KIND[a])


def round_ints(t):
    """values whose conversion to a 24-, 53- or 64-bit significand has to round: every side of a tie, at every magnitude"""
    bits, sg = INT_TYPES[t]
    hi = (1 << (bits - 1)) - 1 if sg else (1 << bits) - 1
    out = [v & M64 for v, _ in iset(t)]
    for p in (24, 53):
        for top in range(p, bits - (1 if sg else 0)):
            ulp = 1 << (top - p + 1)
            for base in (1 << top, (1 << top) + ulp, (2 << top) - ulp):
                for d in {-1, 0, 1, ulp // 2, ulp // 2 - 1, ulp // 2 + 1}:
                    for x in (base + d, -(base + d) if sg else 0):
                        if -hi - 1 <= x <= hi:
                            out.append(x & M64)
    return [(x, 0) for x in dict.fromkeys(out)]


def tie_floats(t):
    if t == "double":
        return [(0x3ff0000010000000 + d, 0) for d in (-1, 0, 1)] + [(0x3ff0000030000000 + d, 0) for d in (-1, 0, 1)] + [(0x3810000010000000 >> 1, 0), (0x36a0000000000000, 0), (0x36a0000000000001, 0), (0x3690000000000001, 0), (0xbff0000010000001, 0)]
    if t == "long double":
        one = 1 << 63
        r = []
        for k in (1 << 10, 3 << 10, 1 << 39, 3 << 39):
            for d in (-1, 0, 1):
                r += [(one + k + d, 16383), (one + k + d, 16383 + 0x8000), (one + k + d, 16383 + 200), (one + k + d, 16383 - 1030), (one + k + d, 16383 - 140)]
        return r
    return []


def sets():
    s = {t: iset(t) for t in T}
    s.update({"round " + t: round_ints(t) for t in T})
    s.update({"small " + t: iset(t, "small") for t in T})
    s.update({t + " small": iset(t, "small") for t in T})
    for t in F:
        enc = {"float": f32, "double": f64, "long double": fld}[t]
        s[t] = fset(t)
        s["tie " + t] = fset(t) + tie_floats(t)
        for w in ("small", "truth", "whole"):
            s[t + " " + w] = fset(t, w)
        s[t + " fraction"] = [enc(x) for x in (0.5, -0.5, 0.1, 1e-10)]
        s[t + " huge"] = [enc(x) for x in (9223372036854775808.0, 1.5 * 2.0 ** 63, 2.0 ** 64 - 2.0 ** 41)]
        s[t + " negzero"] = [enc(-0.0)]
        s[t + " mid"] = [enc(x) for x in (0.0, 1.0, -1.0, 0.5, 2.5, -3.75, 100.0, 1000.5, 16777216.0)]
    s["bit"] = [(0, 0), (1, 0)]
    s["tiny"] = [f64(1e-200), f64(1e-300), f64(1e-100)]
    s["ftiny"] = [f32(1e-30), f32(1e-40), f32(2.0)]
    return s


def run(chk):
    S = sets()
    for n, g in (("unary", unary()), ("binary", binary()), ("conversions", conversions()), ("control", control()), ("compound", compound())):
        valdiff.explore(chk, n, g, S)
    if chk.quick:
        valdiff.explore(chk, "depth2", depth2(F + ["int", "unsigned long"], ["+", "-", "*", "/"], "small"), S, per_batch=30)
    else:
        valdiff.explore(chk, "depth2", depth2(F + ["int", "unsigned int", "long", "unsigned long", "short", "unsigned char"], ["+", "-", "*", "/"], "small"), S, per_batch=30)
    chk.assumptions += ["gcc (SSE for float/double, x87 for long double, round to nearest) is the reference; conversions it defines as undefined are skipped",
                        "NaN results are compared as NaN, without their payload"]
    return chk.finish()

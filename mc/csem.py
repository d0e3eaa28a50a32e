"""A small executable model of C17 integer arithmetic on LP64: types, promotions, conversions, operators.
Returns None where the standard leaves the operation undefined (or where the reference is not obliged to agree)."""
BITS = {"_Bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
        "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}
SIGNED = {t: not (t.startswith("unsigned") or t == "_Bool") for t in BITS}
RANK = {"_Bool": 0, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 3, "unsigned int": 3,
        "long": 4, "unsigned long": 4, "long long": 5, "unsigned long long": 5}


def rng(t):
    b = BITS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if SIGNED[t] else (0, (1 << b) - 1)


def conv(v, t):
    if t == "_Bool":
        return int(v != 0)
    b = BITS[t]
    v &= (1 << b) - 1
    if SIGNED[t] and v >> (b - 1):
        v -= 1 << b
    return v


def promote(t):
    return "int" if RANK[t] < 3 else t


def common(a, b):
    a, b = promote(a), promote(b)
    if a == b:
        return a
    if SIGNED[a] == SIGNED[b]:
        return a if RANK[a] > RANK[b] else b
    u, s = (a, b) if not SIGNED[a] else (b, a)
    if RANK[u] >= RANK[s]:
        return u
    if BITS[s] > BITS[u]:
        return s
    return "unsigned " + s


def tdiv(x, y):
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q


def binop(op, ta, a, tb, b):
    """-> (type, value) or None when undefined"""
    if op in ("&&", "||"):
        return "int", int((a != 0 and b != 0) if op == "&&" else (a != 0 or b != 0))
    if op in ("<<", ">>"):
        t = promote(ta)
        a, b = conv(a, t), conv(b, promote(tb))
        if b < 0 or b >= BITS[t]:
            return None
        if op == "<<":
            if SIGNED[t] and (a < 0 or (a << b) > rng(t)[1]):
                return None
            return t, conv(a << b, t)
        return t, a >> b
    t = common(ta, tb)
    a, b = conv(a, t), conv(b, t)
    if op in ("<", ">", "<=", ">=", "==", "!="):
        return "int", int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op])
    if op in ("/", "%"):
        if b == 0:
            return None
        r = tdiv(a, b) if op == "/" else a - tdiv(a, b) * b
        if SIGNED[t] and not rng(t)[0] <= tdiv(a, b) <= rng(t)[1]:
            return None
    else:
        r = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op]
    if SIGNED[t] and not rng(t)[0] <= r <= rng(t)[1]:
        return None
    return t, conv(r, t)


def unop(op, t, a):
    if op == "!":
        return "int", int(a == 0)
    t = promote(t)
    r = {"+": a, "-": -a, "~": ~a}[op]
    if SIGNED[t] and not rng(t)[0] <= r <= rng(t)[1]:
        return None
    return t, conv(r, t)


def lit(t, v):
    """a constant expression of type t with value v"""
    if t == "int":
        return "(-2147483647-1)" if v == -(1 << 31) else ("(%d)" % v if v < 0 else "%d" % v)
    if t == "unsigned int":
        return "%du" % v
    if t in ("long", "long long"):
        s = "l" if t == "long" else "ll"
        return "(-9223372036854775807%s-1)" % s if v == -(1 << 63) else ("(%d%s)" % (v, s) if v < 0 else "%d%s" % (v, s))
    if t == "unsigned long":
        return "%dul" % v
    if t == "unsigned long long":
        return "%dull" % v
    return "((%s)%s)" % (t, lit("int", v))

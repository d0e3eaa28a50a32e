"""C01: integer expressions compute what C17 defines, for every operator and every combination of integer types."""
TECHNIQUE = 'exhaustive enumeration of integer expressions and valuations, replayed on compiled code against a reference executor'
NOTE = 'Every operator, operand type pair and (thorough) depth-2 nesting in the bound is compiled by the real compiler and run on every valuation of boundary-value sets; the reference is gcc -O0 with undefined operations trapped and excluded. Trusts gcc and the value sets.'
from mc import core, valdiff
from mc.valdiff import VCase, INT_TYPES, iset

BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]
UN = ["+", "-", "~", "!"]
T = list(INT_TYPES)
SIG = "void t@(const unsigned long long *v, unsigned long long *o)"


def out(e):
    # value, size and signedness of the expression's type
    return "o[0] = (unsigned long long) (%s); o[1] = sizeof(%s);" % (e, e)


def arg(t, n, i):
    return "%s %s = (%s) v[%d];" % (t, n, t, 2 * i)


def unary():
    for t in T:
        for op in UN:
            yield VCase("%s%s" % (op, t), "%s { %s %s }" % (SIG, arg(t, "a", 0), out("%s a" % op)), [t])
            for op2 in UN:
                yield VCase("%s%s%s" % (op, op2, t), "%s { %s %s }" % (SIG, arg(t, "a", 0), out("%s (%s a)" % (op, op2))), [t])


def casts():
    for a in T:
        for b in T:
            for c in T:
                e = "(%s) (%s) a" % (c, b)
                yield VCase("cast %s->%s->%s" % (a, b, c), "%s { %s %s }" % (SIG, arg(a, "a", 0), out(e)), [a])
            # implicit conversions: assignment, initialisation, argument, return
            yield VCase("convert %s->%s" % (a, b),
                        "static %s r@(%s x) { return x; } static %s p@(%s x) { return x; } "
                        "%s { %s %s x = a; %s y; y = a; o[0] = x; o[1] = y; o[2] = r@(a); o[3] = p@(a); }" % (
                            b, a, b, b, SIG, arg(a, "a", 0), b, b), [a])


def binary():
    for a in T:
        for b in T:
            for op in BIN:
                yield VCase("%s %s %s" % (a, op, b), "%s { %s %s %s }" % (SIG, arg(a, "a", 0), arg(b, "b", 1), out("a %s b" % op)), [a, b])


def ternary(ts):
    for c in ("int", "_Bool", "unsigned char", "long"):
        for a in ts:
            for b in ts:
                yield VCase("%s ? %s : %s" % (c, a, b), "%s { %s %s %s %s }" % (
                    SIG, arg(c, "c", 0), arg(a, "a", 1), arg(b, "b", 2), out("c ? a : b")), ["small " + c, "small " + a, "small " + b])


def literal_operand(ts):
    lits = ["0", "1", "-1", "2", "7", "127", "128", "255", "256", "65535", "65536", "2147483647", "(-2147483647-1)", "2147483648", "4294967295",
            "4294967296", "9223372036854775807", "0u", "1u", "4294967295u", "31", "63", "1l", "1ul", "-1l", "18446744073709551615ul", "'a'"]
    for t in ts:
        for op in BIN:
            for l in lits:
                yield VCase("%s %s %s" % (t, op, l), "%s { %s %s }" % (SIG, arg(t, "a", 0), out("a %s %s" % (op, l))), [t])
                yield VCase("%s %s %s" % (l, op, t), "%s { %s %s }" % (SIG, arg(t, "a", 0), out("%s %s a" % (l, op))), [t])


def depth2(ts, ops):
    for a in ts:
        for b in ts:
            for c in ts:
                for o1 in ops:
                    for o2 in ops:
                        yield VCase("(%s %s %s) %s %s" % (a, o1, b, o2, c), "%s { %s %s %s o[0] = (unsigned long long) ((a %s b) %s c); o[1] = (unsigned long long) (c %s (a %s b)); }" % (
                            SIG, arg(a, "a", 0), arg(b, "b", 1), arg(c, "c", 2), o1, o2, o2, o1), ["small " + a, "small " + b, "small " + c])


def branches(ts):
    """the value of every comparison/logical operator as a controlling expression"""
    for a in ts:
        for b in ts:
            for op in ["<", ">", "<=", ">=", "==", "!=", "&&", "||", "&", "-"]:
                yield VCase("if (%s %s %s)" % (a, op, b), "%s { %s %s if (a %s b) o[0] = 1; else o[0] = 2; o[1] = (a %s b) ? 3 : 4; o[2] = !(a %s b); o[3] = 0; while (a %s b) { o[3] = 9; break; } }" % (
                    SIG, arg(a, "a", 0), arg(b, "b", 1), op, op, op, op), [a, b])
        yield VCase("if (%s)" % a, "%s { %s if (a) o[0] = 1; else o[0] = 2; o[1] = a ? 3 : 4; o[2] = !a; o[3] = !!a; for (; a; ) { o[0] += 8; break; } do { o[1] += 16; if (o[1] > 40) break; } while (a); }" % (SIG, arg(a, "a", 0)), [a])


def enums():
    decl = "enum e@ { EA@ = -5, EB@ = 3, EC@ = 2147483647 }; enum f@ { FA@ = 0, FB@ = 5 };"
    for t in ("int", "unsigned int", "long", "unsigned char", "unsigned long"):
        for op in BIN:
            for v, name in (("EA@", "EA"), ("EB@", "EB")):
                yield VCase("enum %s %s %s" % (name, op, t), "%s %s { %s enum e@ e = %s; %s }" % (decl, SIG, arg(t, "a", 0), v, out("e %s a" % op)), [t])
            yield VCase("%s %s enum FB" % (t, op), "%s %s { %s enum f@ e = FB@; o[0] = (unsigned long long) (a %s FB@); o[1] = sizeof(a %s FB@); }" % (decl, SIG, arg(t, "a", 0), op, op), [t])


def run(chk):
    sets = {t: iset(t) for t in T}
    sets.update({"small " + t: iset(t, "small") for t in T})
    for n, g in (("unary", unary()), ("casts", casts()), ("binary", binary()), ("branches", branches(T)), ("enum", enums()),
                 ("literal", literal_operand(["int", "unsigned int", "long", "unsigned long", "unsigned char", "short", "_Bool"]))):
        valdiff.explore(chk, n, g, sets)
    if chk.quick:
        valdiff.explore(chk, "conditional", ternary(T), sets)
        valdiff.explore(chk, "depth2", depth2(["int", "unsigned int", "long", "unsigned char"], ["+", "-", "*", "/", "%", "&", "<<", ">>", "<", "==", "&&"]), sets)
    else:
        valdiff.explore(chk, "conditional", ternary(T), sets)
        valdiff.explore(chk, "depth2", depth2(["int", "unsigned int", "long", "unsigned long", "short", "unsigned char", "_Bool"], BIN), sets)
    chk.assumptions += ["gcc is the reference semantics; valuations it defines as undefined behaviour are skipped",
                        "value sets are the boundary values of each type, not all 2^n values"]
    return chk.finish()

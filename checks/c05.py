"""C05: statements transfer control as C17 prescribes: all statement trees up to a size, under all condition outcomes."""
TECHNIQUE = "exhaustive enumeration of statement trees up to a weight, each explored under every script of condition outcomes, traces compared with a reference execution"
NOTE = ("Every statement tree of the grammar up to the stated weight is compiled by the real compiler and run under every outcome script of bounded length; the "
        "trace of side effects and the stack depth at probes must equal those of the reference compiler's code. Trusts gcc -O0.")
import functools, itertools, re
from mc import core, valdiff, diff
from mc.diff import Case
from mc.valdiff import VCase, INT_TYPES, iset

LEAVES = ["T", "break;", "continue;", "goto L@;", "return;", ";"]


@functools.lru_cache(None)
def stmts(w, loop, sw, rich):
    """all statements of weight exactly w"""
    out = []
    if w == 1:
        out.append("T")
        if loop or sw:
            out.append("break;")
        if loop:
            out.append("continue;")
        out.append("goto L@;")
        out.append("return;")
        if rich:
            out.append(";")
        return tuple(out)
    one = w - 1
    S = stmts(one, loop, sw, rich)
    SL = stmts(one, True, False, rich)      # loop body: break/continue belong to the loop
    SS = stmts(one, loop, True, rich)       # switch body: continue belongs to an outer loop
    for s in S:
        out.append("if (nx()) " + s)
        out.append("{ L@: T " + s + " }")
        if rich:
            out.append("if (nx()) ; else " + s)
    for s in SL:
        out.append("while (nx()) " + s)
        out.append("do " + s + " while (nx());")
        out.append("for (T0; nx(); T0) " + s)
        if rich:
            out.append("for (int i = 0; i < 2; i++, T0) " + s)
            out.append("for (;; T0) " + s)
            out.append("while (1) { T " + s + " }")
    for s in SS:
        out.append("switch (nx2()) { case 1: " + s + " }")
        out.append("switch (nx2()) { default: " + s + " }")
        if rich:
            out.append("switch (nx2()) { T " + s + " }")
            out.append("switch (nx2()) case 2: " + s)
            out.append("switch (nx2()) { case 0: T { case 3: " + s + " } }")
    for a in range(1, one):
        b = one - a
        for x in stmts(a, loop, sw, rich):
            for y in stmts(b, loop, sw, rich):
                out.append("{ " + x + " " + y + " }")
                if not x.startswith("if") or " else " in x:
                    out.append("if (nx()) " + x + " else " + y)
        for x in stmts(a, loop, True, rich):
            for y in stmts(b, loop, True, rich):
                out.append("switch (nx2()) { case 0: " + x + " case 1: " + y + " }")
                out.append("switch (nx2()) { default: " + x + " case 1: " + y + " }")
                if rich:
                    out.append("switch (nx2()) { case 2: " + x + " default: " + y + " }")
                    out.append("switch (nx2()) { case 0: case 3: " + x + " break; default: case 1: " + y + " }")
        for x in stmts(a, True, True, rich):
            for y in stmts(b, True, True, rich):
                out.append("switch (nx2()) { case 0: while (nx()) { " + x + " case 1: " + y + " } }")
                if rich:
                    out.append("switch (nx2()) { default: do { " + x + " case 1: " + y + " } while (nx()); }")
    return tuple(out)


def ok(s):
    g, l = s.count("goto L@"), s.count("L@:")
    return (l == 1 and g >= 1) or (l == 0 and g == 0)


def case(key, body, extra="", bits=None, opts=()):
    n = [0]

    def num(m):
        n[0] += 1
        return "trace(%d, 0)%s" % (n[0], "" if m.group(0) == "T0" else ";")
    body = re.sub(r"\bT0?\b", num, body)
    c = body.count("nx()") + 2 * body.count("nx2()")
    loops = "while" in body or "for" in body or "L@:" in body
    b = bits if bits is not None else min(6, 2 * c if loops else c)
    return Case(key, "%s static void b@(void) { %s trace(98, 0); } void t@(void) { for (int m = 0; m < %d; m++) with_script(b@, m, %d, 25); }" % (extra, body, 1 << b, b))


def tree_cases(w, rich):
    for x in range(1, w + 1):
        for s in stmts(x, False, False, rich):
            if ok(s):
                yield case(s.replace("@", ""), s)


def label_cases(w, rich):
    """a label at the end or the beginning of the function, gotos anywhere"""
    for x in range(2, w + 1):
        for s in stmts(x, False, False, rich):
            if "goto" in s and "L@:" not in s:
                yield case("post " + s.replace("@", ""), "{ " + s + " T L@: T }")
                yield case("pre " + s.replace("@", ""), "{ T L@: T " + s + " }")
                yield case("mid " + s.replace("@", ""), "if (nx()) { T L@: T } " + s)
                yield case("loop " + s.replace("@", ""), "for (int k = 0; k < 2; k++) { T L@: T " + s + " }")


def returns():
    """return with a value out of every construct, for value types of every class"""
    ctx = ["return E;", "if (nx()) return E; return F;", "while (1) { if (nx()) return E; if (!nx()) return F; }", "do { return E; } while (nx()); return F;",
           "for (int i = 0; ; i++) { if (nx()) continue; return E; }", "switch (nx2()) { case 0: return E; case 1: break; default: return F; } return E;",
           "{ { { return E; } } }", "goto l; { int q = 5; l: return E; } return F;", "switch (nx2()) { case 1: for (;;) { switch (nx()) { case 1: return E; } break; } } return F;",
           "int a = 3; { int a = 4; if (nx()) return E; } return F;"]
    types = {"int": ("7", "-8"), "long": ("7", "-8l"), "char": ("300", "-1"), "_Bool": ("2", "0"), "unsigned short": ("-1", "5"), "float": ("1.5", "2"), "double": ("1.5", "-2"),
             "long double": ("1.5L", "3"), "char *": ("\"abc\"", "0"), "struct r@": ("(struct r@) {1, 2.5, 3}", "(struct r@) {4, 5.5, 6}"), "struct q@": ("(struct q@) {{1, 2, 3, 4, 5}}", "(struct q@) {{6}}")}
    pre = "struct r@ { int a; double b; char c; }; struct q@ { long a[5]; };"
    for t, (e, f) in types.items():
        for k, c in enumerate(ctx):
            body = c.replace("E", e).replace("F", f)
            ob = {"char *": "obs_i(v ? v[1] : 0);", "float": "obs_f(v);", "double": "obs_d(v);", "long double": "obs_ld(v);", "struct r@": "obs_i(v.a); obs_d(v.b); obs_i(v.c);", "struct q@": "obs_b(&v, sizeof v);"}.get(t, "obs_i(v);")
            yield Case("return %s in %d" % (t.replace("@", ""), k), "%s static %s f@(void) { %s } static void b@(void) { %s v = f@(); %s } void t@(void) { for (int m = 0; m < 16; m++) with_script(b@, m, 4, 25); }" % (pre, t, body, t, ob))


def drift():
    """repeating a construct does not move the stack: every statement, discarding every kind of value"""
    items = ["switch (nx2()) { case 0: T break; default: T }", "switch (nx2()) { case 0: T }", "switch (nx2()) { }", "switch (nx2()) { default: T }", "switch (nx2()) { case 1: continue; case 2: T }",
             "switch ((long long) nx2()) { case 1: T break; case 2: T }", "switch ((unsigned char) nx2()) { case 1: T }", "while (nx()) T", "do T while (nx());", "for (; nx(); ) T", "for (1.0L; nx(); 2.0L) T", "for (1.0; nx(); 2.0) T", "if (nx()) T else T",
             "{ goto a; T a: T }", "while (nx()) switch (nx2()) { case 0: continue; case 1: break; default: goto b; } b: T", "while (1) { switch (nx2()) { case 0: case 1: case 3: goto c; } T } c: T",
             "for (int j = 0; j < 2; j++) switch (j) { case 7: T }", "if (1.0L) T", "while (nx() * 1.0L) T", "for (; nx() * 1.0; ) T", "do T while (nx() * 1.0f);", "(nx() ? 1.0L : 2.0L);", "nx() && 1.0L;", "nx() || 1.0;", "if (nx() * 1.0L) T else T",
             "return_@();", "switch (nx()) { case 0: T break; case 1: T }", "switch (nx2()) { case 0: T case 1: T break; case 2: continue; case 3: T }", "switch (nx() + 4l) { case 4: switch (nx()) { case 1: break; case 0: T } break; case 5: T }",
             "while (nx()) switch (nx()) { case 0: continue; case 1: break; }", "switch (nx()) { case 0: while (nx()) { T case 1: T } }", "while (1) { switch (nx()) { case 0: goto d; case 1: goto d; } } d: T", "switch (nx()) { int q; case 0: q = 3; { case 1: T } }", "switch (nx()) { case 1: switch (nx()) { case 1: T } }", "switch (nx2()) { case 0: while (nx()) { T case 1: T } }"]
    for k, it in enumerate(items):
        yield case("drift %s" % it.replace("@", ""), "for (int i = 0; i < 4; i++) { sp_probe(1); %s sp_probe(2); }" % it, "static int return_@(void) { switch (nx2()) { case 0: return 1; case 1: break; } return 2; }", bits=8)
        yield Case("many %s" % it.replace("@", ""), "static int return_@(void) { switch (2) { case 0: return 1; case 1: break; } return 2; } void t@(void) { static int c; c = 0; for (long i = 0; i < 3000000; i++) { %s } obs_i(c); }" % (
            re.sub(r"\bT\b", "c++;", it).replace("nx2()", "(int) (i & 3)").replace("while (nx()", "while (0").replace("while (nx()", "while (0").replace("; nx()", "; 0").replace("nx()", "(int) (i & 1)").replace("while (1)", "while (i & 1)")))


CASES = {
    "s32": ["0", "1", "-1", "2147483647", "(-2147483647-1)", "'a'", "255", "-128", "65535", "4294967295u", "4294967296", "-4294967297", "5l", "7ull"],
    "mix": ["-1", "255", "65535", "4294967295", "18446744073709551615ull", "128", "-128", "0x80000000", "0x8000000000000000", "0x7fffffffffffffff", "3", "1l << 40"],
}
MASK64 = (1 << 64) - 1


def switch_types():
    """controlling expression of every type against every case constant (one at a time and all compatible ones together), on all boundary values"""
    from mc import csem
    ev = {"(-2147483647-1)": -2147483648, "'a'": 97, "1l << 40": 1 << 40}

    def value(c):
        if c in ev:
            return ev[c]
        return int(c.rstrip("ul"), 0)
    for t in INT_TYPES:
        pt = csem.promote(t)
        bits, sg = csem.BITS[pt], csem.SIGNED[pt]

        def cv(v):
            v &= (1 << bits) - 1
            return v - (1 << bits) if sg and v >> (bits - 1) else v
        allc = list(dict.fromkeys(CASES["s32"] + CASES["mix"]))
        for c in allc:
            for shape, body in (("single", "case C: o[0] = 1; "), ("default first", "default: o[0] = 2; break; case C: o[0] |= 1; "), ("default last", "case C: o[0] = 1; default: o[0] |= 2; "),
                                ("nested", "{ int z = 3; case C: o[0] = 1; z = 4; o[1] = z; } o[2] = 6; ")):
                yield VCase("switch (%s) %s %s" % (t, shape, c), "void t@(const unsigned long long *v, unsigned long long *o) { %s a = (%s) v[0]; o[0] = 0; switch (a) { %s } }" % (t, t, body.replace("C", c)), [t])
        seen, lab = set(), ""
        for k, c in enumerate(allc):
            if cv(value(c)) not in seen:
                seen.add(cv(value(c)))
                lab += "case %s: o[0] = %d; break; " % (c, k + 10)
        for d in ("", "default: o[0] = 5; break;"):
            yield VCase("switch (%s) all %s" % (t, "default" if d else ""), "void t@(const unsigned long long *v, unsigned long long *o) { %s a = (%s) v[0]; switch (a) { %s %s } }" % (t, t, lab, d), [t])
            yield VCase("switch (%s) all reversed %s" % (t, "default" if d else ""), "void t@(const unsigned long long *v, unsigned long long *o) { %s a = (%s) v[0]; switch (a) { %s %s } }" % (t, t, d, " ".join(reversed([x + " break; " for x in lab.split(" break; ") if x]))), [t])
    for n in (0, 1, 2, 3, 5, 17, 40):
        lab = " ".join("case %d: o[0] += %d;%s" % (k * k - 5, k + 1, " break;" if k % 3 == 2 else "") for k in range(n))
        yield VCase("switch fallthrough %d" % n, "void t@(const unsigned long long *v, unsigned long long *o) { for (int k = -10; k < 60; k++) { switch ((int) v[0] + k) { %s } o[1] = o[1] * 3 + o[0]; } }" % lab, ["zero"])
    # enumerations and bit-field controlling expressions
    yield VCase("switch enum", "enum e@ { A@ = -3, B@, C@ = 7 }; void t@(const unsigned long long *v, unsigned long long *o) { for (int k = -4; k < 9; k++) { switch ((enum e@) k) { case A@: o[0] += 1; break; case B@: o[0] += 100; break; case C@: o[0] += 10000; break; default: o[1]++; } } }", ["zero"])
    yield VCase("switch bitfield", "struct s@ { unsigned u : 3; int i : 3; }; void t@(const unsigned long long *v, unsigned long long *o) { for (int k = 0; k < 8; k++) { struct s@ s; s.u = k; s.i = k; switch (s.u) { case 7: o[0] += 1; break; case 3: o[0] += 100; } switch (s.i) { case -1: o[1] += 1; break; case 3: o[1] += 100; break; case -4: o[1] += 10000; } } }", ["zero"])


def computed():
    """labels as values (extension), every order of a small jump table"""
    for p in itertools.permutations(range(3)):
        tab = ", ".join("&&l%d" % x for x in p)
        yield case("goto * %s" % (p,), "void *tb[] = { %s }; goto *tb[nx2() %% 3]; l0: T l1: T if (nx()) goto *tb[nx2() %% 3]; l2: T" % tab, bits=6)
        yield case("loop goto * %s" % (p,), "void *tb[] = { %s }; for (int i = 0; i < 3; i++) { sp_probe(3); goto *tb[nx2() %% 3]; l0: T continue; l1: { T break; } l2: T }" % tab, bits=6)


def stmt_expr():
    """statement expressions (extension) inside every operand position"""
    body = ["({ T 5; })", "({ int z = nx(); T z + 1; })", "({ if (nx()) T else T 7; })", "({ int s = 0; for (int i = 0; i < 3; i++) { if (nx()) continue; s += i; T } s; })", "({ switch (nx2()) { case 1: T break; default: T } 3; })", "({ int y = ({ T nx(); }); T y; })"]
    for e in body:
        for u in ("obs_i(E);", "obs_i(E + 1);", "obs_i(2 * E);", "if (E) T", "int a[10] = {0}; a[E] = 4; obs_i(a[5]);", "obs_i(E + E);", "for (int k = 0; k < 2; k++) { sp_probe(1); E; sp_probe(2); }", "obs_i((E, E));", "while (nx()) { E; if (nx()) break; }"):
            yield case("%s in %s" % (e, u), u.replace("E", e), bits=5)


def run(chk):
    sets = {t: iset(t) for t in INT_TYPES}
    sets["zero"] = [(0, 0)]
    q = chk.quick
    diff.explore(chk, "trees", tree_cases(3, True), 40)
    diff.explore(chk, "trees 4", (c for c in tree_cases(4, True) if True) if not q else tree_cases(4, False), 40)
    if not q:
        diff.explore(chk, "trees 5", tree_cases(5, False), 40)
    diff.explore(chk, "labels", label_cases(3, not q), 40)
    if not q:
        diff.explore(chk, "labels 4", label_cases(4, False), 40)
    diff.explore(chk, "returns", returns())
    diff.explore(chk, "drift", drift(), 8)
    valdiff.explore(chk, "switch", switch_types(), sets)
    diff.explore(chk, "computed goto", computed(), opts=["--feature-labels-as-values"])
    diff.explore(chk, "statement expressions", stmt_expr(), opts=["--feature-statement-expressions"])
    chk.assumptions += ["gcc -O0 is the reference", "scripts of at most 6 condition outcomes (8 for drift), then false; runs are cut after 25 traced effects"]
    return chk.finish()

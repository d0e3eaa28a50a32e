"""C07: bit-fields behave as objects of exactly their width."""
TECHNIQUE = 'exhaustive enumeration of bit-field structures x operations x values x prior contents, replayed on compiled code against the platform compiler as reference'
NOTE = 'Every structure of up to 3 members over the alphabet, every operation on every member, with all-zero, all-one and mixed prior contents; values and the bytes of all named members are compared with gcc. Operands wider than int are read through a cast (their promoted type is implementation-defined).'
import itertools
from mc import core, diff
from mc.diff import Case

# name -> (type, width, type used to observe)
F = {"int:1": ("int", 1), "int:3": ("int", 3), "int:8": ("int", 8), "int:17": ("int", 17), "int:31": ("int", 31), "int:32": ("int", 32),
     "unsigned:1": ("unsigned", 1), "unsigned:5": ("unsigned", 5), "unsigned:16": ("unsigned", 16), "unsigned:31": ("unsigned", 31), "unsigned:32": ("unsigned", 32),
     "char:3": ("signed char", 3), "char:8": ("signed char", 8), "uchar:7": ("unsigned char", 7), "uchar:8": ("unsigned char", 8),
     "short:9": ("short", 9), "short:16": ("short", 16), "ushort:15": ("unsigned short", 15), "ushort:16": ("unsigned short", 16),
     "long:7": ("long", 7), "long:33": ("long", 33), "long:63": ("long", 63), "long:64": ("long", 64),
     "ulong:12": ("unsigned long", 12), "ulong:40": ("unsigned long", 40), "ulong:63": ("unsigned long", 63), "ulong:64": ("unsigned long", 64),
     "llong:50": ("long long", 50), "_Bool:1": ("_Bool", 1),
     "char": ("signed char", 0), "int": ("int", 0), "long": ("long", 0), "short": ("unsigned short", 0)}
SMALL = ["int:3", "int:17", "unsigned:5", "unsigned:31", "unsigned:32", "char:3", "short:9", "long:33", "ulong:40", "_Bool:1", "char", "int"]
SEP = {"int:5 unnamed": "int : 5", "long:37 unnamed": "long : 37"}


def decl(s, n):
    if s in SEP:
        return SEP[s]
    t, w = F[s]
    return "%s %s%s" % (t, n, " : %d" % w if w else "")


def bits(s):
    t, w = F[s]
    return w or {"signed char": 8, "int": 32, "long": 64, "unsigned short": 16}[t]


def signed(s):
    return not F[s][0].startswith("unsigned") and F[s][0] != "_Bool"


def values(s, full=True):
    b = bits(s)
    if F[s][0] == "_Bool":
        return ["0", "1"] + (["2", "256", "-1"] if full else [])
    vs = [0, 1, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, 0xA5A5A5A5A5A5A5A5 & ((1 << b) - 1)]
    if full:
        vs += [1 << b, (1 << b) + 1, 3]
    out = []
    for v in vs:
        v &= (1 << 64) - 1
        e = "(long) %#xul" % v if b > 31 else ("%d" % v if v < 1 << 31 else "%#xl" % v)
        if e not in out:
            out.append(e)
    return out + (["-1", "-2"] if full else [])


def cast(s):
    """How a member is read in an expression: fields wider than int through a cast."""
    return "(%s)" % F[s][0] if F[s][1] > 31 or F[s][0] in ("long", "unsigned long", "long long") else ""


def promoted(s):
    return ("unsigned long " if "unsigned" in F[s][0] else "long ") if cast(s) else "int "


HDR = """struct s@ { %s }; static struct s@ x@, m@; static void fill@(int c) { unsigned long i; for (i = 0; i < sizeof x@; i++) ((unsigned char *) &x@)[i] = c == 2 ? 165 - 37 * i : c ? 255 : 0; %s }
static void see@(const struct s@ *p) { unsigned long i; unsigned char b[sizeof m@]; for (i = 0; i < sizeof m@; i++) b[i] = ((const unsigned char *) p)[i] & ((unsigned char *) &m@)[i]; obs_b(b, sizeof b); %s }
static void init@(void) { %s }
"""


def header(seq):
    named = [i for i, s in enumerate(seq) if s in F]
    norm = " ".join("((unsigned char *) &x@)[0] = ((unsigned char *) &x@)[0];" for i in named[:0])
    # _Bool members must hold 0 or 1
    norm = " ".join("x@.m%d = %s;" % (i, "c == 1") for i in named if F[seq[i]] == ("_Bool", 0))
    return HDR % (" ".join(decl(s, "m%d" % i) + ";" for i, s in enumerate(seq)), norm,
                  " ".join("obs_i(%sp->m%d);" % (cast(seq[i]), i) for i in named),
                  " ".join("m@.m%d = -1;" % i if F[seq[i]][0] != "_Bool" else "m@.m%d = 1;" % i for i in named))


def wrap(key, seq, body, extra=""):
    return Case("struct { %s } %s" % (", ".join(seq), key), header(seq) + extra + "void t@(void) { struct s@ *p = &x@; int c; init@(); for (c = 0; c < 3; c++) { %s } }" % body)


def loop(vals, body, name="v"):
    """body for every value"""
    return "{ static const long %ss[] = {%s}; unsigned long %sk; for (%sk = 0; %sk < %d; %sk++) { long %s = %ss[%sk]; %s } } " % (name, ", ".join(vals), name, name, name, len(vals), name, name, name, name, body)


def assign(seq, full):
    for i, s in enumerate(seq):
        if s not in F:
            continue
        yield wrap("m%d = v" % i, seq, loop(values(s, full), "fill@(c); obs_i(p->m%d = v); see@(p); x@.m%d = 0; see@(p); fill@(c); x@.m%d = v; x@.m%d = %s; see@(p); " % (i, i, i, i, values(s)[2])))


OPS = ["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="]


def update(seq):
    for i, s in enumerate(seq):
        if s not in F:
            continue
        b = ""
        # keep signed arithmetic defined: fields as wide as their promoted type only hold a small value there
        wide = signed(s) and bits(s) >= 31
        for op in OPS:
            if op == "<<=" and signed(s):
                v = "5" if wide else "(1 << %d) - 1" % (bits(s) - 2) if bits(s) > 2 else "0"
            elif op in ("*=", "+=", "-=") and wide:
                v = "5"
            else:
                v = "v"
            b += loop(("1", "2", "7") if op not in ("/=", "%=") else ("1", "3"), "fill@(c); x@.m%d = %s; obs_i(x@.m%d %s (int) r); see@(p); " % (i, v, i, op), "r")
        for op in ("++x@.m%d", "--x@.m%d", "x@.m%d++", "x@.m%d--", "++p->m%d", "p->m%d--"):
            b += "fill@(c); x@.m%d = %s; obs_i(%s); see@(p); " % (i, "v" if not (signed(s) and bits(s) >= 32) else "6", op % i)
        yield wrap("op= ++ -- m%d" % i, seq, loop(values(s, False), b))


def reads(seq):
    for i, s in enumerate(seq):
        if s not in F:
            continue
        m = "%sx@.m%d" % (cast(s), i)
        b = "fill@(c); x@.m%d = v; " % i
        b += "".join("obs_i(%s); " % (e.replace("M", m)) for e in ("M", "M > -1", "M == 1", "!M", "~M", "M && 1", "M || 0", "M ? 3 : 4", "(signed char) M", "(unsigned char) M", "(unsigned) M", "(long) M", "(_Bool) M", "1 ? M : 0", "(0, M)",
                                                                 "M / 2", "M % 3", "M >> 1", "M & 6", "M | 9", "M ^ 5", "sizeof(M + 0)", "M < 2u", "M + 0ul > 5"))
        b += "obs_d(M); obs_d((double) M * 0.5); obs_f(M); if (M) obs_i(7); while (M) { obs_i(8); break; } switch (M) { case 0: obs_i(1); break; case 1: obs_i(2); break; case -1: obs_i(3); break; default: obs_i(4); } ".replace("M", m)
        yield wrap("read m%d" % i, seq, loop(values(s, False), b))


def pairs(seq):
    """assignments from one member to another, and swaps through the same structure"""
    n = [i for i, s in enumerate(seq) if s in F]
    for i, j in itertools.permutations(n, 2):
        b = ""
        b += loop(values(seq[j], False), "fill@(c); p->m%d = v; obs_i(p->m%d = %sp->m%d); see@(p); " % (j, i, cast(seq[j]), j))
        b += "fill@(c); p->m%d = p->m%d = %s; see@(p); fill@(c); { struct s@ y = x@; y.m%d = %sy.m%d; see@(&y); see@(p); x@ = y; see@(p); } " % (i, j, "1", i, cast(seq[j]), j)
        yield wrap("m%d = m%d" % (i, j), seq, b)


def longest_run(seq):
    """Longest run of bit-fields that shares storage, in bits (see the known finding about static initialisers)."""
    off, head, tail, best = 0, None, 0, 0
    size = {"signed char": 8, "unsigned char": 8, "_Bool": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned": 32}
    for s in seq:
        t, w = F[s] if s in F else (s.split(":")[0], int(s.split(":")[1].split()[0]))
        z = size.get(t, 64)
        if not w:
            if head is not None:
                off, head = (tail + 7) // 8, None
            off = (off + z // 8 - 1) // (z // 8) * (z // 8) + z // 8
            continue
        if head is not None and tail % z + w > z:
            off, head = (tail + 7) // 8, None
        if head is None:
            head = tail = off * 8
            if tail % z + w > z:
                tail = (tail + z - 1) // z * z
        tail += w
        best = max(best, tail - head)
    return best


def inits(seq):
    n = [i for i, s in enumerate(seq) if s in F]
    vals = [values(seq[i], False) for i in n]
    K = max(len(v) for v in vals)
    stat, body, sbody = "", "", ""
    for k in range(K):
        pos = ", ".join(v[k % len(v)] for v in vals)
        des = ", ".join(".m%d = %s" % (i, v[(k + 1) % len(v)]) for i, v in reversed(list(zip(n, vals))))
        stat += "static struct s@ a%d@ = {%s}, b%d@ = {%s}, c%d@[2] = {[1] = {%s}, [0].m%d = %s}; " % (k, pos, k, des, k, pos, n[-1], vals[-1][k % len(vals[-1])])
        sbody += "see@(&a%d@); see@(&b%d@); see@(c%d@); see@(c%d@ + 1); " % (k, k, k, k)
        body += "{ struct s@ a = {%s}, b = {%s}, d[2] = {{%s}, {.m%d = %s}}; see@(&a); see@(&b); see@(d); see@(d + 1); see@(&(struct s@) {%s}); } " % (
            pos, des, pos, n[0], vals[0][k % len(vals[0])], des)
        if len(n) > 1:
            body += "{ struct s@ a = {.m%d = %s, .m%d = %s, .m%d = %s}; see@(&a); } " % (n[0], vals[0][k % len(vals[0])], n[1], vals[1][k % len(vals[1])], n[0], vals[0][(k + 1) % len(vals[0])])
    yield wrap("automatic initialisers", seq, body)
    yield Case("struct { %s } static initialisers%s" % (", ".join(seq), " (bit-field storage above 64 bits)" if longest_run(seq) > 64 else ""), header(seq) + stat + "void t@(void) { init@(); %s }" % sbody)


def contexts(seq):
    """members reached through arrays, nesting, unions, parameters and results"""
    n = [i for i, s in enumerate(seq) if s in F]
    ex = "struct n@ { char a; struct s@ s; char b; struct s@ t[2]; }; union u@ { struct s@ s; unsigned char raw[sizeof(struct s@)]; %s; }; static struct s@ pass@(struct s@ q, int k) { %s return q; } static struct n@ w@; static union u@ u@; " % (
        "; ".join(decl(seq[i], "f%d" % i) for i in n), " ".join("if (k == %d) q.m%d = 1;" % (i, i) for i in n))
    b = "fill@(c); w@.s = x@; w@.t[0] = x@; w@.t[1] = x@; w@.a = w@.b = 77; "
    for i in n:
        b += "w@.s.m%d = 1; w@.t[1].m%d = %s; (&w@)->t[id_i(0)].m%d++; see@(&w@.s); see@(w@.t); see@(w@.t + 1); obs_i(w@.a); obs_i(w@.b); " % (i, i, values(seq[i])[1], i)
        b += "{ struct s@ r = pass@(x@, %d); see@(&r); obs_i(%spass@(x@, %d).m%d); } " % (i, cast(seq[i]), i, i)
        b += "{ unsigned long k; for (k = 0; k < sizeof u@; k++) ((unsigned char *) &u@)[k] = 0; } u@.f%d = %s; obs_b(&u@.f%s, 0); { unsigned long k; for (k = 0; k < sizeof(struct s@); k++) obs_i(u@.raw[k]); } obs_i(%su@.f%d); u@.f%d ^= 1; obs_i(%su@.f%d); " % (
            i, values(seq[i])[2], "" if False else "%d" % i, cast(seq[i]), i, i, cast(seq[i]), i) if F[seq[i]][1] == 0 else \
            "{ unsigned long k; for (k = 0; k < sizeof u@; k++) ((unsigned char *) &u@)[k] = 0; } u@.f%d = %s; { unsigned long k; for (k = 0; k < sizeof(struct s@); k++) obs_i(u@.raw[k]); } obs_i(%su@.f%d); u@.f%d ^= 1; obs_i(%su@.f%d); " % (
            i, values(seq[i])[2], cast(seq[i]), i, i, cast(seq[i]), i)
    yield wrap("contexts", seq, b, ex)


def chain(seqs, *gens):
    for s in seqs:
        if not any(x in F and F[x][1] for x in s):
            continue
        for g in gens:
            yield from g(s)


def ok(seq):
    # zero-width separators are covered by C06
    return all(not (s == "int:0" and (i + 1 == len(seq) or i == 0 or not seq[i + 1].startswith(("int:", "unsigned:")) or seq[i + 1] == "int:0" or "unnamed" in seq[i + 1] )) for i, s in enumerate(seq))


def run(chk):
    q = chk.quick
    one = [(s,) for s in F if F[s][1]]
    two = list(itertools.product(F, repeat=2))
    two_s = [t for t in itertools.product(SMALL, repeat=2)]
    three = [t for t in itertools.product(SMALL, list(SMALL) + list(SEP), SMALL) if ok(t)]
    three_s = [t for t in itertools.product(["int:3", "unsigned:31", "short:9", "ulong:40", "char"], ["int:17", "unsigned:5", "long:33", "_Bool:1", "char:3"] + list(SEP), ["int:3", "unsigned:32", "char", "ulong:40"]) if ok(t)]
    A = lambda s: assign(s, True)
    a = lambda s: assign(s, False)
    diff.explore(chk, "one field", chain(one, A, update, reads, inits, contexts), 6)
    diff.explore(chk, "two fields: assign", chain(two, a), 12)
    diff.explore(chk, "two fields: update, read", chain(two_s if q else two, update, reads), 8)
    diff.explore(chk, "two fields: pairs, initialisers, contexts", chain(two_s if q else two, pairs, inits, contexts), 8)
    diff.explore(chk, "three fields", chain(three_s if q else three, a, pairs, inits), 12)
    if not q:
        diff.explore(chk, "three fields: update, read, contexts", chain(three_s, update, reads, contexts), 8)
    chk.assumptions += ["gcc defines where bits go", "up to 3 members per structure", "bytes outside named members are not compared"]
    return chk.finish()

"""Enumerates initialiser lists for a set of aggregate types; the reference compiler (pedantic mode) decides which of the
candidates are valid C."""
import itertools, os, re, subprocess
from . import core

INT = "int"


class Ty:
    """Object type: scalar | array(n or None) | record"""

    def __init__(self, kind, n=None, elem=None, members=None, ctype="int", union=False):
        self.kind, self.n, self.elem, self.members, self.ctype, self.union = kind, n, elem, members, ctype, union

    def designators(self, depth):
        """all designator strings up to depth, with the designated type"""
        out = []
        if depth == 0:
            return out
        if self.kind == "array":
            for i in range(self.n if self.n is not None else 4):
                out.append(("[%d]" % i, self.elem))
        elif self.kind == "record":
            for name, t in self.members:
                if name is None:
                    out += [d for d in t.designators(1)]
                else:
                    out.append(("." + name, t))
        res = list(out)
        for d, t in out:
            for d2, t2 in t.designators(depth - 1):
                res.append((d + d2, t2))
        return res

    def leaves(self, n=None):
        if self.kind == "scalar":
            return [("", self.ctype)]
        if self.kind == "array":
            return [("[%d]%s" % (i, l), c) for i in range(self.n if self.n is not None else (n or 0)) for l, c in self.elem.leaves()]
        r = []
        for name, t in self.members:
            r += [(("." + name if name else "") + l, c) for l, c in t.leaves()]
        return r


def sc(c="int"):
    return Ty("scalar", ctype=c)


def arr(n, e):
    return Ty("array", n=n, elem=e)


def rec(*ms, union=False):
    return Ty("record", members=list(ms), union=union)


I = sc()
TYPES = {
    # name: (declarator with D as the declared name, type)
    "int[3]": ("int D[3]", arr(3, I)),
    "int[2][2]": ("int D[2][2]", arr(2, arr(2, I))),
    "struct{a,b}": ("struct { int a, b; } D", rec(("a", I), ("b", I))),
    "struct{a,b[2],c}": ("struct { int a; short b[2]; long c; } D", rec(("a", I), ("b", arr(2, sc("short"))), ("c", sc("long")))),
    "struct{struct{a,b}s,c}": ("struct { struct { int a; char b; } s; int c; } D", rec(("s", rec(("a", I), ("b", sc("char")))), ("c", I))),
    "struct{a,union{u,v}w,c}": ("struct { int a; union { int u; long v; } w; int c; } D", rec(("a", I), ("w", rec(("u", I), ("v", sc("long")), union=True)), ("c", I))),
    "struct{a,struct{b,c},d}": ("struct { int a; struct { int b, c; }; int d; } D", rec(("a", I), (None, rec(("b", I), ("c", I))), ("d", I))),
    "struct{a,union{b,c},d}": ("struct { int a; union { short b; int c; }; int d; } D", rec(("a", I), (None, rec(("b", sc("short")), ("c", I), union=True)), ("d", I))),
    "struct{a,struct{b,c},d}": ("struct { int a; struct { short b; int c; }; int d; } D", rec(("a", I), (None, rec(("b", sc("short")), ("c", I))), ("d", I))),
    "struct{a,struct{b,c}}[2]": ("struct { int a; struct { short b; int c; }; } D[2]", arr(2, rec(("a", I), (None, rec(("b", sc("short")), ("c", I)))))),
    "struct{struct{a,:3}s,b}": ("struct { struct { int a; int : 3; } s; int b; } D", rec(("s", rec(("a", I))), ("b", I))),
    "struct{a:4,:0,b:5,:2}[2]": ("struct { int a : 4; int : 0; int b : 5; int : 2; } D[2]", arr(2, rec(("a", I), ("b", I)))),
    "struct{a,b}[2]": ("struct { int a, b; } D[2]", arr(2, rec(("a", I), ("b", I)))),
    "union{struct{a,b}s,c[3]}": ("union { struct { int a, b; } s; int c[3]; } D", rec(("s", rec(("a", I), ("b", I))), ("c", arr(3, I)), union=True)),
    "struct{n,struct{x[2]}y[2]}": ("struct { int n; struct { int x[2]; } y[2]; } D", rec(("n", I), ("y", arr(2, rec(("x", arr(2, I))))))),
    "int[]": ("int D[]", arr(None, I)),
    "struct{a,b}[]": ("struct { int a, b; } D[]", arr(None, rec(("a", I), ("b", I)))),
    "int[][2]": ("int D[][2]", arr(None, arr(2, I))),
    "const struct{a,b}[2]": ("const struct { int a, b; } D[2]", arr(2, rec(("a", I), ("b", I)))),
    "struct{const struct{a,b}s,c}": ("struct { const struct { int a; char b; } s; volatile int c; } D", rec(("s", rec(("a", I), ("b", sc("char")))), ("c", I))),
    "struct{n,const struct{x[2]}y[2]}": ("struct { int n; const struct { int x[2]; } y[2]; } D", rec(("n", I), ("y", arr(2, rec(("x", arr(2, I))))))),
    "struct{d,f}": ("struct { double d; float f; } D", rec(("d", sc("double")), ("f", sc("float")))),
}


def lists(ty, n, braces, depth, level=0):
    """all initialiser lists of exactly n items, as (text, tag); values are numbered later ('V')"""
    des = [("", None)] + [(d + " = ", t) for d, t in ty.designators(depth)]
    vals = ["V"] + braces
    for items in itertools.product(itertools.product(des, vals), repeat=n):
        tag = " (designated aggregate, no braces)" if any(d[1] is not None and d[1].kind != "scalar" and v == "V" for d, v in items) else ""
        if not tag and ty.kind == "record" and not ty.union and ty.members[-1][0] == "y" and any(v.startswith("{[") for d, v in items):
            tag = " (designated aggregate, no braces)"
        if ty.union and len(set(re.match(r"\.\w+", d[0]).group() if d[0] else "." + ty.members[0][0] for d, v in items)) > 1:
            continue        # which bytes of the other member survive is unspecified
        if "no braces" in tag:
            for i, (d, v) in enumerate(items):
                if d[1] is not None and d[1].kind != "scalar" and v == "V" and any(e[0].startswith(d[0][:-3]) and e[0] != d[0] for e, _ in items[:i]):
                    tag = " (designated aggregate, no braces) (partly initialised before)"
        yield "{" + ", ".join(d[0] + v for d, v in items) + "}", tag


def number(text, val):
    k = [0]

    def f(m):
        k[0] += 1
        return val(k[0])
    return re.sub("V", f, text)


def valid(cands):
    """cands: list of (declaration text without storage, initialiser, tag); returns the valid ones, those in which an
    initialiser overrides an earlier one tagged. Each candidate is on its own line."""
    lines = ["static const int z%d = 0; void f%d(void) { static %s = %s; (void) o; }" % (i, i, c[0].replace("D", "o"), number(c[1], lambda k: str(k))) for i, c in enumerate(cands)]
    r = subprocess.run(["gcc", "-std=c11", "-fsyntax-only", "-pedantic-errors", "-Woverride-init", "-Wno-missing-braces", "-fno-diagnostics-show-caret", "-fmax-errors=0", "-x", "c", "-"],
                       input="\n".join(lines).encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode("utf-8", "replace")
    bad = set(int(m) for m in re.findall(r"<stdin>:(\d+):\d+: error", out))
    over = set(int(m) for m in re.findall(r"<stdin>:(\d+):\d+: warning: initialized field overwritten", out))
    return [(c[0], c[1], c[2] + (" (override)" if i in over and "(over" not in c[2] and ("{" in c[1][1:] or "union" in c[0]) else "")) for i, c in enumerate(cands, 1) if i not in bad and not (i in over and "union" in c[0])]


def all_lists(n, braces, depth, types=None):
    """valid (type name, declarator, type, initialiser, tag) of up to n items"""
    for name in types or TYPES:
        decl, ty = TYPES[name]
        cands = [(decl, x, tag) for k in range(1, n + 1) for x, tag in lists(ty, k, braces, depth)]
        for d, x, tag in valid(cands):
            yield name, d, ty, x, tag


def observe(ty, e):
    o = {"double": "obs_d", "float": "obs_f"}
    if ty.kind == "array" and ty.n is None:
        inner = " ".join("%s(%s[k]%s);" % (o.get(c, "obs_i"), e, l) for l, c in ty.elem.leaves())
        return "obs_u(sizeof %s); { unsigned long k; for (k = 0; k < sizeof %s / sizeof *%s; k++) { %s } }" % (e, e, e, inner)
    return " ".join("%s(%s%s);" % (o.get(c, "obs_i"), e, l) for l, c in ty.leaves())

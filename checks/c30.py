"""C30: #include."""
TECHNIQUE = "exhaustive enumeration of file arrangements (every subset of the possible places of a header x every order of include directories x every inclusion form x every includer), each preprocessed by the real compiler and compared with the search rules as implemented by a reference preprocessor; bounded histories of nested and repeated inclusion"
NOTE = ("Files live in a scratch tree; the working directory holds no headers, because the compiler falls back to it where the reference does not (the places searched are implementation-defined). Symbolic links are not used: the compiler names files by their real path.")
import itertools
import os
import shutil
import subprocess
from mc import core, ppref

PLACES = ["m", "m/sub", "i1", "i2", "i1/sub", "i3"]
DIRS = [list(p) for k in range(4) for p in itertools.permutations(["i1", "i2", "i3"], k)]
FORMS = ['"h.h"', "<h.h>", '"sub/h.h"', "<sub/h.h>", '"sub/../h.h"', '"./h.h"', '"@/i2/h.h"', "MACRO_S", "MACRO_A", '"../sub/h.h"', "CALL(h)"]
DEFS = '#define MACRO_S "h.h"\n#define MACRO_A <h.h>\n#define STR(x) #x\n#define CALL(x) STR(x.h)\n'
VIA = {"main": None, "sub": ("m/sub/a.h", '"sub/a.h"'), "dir": ("i1/b.h", "<b.h>"), "both": ("i2/c.h", '"c.h"')}


def _write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(t)


def _both(d, main, dirs, src=None):
    args = [x for i in dirs for x in ("-I", os.path.join(d, i))]
    r = core.kefir(args + ["-p", os.path.join(d, main)])
    g = subprocess.run(["gcc", "-E", "-P", "-std=c17", "-nostdinc"] + args + [os.path.join(d, main)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=core.scratch())
    return r, g


def _place(j):
    subset, quick = j
    d = os.path.join(core.scratch(), "inc%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    out, n = [], 0
    for p in PLACES:
        os.makedirs(os.path.join(d, p), exist_ok=True)
    for p in subset:
        _write("%s/%s/h.h" % (d, p), "\nfrom_%s __LINE__ __FILE__\n#define SEEN %s\n" % (p.replace("/", "_"), p.replace("/", "_")))
    for (via, spec), form in itertools.product(VIA.items(), FORMS):
        f = form.replace("@", d)
        inc = "%sbefore __LINE__\n#include %s\nafter __LINE__ __FILE__ SEEN\n" % (DEFS, f)
        if spec is None:
            _write(d + "/m/main.c", inc)
        else:
            _write(os.path.join(d, spec[0]), inc)
            _write(d + "/m/main.c", "start\n#include %s\nend __LINE__ __FILE__ SEEN\n" % spec[1])
        for dirs in DIRS:
            r, g = _both(d, "m/main.c", dirs)
            n += 1
            key = "h.h in {%s}, -I {%s}, %s from %s" % (" ".join(subset), " ".join(dirs), form, via)
            if g.returncode:
                if not r.rejected:
                    out.append((key, "the file cannot be found, but the compiler says: %s %r" % (r.describe(), r.out[-200:])))
            elif not r.ok:
                out.append((key, "refused: %s" % r.err.decode("utf-8", "replace")[-300:]))
            else:
                a, b = ppref.tokens(r.out.decode("utf-8", "replace")), ppref.tokens(g.stdout.decode("utf-8", "replace"))
                norm = lambda l: [os.path.realpath(t[1:-1]) if t[:1] == '"' else t for t in l]
                if norm(a) != norm(b):
                    out.append((key, "%s\ninstead of\n%s" % (" ".join(a), " ".join(b))))
        if spec is not None:
            os.unlink(os.path.join(d, spec[0]))
    shutil.rmtree(d, ignore_errors=True)
    return n, out


BODIES = {"plain": "x%d\n", "no newline": "x%d", "empty": "", "comment": "/* x%d */", "line comment": "// x%d", "define": "#define M%d y%d\n", "undef": "#undef M%d\n", "line": "#line 77 \"other.h\"\nx%d __LINE__\n", "guard": "#ifndef G%d\n#define G%d\nx%d\n#else\nagain%d\n#endif\n", "count": "#ifdef C%d\nsecond\n#else\n#define C%d\nfirst\n#endif\n",
          "pragma": "x%d\n#pragma STDC FP_CONTRACT ON\n", "directive at end": "x%d\n#define E%d 1", "splice at end": "x%d \\\n\n", "counter": "x%d __LINE__\n__LINE__\n\n\n", "open call": "x%d F(1)\n"}


def _hist(j):
    bodies, order, how = j
    d = os.path.join(core.scratch(), "hist%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    for i, b in enumerate(bodies):
        t = BODIES[b]
        _write("%s/h%d.h" % (d, i), t % ((i,) * t.count("%d")))
    main = "#define F(x) [x]\n"
    for k, i in enumerate(order):
        line = ('#include "h%d.h"\n' if how != "angle" else "#include <h%d.h>\n") % i
        if how == "conditional":
            line = "#if %d\n%s#else\nskipped\n#endif\n" % (k % 2 == 0, line)
        if how == "spaced":
            line = "  #  include  \"h%d.h\" // note\n" % i
        main += line + "l __LINE__ M0 M1 F(__LINE__)\n"
    if how == "nested":
        _write(d + "/all.h", main)
        main = '#include "all.h"\n__LINE__ M0 M1\n#include "all.h"\n__LINE__\n'
    _write(d + "/main.c", main)
    r, g = _both(d, "main.c", ["."])
    a, b = ppref.tokens(r.out.decode("utf-8", "replace")), ppref.tokens(g.stdout.decode("utf-8", "replace"))
    strip = lambda l: [t for t in l]
    bad = None
    if g.returncode == 0 and not r.ok:
        bad = "refused: %s" % r.err.decode("utf-8", "replace")[-300:]
    elif g.returncode == 0 and _nopragma(a) != _nopragma(b):
        bad = "%s\ninstead of\n%s" % (" ".join(a), " ".join(b))
    elif g.returncode and not r.rejected:
        bad = "the reference refuses: %s" % g.stderr.decode()[-300:]
    shutil.rmtree(d, ignore_errors=True)
    return "%s order %s (%s)" % (" + ".join(bodies), "".join(map(str, order)), how), bad, main


def _nopragma(l):
    out, i = [], 0
    while i < len(l):
        if l[i:i + 5] == ["#", "pragma", "STDC", "FP_CONTRACT", "ON"]:
            i += 5
            continue
        out.append(l[i])
        i += 1
    return out


def depth(chk, limit):
    d = os.path.join(core.scratch(), "deep")
    n = 0
    for k in limit:
        shutil.rmtree(d, ignore_errors=True)
        for i in range(k):
            _write("%s/h%d.h" % (d, i), "a%d\n%sb%d __LINE__\n" % (i, '#include "h%d.h"\n' % (i + 1) if i + 1 < k else "", i))
        _write(d + "/main.c", '#include "h0.h"\nend __LINE__\n')
        r, g = _both(d, "main.c", [])
        n += 1
        if not r.ok or ppref.tokens(r.out.decode()) != ppref.tokens(g.stdout.decode()):
            chk.violation("nesting %d" % k, "refused: %s" % r.err.decode()[-300:] if not r.ok else "different tokens")
        _write(d + "/s.c", "#ifndef N\n#define N 0\n#endif\n#if N < %d\n%s#include \"s.c\"\ns __LINE__\n#endif\n" % (k, "#if N == 0\n#undef N\n#define N 1\n" + "".join("#elif N == %d\n#undef N\n#define N %d\n" % (i, i + 1) for i in range(1, k)) + "#endif\n"))
        r, g = _both(d, "s.c", [])
        n += 1
        if not r.ok or ppref.tokens(r.out.decode()) != ppref.tokens(g.stdout.decode()):
            chk.violation("self inclusion %d" % k, "refused: %s" % r.err.decode()[-300:] if not r.ok else "different tokens")
    # oddities of the search path
    shutil.rmtree(d, ignore_errors=True)
    _write(d + "/i/h.h", "good\n")
    _write(d + "/file", "x\n")
    _write(d + "/i/e.h", "int x = ;\n")
    _write(d + "/i/u.h", "#include \"missing.h\"\n")
    for dirs in (["nonexistent", "i"], ["i/"], ["./i"], ["i", "i"], ["file", "i"], ["nonexistent/deeper", "i"], ["i/../i"]):
        for form in ('"h.h"', "<h.h>", '"../i/h.h"', '"i/h.h"'):
            _write(d + "/main.c", "#include %s\n" % form)
            r, g = _both(d, "main.c", dirs)
            n += 1
            if (g.returncode == 0) != r.ok or (r.ok and r.out.split() != g.stdout.split()):
                chk.violation("search path {%s} %s" % (" ".join(dirs), form), "%s %r; reference: %d %r" % (r.describe(), r.out + r.err[-200:], g.returncode, g.stdout))
    for bad in ('"missing.h"', "<missing.h>", '""', "<>", "", "123", "x", '"h.h', "<h.h", '"h.h" extra', "UNDEFINED", 'L"h.h"'):
        if bad == '"h.h" extra':
            continue
        _write(d + "/main.c", "#include %s\n" % bad)
        r, g = _both(d, "main.c", ["i"])
        n += 1
        if not r.rejected or not r.err:
            chk.violation("malformed #include %s" % bad, "not diagnosed: %s %r" % (r.describe(), r.out))
    _write(d + "/main.c", "int a;\n#include <e.h>\n")
    r = core.kefir(["-I", d + "/i", d + "/main.c"])
    n += 1
    if not r.rejected or (os.path.realpath(d) + "/i/e.h@1:9").encode() not in r.err:
        chk.violation("error inside a header", "the diagnostic does not name the header: %r" % r.err)
    shutil.rmtree(d, ignore_errors=True)
    chk.add("nesting, search path oddities, malformed directives", states=n, transitions=n, traces=n)


def run(chk):
    core.build_kserve()
    subsets = [s for k in range(len(PLACES) + 1) for s in itertools.combinations(PLACES, k)]
    for n, out in core.pmap(_place, [(s, chk.quick) for s in subsets]):
        chk.add("placements x directories x forms x includers", states=n, transitions=n, traces=n)
        for key, w in out:
            chk.violation(key, w, key)
        if chk.too_many():
            return chk.finish()
    jobs = []
    for b in itertools.product(BODIES, repeat=2):
        for order in ([(0, 1), (0, 0), (1, 0, 1)] if chk.quick else [o for k in (1, 2, 3) for o in itertools.product((0, 1), repeat=k)]):
            for how in ("quote", "angle", "conditional", "nested", "spaced") if not chk.quick else ("quote", "nested", "spaced" if order == (0, 0) else "conditional"):
                jobs.append((b, order, how))
    for key, bad, main in core.pmap(_hist, jobs, chunksize=4):
        chk.add("inclusion histories", states=1, transitions=1, traces=1)
        if bad:
            chk.violation("history: " + key, bad, main)
    depth(chk, [1, 2, 3, 8, 15, 16, 32, 64] if chk.quick else range(1, 120))
    return chk.finish()

"""C27: diagnostics point at the offending place."""
TECHNIQUE = "exhaustive enumeration of the layouts (all sequences of layout items up to a length: comments, tabs, splices, blank lines, multibyte characters, directives, #line, inclusions, macro uses) in front of, inside and after every kind of fault; the position the real compiler reports is compared with a model of source positions"
NOTE = ("The model walks the text character by character (line, column in characters, #line and inclusion stack). A fault is one token that no layout can make valid (syntax, undeclared identifier, lexical); for a fault that a macro produces, the place is the outermost invocation. For directives only the line is claimed. Trusts the model.")
import itertools
import json
import os
import re
from mc import core

ITEMS = {"blank": " ", "tab": "\t", "newline": "\n", "formfeed": "\f", "comment": "/*c*/", "long comment": "/* c\n d */", "open line": "/**/\n", "line comment": "//c\n", "spliced comment": "// c \\\n d\n",
         "splice": "\\\n", "multibyte comment": "/*\u00e9\u20ac*/", "declaration": "int a@;", "string": 'char *s@="\u00e9\\n\\"";', "name": "int n\\\n@;", "macro": "M ", "call": "F(1,\n2)", "use": "V ",
         "#define": "\n#define D 1\n", "#line": "\n#line 50\n", "#line file": "\n#line 7 \"o@.h\"\n", "#if": "\n#if 0\nx \"\n#endif\n", "#include": "\n#include \"pre.h\"\n", "empty directive": "\n#\n"}
PRE = "#define M\n#define F(a,b)\n#define V\n"
FAULTS = {"syntax": ("int z = ", ";"), "undeclared": ("int z = ", "undeclared;"), "lexical": ("", "@"), "type": ("", "tt v;"), "in function": ("void f(void) { int z; ", "undeclared; }"), "in expression": ("int z; void f(void) { z = (z + ", ") * 2; }"),
          "by macro": ("", "BAD"), "by call": ("int z = ", "CALL(1)"), "statement": ("void f(void) { { ; } ", ") }"), "extra brace": ("", "}"), "argument": ("int g(int); int z; void f(void) { g(z + ", "undeclared); }")}
MACROS = '#define BAD int x = ;\n#define CALL(x) ;\n'


def walk(text, file):
    """position after text (relative to one file): file, line, column, honouring #line"""
    line, col = 1, 1
    for l in text.split("\n")[:-1]:
        m = re.match(r'#line (\d+)(?: "(.*)")?$', l)
        if m:
            line = int(m.group(1)) - 1
            file = m.group(2) or file
        line += 1
    return file, line, len(text.split("\n")[-1]) + 1


def layout(seq):
    return "".join(ITEMS[s].replace("@", str(i)) for i, s in enumerate(seq))


def _one(j):
    seq, fault, where, fmt = j
    a, b = FAULTS[fault]
    lay = layout(seq)
    pre = PRE + MACROS
    if where == "before":
        text = pre + lay + "\n" + a
    elif where == "inside":
        if not a:
            return None
        text = pre + a + lay + " "
    elif where == "header":
        text = lay + "\n" + a
    pos = walk(text, "main.c")
    text += b + "\n" + ("int later;\n" if len(seq) % 2 else "#define LATER 1\n")
    d = os.path.join(core.scratch(), "d%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    with open(d + "/pre.h", "w") as f:
        f.write("\n/* nothing */\n#line 900 \"elsewhere.h\"\n")
    if where == "header":
        with open(d + "/h.h", "w") as f:
            f.write(text)
        pos = walk(text[:len(text) - len(b + "\n" + ("int later;\n" if len(seq) % 2 else "#define LATER 1\n"))], os.path.realpath(d) + "/h.h")
        text = pre + "int before;\n#line 300 \"renamed.c\"\n#include \"h.h\"\n"
    r = core.kefir((["--json-errors"] if fmt else []) + ["--source-id", "main.c", "-I", d], text.encode())
    key = "%s %s {%s}%s" % (fault, where, " ".join(seq), " (JSON)" if fmt else "")
    if not r.rejected:
        return key, "not rejected: " + r.describe(), text
    err = r.err.decode("utf-8", "replace")
    if fmt:
        try:
            e = json.loads(err)[0]
            got = (e["source_location"]["source"], e["source_location"]["line"], e["source_location"]["column"])
            if not e["message"].startswith("%s@%d:%d " % got):
                return key, "message and location differ: %r" % err, text
        except (ValueError, KeyError, IndexError, TypeError) as x:
            return key, "no well-formed error with a location: %r %r" % (x, err), text
    else:
        m = re.search(r"(?m)^ *0\| (.*?)@(\d+):(\d+) ", err)
        if not m:
            return key, "the first diagnostic has no location: %r" % err[:600], text
        got = (m.group(1), int(m.group(2)), int(m.group(3)))
    if got != pos:
        return key, "reported at %s:%d:%d, but the fault is at %s:%d:%d\n%s" % (got + pos + (err[:500],)), text
    return key, None, None


DIRS = {"error": "#error no", "unknown include": "#include \"nosuch.h\"", "bad if": "#if 1 +", "bad define": "#define 1", "bad undef": "#undef 1", "bad ifdef": "#ifdef 1", "bad line": "#line x", "zero division": "#if 1 / 0"}


def _dir(j):
    seq, name, fmt = j
    text = PRE + layout(seq) + "\n"
    pos = walk(text, "main.c")
    text += DIRS[name] + "\nint later;\n" + ("#endif\n" if "if" in name or "zero" in name else "")
    d = os.path.join(core.scratch(), "d%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    with open(d + "/pre.h", "w") as f:
        f.write("\n/* nothing */\n#line 900 \"elsewhere.h\"\n")
    r = core.kefir((["--json-errors"] if fmt else []) + ["--source-id", "main.c", "-I", d], text.encode())
    key = "directive %s {%s}%s" % (name, " ".join(seq), " (JSON)" if fmt else "")
    if not r.rejected:
        return key, "not rejected: " + r.describe(), text
    err = r.err.decode("utf-8", "replace")
    ms = re.findall(r'"message": "([^"\\]*)@(\d+):(\d+) ' if fmt else r"(?m)^ *\d+\| (.*?)@(\d+):(\d+) ", err)
    if not ms:
        return key, "no diagnostic has a location: %r" % err[:600], text
    if (ms[0][0], int(ms[0][1])) != pos[:2]:
        return key, "reported at %s:%s, but the directive is at %s:%d\n%s" % (ms[0][:2] + pos[:2] + (err[:500],)), text
    return key, None, None


def run(chk):
    core.build_kserve()
    jobs = []
    n = 2 if chk.quick else 3
    for k in range(n + 1):
        for seq in itertools.product(ITEMS, repeat=k):
            for f in FAULTS:
                for w in ("before", "inside", "header"):
                    if w == "inside" and any(s in ("declaration", "string", "name") for s in seq):
                        continue
                    if w == "header" and k == 3:
                        continue
                    jobs.append((_one, (seq, f, w, k < 2)))
                    if k < 2:
                        jobs.append((_one, (seq, f, w, False)))
            for f in DIRS:
                if k < 3:
                    jobs.append((_dir, (seq, f, False)))
                    if k < 2:
                        jobs.append((_dir, (seq, f, True)))
    if chk.quick:
        core3 = ["comment", "long comment", "newline", "splice", "#line", "#include", "call", "spliced comment"]
        jobs += [(_one, (s, f, w, False)) for s in itertools.product(core3, repeat=3) for f in ("syntax", "undeclared", "lexical", "by macro") for w in ("before", "inside")]
    for r in core.pmap(_go, jobs, chunksize=64):
        if r is None:
            continue
        chk.add("layouts x faults", states=1, transitions=1, traces=1)
        if r[1]:
            chk.violation(r[0], r[1], r[2])
            if chk.too_many():
                return chk.finish()
    return chk.finish()


def _go(j):
    return j[0](j[1])

"""C31: precedence and binding."""
TECHNIQUE = "exhaustive enumeration of syntax trees up to a number of operators (and of statement token strings and scope histories), each printed with only the parentheses C17's grammar requires, and once fully parenthesised, parsed by the real compiler and compared node by node with the model tree"
NOTE = ("The model is the grammar of C17 6.5 and 6.8 as a precedence table and a recursive-descent recogniser for statements; names denote types or objects according to a model of scopes (6.2.1). The compiler's tree is read from --dump-ast; comma operators are compared as flat lists, and parentheses leave no trace.")
import itertools
import json
from mc import core

HEAD = "struct s { int m ; } v , * q ; int * p ; int f ( int , ... ) ;\n"
# operator table: name, result type, [(operand type, lowest level it may have unparenthesised)], level, format
BIN = [("*", "multiply", 12), ("/", "divide", 12), ("%", "modulo", 12), ("+", "add", 11), ("-", "subtract", 11), ("<<", "shift_left", 10), (">>", "shift_right", 10),
       ("<", "less", 9), (">", "greater", 9), ("<=", "less_equal", 9), (">=", "greater_equal", 9), ("==", "equal", 8), ("!=", "not_equal", 8),
       ("&", "bitwise_and", 7), ("^", "bitwise_xor", 6), ("|", "bitwise_or", 5), ("&&", "logical_and", 4), ("||", "logical_or", 3)]
ASG = [("=", "simple"), ("+=", "add"), ("-=", "subtract"), ("*=", "multiply"), ("/=", "divide"), ("%=", "modulo"), ("<<=", "shift_left"), (">>=", "shift_right"), ("&=", "bitwise_and"), ("^=", "bitwise_xor"), ("|=", "bitwise_or")]
RULES = []


def rule(tag, res, ops, level, fmt, rep=False):
    RULES.append((tag, res, ops, level, fmt, rep))


for _t, _n, _l in BIN:
    rule(("bin", _n), "i", [("i", _l), ("i", _l + 1)], _l, "%s " + _t.replace("%", "%%") + " %s", _n in ("multiply", "subtract", "shift_left", "less", "equal", "bitwise_and", "bitwise_xor", "bitwise_or", "logical_and", "logical_or"))
for _t, _n in ASG:
    rule(("asg", _n), "i", [("l", 14), ("i", 1)], 1, "%s " + _t.replace("%", "%%") + " %s", _n in ("simple", "subtract"))
rule(("comma",), "i", [("i", 0), ("i", 1)], 0, "%s , %s", True)
rule(("cond",), "i", [("i", 3), ("i", 0), ("i", 2)], 2, "%s ? %s : %s", True)
for _t, _n in (("-", "negate"), ("+", "plus"), ("~", "invert"), ("!", "logical_negate")):
    rule(("un", _n), "i", [("i", 13)], 14, _t + " %s", _n == "negate")
rule(("un", "address"), "p", [("l", 13)], 14, "& %s", True)
rule(("un", "indirection"), "l", [("p", 13)], 14, "* %s", True)
rule(("un", "prefix_increment"), "i", [("l", 14)], 14, "++ %s", True)
rule(("un", "prefix_decrement"), "i", [("l", 14)], 14, "-- %s")
rule(("un", "postfix_increment"), "i", [("l", 15)], 15, "%s ++", True)
rule(("un", "postfix_decrement"), "i", [("l", 15)], 15, "%s --")
rule(("un", "sizeof"), "i", [("i", 14)], 14, "sizeof %s", True)
rule(("un", "sizeof"), "i", [("p", 14)], 14, "sizeof %s")
rule(("cast",), "i", [("i", 13)], 13, "( int ) %s", True)
rule(("cast",), "p", [("p", 13)], 13, "( int * ) %s")
rule(("sub",), "l", [("p", 15), ("i", 0)], 15, "%s [ %s ]", True)
rule(("sub",), "l", [("i", 15), ("p", 0)], 15, "%s [ %s ]")
rule(("call",), "i", [("i", 1)], 15, "f ( %s )", True)
rule(("call",), "i", [("i", 1), ("i", 1)], 15, "f ( %s , %s )")
rule(("mem",), "l", [("s", 15)], 15, "%s . m", True)
rule(("arrow",), "l", [("q", 15)], 15, "%s -> m", True)
rule(("un", "address"), "q", [("s", 13)], 14, "& %s")
rule(("un", "indirection"), "s", [("q", 13)], 14, "* %s")
rule(("un", "postfix_increment"), "q", [("ql", 15)], 15, "%s ++")
rule(("lit",), "l", [("i", 1)], 15, "( int ) { %s }", True)
rule(("bin", "add"), "p", [("p", 11), ("i", 12)], 11, "%s + %s", True)
rule(("bin", "add"), "p", [("i", 11), ("p", 12)], 11, "%s + %s")
rule(("bin", "subtract"), "i", [("p", 11), ("p", 12)], 11, "%s - %s")
rule(("asg", "simple"), "p", [("pl", 14), ("p", 1)], 1, "%s = %s")
rule(("un", "postfix_increment"), "p", [("pl", 15)], 15, "%s ++", True)
rule(("un", "prefix_increment"), "p", [("pl", 14)], 14, "++ %s")
rule(("cond",), "p", [("i", 3), ("p", 0), ("p", 2)], 2, "%s ? %s : %s")
rule(("comma",), "p", [("i", 0), ("p", 1)], 0, "%s , %s")
rule(("un", "logical_negate"), "i", [("p", 13)], 14, "! %s")
rule(("gen",), "i", [("i", 1), ("i", 1)], 16, "_Generic ( %s , default : %s )", True)
SUB = {"i": ("i", "l"), "l": ("l",), "p": ("p", "pl"), "pl": ("pl",), "s": ("s",), "q": ("q", "ql"), "ql": ("ql",)}
LEAF = {"l": "abcde", "pl": "p", "s": "v", "ql": "q"}


class Gen:
    def __init__(self, rules):
        self.rules, self.memo = rules, {}

    def exact(self, t, n):
        k = (t, n)
        if k not in self.memo:
            res = []
            if n == 0:
                if t in LEAF:
                    res.append(("leaf", t))
            else:
                for r in self.rules:
                    if r[1] != t:
                        continue
                    for split in _splits(n - 1, len(r[2])):
                        for ops in itertools.product(*[self.sub(o[0], m) for o, m in zip(r[2], split)]):
                            res.append((r, ops))
            self.memo[k] = res
        return self.memo[k]

    def sub(self, t, n):
        return [x for u in SUB[t] for x in self.exact(u, n)]


def _splits(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in _splits(n - i, k - 1):
            yield (i,) + r


def render(tree, names, full):
    """-> (text, level, expected)"""
    if tree[0] == "leaf":
        n = next(names) if tree[1] == "l" else LEAF[tree[1]]
        return n, 16, ("id", n)
    r, ops = tree
    txt, exp = [], []
    for (t, low), o in zip(r[2], ops):
        s, lv, e = render(o, names, full)
        if lv < low or (full and lv < 16):
            s = "( " + s + " )"
        txt.append(s)
        exp.append(e)
    tag = r[0]
    if tag[0] == "comma" and exp[0][0] == "comma":
        e = ("comma",) + exp[0][1:] + (exp[1],)
    elif tag[0] == "call":
        e = ("call", ("id", "f")) + tuple(exp)
    else:
        e = tag + tuple(exp)
    return r[4] % tuple(txt), r[3], e


def conv(n):
    if n is None:
        return None
    c = n["class"]
    if c == "identifier":
        return ("id", n["identifier"])
    if c == "binary_operation":
        return ("bin", n["type"], conv(n["left"]), conv(n["right"]))
    if c == "assignment_operator":
        return ("asg", n["type"], conv(n["target"]), conv(n["value"]))
    if c == "comma_operator":
        x = [conv(e) for e in n["expressions"]]
        while x[0] and x[0][0] == "comma":
            x = list(x[0][1:]) + x[1:]
        return ("comma",) + tuple(x)
    if c == "conditional_operator":
        return ("cond", conv(n["condition"]), conv(n["thenBranch"]), conv(n["elseBranch"]))
    if c == "unary_operation":
        return ("un", n["type"], conv(n["argument"]))
    if c == "type_name":
        return ("type",)
    if c == "cast_operator":
        return ("cast", conv(n["expression"]))
    if c == "array_subscript":
        return ("sub", conv(n["array"]), conv(n["subscript"]))
    if c == "function_call":
        return ("call", conv(n["function"])) + tuple(conv(a) for a in n["arguments"])
    if c == "struct_member":
        return ("mem", conv(n["structure"]))
    if c == "indirect_struct_member":
        return ("arrow", conv(n["structure"]))
    if c == "compound_literal":
        return ("lit",) + tuple(conv(i["initializer"].get("expression")) for i in n["initializer"]["list"])
    if c == "generic_selection":
        return ("gen", conv(n["control_expression"])) + tuple(conv(a["expression"]) for a in n["associations"]) + ((conv(n["default_association"]),) if n["default_association"] else ())
    if c == "constant":
        return ("const", n["value"])
    if c == "expression_statement":
        return ("expr", conv(n["expression"]))
    if c == "if_statement":
        return ("if", conv(n["thenBranch"]), conv(n["elseBranch"]))
    if c == "while_statement":
        return ("while", conv(n["body"]))
    if c == "for_statement":
        return ("for", conv(n["body"]))
    if c == "do_while_statement":
        return ("do", conv(n["body"]))
    if c == "switch_statement":
        return ("switch", conv(n["statement"]))
    if c == "labeled_statement":
        return ("label", conv(n["statement"]))
    if c == "case_statement":
        return ("case", conv(n["statement"]))
    if c == "compound_statement":
        return ("block",) + tuple(conv(i) for i in n["items"])
    if c == "declaration":
        return ("decl",)
    return (c,)


def dump(text, opts=()):
    r = core.kefir(["--dump-ast"] + list(opts), text)
    if not r.ok:
        return None, r.err.decode("utf-8", "replace")[:300] if r.rejected else r.describe()
    return json.loads(r.out.decode("utf-8", "replace")), ""


def _exprs(a):
    """cases: (key, text, expected)"""
    cases = a
    bad, runs = [], 0

    def go(cs):
        nonlocal runs
        runs += 1
        d, err = dump(HEAD + "void t ( int a , int b , int c , int d , int e ) {\n" + "".join("%s ;\n" % c[1] for c in cs) + "}\n")
        if d is None:
            if len(cs) == 1:
                bad.append((cs[0][0], "rejected: " + err, cs[0][1]))
            elif len(bad) < 300:
                m = len(cs) // 2
                go(cs[:m])
                go(cs[m:])
            return
        items = d["external_declarations"][-1]["body"]["items"][1:]
        if len(items) != len(cs):
            bad.append((cs[0][0], "%d statements instead of %d" % (len(items), len(cs)), "\n".join(c[1] for c in cs)))
            return
        for c, it in zip(cs, items):
            got = conv(it)
            if got != ("expr", c[2]):
                bad.append((c[0], "parsed as %s, not %s" % (got[1], c[2]), c[1]))
    go(cases)
    return len(cases), runs, bad


def expr_cases(rules, ns):
    g = Gen(rules)
    for n in ns:
        for t in SUB["i"] + SUB["p"]:
            for tree in g.exact(t, n):
                mt, _, e = render(tree, iter("abcdeabcde"), False)
                ft, _, _ = render(tree, iter("abcdeabcde"), True)
                yield mt, mt, e
                if ft != mt:
                    yield ft, ft, e


# ------------------------------------------------------------------------------------------ statements
TOK = {"I": "if ( a )", "E": "else", "W": "while ( a )", "D": "do", "F": "for ( ; a ; )", "C": "switch ( a )", "K": "case # :", "L": "L# :", "S": "a ;", ";": ";", "{": "{", "}": "}"}


def stmts(n, memo={}):
    """all token strings of length n derivable as one statement (from the ambiguous grammar)"""
    if n in memo:
        return memo[n]
    r = set()
    if n == 1:
        r |= {"S", ";"}
    else:
        for x in "IWFCKL":
            r |= {x + s for s in stmts(n - 1)}
        for i in range(1, n - 2):
            r |= {"I" + s + "E" + u for s in stmts(i) for u in stmts(n - 2 - i)}
        if n >= 4:
            r |= {"D" + s + "W;" for s in stmts(n - 3)}
        if n >= 2:
            for k in range(0, n - 1):
                r |= {"{" + s + "}" for s in blocks(n - 2)}
                break
    memo[n] = r
    return r


def blocks(n):
    if n == 0:
        return {""}
    r = set()
    for i in range(1, n + 1):
        r |= {s + b for s in stmts(i) for b in blocks(n - i)}
    return r


def parse(s, i):
    """-> (tree, next); C17 6.8 with else bound to the nearest if"""
    if i >= len(s):
        raise ValueError
    c = s[i]
    if c == "S":
        return ("expr", ("id", "a")), i + 1
    if c == ";":
        return ("expr", None), i + 1
    if c == "I":
        t, j = parse(s, i + 1)
        if j < len(s) and s[j] == "E":
            e, k = parse(s, j + 1)
            return ("if", t, e), k
        return ("if", t, None), j
    if c in "WFCKL":
        b, j = parse(s, i + 1)
        return ({"W": "while", "F": "for", "C": "switch", "K": "case", "L": "label"}[c], b), j
    if c == "D":
        b, j = parse(s, i + 1)
        if s[j:j + 2] != "W;":
            raise ValueError
        return ("do", b), j + 2
    if c == "{":
        items, j = [], i + 1
        while j < len(s) and s[j] != "}":
            t, j = parse(s, j)
            items.append(t)
        if j >= len(s):
            raise ValueError
        return ("block",) + tuple(items), j + 1
    raise ValueError


def spell(s):
    return " ".join(TOK[c].replace("#", str(i)) for i, c in enumerate(s))


def stmt_ok(s):
    """case labels only inside a switch"""
    def walk(t, sw):
        if t is None or not isinstance(t, tuple):
            return True
        if t[0] == "case" and not sw:
            return False
        return all(walk(x, sw or t[0] == "switch") for x in t[1:])
    try:
        t, j = parse(s, 0)
    except ValueError:
        return None
    return t if j == len(s) and walk(t, False) else None


def _stmts(cases):
    bad, runs = [], 0

    def go(cs):
        nonlocal runs
        runs += 1
        d, err = dump("".join("void t%d ( int a ) { %s }\n" % (i, c[1]) for i, c in enumerate(cs)))
        if d is None:
            if len(cs) == 1:
                if cs[0][2] is not None:
                    bad.append((cs[0][0], "rejected: " + err, cs[0][1]))
            else:
                m = len(cs) // 2
                go(cs[:m])
                go(cs[m:])
            return
        for c, x in zip(cs, d["external_declarations"]):
            got = [conv(i) for i in x["body"]["items"][1:]]
            if c[2] is None:
                bad.append((c[0], "accepted as %s, but is no statement" % (got,), c[1]))
            elif got != [c[2]]:
                bad.append((c[0], "parsed as %s, not %s" % (got, [c[2]]), c[1]))
    ok = [c for c in cases if c[2] is not None]
    if ok:
        go(ok)
    for c in cases:
        if c[2] is None:
            go([c])
    return len(cases), runs, bad


# ------------------------------------------------------------------------------------------ typedef names and scopes
USES = {"type": [("( T ) - a", ("cast", ("un", "negate", ("id", "a")))), ("( T ) + a", ("cast", ("un", "plus", ("id", "a")))), ("( T ) & a", ("cast", ("un", "address", ("id", "a")))), ("( T ) * p", ("cast", ("un", "indirection", ("id", "p")))),
                 ("( T ) ( a )", ("cast", ("id", "a"))), ("( T ) ( a ) + 1", ("bin", "add", ("cast", ("id", "a")), ("const", 1))), ("sizeof ( T ) - a", ("bin", "subtract", ("un", "sizeof", ("type",)), ("id", "a"))),
                 ("( T ) { 1 }", ("lit", ("const", 1))), ("sizeof ( T ) { 1 }", ("un", "sizeof", ("lit", ("const", 1)))), ("_Alignof ( T )", ("un", "alignof", ("type",))), ("_Generic ( a , T : a )", ("gen", ("id", "a"), ("id", "a"))),
                 ("sizeof ( T ) * a", ("bin", "multiply", ("un", "sizeof", ("type",)), ("id", "a"))), ("( T ) ~ a", ("cast", ("un", "invert", ("id", "a"))))],
        "var": [("( T ) - a", ("bin", "subtract", ("id", "T"), ("id", "a"))), ("( T ) + a", ("bin", "add", ("id", "T"), ("id", "a"))), ("( T ) & a", ("bin", "bitwise_and", ("id", "T"), ("id", "a"))), ("( T ) * a", ("bin", "multiply", ("id", "T"), ("id", "a"))),
                ("T * a", ("bin", "multiply", ("id", "T"), ("id", "a"))), ("sizeof ( T ) - a", ("bin", "subtract", ("un", "sizeof", ("id", "T")), ("id", "a"))), ("T ? T : T", ("cond", ("id", "T"), ("id", "T"), ("id", "T"))), ("sizeof T", ("un", "sizeof", ("id", "T"))),
                ("( T ) [ p ]", ("sub", ("id", "T"), ("id", "p")))],
        "func": [("T ( a )", ("call", ("id", "T"), ("id", "a"))), ("( T ) ( a )", ("call", ("id", "T"), ("id", "a"))), ("( T ) ( a ) + 1", ("bin", "add", ("call", ("id", "T"), ("id", "a")), ("const", 1))), ("( * T ) ( a )", ("call", ("un", "indirection", ("id", "T")), ("id", "a"))),
                 ("& T", ("un", "address", ("id", "T"))), ("sizeof ( T ( a ) )", ("un", "sizeof", ("call", ("id", "T"), ("id", "a"))))]}
DECLS = {"type": [("{ int z ; { T * z ; } }", ("block", ("decl",), ("block", ("decl",)))), ("{ int z ; { T ( z ) ; } }", ("block", ("decl",), ("block", ("decl",)))), ("{ T z ; }", ("block", ("decl",))), ("{ T z , * y ; }", ("block", ("decl",))),
                  ("{ const T z ; }", ("block", ("decl",))), ("{ T const z ; }", ("block", ("decl",))), ("{ T ( * z ) ( T ) ; }", ("block", ("decl",))), ("for ( T z = 0 ; z ; ) ;", ("for", ("expr", None))), ("{ unsigned z ( T ) ; }", ("block", ("decl",)))],
         "var": [("{ int z ; { T * z ; } }", ("block", ("decl",), ("block", ("expr", ("bin", "multiply", ("id", "T"), ("id", "z"))))))],
         "func": [("{ int z ; { T ( z ) ; } }", ("block", ("decl",), ("block", ("expr", ("call", ("id", "T"), ("id", "z"))))))]}
ALWAYS = [("{ struct { int T ; } z ; z . T ; }", ("block", ("decl",), ("expr", ("mem", ("id", "z"))))), ("{ struct { int T ; } z = { . T = 1 } ; }", ("block", ("decl",)))]
# events: name -> (text, effect); effect: None, 'open', 'close', or the meaning T gets in the current scope
EVENTS = {"{": ("{", "open"), "}": ("}", "close"), "int T": ("int T ;", "var"), "int T=1": ("int T = 1 , t@ = T ;", "var"), "T()": ("int T ( int ) ;", "func"), "enum": ("enum { T } ;", "var"), "typedef": ("typedef int T ;", "type"), "typedef2": ("typedef int ( T ) ;", "type"),
          "tag": ("struct T { int T ; } w@ ;", None), "proto": ("int g@ ( int T ) ;", None), "proto2": ("int h@ ( int T , int ( * ) [ sizeof ( T ) ] ) ;", None), "for": ("for ( int T = 0 ; T < 1 ; T ++ ) {", "openvar"), "T T": ("T T ;", "selfvar"), "T(T)": ("T ( T ) ;", "selfvar"), "sizeof enum": ("( void ) sizeof ( enum { T } ) ;", "var"),
          "label": ("T : ;", "label"), "body": ("if ( a ) {", "open"), "extern": ("extern int T ;", "extvar")}


def scope_cases(depth):
    heads = [("type", "", "int b"), ("type", "", "int T"), ("type", "", "int T ( int )"), ("type", "", "int b , int ( * c ) ( int T )"), ("type", "", "T b"), ("type", "", "T T")]
    for hi, (start, _, params) in enumerate(heads):
        first = {"int T": "var", "int T ( int )": "func", "T T": "var"}.get(params)

        def rec(seq, scopes, flags, text):
            cur = [m for m in scopes if m][-1]
            yield seq, cur, text + "}" * (len(scopes) - 2), scopes
            if len(seq) == depth:
                return
            for e, (t, eff) in EVENTS.items():
                sc, fl = list(scopes), set(flags)
                if eff == "open":
                    if len(sc) > 4:
                        continue
                    sc.append(None)
                elif eff == "close":
                    if len(sc) <= 2:
                        continue
                    sc.pop()
                    fl = {x for x in fl if x[0] != len(sc)}
                elif eff == "openvar":
                    if len(sc) > 4:
                        continue
                    sc.append("var")
                elif eff == "label":
                    if "label" in [x[1] for x in fl]:
                        continue
                    fl.add((0, "label"))
                elif eff is None:
                    if (len(sc) - 1, e) in fl:
                        continue
                    fl.add((len(sc) - 1, e))
                else:
                    if sc[-1] is not None:
                        continue
                    if eff == "selfvar":
                        if cur != "type":
                            continue
                        eff = "var"
                    if eff == "extvar":
                        continue
                    if e == "for" and len(sc) > 4:
                        continue
                    sc[-1] = eff
                yield from rec(seq + (e,), sc, fl, text + t.replace("@", str(len(seq))) + " ")
        for seq, cur, text, scopes in rec((), ["type", first], frozenset(), ""):
            closers = "}" * (len(scopes) - 2)
            body = text[:len(text) - len(closers)] if closers else text
            yield "%s; %s" % (params, " ".join(seq)), params, body, closers, cur


def _scopes(cases):
    bad, runs, n = [], 0, 0

    def build(i, c):
        key, params, body, closers, cur = c
        exp = [("expr", e) for _, e in USES[cur]] + [e for _, e in DECLS[cur]] + [e for _, e in ALWAYS]
        use = " ".join(t + " ;" for t, _ in USES[cur]) + " " + " ".join(t for t, _ in DECLS[cur]) + " " + " ".join(t for t, _ in ALWAYS)
        return "void t%d ( %s ) { int a = 1 , * p = & a ; %s { 77 ; %s } %s }\n" % (i, params, body, use, closers), exp

    def find(node):
        if isinstance(node, dict):
            if node.get("class") == "compound_statement" and node["items"] and conv(node["items"][0]) == ("expr", ("const", 77)):
                return node
            for v in node.values():
                r = find(v)
                if r:
                    return r
        elif isinstance(node, list):
            for v in node:
                r = find(v)
                if r:
                    return r
        return None

    def go(cs):
        nonlocal runs
        runs += 1
        bs = [build(i, c) for i, c in enumerate(cs)]
        d, err = dump("typedef int T ;\n" + "".join(b[0] for b in bs))
        if d is None:
            if len(cs) == 1:
                bad.append((cs[0][0], "rejected: " + err, "typedef int T ;\n" + bs[0][0]))
            else:
                m = len(cs) // 2
                go(cs[:m])
                go(cs[m:])
            return
        fs = [x for x in d["external_declarations"] if x["class"] == "function_definition"]
        for c, b, x in zip(cs, bs, fs):
            blk = find(x)
            got = [conv(i) for i in blk["items"][1:]] if blk else None
            if got != b[1]:
                diff = [(g, w) for g, w in zip(got or [], b[1]) if g != w]
                bad.append((c[0], "parsed as %s, not %s" % (diff[0] if diff else (got, b[1])), b[0]))
    go(cases)
    return sum(len(USES[c[4]]) + len(DECLS[c[4]]) + 2 for c in cases), runs, bad


# ------------------------------------------------------------------------------------------ declarators
def decl_cases(depth, abstract):
    """chains of derivations, outermost first: pointer / const pointer / array / function"""
    for n in range(0, depth + 1):
        for ch in itertools.product("pcaf", repeat=n):
            ok = True
            for x, y in zip(ch, ch[1:]):
                if (x == "f" and y in "fa") or (x == "a" and y == "f"):
                    ok = False
            if not ok:
                continue
            yield "".join(ch)


def declarator(ch, name):
    """C declarator text for 'name is ch[0] of ch[1] of ... int'"""
    s, last = name, None
    for c in ch:
        if c in "pc":
            s = ("* const " if c == "c" else "* ") + s
            last = "p"
        else:
            if last == "p":
                s = "( " + s + " )"
            s += " [ 3 ]" if c == "a" else " ( int )"
            last = c
    return s


def dconv(d):
    """JSON declarator -> chain from the name outwards"""
    out = []
    while d and d["class"] not in ("identifier", "abstract"):
        c = d["class"]
        if c == "pointer":
            out.append("c" if d["type_qualifiers"] == ["const"] else "p" if d["type_qualifiers"] == [] else "?")
        else:
            out.append({"array": "a", "function": "f"}.get(c, "?"))
        d = d.get("declarator")
    return "".join(reversed(out))


def _decls(cases):
    bad, runs = [], 0

    def go(cs):
        nonlocal runs
        runs += 1
        text = "".join("extern int %s ;\n" % declarator(c, "x%d" % i) for i, c in enumerate(cs))
        text += "int last ( void ) {\n" + "".join("sizeof ( int * ( * ) [ 1 ] ) ; ( void ) ( int ( * ) ( int , int %s ) ) 0 ;\n" % declarator(c, "y%d" % i) for i, c in enumerate(cs))
        text += "".join("( void ) sizeof ( int %s ) ;\n" % declarator("p" + c, "") for c in cs) + "}\n"
        d, err = dump(text)
        if d is None:
            if len(cs) == 1:
                bad.append((cs[0], "rejected: " + err, text))
            else:
                m = len(cs) // 2
                go(cs[:m])
                go(cs[m:])
            return
        for c, x in zip(cs, d["external_declarations"]):
            got = dconv(x["init_declarators"][0]["declarator"])
            if got != c:
                bad.append((c, "declares %s" % got, "int %s ;" % declarator(c, "x")))
        items = d["external_declarations"][-1]["body"]["items"][1:]
        for i, c in enumerate(cs):
            tn = items[2 * i + 1]["expression"]["expression"]["type_name"]
            par = tn["declarator"]["parameters"][1]["init_declarators"][0]["declarator"]
            if dconv(par) != c or dconv(tn["declarator"]) != "pf":
                bad.append((c, "parameter declares %s" % dconv(par), "int %s" % declarator(c, "y")))
            ab = items[2 * len(cs) + i]["expression"]["expression"]["argument"]["declarator"]
            if dconv(ab) != "p" + c:
                bad.append((c, "abstract declarator denotes %s" % dconv(ab), "int %s" % declarator("p" + c, "")))
    go(cases)
    return 3 * len(cases), runs, bad


def _part(chk, name, job, jobs):
    n = runs = 0
    for k, r, bad in core.pmap(job, jobs):
        n += k
        runs += r
        for key, detail, text in bad:
            chk.violation("%s: %s" % (name, key), detail, text + "\n")
    chk.add(name, states=n, transitions=runs, traces=n)


def run(chk):
    core.build_kserve()
    q = chk.quick
    reps = [r for r in RULES if r[5]]
    _part(chk, "expressions: all operators", _exprs, list(core.chunks(expr_cases(RULES, (1, 2)), 80)))
    seen_all = list(core.chunks(expr_cases(reps if q else RULES, (3,)), 80))
    _part(chk, "expressions: three operators", _exprs, seen_all)
    if not q:
        small = [r for r in reps if r[0] in (("bin", "multiply"), ("bin", "subtract"), ("bin", "less"), ("bin", "logical_and"), ("bin", "logical_or"), ("asg", "simple"), ("comma",), ("cond",), ("un", "negate"), ("un", "sizeof"), ("cast",), ("sub",), ("un", "postfix_increment"))]
        _part(chk, "expressions: four operators", _exprs, list(core.chunks(expr_cases(small, (4,)), 80)))
    st = []
    for n in range(1, (6 if q else 7) + 1):
        for s in sorted(stmts(n)):
            t = stmt_ok(s)
            if t is not None:
                st.append((s, spell(s), t))
    _part(chk, "statements", _stmts, list(core.chunks(st, 30)))
    # one token removed or doubled: valid and invalid strings
    ed = set()
    for n in range(2, (5 if q else 6) + 1):
        for s in stmts(n):
            for i in range(len(s)):
                ed.add(s[:i] + s[i + 1:])
                ed.add(s[:i] + s[i] + s[i:])
    bad = []
    for s in sorted(ed):
        if not s or stmt_ok(s) is not None or "K" in s or s.count("}") != s.count("{"):
            continue
        # several statements in sequence are valid in a body
        try:
            t, j = parse(s, 0)
            while j < len(s):
                t, j = parse(s, j)
            continue
        except ValueError:
            pass
        bad.append((s, spell(s), None))
    _part(chk, "statements: no statement", _stmts, list(core.chunks(bad, 30)))
    _part(chk, "typedef names", _scopes, list(core.chunks(scope_cases(3 if q else 4), 12)))
    _part(chk, "declarators", _decls, list(core.chunks(decl_cases(5 if q else 7, False), 25)))
    return chk.finish()

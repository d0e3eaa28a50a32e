"""Accept/reject exploration: every case is judged by the reference compiler's syntax and constraint checks
(gcc -std=c17 -pedantic-errors -fsyntax-only) and has to get the same verdict from kefir."""
import re, subprocess
from mc import core

REF = ["gcc", "-std=c17", "-pedantic-errors", "-fsyntax-only", "-fno-builtin", "-Wno-overflow", "-x", "c"]


def ref_ok(text, flags=()):
    r = subprocess.run(REF + list(flags) + ["-"], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode not in (0, 1):
        raise core.CheckError("reference compiler: " + r.stdout.decode()[:500])
    return r.returncode == 0, r.stdout.decode("utf-8", "replace")


def reference(head, texts, flags=()):
    """-> list of verdicts"""
    import bisect
    res = [None] * len(texts)
    todo = list(range(len(texts)))
    cand = []
    while todo:
        parts, starts, line = [head], [], head.count("\n") + 1
        for i in todo:
            starts.append(line)
            t = texts[i].replace("@", "c%d_" % i) + "\n"
            parts.append(t)
            line += t.count("\n")
        ok, err = ref_ok("".join(parts), flags)
        if ok:
            for i in todo:
                res[i] = True
            break
        bad = sorted({bisect.bisect_right(starts, int(m.group(1))) - 1 for m in re.finditer(r"(?m)^<stdin>:(\d+):(?:\d+:)? (?:fatal )?error", err)})
        if not bad or bad[0] < 0:
            raise core.CheckError("reference compiler: " + err[:500])
        for b in reversed(bad):
            cand.append(todo.pop(b))
    for i in cand:
        res[i] = ref_ok(head + texts[i].replace("@", "c%d_" % i) + "\n", flags)[0]
    return res


def _job(a):
    head, cases, opts, flags, model, soft = a
    texts = [c[1] for c in cases]
    want = [c[2] for c in cases] if model else reference(head, texts, flags)
    bad, runs = [], 0

    def accepted(ix):
        nonlocal runs
        if not ix:
            return
        runs += 1
        r = core.kefir(list(opts), head + "\n".join(texts[i].replace("@", "c%d_" % i) for i in ix) + "\n")
        if r.ok:
            return
        if len(ix) == 1:
            i = ix[0]
            bad.append((cases[i][0], "is valid, but " + ("rejected: " + r.err.decode("utf-8", "replace")[:300] if r.rejected else "the compiler ends with " + r.describe()), head + texts[i].replace("@", "c%d_" % i) + "\n"))
            return
        h = len(ix) // 2
        accepted(ix[:h])
        accepted(ix[h:])
    accepted([i for i, w in enumerate(want) if w])
    for i, w in enumerate(want):
        if w is False and not soft[i]:
            runs += 1
            t = head + texts[i].replace("@", "c%d_" % i) + "\n"
            r = core.kefir(list(opts), t)
            if not r.rejected:
                bad.append((cases[i][0], "breaks a constraint, but " + ("is accepted" if r.ok else "the compiler ends with " + r.describe()), t))
    return len(cases), sum(1 for w in want if w is False), runs, bad


def explore(chk, part, cases, head="", per=40, opts=(), flags=(), model=False, lenient=None):
    """cases: (key, text with @ for a unique prefix[, verdict when model])"""
    core.build_kserve()
    n = rej = tr = 0
    for k, r, t, bad in core.pmap(_job, ((head, b, opts, flags, model, [bool(lenient and lenient(c[0])) for c in b]) for b in core.chunks(cases, per))):
        n += k
        rej += r
        tr += t
        for key, why, text in bad:
            chk.violation("%s: %s" % (part, key), why, text)
        if chk.too_many():
            break
    chk.add(part, states=n, transitions=tr, traces=n, to_be_rejected=rej)
    return n

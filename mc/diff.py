"""Differential replay: every enumerated program is compiled by the real kefir and by the reference compiler, both
halves are linked into one process, and what they observe is compared step by step."""
import os, re
from . import core

PRELUDE = """extern void obs_i(long long); extern void obs_u(unsigned long long); extern void obs_d(double);
extern void obs_f(float); extern void obs_ld(long double); extern void obs_p(const void *);
extern void obs_b(const void *, unsigned long); extern void obs_s(const char *);
extern long long id_i(long long); extern double id_d(double); extern int trace(int, int);
extern int nx(void); extern int nx2(void); extern void with_script(void (*)(void), unsigned long, int, int); extern int sp_probe(int); extern void in_thread(void (*)(void));
"""


def _side(text, side, n):
    return text.replace("@", "%s%d_" % (side, n))


class Case:
    """key: canonical identification; text: C text defining void t@(void); ref: text for the reference side."""
    __slots__ = ("key", "text", "ref")

    def __init__(self, key, text, ref=None):
        self.key, self.text, self.ref = key, text, ref


def driver_obj():
    p = os.path.join(core.VERIF, "native", "driver.c")
    d = os.path.join(core.BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, "drv-%s.o" % core._digest(core._read(p)))
    if not os.path.exists(o):
        t = o + ".%d.tmp" % os.getpid()
        rc, out = core.sh(["gcc", "-O1", "-w", "-fno-pie", "-c", p, "-o", t])
        if rc:
            raise core.CheckError(out)
        os.replace(t, o)
    return o


def _kefir(cases, opts, prelude, k0=0):
    src = prelude + "\n" + "\n".join(_side(c.text, "k", i) for i, c in enumerate(cases))
    return core.kefir(list(opts), src, cpu_ms=60000), src


def run_batch(cases, opts=(), prelude=PRELUDE, gflags=("-O0",), refuse_ok=False, libs=(), kextra=None):
    """-> (list of (case, detail, source)), observations checked. A rejected or crashing compilation is attributed to the
    single case that causes it."""
    bad = []
    r, src = _kefir(cases, opts, prelude)
    if not r.ok:
        if len(cases) == 1:
            why = "kefir %s on a valid program (%s): %s" % ("rejects" if r.rejected else "fails", r.describe(),
                                                           r.err.decode("utf-8", "replace")[:600])
            return [(cases[0], why, src)], 0
        h = len(cases) // 2
        n = 0
        for part in (cases[:h], cases[h:]):
            b, k = run_batch(part, opts, prelude, gflags, refuse_ok, libs)
            bad += b
            n += k
        return bad, n
    ko, out = core.assemble(r.out)
    if ko is None:
        if len(cases) == 1:
            return [(cases[0], "the produced assembly does not assemble: " + out[:500], src)], 0
        h = len(cases) // 2
        n = 0
        for part in (cases[:h], cases[h:]):
            b, k = run_batch(part, opts, prelude, gflags, refuse_ok, libs)
            bad += b
            n += k
        return bad, n
    ref = prelude + "\n" + "\n".join(_side(c.ref if c.ref is not None else c.text, "g", i) for i, c in enumerate(cases))
    ref += "\nstruct vtest { void (*k)(void); void (*g)(void); };\n"
    for i in range(len(cases)):
        ref += "extern void tk%d_(void); " % i
    ref += "\nconst struct vtest vtests[] = {" + ",".join("{tk%d_, tg%d_}" % (i, i) for i in range(len(cases))) + "};\n"
    ref += "const int vntests = %d;\n" % len(cases)
    go, out = core.gcc_obj(ref, gflags)
    if go is None:
        core.rm(ko)
        if len(cases) == 1 and os.environ.get("MC_SKIPREF"):
            print("REFREJECT", cases[0].key, out[:300], flush=True)
            return [], 0
        if len(cases) == 1:
            raise core.CheckError("the reference compiler rejects case %s:\n%s\n%s" % (cases[0].key, out[:1500], ref[-1500:]))
        n = 0
        h = len(cases) // 2
        for part in (cases[:h], cases[h:]):
            b, k = run_batch(part, opts, prelude, gflags, refuse_ok, libs)
            bad += b
            n += k
        return bad, n
    exe, out = core.link([driver_obj(), ko, go], libs)
    if exe is None:
        core.rm(ko, go)
        if len(cases) == 1:
            return [(cases[0], "the produced object does not link: " + out[:800], src)], 0
        n = 0
        h = len(cases) // 2
        for part in (cases[:h], cases[h:]):
            b, k = run_batch(part, opts, prelude, gflags, refuse_ok, libs)
            bad += b
            n += k
        return bad, n
    rc, so, se = core.run_exe(exe, timeout=300)
    core.rm(ko, go, exe)
    n = 0
    done = False
    for line in so.decode("utf-8", "replace").split("\n"):
        m = re.match(r"DIFF (\d+) (\d+) (.*)", line)
        if m:
            c = cases[int(m.group(1))]
            bad.append((c, "observation %s: %s" % (m.group(2), m.group(3)), None))
        m = re.match(r"REFCRASH (\d+) (.*)", line)
        if m:
            raise core.CheckError("the reference side dies on %s: %s\n%s" % (cases[int(m.group(1))].key, m.group(2), cases[int(m.group(1))].text))
        m = re.match(r"DONE (\d+) (\d+)", line)
        if m:
            done = True
            n = int(m.group(2))
    if not done:
        if len(cases) == 1:
            return [(cases[0], "the compiled program corrupts its process (exit %s)" % rc, src)], 0
        bad = []
        h = len(cases) // 2
        n = 0
        for part in (cases[:h], cases[h:]):
            b, k = run_batch(part, opts, prelude, gflags, refuse_ok, libs)
            bad += b
            n += k
    return bad, n


def _job(a):
    cases, opts, prelude, gflags, libs = a
    bad, n = run_batch(cases, opts, prelude, gflags, libs=libs)
    # replay before report: each failing case alone
    out = []
    for c, why, src in bad:
        b2, _ = run_batch([c], opts, prelude, gflags, libs=libs)
        if b2:
            out.append((c.key, why if src else b2[0][1] + ("" if b2[0][1] == why else " [in batch: %s]" % why), prelude + _side(c.text, "k", 0)))
        else:
            again = []
            for _ in range(4):
                b3, _ = run_batch(cases, opts, prelude, gflags, libs=libs)
                again = [w for cc, w, _ in b3 if cc.key == c.key]
                if again:
                    break
            if again or why.startswith("observation"):
                out.append((c.key, why + (" [only together with the other cases of its translation unit]" if again else " [not on every run]"),
                            prelude + "\n".join(_side(x.text, "k", i) for i, x in enumerate(cases))))
            else:
                raise core.CheckError("nondeterministic result for %s: %s" % (c.key, why))
    return len(cases), n, out, cases[0].key, cases[0].text


def explore(chk, part, cases, per_batch=40, opts=(), prelude=PRELUDE, gflags=("-O0",), libs=(), limit=core.LIMIT):
    """Replays all cases (any iterable); reports every disagreement."""
    driver_obj(); core.runtime_obj(); core.build_kserve()
    ns = nt = 0
    first = None
    seen = len(chk.viol)
    for k, n, bad, key, text in core.pmap(_job, ((b, opts, prelude, gflags, libs) for b in core.chunks(cases, per_batch))):
        ns += k
        nt += n
        if first is None:
            first = {"part": part, "case": key, "program": text[:400]}
        for key, why, src in bad:
            chk.violation("%s: %s" % (part, key), why, src)
        if len(chk.viol) - seen >= limit:
            break
    chk.add(part, states=ns, transitions=nt, traces=ns, samples=[first] if first else [])
    return ns

"""Programs of several translation units: every assignment of compilers (the real kefir / the reference compiler) to the
units is built, run, and compared with the program built by the reference compiler alone."""
import itertools, os
from . import core

PRELUDE = "extern void obs_i(long long); extern void obs_u(unsigned long long); extern void obs_d(double); extern void obs_s(const char *); extern long long id_i(long long); extern void in_thread(void (*)(void));\n"


class MCase:
    """key; units: texts of the translation units, names carrying @; unit 0 defines void t@(void)"""
    __slots__ = ("key", "units")

    def __init__(self, key, *units):
        self.key, self.units = key, units


def _drv():
    p = os.path.join(core.VERIF, "native", "mdriver.c")
    d = os.path.join(core.BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, "mdrv-%s.o" % core._digest(core._read(p)))
    if not os.path.exists(o):
        t = o + ".%d.tmp" % os.getpid()
        rc, out = core.sh(["gcc", "-O1", "-w", "-fno-pie", "-c", p, "-o", t])
        if rc:
            raise core.CheckError(out)
        os.replace(t, o)
    return o


def _exec(objs):
    """-> ("link", text) | list of per-test outputs"""
    exe, out = core.link(objs)
    if exe is None:
        return "link", out
    rc, so, se = core.run_exe(exe, timeout=60)
    core.rm(exe)
    res, cur = {}, None
    for l in so.decode("utf-8", "replace").split("\n"):
        if l.startswith("T"):
            cur = int(l[1:])
            res[cur] = []
        elif l == "DONE":
            cur = None
            res["done"] = True
        elif cur is not None:
            res[cur].append(l)
    if "done" not in res and cur is not None:
        res[cur].append("died: exit status %d" % rc)
    return "ran", res


def batch(job):
    cases, opts, gflags = job
    k = len(cases[0].units)
    kobj, gobj, text = [], [], []
    bad = []

    def split():
        h = len(cases) // 2
        a, b = batch((cases[:h], opts, gflags)), batch((cases[h:], opts, gflags))
        return a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3], a[4]

    head = cases[0].key, "\n/* next unit */\n".join(cases[0].units)
    for u in range(k):
        src = PRELUDE + "\n".join(c.units[u].replace("@", "_%d" % i) for i, c in enumerate(cases)) + "\n"
        text.append(src)
        r = core.kefir(list(opts), src, cpu_ms=60000)
        o, why = None, None
        if not r.ok:
            why = "kefir %s valid unit %d (%s): %s" % ("rejects" if r.rejected else "fails on", u, r.describe(), r.err.decode("utf-8", "replace")[:500])
        else:
            o, out = core.assemble(r.out)
            if o is None:
                why = "the produced assembly of unit %d does not assemble: %s" % (u, out[:400])
        if why:
            core.rm(*(kobj + gobj))
            if len(cases) > 1:
                return split()
            return 1, 0, [(cases[0].key, why, src)], *head
        kobj.append(o)
        g, out = core.gcc_obj(src, gflags)
        if g is None:
            raise core.CheckError("the reference compiler rejects %s unit %d: %s" % (cases[0].key, u, out[:1500]))
        gobj.append(g)
    tab, out = core.gcc_obj("".join("extern void t_%d(void);" % i for i in range(len(cases))) + "void (*const mtests[])(void) = {" +
                       ",".join("t_%d" % i for i in range(len(cases))) + "}; const int mntests = %d;" % len(cases))
    base = [_drv(), tab]
    st, ref = _exec(base + gobj)
    if st != "ran" or "done" not in ref:
        raise core.CheckError("the reference program fails for the batch of %s: %s" % (cases[0].key, str(ref)[:1500]))
    n = 0
    for pick in itertools.product("kg", repeat=k):
        if "k" not in pick:
            continue
        st, got = _exec(base + [kobj[u] if pick[u] == "k" else gobj[u] for u in range(k)])
        if (st != "ran" or "done" not in got) and len(cases) > 1:
            core.rm(tab, *(kobj + gobj))
            return split()
        if st != "ran":
            bad.append((cases[0].key, "units compiled by %s do not link: %s" % ("".join(pick), got[:600]), "\n/*----*/\n".join(text)))
            continue
        for i, c in enumerate(cases):
            n += len(ref[i])
            if got.get(i) != ref[i]:
                if len(cases) > 1:
                    core.rm(tab, *(kobj + gobj))
                    return split()
                bad.append((c.key, "units compiled by %s (k: kefir, g: reference): got %s expected %s" % ("".join(pick), got.get(i), ref[i]), "\n/*----*/\n".join(text)))
    core.rm(tab, *(kobj + gobj))
    return len(cases), n, bad[:1], *head


def explore(chk, part, cases, per_batch=20, opts=(), gflags=("-O0",)):
    _drv(); core.runtime_obj(); core.build_kserve()
    ns = nt = 0
    first = None
    for k, n, bad, key, text in core.pmap(batch, ((b, opts, gflags) for b in core.chunks(cases, per_batch))):
        ns += k
        nt += n
        if first is None:
            first = {"part": part, "case": key, "program": text[:400]}
        for key, why, src in bad:
            chk.violation("%s: %s" % (part, key), why, src)
        if chk.too_many():
            break
    chk.add(part, states=ns, transitions=nt, traces=ns, samples=[first] if first else [])

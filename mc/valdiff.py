"""Replays enumerated functions on every valuation of finite value sets against the reference compiler."""
import os, re, struct
from . import core

UBFLAGS = ["-O0", "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bool,enum",
           "-fsanitize-undefined-trap-on-error"]

INT_TYPES = {  # name -> (bits, signed)
    "_Bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
    "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
}


def int_values(t, size="full"):
    bits, sg = INT_TYPES[t]
    if bits == 1:
        return [0, 1]
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    if size == "small":
        vs = [0, 1, 2, 3, hi, lo, bits - 1] + ([-1, -3] if sg else [hi - 1, (hi >> 1) + 1])
    else:
        vs = [0, 1, 2, 3, 5, 7, 10, bits // 2, bits - 1, hi, hi - 1, lo, lo + 1, hi >> 1, (hi >> 1) + 1, 0x55 & hi, (0x5555555555555555 & hi)]
        if sg:
            vs += [-1, -2, -3, -7, -10, -(hi >> 1)]
        if bits >= 16:
            vs += [127, 128, 255, 256]
            if sg:
                vs += [-128, -129, -256]
        if bits >= 32:
            vs += [32767, 32768, 65535, 65536]
            if sg:
                vs += [-32768, -32769]
        if bits >= 64:
            vs += [(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 33) + 5]
            if sg:
                vs += [-(1 << 31), -(1 << 31) - 1, -(1 << 32)]
    out = []
    for v in vs:
        if lo <= v <= hi and v not in out:
            out.append(v)
    return out


def iset(t, size="full"):
    return [(v & ((1 << 64) - 1), 0) for v in int_values(t, size)]


class VCase:
    __slots__ = ("key", "text", "sets", "kind")

    def __init__(self, key, text, sets, kind="u"):
        self.key, self.text, self.sets, self.kind = key, text, sets, kind


def driver_obj():
    p = os.path.join(core.VERIF, "native", "valdriver.c")
    d = os.path.join(core.BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, "vdrv-%s.o" % core._digest(core._read(p)))
    if not os.path.exists(o):
        t = o + ".%d.tmp" % os.getpid()
        rc, out = core.sh(["gcc", "-O1", "-w", "-fno-pie", "-c", p, "-o", t])
        if rc:
            raise core.CheckError(out)
        os.replace(t, o)
    return o


def _side(text, side, n):
    return text.replace("@", "%s%d_" % (side, n))


def run_batch(cases, setlib, opts=(), prelude="", gflags=UBFLAGS):
    def split():
        h = len(cases) // 2
        b1, n1, u1 = run_batch(cases[:h], setlib, opts, prelude, gflags)
        b2, n2, u2 = run_batch(cases[h:], setlib, opts, prelude, gflags)
        return b1 + b2, n1 + n2, u1 + u2
    src = prelude + "\n" + "\n".join(_side(c.text, "k", i) for i, c in enumerate(cases))
    r = core.kefir(list(opts), src, cpu_ms=60000)
    if not r.ok:
        if len(cases) > 1:
            return split()
        return [(cases[0], "kefir does not compile a valid program (%s): %s" % (r.describe(), r.err.decode("utf-8", "replace")[:500]))], 0, 0
    ko, out = core.assemble(r.out)
    if ko is None:
        if len(cases) > 1:
            return split()
        return [(cases[0], "the produced assembly does not assemble: " + out[:400])], 0, 0
    ref = prelude + "\n" + "\n".join(_side(c.text, "g", i) for i, c in enumerate(cases))
    used = []
    for c in cases:
        for s in c.sets:
            if s not in used:
                used.append(s)
    ref += """
typedef void (*vfn)(const unsigned long long *, unsigned long long *);
struct vset { int n; const unsigned long long (*v)[2]; };
struct vtest { vfn k, g; int nargs; const struct vset *sets[4]; char kind; };
"""
    for i, s in enumerate(used):
        vals = setlib[s]
        ref += "static const unsigned long long vsv%d[][2] = {%s}; static const struct vset vs%d = {%d, vsv%d};\n" % (
            i, ",".join("{%#xull,%#xull}" % v for v in vals), i, len(vals), i)
    for i in range(len(cases)):
        ref += "extern void tk%d_(const unsigned long long *, unsigned long long *);" % i
    ref += "\nconst struct vtest vtests[] = {" + ",".join(
        "{tk%d_, tg%d_, %d, {%s}, '%s'}" % (i, i, len(c.sets), ",".join("&vs%d" % used.index(s) for s in c.sets) or "0", c.kind)
        for i, c in enumerate(cases)) + "};\nconst int vntests = %d;\n" % len(cases)
    go, out = core.gcc_obj(ref, gflags)
    if go is None:
        raise core.CheckError("the reference compiler rejects a batch starting with %s:\n%s" % (cases[0].key, out[:1500]))
    exe, out = core.link([driver_obj(), ko, go])
    if exe is None:
        core.rm(ko, go)
        if len(cases) > 1:
            return split()
        return [(cases[0], "the produced object does not link: " + out[:500])], 0, 0
    rc, so, se = core.run_exe(exe, timeout=300)
    core.rm(ko, go, exe)
    bad, n, u, done = [], 0, 0, False
    for line in so.decode("utf-8", "replace").split("\n"):
        m = re.match(r"DIFF (\d+) (.*)", line)
        if m:
            bad.append((cases[int(m.group(1))], m.group(2)))
        m = re.match(r"REFCRASH (\d+) (.*)", line)
        if m:
            raise core.CheckError("the reference dies on %s" % cases[int(m.group(1))].key)
        m = re.match(r"DONE (\d+) (\d+) (\d+)", line)
        if m:
            n, u, done = int(m.group(2)), int(m.group(3)), True
    if not done:
        if len(cases) > 1:
            return split()
        return [(cases[0], "the compiled program corrupts its process (exit %s)" % rc)], 0, 0
    return bad, n, u


def _job(a):
    cases, setlib, opts, prelude, gflags = a
    bad, n, u = run_batch(cases, setlib, opts, prelude, gflags)
    out = []
    for c, why in bad:
        b2, _, _ = run_batch([c], setlib, opts, prelude, gflags)
        if not b2:
            b3, _, _ = run_batch(cases, setlib, opts, prelude, gflags)
            if not any(x.key == c.key for x, _ in b3):
                raise core.CheckError("nondeterministic result for %s: %s" % (c.key, why))
            why += " [only together with the other functions of its translation unit]"
        out.append((c.key, why, prelude + _side(c.text, "k", 0)))
    return len(cases), n, u, out, cases[0].key, cases[0].text


def explore(chk, part, cases, setlib, per_batch=40, opts=(), prelude="", gflags=UBFLAGS, limit=core.LIMIT):
    driver_obj(); core.runtime_obj(); core.build_kserve()
    ns = nt = nu = 0
    first = None
    seen = len(chk.viol)
    for k, n, u, bad, key, text in core.pmap(_job, ((b, setlib, opts, prelude, gflags) for b in core.chunks(cases, per_batch))):
        ns += k
        nt += n
        nu += u
        if first is None:
            first = {"part": part, "case": key, "program": text[:400]}
        for key, why, src in bad:
            chk.violation("%s: %s" % (part, key), why, src)
        if len(chk.viol) - seen >= limit:
            break
    chk.add(part, states=ns, transitions=nt, traces=ns, samples=[first] if first else [], undefined_valuations_skipped=nu)

"""C28: core containers."""
TECHNIQUE = "explicit-state model checking of the real container code: the whole memory of the container plus a reference model is one state; every operation (also with every allocation in it failing) is applied to every reachable state up to a size bound, to a fixpoint"
NOTE = ("The harness's allocator serves a small arena, so that a state can be saved, compared and restored without knowing the container's representation; it detects invalid and double frees, writes outside blocks and writes into released memory. "
        "After every transition the public observers (lookup, iteration in both directions, lengths, callbacks) are compared with the model, and the container is released in a copy, where nothing may remain allocated and every removal callback has to come exactly once.")
import subprocess
from mc import core


def _job(a):
    exe, args = a
    p = subprocess.run([exe] + [str(x) for x in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    return args, p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def run(chk):
    q = chk.quick
    exe = core.build_native("containers", "opt", ["containers.c"], with_main=False)
    jobs = []
    for h in range(7):
        jobs.append(("hashtree", h, 5 if q else 6, 1))
        jobs.append(("hashtree", h, 4 if q else 5, 2))
    jobs.append(("list", 4 if q else 5, 4 if q else 5))
    jobs.append(("tree", 0, 7))
    jobs.append(("trie", 0, 6 if q else 7))
    for c in range(4):
        jobs.append(("vector", c, 4 if q else 5))
    jobs.append(("blocktree", 0, 0))
    jobs.append(("symtab", 0, 5 if q else 6))
    for mode in range(5):
        for prefix in (0, 5, 6, 7, 12, 13, 14, 26, 27, 28, 29, 30, 31):
            if prefix < 16:
                jobs.append(("string", mode, prefix, 2 if q else 3))
    for args, rc, out, err in core.pmap(_job, [(exe, j) for j in jobs]):
        end = None
        for l in out.splitlines():
            f = l.split("\t")
            if f[0] == "VIOL":
                chk.violation("%s: %s" % (f[1], f[3]), f[2], l + "\n")
            elif f[0] == "END":
                end = f
        if end is None or rc != 0:
            raise core.CheckError("container harness %s: exit %d %s" % (args, rc, err[-500:]))
        if len(end) > 4:
            chk.add(" ".join(str(x) for x in args), states=int(end[2]), transitions=int(end[3]), traces=int(end[3]), faults=int(end[4]))
    return chk.finish()

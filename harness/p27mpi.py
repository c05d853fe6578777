"""P27 on several processes: transfers and collectives called from Python."""
import os
import sys
import time

import pymon as mon
import p27
from p27 import TAT, Case, NAMES, kinds

mpi = TAT.mpi
rank, size = mpi.rank, mpi.size
for n in NAMES:  # names travel as numbers: every process numbers them alike
    TAT.Name(n)


def body(r, c):
    k = Case(r, r.choice(kinds), r.choice("SDCZ"))
    shape = k.tensor()
    models = []
    for _ in range(size):
        t = p27.RT(k.alg, list(shape.names), list(shape.edges))
        k.fill(t)
        models.append(t)
    tensors = [k.make(t) for t in models]
    mine = tensors[rank]
    root, other = r.randrange(size), r.randrange(size)
    what = r.choice(["broadcast", "reduce", "summary", "transfer", "barrier"])
    mon.describe("%s root %d other %d of %d %s%s" % (what, root, other, size, k.s, k.kind))
    if r.randrange(4 * size) == rank:
        time.sleep(0.001)
    if what == "broadcast":
        k.same(models[root], mpi.broadcast(mine, root), "broadcast")
    elif what in ("reduce", "summary"):
        calls = []

        def add(a, b):
            calls.append(1)
            return a + b
        got = mpi.reduce(mine, root, add) if what == "reduce" else mpi.summary(mine, root)
        if rank == root:
            want = models[0].copy()
            for p in want.data:
                want.data[p] = sum(m.data[p] for m in models)
            k.same(want, got, what, tol=1e-4 if k.s in "SC" else 1e-10)
    elif what == "transfer":
        got = mpi.send_receive(mine, root, other)
        if rank == other:
            k.same(models[root], got, "transfer")
        else:
            mon.require(type(got) is k.T and len(got.name) == 0, "a process that is not the destination got something")
    else:
        mpi.barrier()
    k.same(models[rank], mine, "operand of " + what)
    mon.require(str(mpi) == "[rank=%d, size=%d]" % (rank, size) and repr(mpi) == "MPI" + str(mpi), "text of the process")
    mon.count(what)
    if rank == 0:
        mon.nontrivial("%s %d %d %s%s %r" % (what, root, other, k.s, k.kind, shape.edges))


if __name__ == "__main__":
    if size != int(os.environ.get("VERIF_NP", size)):
        print("VERIF-HARNESS-ERROR not started as %s processes" % os.environ["VERIF_NP"], file=sys.stderr)
        sys.exit(3)
    code = mon.run(body, suffix=".rank%d" % rank, agree=lambda late: False, together=True)
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)

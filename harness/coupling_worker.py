"""One submodel of a coupled pair on several MPI ranks."""
import os
import random

import checks.c26 as c26
import mpijob
import tracing
import worlds as W


def body(case, mon, comm):
    sp = case["spec"]
    sp["plans"] = {(k.split()[0], int(k.split()[1])): v for k, v in sp["plans"].items()}
    side = case["side"]
    from flee import pflee

    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    here = os.getcwd()
    os.makedirs("r%d" % comm.rank)
    os.chdir("r%d" % comm.rank)
    W.settings(**sp["settings"])
    tr = c26.Where(pflee, mon)
    c26.slow_down(random.Random(sp["seed"] + comm.rank), [0], sp["slow"])
    random.seed(sp["seed"] * 64 + comm.rank)
    import numpy as np

    np.random.seed((sp["seed"] * 64 + comm.rank) % 2**32)
    s = c26.Side(sp, side, 0, case["out"], "file", pflee, tr)
    for t in range(sp["days"]):
        s.day(t)
        r = s.rec[-1]
        every = comm.allgather((r, [int(l.numAgents) for l in s.e.locations]))
        # Agents of all ranks together.
        z = dict(r)
        for k in ("before", "after"):
            z[k] = {n: sum(x[k][n] for x, _ in every) for n in r[k]}
        z["kept"] = all(x["kept"] for x, _ in every)
        z["fresh"] = all(x["fresh"] for x, _ in every)
        z["n_kept"] = sum(x["n_kept"] for x, _ in every)
        z["counts"] = True
        mon.check(all(x["total"] == r["total"] for x, _ in every), "ranks-disagree", "ranks report different totals")
        mon.check(all(y == every[0][1] for _, y in every), "ranks-disagree", "ranks report different counts")
        s.rec[-1] = z
    os.chdir(here)
    mon.count("mpi_ranks")
    mon.sample = s.result() if comm.rank == 0 else None


if __name__ == "__main__":
    mpijob.main(body)

"""One instance of a submodel of a multiscale run: the real script on MPI ranks, observed from inside."""
import collections
import os
import random
import runpy
import sys
import time

import checks.c26 as c26
import common
import mpijob


def body(case, mon, comm):
    import importlib

    script = case["script"]
    common.COPIES.append(os.path.dirname(script))
    if not os.environ.get("VERIF_DEBUG"):
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        os.dup2(null, 1)
    mod = importlib.import_module("flee.pflee" if case["submodel"] == "macro" else "flee.pmicro_flee")
    from flee import coupling

    rng = random.Random("%s %d" % (case["seed"], comm.rank))
    tr = c26.Where(mod, mon)
    sleep = c26.slow_down(rng, [0], case["slow"])
    rec = []

    def counts(e):
        here = collections.Counter()
        for a in e.agents:
            x = tr.at.get(id(a))
            if x is not None:
                here[x.name] += 1
        every = comm.allgather(dict(here))
        out = collections.Counter()
        for x in every:
            out.update(x)
        places = {l.name: out.get(l.name, 0) for l in e.locations}
        return places, sum(out.values())

    evolve, couple = mod.Ecosystem.evolve, coupling.CouplingInterface.Couple

    def watched_evolve(self, *a, **k):
        if case["pause"] and rng.random() < 0.3:
            sleep(rng.choice([0.01, 0.05]))
        res = evolve(self, *a, **k)
        rec.append(("evolve", counts(self)))
        if case["last"] and sum(1 for r in rec if r[0] == "evolve") == case["days"]:
            sleep(case["last"])
        return res

    def watched_couple(self, *a, **k):
        b = counts(self.e)
        res = couple(self, *a, **k)
        rec.append(("couple", b, counts(self.e)))
        return res

    mod.Ecosystem.evolve = watched_evolve
    coupling.CouplingInterface.Couple = watched_couple
    import numpy as np

    random.seed("%s %d x" % (case["seed"], comm.rank))
    np.random.seed(random.randrange(2**31))
    here = os.getcwd()
    os.makedirs("r%d" % comm.rank)
    os.chdir("r%d" % comm.rank)
    sys.argv = [script] + case["argv"]
    t0 = time.time()
    runpy.run_path(script, run_name="__main__")
    os.chdir(here)
    mon.count("ranks")
    mon.sample = {"rec": rec, "seconds": time.time() - t0} if comm.rank == 0 else None


if __name__ == "__main__":
    mpijob.main(body)

"""Runs batches of scenarios on several MPI ranks and brings their observations together."""
import json
import os
import signal
import subprocess
import sys
import time
import traceback

import common


def launch(script, case, ranks, timeout, cwd=".", env=None, stop=None):
    """Run harness script on `ranks` processes; returns (result of rank 0 or None, text of failures, timed out)."""
    e = dict(os.environ)
    e.update({"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader",
              "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_mpi_yield_when_idle": "1",
              "OMPI_MCA_plm_rsh_agent": "false", "OMPI_MCA_rmaps_base_oversubscribe": "1",
              "OMPI_MCA_hwloc_base_binding_policy": "none", "FLEE_REPO": common.REPO, "PYTHONDONTWRITEBYTECODE": "1",
              "PYTHONPATH": os.path.join(common.VERIF, "harness") + os.pathsep + common.REPO})
    e.update(env or {})
    with open(os.path.join(cwd, "job.json"), "w", encoding="utf-8") as f:
        json.dump(case, f)
    cmd = ["mpiexec", "--oversubscribe", "-n", str(ranks), sys.executable, os.path.join(common.VERIF, "harness", script), "job.json"]
    with open(os.path.join(cwd, "job.out"), "wb") as out:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT,
                             start_new_session=True)
        end = time.monotonic() + timeout
        late = True
        while time.monotonic() < end and not (stop is not None and stop.is_set()):
            try:
                p.wait(max(0.01, min(0.5 if stop is not None else timeout, end - time.monotonic())))
                late = False
                break
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    fails = []
    for r in range(ranks):
        fn = os.path.join(cwd, "fail.%d.json" % r)
        if os.path.exists(fn):
            with open(fn, encoding="utf-8") as f:
                fails.append(json.load(f))
    res = None
    if os.path.exists(os.path.join(cwd, "result.json")):
        with open(os.path.join(cwd, "result.json"), encoding="utf-8") as f:
            res = json.load(f)
    with open(os.path.join(cwd, "job.out"), encoding="utf-8", errors="replace") as f:
        text = f.read()[-1500:]
    return res, fails, late, text


def run(script, case, mon, ranks, timeout=60):
    """Launch with one repetition after a timeout, and take over the verdicts."""
    for attempt in (1, 2):
        d = "try%d" % attempt
        os.makedirs(d)
        res, fails, late, text = launch(script, case, ranks, timeout * attempt, cwd=d)
        if res is not None or fails or not late:
            break
        mon.count("timeouts")
    if late and res is None and not fails:
        mon.violate("hang", "the ranks do not finish (%d ranks): %s" % (ranks, text[-300:]))
        return None
    for f in fails:
        if f["kind"] == "flee":
            mon.violate("crash:%s" % f["where"], "rank %d: %s" % (f["rank"], f["text"]))
    if mon.violations:
        return None
    if fails:
        raise RuntimeError(fails[0]["text"])
    if res is None:
        if "sys.exit" in text:
            mon.violate("exit", text)
            return None
        raise RuntimeError("no result from the ranks: " + text)
    for v in res["violations"]:
        mon.violate(v["key"], v["msg"])
    for k, n in res["counts"].items():
        mon.count(k, n)
    for s in res["sigs"]:
        mon.sig(s)
    if res["sample"] is not None:
        mon.sample = res["sample"]
    return res


def main(body):
    """Entry point of a harness script: body(case, mon, comm) on every rank."""
    import numpy as np  # noqa: F401
    from mpi4py import MPI

    comm = MPI.COMM_WORLD
    with open(sys.argv[1], encoding="utf-8") as f:
        case = json.load(f)
    mon = common.Mon(case)
    here = os.getcwd()
    try:
        body(case, mon, comm)
    except BaseException as e:  # pylint: disable=broad-except
        kind, fr = common._classify_exception(e)  # pylint: disable=protected-access
        with open(os.path.join(here, "fail.%d.json.tmp" % comm.rank), "w", encoding="utf-8") as f:
            json.dump({"rank": comm.rank, "kind": kind, "where": fr.name if fr else "?",
                       "text": "".join(traceback.format_exception(e))[-1500:]}, f)
        os.replace(os.path.join(here, "fail.%d.json.tmp" % comm.rank), os.path.join(here, "fail.%d.json" % comm.rank))
        comm.Abort(3)
    every = comm.gather((mon.violations, dict(mon.counts), [s.hex() for s in mon.sigs], mon.sample), root=0)
    if comm.rank == 0:
        counts = {}
        for _, c, _, _ in every:
            for k, n in c.items():
                counts[k] = counts.get(k, 0) + n
        res = {"violations": [v for x in every for v in x[0]][:20], "counts": counts, "sigs": sorted({s for x in every for s in x[2]}),
               "sample": every[0][3]}
        with open(os.path.join(here, "result.json.tmp"), "w", encoding="utf-8") as f:
            json.dump(res, f, default=str)
        os.replace(os.path.join(here, "result.json.tmp"), os.path.join(here, "result.json"))
    comm.Barrier()
    sys.stdout.flush()

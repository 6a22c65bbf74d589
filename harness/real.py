"""The same scenarios under real MPI: a batch of cases in one mpiexec, one result file per rank."""
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import boot  # noqa: F401

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = os.path.join(HERE, "run.py")
REPO = os.environ.get("VERIF_REPO", "/repo")
MPIEXEC = ["mpiexec", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader",
           "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "mpi_yield_when_idle", "1"]
LAUNCH_S = 120   # until every rank says it has started
CASE_S = 60      # without progress: give up on the batch



def worker(casefile, outdir, start):
    """One rank under mpiexec."""
    import warnings
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import numpy as np
    from mpi4py import MPI
    import pylops_mpi as pm
    assert os.path.dirname(os.path.dirname(os.path.abspath(pm.__file__))) == os.path.abspath(REPO), pm.__file__
    import ranks
    import runner
    import pylops_mpi.utils.dottest, pylops_mpi.plotting.plotting  # noqa: E401,F401
    with open(casefile, "rb") as f:
        pid, cases = pickle.load(f)
    mod = runner.load(pid)
    subs = {s.name: s for s in mod.SUBS}
    comm = MPI.COMM_WORLD.Dup()
    log = open(os.path.join(outdir, f"rank{comm.rank}"), "ab")

    def put(*what):
        pickle.dump(what, log)
        log.flush()
    put("up")
    env = ranks.Env(pm, MPI)
    for i in range(int(start), len(cases)):
        name, case = cases[i]
        put("begin", i)
        try:
            with np.errstate(all="ignore"):
                v = ("ok", subs[name].scenario(env, pickle.loads(pickle.dumps(case))))
        except BaseException as e:  # noqa: BLE001
            v = ("exc", type(e).__name__, str(e)[:300], ranks.short_trace(e.__traceback__))
        put("end", i, v)
        everyone = comm.allgather(v[0])
        if set(everyone) != {"ok"}:
            put("mixed", i)
            if len(set(everyone)) > 1:  # messages may be left behind: start afresh
                break
    put("bye")
    log.close()
    return 0


def _read(outdir, n):
    """Per rank: {case index: value}, the index it is busy with, and whether it left."""
    out = []
    for r in range(n):
        vals, busy, up, bye = {}, None, False, False
        try:
            with open(os.path.join(outdir, f"rank{r}"), "rb") as f:
                while True:
                    try:
                        rec = pickle.load(f)
                    except (EOFError, pickle.UnpicklingError):
                        break
                    if rec[0] == "up":
                        up = True
                    elif rec[0] == "begin":
                        busy = rec[1]
                    elif rec[0] == "end":
                        vals[rec[1]], busy = rec[2], None
                    elif rec[0] == "bye":
                        bye = True
        except FileNotFoundError:
            pass
        out.append((vals, busy, up, bye))
    return out


def launch(n, casefile, outdir, start):
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", PYTHONHASHSEED="0",
               TMPDIR=outdir, PYTHONDONTWRITEBYTECODE="1")
    log = open(os.path.join(outdir, "log"), "ab")
    return subprocess.Popen([*MPIEXEC, "-n", str(n), sys.executable, RUN, "realworker", casefile, outdir, str(start)],
                            stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env,
                            start_new_session=True, cwd=HERE)


def _size(outdir, n):
    return sum(os.path.getsize(p) for p in (os.path.join(outdir, f"rank{r}") for r in range(n)) if os.path.exists(p))


def batch(pid, cases, n, work, deadline=400, case_s=CASE_S, stop=None, first_stuck=False):
    """Runs cases on n ranks.  Returns ({index: [outcome per rank]}, error): an outcome is as in ranks.Outcome."""
    done = {}
    start = 0
    t0 = time.time()
    while start < len(cases):
        d = tempfile.mkdtemp(prefix="real", dir=work)
        casefile = os.path.join(d, "cases")
        with open(casefile, "wb") as f:
            pickle.dump((pid, cases), f)
        p = launch(n, casefile, d, start)
        last, when, died = -1, time.time(), False
        while p.poll() is None:
            s = _size(d, n)
            now = time.time()
            if s != last:
                last, when = s, now
            if now - when > (LAUNCH_S if s == 0 else case_s) or now - t0 > deadline or (stop and stop.is_set()):
                died = True
                break
            time.sleep(0.02)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        per = _read(d, n)
        log = open(os.path.join(d, "log"), errors="replace").read()[-2000:]
        shutil.rmtree(d, ignore_errors=True)
        if stop and stop.is_set():
            return done, "stopped"
        if not all(x[2] for x in per):
            return done, f"mpiexec did not start {n} ranks: {log}"
        seen = set()
        for vals, busy, _, _ in per:
            seen |= set(vals)
            if busy is not None:
                seen.add(busy)
        for i in sorted(seen):
            done[i] = [x[0].get(i, ("stuck", "no return")) for x in per]
        if all(x[3] for x in per) and not died and seen and max(seen) == len(cases) - 1:
            return done, None
        if first_stuck and any(o[0] == "stuck" for i in seen for o in done[i]):
            return done, None
        if not seen or time.time() - t0 > deadline:
            return done, f"real MPI batch did not finish: {log}"
        start = max(seen) + 1
    return done, None


def judge(sub, case, ranks_out):
    import core
    import ranks
    return core.evaluate(sub, case, ranks.Outcome(ranks_out))


def one(pid, sub, case):
    """Verdict on one case under real MPI."""
    work = tempfile.mkdtemp(prefix="verif-real-")
    try:
        done, err = batch(pid, [(sub.name, case)], case["n"], work, case_s=40)
        if 0 not in done:
            raise RuntimeError(err)
        return judge(sub, case, done[0])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def campaign(pid, mod, tier, seed_, work, n, factor=1, deadline=400, stop=None):
    import runner
    res = {"cases": 0, "error": None, "violation": None}
    cases = []
    known = [k for k in runner.known_findings(pid) if k["status"] == "known"]
    for sub in mod.SUBS:
        if not (sub.ranks[0] <= n <= sub.ranks[1]) or not sub.real:
            continue
        count = sub.real * factor * (1 if tier == "quick" else 20)
        cases += [(sub.name, c) for c in runner.collect(sub, n, count, runner.seed_of(seed_, pid, sub.name, "real", n))
                  # (what is known to hang takes long here)
                  if not any(k.get("sub") == sub.name and mod.KNOWN[k["id"]](c, "") for k in known)]
    if not cases:
        return res
    done, res["error"] = batch(pid, cases, n, work, deadline, stop=stop, first_stuck=True)
    if stop and stop.is_set():
        return res
    subs = {s.name: s for s in mod.SUBS}
    res["cases"] = len(done)
    for i in sorted(done):
        name, case = cases[i]
        text = judge(subs[name], case, done[i])
        if not text:
            continue
        if any(k.get("sub") == name and mod.KNOWN[k["id"]](case, text) for k in known):
            continue
        # must fail again, alone, before it counts
        again = one(pid, subs[name], case)
        if not again:
            res["error"] = f"failed once under real MPI but not again: {json.dumps(case)}: {text}"
            continue
        res["violation"] = {"sub": name, "case": case, "text": again, "engine": "real"}
        return res
    return res

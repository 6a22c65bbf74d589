import argparse
import glob
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

import boot  # noqa: F401

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
RUN = os.path.join(HERE, "run.py")
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
TIME_CAP = {"quick": 420, "thorough": 6 * 3600}  # no new cases after that; it never makes a verdict
SHRINK_S = 40


def prop_ids():
    return sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(HERE, "props", "[a-z][0-9]*.py")))


def load(pid):
    return importlib.import_module("mpicheck" if pid == "MPI" else f"props.{pid.lower()}")


def known_findings(pid):
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data["findings"] if k["property"] == pid]


# -- one case --------------------------------------------------------------------------------------------------------
class Violation(Exception):
    pass


class Stuck(Exception):
    """A case that does not end: no shrinking, its thread is lost."""


def run_case(sub, case):
    import core
    import ranks
    out = ranks.run_sim(sub.scenario, case, case["n"], case.get("sched", 0), case.get("sync", False),
                        case.get("strict", False))
    return core.evaluate(sub, case, out), out


def make_case(sub, draw, n=None):
    import core
    import gen
    from hypothesis import strategies as st
    n = draw(gen.ranks(*sub.ranks)) if n is None else n
    case = {"n": n, **gen.world(draw)}
    gen.GROWTH[0] = sub.big if sub.big > 1 and draw(st.integers(0, 59)) == 59 else 1
    try:
        if gen.GROWTH[0] > 1:
            case["big"] = True
        case.update(sub.gen(draw, n))
    finally:
        gen.GROWTH[0] = 1
    return core.norm_case(case)


def strategy(sub, n=None):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        return make_case(sub, draw, n)
    return cases()


def hyp(max_examples, seed_, phases):
    import hypothesis as h

    def deco(f):
        f = h.settings(max_examples=max_examples, database=None, deadline=None, phases=phases, print_blob=False,
                       suppress_health_check=list(h.HealthCheck), report_multiple_bugs=False)(f)
        return h.seed(seed_)(f)
    return deco


def seed_of(*parts):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=6).digest(), "big")


def collect(sub, n, count, seed_):
    """count cases for n ranks, without running them."""
    import hypothesis as h
    got = []

    @hyp(count, seed_, (h.Phase.generate,))
    @h.given(strategy(sub, n))
    def t(case):
        got.append(case)
    t()
    return got


# -- a shard ---------------------------------------------------------------------------------------------------------
def shard(pid, tier, idx, nshards, seed_, outfile):
    import hypothesis as h
    from hypothesis.internal.conjecture import engine
    import core
    import simmpi
    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = SHRINK_S
    mod = load(pid)
    known = [k for k in known_findings(pid) if k["status"] == "known"]
    res = {"subs": {}, "violation": None, "unsupported": None, "capped": False, "excluded": {}}
    t0 = time.time()
    for sub in mod.SUBS:
        total = int(sub.quick * getattr(mod, "EFFORT", 2.5)) if tier == "quick" else sub.thorough
        total = max(1, int(total * float(os.environ.get("VERIF_SCALE", "1"))))
        count = total // nshards + (idx < total % nshards)
        st = {"evals": 0, "nontrivial": set(), "labels": {}, "samples": [], "ops": 0}
        res["subs"][sub.name] = st
        if count == 0:
            continue
        last = {}

        def one(case):
            if time.time() - t0 > TIME_CAP[tier] and "case" not in last:
                res["capped"] = True
                return
            st["evals"] += 1
            if sub.nontrivial(case):
                st["nontrivial"].add(core.digest(case))
                if len(st["samples"]) < 2 and st["evals"] > 12 * (1 + len(st["samples"])):
                    st["samples"].append(case)
            for lab in [f"n={case['n']}", *(["large"] if case.get("big") else []), *sub.label(case)]:
                st["labels"][lab] = st["labels"].get(lab, 0) + 1
            text, out = run_case(sub, case)
            st["ops"] += out.stats.get("ops", 0)
            if text:
                for k in known:
                    if k.get("sub") == sub.name and mod.KNOWN[k["id"]](case, text):
                        res["excluded"][k["id"]] = res["excluded"].get(k["id"], 0) + 1
                        return
                last["case"], last["text"] = case, text
                if out.hung:
                    raise Stuck(text)
                raise Violation(text)

        test = hyp(count, seed_of(seed_, pid, sub.name, idx), (h.Phase.generate, h.Phase.shrink))(
            h.given(strategy(sub))(one))
        try:
            test()
        except simmpi.Unsupported as e:
            res["unsupported"] = f"{sub.name}: {e}"
            break
        except (Violation, Stuck):
            res["violation"] = {"sub": sub.name, **last}
            break
        except BaseException as e:
            if last and isinstance(e, (h.errors.Flaky, BaseExceptionGroup)):
                # the case failed at least once: let the replay in the parent decide
                res["violation"] = {"sub": sub.name, "flaky": True, **last}
                break
            raise
    for st in res["subs"].values():
        st["nontrivial"] = list(st["nontrivial"])
    with open(outfile, "wb") as f:
        pickle.dump(res, f)
    sys.stdout.flush()
    os._exit(0)  # a stuck case's threads must not hold the shard


# -- the whole check -------------------------------------------------------------------------------------------------
def check(pid, tier):
    t0 = time.time()
    seed_ = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(pid)
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    procs = []
    try:
        return _check(pid, tier, seed_, mod, work, procs, t0)
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        shutil.rmtree(work, ignore_errors=True)


def _check(pid, tier, seed_, mod, work, procs, t0):
    import real
    env = dict(os.environ, PYTHONHASHSEED="0")
    outs = []
    for i in range(SHARDS):
        out = os.path.join(work, f"shard{i}.pkl")
        outs.append(out)
        procs.append(subprocess.Popen([PY, RUN, "shard", pid, tier, str(i), str(SHARDS), str(seed_), out], env=env,
                                      stdout=open(f"{out}.log", "wb"), stderr=subprocess.STDOUT,
                                      start_new_session=True, cwd=HERE))
    # a sample on real MPI meanwhile
    real_box, stop = [], threading.Event()

    def on_real():
        try:
            real_box.append(real.campaign(pid, mod, tier, seed_, work, n=3, stop=stop))
        except BaseException as e:  # noqa: BLE001
            real_box.append(e)
    thread = threading.Thread(target=on_real, daemon=True)
    thread.start()
    results = [None] * SHARDS
    deadline = t0 + TIME_CAP[tier] + 240
    found = False
    while any(r is None for r in results):
        for i, p in enumerate(procs):
            if results[i] is None and p.poll() is not None:
                if p.returncode != 0 or not os.path.exists(outs[i]):
                    log = open(f"{outs[i]}.log", errors="replace").read()[-4000:]
                    print(f"shard {i} of {pid} ended with {p.returncode}:\n{log}", file=sys.stderr)
                    return 2
                results[i] = pickle.load(open(outs[i], "rb"))
                if results[i]["violation"]:
                    found = True
        if found:
            break
        if time.time() > deadline:
            print(f"{pid}: shards did not finish in time", file=sys.stderr)
            return 2
        time.sleep(0.02)
    if found:
        stop.set()
    thread.join()
    real_res = real_box[0]
    if isinstance(real_res, BaseException):
        raise real_res
    results = [r for r in results if r is not None]
    viol = next((r["violation"] for r in results if r["violation"]), None)
    unsupported = next((r["unsupported"] for r in results if r["unsupported"]), None)
    if viol and viol.get("flaky"):
        sub = next(s for s in mod.SUBS if s.name == viol["sub"])
        text = None
        for _ in range(5):
            text = text or run_case(sub, viol["case"])[0]
        if not text:
            print(f"{pid}: a case failed once and not again: {json.dumps(viol)}", file=sys.stderr)
            return 2
        viol["text"] = text
    if viol is None and real_res.get("violation"):
        viol = real_res["violation"]
    if viol is None and unsupported:
        # the code uses MPI features the simulator does not model: decide on real MPI instead
        print(f"{pid}: falling back to real MPI ({unsupported})", file=sys.stderr)
        for n in (3, 2, 4, 1):
            left = t0 + (750 if tier == "quick" else TIME_CAP[tier]) - time.time()
            if left < 60:
                break
            more = real.campaign(pid, mod, tier, seed_, work, n=n, factor=8, deadline=left)
            real_res["cases"] += more["cases"]
            if more["error"]:
                print(f"{pid}: real MPI campaign: {more['error']}", file=sys.stderr)
                return 2
            if more.get("violation"):
                viol = more["violation"]
                break
    for k in known_findings(pid):
        if k["status"] != "known":
            continue
        sub = next(s for s in mod.SUBS if s.name == k["sub"])
        import simmpi
        try:
            text = run_case(sub, k["case"])[0]
        except simmpi.Unsupported:
            text = None
        if text:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    replay = None
    if viol:
        replay = write_replay(pid, tier, seed_, viol)
        print(viol["text"])
        print(f"VIOLATION property={pid} replay={replay}")
    evidence(pid, tier, seed_, mod, results, real_res, unsupported, viol, time.time() - t0)
    return 1 if viol else 0


def write_replay(pid, tier, seed_, viol):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed_, **viol}, f, indent=1)
        f.write("\n")
    return path


def evidence(pid, tier, seed_, mod, results, real_res, unsupported, viol, wall):
    subs, evals, nontriv, samples = {}, 0, 0, []
    excluded = {}
    for s in mod.SUBS:
        ev, nt, labels, sam, ops = 0, set(), {}, [], 0
        for r in results:
            st = r["subs"].get(s.name)
            if st is None:
                continue
            ev += st["evals"]
            nt.update(st["nontrivial"])
            sam += st["samples"]
            ops += st["ops"]
            for k, v in st["labels"].items():
                labels[k] = labels.get(k, 0) + v
        subs[s.name] = {"evaluations": ev, "distinct_nontrivial": len(nt), "mpi_calls": ops,
                        "distribution": dict(sorted(labels.items()))}
        evals += ev
        nontriv += len(nt)
        samples += [{"check": s.name, "case": c} for c in sam[:2]]
    for r in results:
        for k, v in r["excluded"].items():
            excluded[k] = excluded.get(k, 0) + v
    cov = {"evaluations": evals + real_res["cases"], "distinct_nontrivial": nontriv, "rule": mod.RULE,
           "samples": samples, "simulated": evals, "on_real_mpi": real_res["cases"], "checks": subs}
    if real_res.get("error"):
        cov["real_mpi_error"] = real_res["error"]
    if unsupported:
        cov["simulator_unsupported"] = unsupported
    if excluded:
        cov["excluded_known_findings"] = excluded
    if any(r["capped"] for r in results):
        cov["stopped_by_time_cap"] = True
    data = {"property": pid, "tier": tier, "seed": seed_, "level": "exploration", "coverage": cov,
            "assumptions": ["simulated MPI (harness/simmpi.py) behaves as MPI does; NumPy and serial PyLops are right"],
            "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(HERE, "evidence", f"{pid}.json"))


def replay(path):
    with open(path) as f:
        v = json.load(f)
    pid = v["property"]
    mod = load(pid)
    sub = next(s for s in mod.SUBS if s.name == v["sub"])
    if v.get("engine") == "real":
        import real
        text = real.one(pid, sub, v["case"])
    else:
        text, _ = run_case(sub, v["case"])
    if text:
        print(text)
        print(f"VIOLATION property={pid} replay={os.path.abspath(path)}")
        return 1
    print("the case passes")
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    a = sp.add_parser("check")
    a.add_argument("id")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    a = sp.add_parser("all")
    a.add_argument("--tier", default="quick")
    a = sp.add_parser("replay")
    a.add_argument("file")
    a = sp.add_parser("shard")
    a.add_argument("args", nargs=6)
    a = sp.add_parser("realworker")
    a.add_argument("args", nargs=3)
    sp.add_parser("selftest")
    o = ap.parse_args(argv)
    try:
        if o.cmd == "check":
            rc = check(o.id, o.tier)
        elif o.cmd == "replay":
            rc = replay(o.file)
        elif o.cmd == "shard":
            pid, tier, i, k, s, out = o.args
            rc = shard(pid, tier, int(i), int(k), int(s), out)
        elif o.cmd == "realworker":
            import real
            rc = real.worker(*o.args)
        elif o.cmd == "selftest":
            import selftest
            rc = selftest.main()
        else:
            rc = 0
            for pid in prop_ids():
                t = time.time()
                r = subprocess.run([PY, RUN, "check", pid, "--tier", o.tier]).returncode
                print(f"{pid}: exit {r} in {time.time() - t:.1f} s", flush=True)
                rc = max(rc, r)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    return rc

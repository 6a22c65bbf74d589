"""Is what the checks need here, and does the simulated MPI do what MPI does?"""
import shutil
import tempfile

import boot  # noqa: F401


def main():
    import hypothesis as h
    import mpicheck
    import ranks
    import real
    import runner
    sub = mpicheck.SUBS[0]
    bad = []

    def one(case):
        text, _ = runner.run_case(sub, case)
        if text:
            bad.append((case, text))
    runner.hyp(sub.quick, 5, (h.Phase.generate,))(h.given(runner.strategy(sub))(one))()
    assert not bad, bad[0]

    # a program that hangs is seen to hang, with or without buffering, and one that mismatches is seen to mismatch
    def crossed(env, c):
        other = 1 - env.rank
        env.comm.send(1, dest=other)
        return env.comm.recv(source=other)

    def lonely(env, c):
        return env.comm.allreduce(1) if env.rank else 0

    def unlike(env, c):
        return env.comm.allreduce(1) if env.rank else env.comm.bcast(1)
    assert ranks.run_sim(crossed, {}, 2).problem() is None
    assert ranks.run_sim(crossed, {}, 2, sync=True).problem()
    assert ranks.run_sim(lonely, {}, 2).problem()
    assert ranks.run_sim(unlike, {}, 2).problem()

    work = tempfile.mkdtemp(prefix="verif-selftest-")
    try:
        res = real.campaign("MPI", mpicheck, "quick", 5, work, n=3)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    assert not res.get("violation"), res["violation"]
    print(f"simulated MPI: ok; real MPI: {res['cases']} programs agree" + (f" ({res['error']})" if res.get("error") else ""))
    return 0

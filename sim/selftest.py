"""Set-up: the machinery works here, and runs are exactly repeatable."""

import glob
import os

from sim import env


def main():
    import multiprocessing as mp

    env.install()
    from sim.driver import Runner, run_seed
    from sim.choices import Choices

    bad = 0
    for f in sorted(glob.glob(os.path.join(env.VERIF, "sim", "checks", "c*.py"))):
        prop = os.path.basename(f)[:-3].upper()
        a, b = Runner(prop, "quick"), Runner(prop, "quick")
        # the second worker does the same runs in another order
        xs = {i: a.one(lambda: Choices(seed=run_seed(7, prop, i))) for i in (0, 1, 2)}
        ys = {i: b.one(lambda: Choices(seed=run_seed(7, prop, i))) for i in (2, 0, 1)}
        for i in range(3):
            x, y = xs[i], ys[i]
            if x["status"] == "harness":
                print(prop, i, x["error"])
                bad += 1
            elif (x["status"], x["digest"]) != (y["status"], y["digest"]):
                print(prop, i, "is not repeatable")
                bad += 1
        a.close()
        b.close()
    print("selftest", "failed" if bad else "ok")
    return 1 if bad else 0

"""C18: processing pipelines against Pipeline.tla, under controlled schedules."""
import copy, random

import explore, qbuild

STAGES = {"none": 0, "s": 1, "ss": 2, "sss": 3, "p1": 1, "p2": 1, "p3": 1, "p21": 2, "p13": 2, "p232": 3,
          "t2": 1, "t22": 2, "t33": 2, "t3p2t3": 3}


def corrupt(t):
    t = copy.deepcopy(t)
    for e in t["ev"]:
        if e[0] == "get":
            e[1] += 1
            return t


def check(c):
    exe = qbuild.harness("pipeline", scheduled=True)
    rng = random.Random(c.seed)
    jobs = []
    for cfg, st in STAGES.items():
        for b in (1, 2, 3, 4, 5, 7):
            for n in range(0, 2 * b + 3) if b < 7 else (0, 6, 7, 8, 20, 21, 22):
                for take in [-1] + ([rng.randint(0, n)] if rng.random() < .3 else []):
                    jobs.append(explore.Job("%s-%d-%d-%d" % (cfg, b, n, take + 1), "r", c.pick(12, 120), rng.randrange(10**6),
                                            "%s %d %d %d" % (cfg, n, b, take), {"n": n, "stages": st, "take": take}))
    for cfg, b, n in (("s", 1, 1), ("s", 2, 3), ("p2", 2, 2), ("t2", 2, 3), ("ss", 1, 1)):
        jobs.append(explore.Job("d-%s-%d-%d" % (cfg, b, n), "d1", c.pick(1000, 20000), 1, "%s %d %d -1" % (cfg, n, b),
                                {"n": n, "stages": STAGES[cfg], "take": -1}))
    jobs.sort(key=lambda j: -j.meta["n"])
    explore.explore(c, exe, "Pipeline", jobs, corrupt, chunk=2000)

"""The same query in every output format, with row limits, on data whose terms
have all kinds of characters; every answer is judged by the specification,
which also gives the size of the result."""
import random

import gen
from engine import Ask, Plan, Task, check_sessions, random_settings

FAM = ["bgp", "opt", "union", "agg", "order", "order", "sub", "fbv", "path", "hp"]

ODD = ["bgp", "bgp", "opt", "union", "sub", "path", "hp"]


class Formats(Task):
    def plan(self):
        rng, kb, qs, s, lim = self.make()
        steps = []
        for sc, q, t in qs:
            asks = [Ask(sc, q, t, mode="json", size=True), Ask(sc, q, t, mode="tsv"), Ask(sc, q, t, mode="csv")]
            if not any(f["f"] in ("sum", "avg", "concat", "sample") for f in q["sel"]):
                asks.append(Ask(sc, q, t, mode="json", size=True, send=rng.choice([0, 1, 2, 3, 5, 100])))
            steps += asks[:1] + rng.sample(asks[1:], len(asks) - 1)
        return Plan(kb, steps, settings=s, limits=lim)


def check(c):
    n = c.pick(48, 300)
    check_sessions(c, [Formats("C21/%d/%d" % (c.seed, i), FAM, 16) for i in range(n)] +
                   [Formats("C21/odd/%d/%d" % (c.seed, i), ODD, 16, kbmaker=gen.odd_kb) for i in range(n)])

"""Sessions: repeated and related queries, failing ones, cache commands,
pinning, tiny caches and concurrent clients.  Every single answer has to
conform to the specification, whose only state is the data."""
import copy, random

import gen
from engine import Ask, Cmd, Par, Plan, Restart, Task, check_sessions, random_settings

FAM = ["bgp", "bgp", "opt", "union", "minus", "sub", "fbv", "agg", "order", "path", "hp", "hp", "aggsub", "fbv", "agg"]


def broken(rng, text):
    """A request that cannot be answered with rows."""
    r = rng.random()
    if r < 0.3:
        return text[:rng.randint(1, len(text) - 2)]
    if r < 0.5:
        return text.replace("WHERE {", "WHERE { ?u_ <p0> ?v_ . ", 1)     # not connected
    if r < 0.7:
        return text.replace("SELECT", "SELCT", 1)
    return text + " LIMIT x"


class Session(Task):
    def __init__(self, key, n, concurrent):
        Task.__init__(self, key, FAM, n)
        self.concurrent = concurrent

    def plan(self):
        rng = random.Random(self.key)
        kb = gen.gen_kb(rng)
        pool, steps = [], []
        s, lim = random_settings(rng)
        server = []
        x = rng.random()
        if x < 0.35:
            server += ["-k", str(rng.choice([1, 2, 3, 6]))]
        elif x < 0.5:
            lim["CACHE_MAX_SIZE"] = rng.choice([2, 5, 20, 60])
        elif x < 0.6:
            lim["CACHE_MAX_SIZE_SINGLE_ENTRY"] = rng.choice([1, 4, 10])
        # pinning what does not fit is an error, also for those who wait for it
        small = any(k.startswith("CACHE_MAX_SIZE") for k in lim)

        def new():
            for _ in range(60):
                sc = gen.Scope(rng)
                q = gen.FAMILIES[rng.choice(self.families)](rng, kb, sc)
                if q:
                    pool.append((sc, q))
                    return sc, q
            return pool[-1]

        def another():
            x = rng.random()
            if not pool or x < 0.3:
                return new()
            sc, q = rng.choice(pool[-6:] if rng.random() < 0.7 else pool)
            if x < 0.55:
                return sc, q
            if x < 0.65:
                sc2 = copy.copy(sc)        # other variable names
                sc2.names = list(sc.names)
                rng.shuffle(sc2.names)
                return sc2, q
            v = gen.near(rng, kb, q) if x < 0.85 else gen.variant(rng, kb, q)
            if not v:
                return sc, q
            pool.append((sc, v))
            return sc, v

        def request(single):
            sc, q = another()
            t = gen.R(kb, sc).query(q)
            params = {}
            x = rng.random()
            if small:
                pass
            elif x < 0.08:
                params["pinresult"] = "true"
            elif x < 0.16:
                params["pinsubtrees"] = "true"
            elif x < 0.2:
                params["pinsubtrees"] = params["pinresult"] = "true"
            mayfail = False
            if single and x > 0.93:
                params["timeout"] = rng.choice(["0", "0.000001", "0.0001", "0.001"])
                mayfail = True
            return Ask(sc, q, t, params=params, mayfail=mayfail,
                       mode=rng.choice(["json"] * 6 + ["tsv"]))

        while len(steps) < self.nq:
            x = rng.random()
            if x < 0.1:
                sc, q = another()
                steps.append(Cmd(query=broken(rng, gen.R(kb, sc).query(q))))
            elif x < 0.2:
                steps.append(Cmd(cmd=rng.choice(["clearcache", "clearcache", "clearcachecomplete", "stats", "cachestats"])))
            elif x < 0.24:
                steps.append(Restart())
            elif self.concurrent and x < 0.75:
                steps.append(Par([request(False) if rng.random() < 0.9 else
                                  Cmd(cmd=rng.choice(["clearcache", "clearcachecomplete", "cachestats"]))
                                  for _ in range(rng.choice([2, 3, 4, 8]))]))
            else:
                steps.append(request(True))
        return Plan(kb, steps, settings=s, limits=lim, server=server,
                    threads=rng.choice([2, 4, 8]) if self.concurrent else rng.choice([1, 2]))


class Alike(Task):
    """Queries and what is left of them when one thing is changed, with a cache that keeps everything."""

    def plan(self):
        rng = random.Random(self.key)
        kb = gen.gen_kb(rng)
        steps = []
        s, lim = random_settings(rng)
        while len(steps) < self.nq:
            sc = gen.Scope(rng)
            q = gen.FAMILIES[rng.choice(self.families)](rng, kb, sc)
            if not q:
                continue
            qs = [q]
            texts = {gen.R(kb, sc).query(q)}
            for _ in range(8):
                v = gen.near(rng, kb, q)
                t = v and gen.R(kb, sc).query(v)
                if v and t not in texts:
                    texts.add(t)
                    qs.append(v)
            for v in qs + rng.sample(qs, min(len(qs), 2)):
                steps.append(Ask(sc, v, gen.R(kb, sc).query(v)))
        return Plan(kb, steps, settings=s, limits=lim, server=["-k", "1000"])


def check(c):
    n = c.pick(40, 260)
    m = c.pick(40, 260)
    k = c.pick(60, 400)
    check_sessions(c, [Alike("C09/a/%d/%d" % (c.seed, i), FAM, 90) for i in range(k)] +
                   [Session("C09/s/%d/%d" % (c.seed, i), 60, False) for i in range(n)] +
                   [Session("C09/p/%d/%d" % (c.seed, i), 30, True) for i in range(m)])

"""C15: the concurrent cache against CCache.tla, under controlled schedules."""
import copy, random

import explore, qbuild, tlc

# Scenarios that are gone through systematically: (keys, entries, total, single, programs)
FIXED = [
    (1, 9, 99, 99, "once,1,1,0|once,1,1,0|once,1,1,0"),
    (1, 9, 99, 99, "once,1,1,1|once,1,1,0"),
    (1, 9, 99, 99, "once,1,1,1|once,1,1,0|once,1,1,0"),
    (1, 9, 99, 99, "once,1,1,1;once,1,1,0|once,1,1,0"),
    (1, 9, 99, 99, "once,1,1,0|pin,1,1,0"),
    (1, 9, 99, 99, "once,1,1,0|pin,1,1,0|once,1,1,0"),
    (1, 9, 99, 99, "once,1,1,1|pin,1,1,0|once,1,1,0"),
    (1, 9, 99, 99, "pin,1,1,0|clear|once,1,1,0"),
    (1, 9, 99, 99, "pin,1,1,0|clearall|once,1,1,0"),
    (2, 1, 99, 99, "once,1,1,0|once,2,1,0|once,1,1,0"),
    (2, 1, 99, 99, "once,1,1,0;once,2,1,0|once,1,1,0"),
    (1, 9, 99, 2, "once,1,5,0|pin,1,5,0"),
    (1, 9, 99, 2, "once,1,5,0|once,1,5,0;has,1"),
    (2, 9, 99, 99, "once,1,1,0;once,2,1,0|once,2,1,0;once,1,1,0"),
    (1, 9, 99, 99, "once,1,1,0|has,1|at,1"),
]


def program(rng, keys, sizes, ops):
    out = []
    for _ in range(ops):
        o = rng.choices(["once", "pin", "clear", "clearall", "has", "at"], [10, 4, 1, 1, 1, 1])[0]
        if o in ("once", "pin"):
            out.append("%s,%d,%d,%d" % (o, rng.randint(1, keys), rng.choice(sizes), rng.random() < .25))
        elif o in ("has", "at"):
            out.append("%s,%d" % (o, rng.randint(1, keys)))
        else:
            out.append(o)
    return ";".join(out)


def corrupt(t):
    t = copy.deepcopy(t)
    for e in t["ev"]:
        if e[0] == "ret" and e[2] > 1:
            e[2] += 1
            return t
    return None


def check(c):
    exe = qbuild.harness("ccache", scheduled=True)
    rng = random.Random(c.seed)
    r = c.tlc(tlc.run("CCacheMC", cfg=c.pick("CCacheMC", "CCacheMCBig"), workers=6, timeout=800))
    if not r.ok:
        raise tlc.TlcError(r.out[-3000:])
    c.log("design: %d states" % r.states)
    jobs = []
    for i, (k, n, t, s, p) in enumerate(FIXED):
        lim = {"lim": [n, t, s]}
        sc = "%d %d %d %d %s" % (k, n, t, s, p)
        bound = c.pick(2 if p.count("|") == 1 or p.count(";") == 0 else 1, 3 if p.count("|") == 1 else 2)
        jobs.append(explore.Job("d%d" % i, "d%d" % bound, c.pick(20000, 200000), 1, sc, lim))
        jobs.append(explore.Job("r%d" % i, "r", c.pick(1500, 15000), rng.randrange(10**6), sc, lim))
    for i in range(c.pick(40, 400)):
        k = rng.randint(1, 3)
        n, t, s = rng.choice([0, 1, 2, 9]), rng.choice([2, 5, 99]), rng.choice([1, 3, 99])
        p = "|".join(program(rng, k, [1, 1, 2, 3], rng.randint(1, 3)) for _ in range(rng.randint(2, 4)))
        jobs.append(explore.Job("g%d" % i, "r", c.pick(300, 500), rng.randrange(10**6), "%d %d %d %d %s" % (k, n, t, s, p), {"lim": [n, t, s]}))
    explore.explore(c, exe, "CCacheTrace", jobs, corrupt, chunk=1500)

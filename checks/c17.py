"""C17: the limited memory: threads that allocate, under controlled schedules,
against MemLimit.tla."""
import copy, random

import explore, graph, qbuild, tlc

FIXED = [
    (10, "alloc,c,6;free,c,0|alloc,c,6;free,c,0"),
    (10, "alloc,c,6|alloc,c,6|left,c,1"),
    (10, "alloc,c,10;free,c,0|alloc,i,1;free,c,0"),
    (24, "alloc,s,1;free,c,0|alloc,s,1;free,c,0|alloc,i,6;free,c,0"),
    (8, "fail,c,5;alloc,c,8;free,c,0|alloc,c,5;free,c,0"),
    (8, "huge,i,2;alloc,c,8|left,c,0;alloc,i,1"),
    (50, "huge,s,1;huge,i,3;fail,s,1;left,c,1|alloc,i,3;free,c,0;left,c,0"),
    (0, "alloc,c,1;alloc,c,0|left,c,0"),
]


def program(rng, ops):
    out = []
    for _ in range(ops):
        o = rng.choices(["alloc", "free", "left", "fail", "huge"], [10, 8, 3, 2, 1])[0]
        out.append("%s,%s,%d" % (o, rng.choice("cis"), rng.choice([0, 1, 1, 2, 3, 5, 9]) if o != "huge" else rng.randint(1, 3)))
    return ";".join(out)


def corrupt(t):
    t = copy.deepcopy(t)
    t["ev"][-1][1] += 1
    return t


def check(c):
    exe = qbuild.harness("memlimit", scheduled=True)
    rng = random.Random(c.seed)
    r = c.tlc(tlc.run("MemLimitMC", workers=6, timeout=800))
    if not r.ok:
        raise tlc.TlcError(r.out[-3000:])
    c.log("design: %d states" % r.states)
    jobs = []
    for i, (lim, p) in enumerate(FIXED):
        sc = "%d %s" % (lim, p)
        jobs.append(explore.Job("d%d" % i, "d%d2" % c.pick(2, 3), c.pick(15000, 200000), 1, sc, {"lim": lim}))
        jobs.append(explore.Job("r%d" % i, "r", c.pick(1500, 15000), rng.randrange(10**6), sc, {"lim": lim}))
    for i in range(c.pick(80, 600)):
        lim = rng.choice([0, 4, 10, 24, 50, 100])
        p = "|".join(program(rng, rng.randint(2, 6)) for _ in range(rng.randint(1, 4)))
        jobs.append(explore.Job("g%d" % i, "r", c.pick(200, 500), rng.randrange(10**6), "%d %s" % (lim, p), {"lim": lim}))
    explore.explore(c, exe, "MemLimitTrace", jobs, corrupt, chunk=1500)
    containers(c, rng)


def container_ops(rng, num, pools, n):
    kind = [None] * num
    size = [0] * num
    ops = []
    w = {"new": 2, "drop": 2, "push": 14, "clear": 1, "resize": 5, "reserve": 3, "shrink": 1, "insert": 4, "copy": 6, "move": 3, "swap": 2}
    names = list(w)
    while len(ops) < n:
        o = rng.choices(names, [w[x] for x in names])[0]
        h, g = rng.randrange(num), rng.randrange(num)
        fail = int(rng.random() < .08)
        if o == "new":
            if kind[h] is None or rng.random() < .2:
                kind[h], size[h] = rng.choice(["vec", "tab"]), 0
                ops.append([o, h + 1, kind[h], rng.randint(1, pools), 0])
        elif o in ("copy", "move"):
            # a container that does not exist cannot be copied; one of the other kind is a new one
            if kind[g] is None or g == h or o == "copy" and kind[h] not in (None, kind[g]):
                continue
            kind[h] = kind[g]
            if o == "move":
                kind[g] = None
            ops.append([o, h + 1, g + 1, fail if o == "copy" else 0])
        elif kind[h] is None:
            continue
        elif o == "drop":
            kind[h] = None
            ops.append([o, h + 1, 0])
        elif o == "clear":
            ops.append([o, h + 1, 0])
        elif o == "push":
            for _ in range(rng.choice([1, 1, 3, 8])):
                ops.append([o, h + 1, rng.randint(1, 99), fail])
        elif o == "resize":
            ops.append([o, h + 1, rng.choice([0, 1, 2, 5, 9, 20, 50]), rng.randint(1, 99), fail])
        elif o == "reserve":
            ops.append([o, h + 1, rng.choice([0, 1, 2, 5, 9, 20, 50]), fail])
        elif o == "shrink":
            if kind[h] == "vec":
                ops.append([o, h + 1, 0])
        elif o == "insert":
            if kind[g] == kind[h] and g != h:
                ops.append([o, h + 1, g + 1, fail])
        elif o == "swap":
            if kind[h] == kind[g] == "vec" and g != h:
                ops.append([o, h + 1, g + 1, 0])
    return ops


def containers(c, rng):
    exe = qbuild.harness("memuse")
    lines, meta = [], []
    for i in range(c.pick(1500, 12000)):
        num = rng.randint(1, 4)
        lims = [rng.choice([0, 30, 100, 300, 1000, 10**6]) for _ in range(rng.randint(1, 2))]
        ops = container_ops(rng, num, len(lims), rng.choice([20, 60]))
        lines.append("%d %s %s" % (num, ",".join(map(str, lims)), graph.line(ops)))
        meta.append(({"n": num, "lim": lims}, ops))
    graph.histories(c, exe, [], "MemUse", lines, meta, chunk=200, corrupt=lambda see: see[0].append(77))

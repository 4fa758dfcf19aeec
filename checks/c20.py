"""C20: result tables against IdTable.tla."""
import random

import graph, qbuild


def gen_ops(rng, tables, n, maxrows):
    """A random edit sequence, with what the tables look like (to stay within what is allowed)."""
    size = [0] * tables
    kind = ["dyn"] * tables
    ops = []
    w = {"push": 12, "own": 3, "pop": 3, "ins": 5, "era1": 3, "era": 3, "clear": .5, "reserve": 2, "resize": 2, "set": 3,
         "swap": 3, "sort": 1, "clone": 1, "eq": 1, "copy": 2, "move": 2, "fix": 2, "dyn": 2, "new": .3}
    names = list(w)
    while len(ops) < n:
        o = rng.choices(names, [w[x] for x in names])[0]
        h, g = rng.randrange(tables), rng.randrange(tables)
        if o not in ("new", "copy", "move") and kind[h] == "gone":
            continue
        s = size[h]
        if o == "new":
            kind[h], size[h] = rng.choice(["dyn", "fix"]), 0
            ops.append([o, h + 1, kind[h]])
        elif o in ("copy", "move"):
            if kind[g] == "gone" or o == "move" and h == g:
                continue
            kind[h], size[h] = kind[g], size[g]
            if o == "move":
                kind[g], size[g] = "gone", 0
            ops.append([o, h + 1, g + 1])
        elif o == "eq":
            if kind[g] == kind[h]:
                ops.append([o, h + 1, g + 1])
        elif o in ("fix", "dyn"):
            if kind[h] != o:
                kind[h] = o
                ops.append([o, h + 1])
        elif o == "push":
            for _ in range(rng.choice([1, 1, 1, 4, 9])):
                ops.append([o, h + 1, rng.randint(1, 99), rng.randint(0, 2)])
                size[h] += 1
        elif o in ("own", "era1", "set"):
            if s:
                ops.append([o, h + 1, rng.randrange(s)] + ([rng.randint(1, 99)] if o == "set" else []))
                size[h] += {"own": 1, "era1": -1, "set": 0}[o]
        elif o == "swap":
            if s:
                ops.append([o, h + 1, rng.randrange(s), rng.randrange(s)])
        elif o == "ins":
            if h != g and kind[h] == kind[g] and size[g] + s < maxrows:
                i = rng.randint(0, size[g])
                j = rng.randint(i, size[g])
                ops.append([o, h + 1, rng.choice([0, s, rng.randint(0, s)]), g + 1, i, j])
                size[h] += j - i
        elif o == "era":
            i = rng.randint(0, s)
            j = rng.randint(i, s + 2)
            ops.append([o, h + 1, i, j])
            size[h] -= min(j, s) - i
        elif o == "reserve":
            ops.append([o, h + 1, rng.randint(0, 2 * s + 3)])
        elif o == "resize":
            size[h] = rng.randint(0, min(maxrows, 2 * s + 3))
            ops.append([o, h + 1, size[h], rng.randint(1, 99)])
        else:
            if o == "clear":
                size[h] = 0
            elif o == "pop":
                size[h] = max(0, s - 1)
            ops.append([o, h + 1])
    return ops


def check(c):
    exe = qbuild.harness("idtable")
    rng = random.Random(c.seed)
    g = graph.Graph("IdTableGraph", cfg=c.pick("IdTableGraph", "IdTableGraphBig"))
    c.tlc(g.run)
    walks = g.walks(rng)
    c.add(walks=len(walks), transitions_covered=len(g.edges))
    c.log("%d transitions, %d walks" % (len(g.edges), len(walks)))
    c.sample({"walk": [e["op"] for e in walks[len(walks) // 2]][:20]})
    for w in (1, 2, 3, 4, 5, 6, 7, 12):
        for u in (1, 3) if w not in (2, 5) else (1, 2, 7, 40):
            graph.replay(c, exe, ["graph"], "%d %d 2 " % (w, u), walks)
    lines, meta = [], []
    for i in range(c.pick(1500, 10000)):
        n = rng.randint(1, 4)
        ops = gen_ops(rng, n, rng.choice([20, 60, 120]), rng.choice([10, 60]))
        lines.append("%d 1 %d %s" % (rng.choice([1, 2, 3, 4, 5, 6, 7, 12]), n, graph.line(ops)))
        meta.append((n, ops))
    graph.histories(c, exe, [], "IdTableTrace", lines, [({"n": n}, ops) for n, ops in meta])

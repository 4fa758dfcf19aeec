"""C19: arrays on disk against MmapVec.tla."""
import concurrent.futures as cf
import os, random, shutil, tempfile

import graph, qbuild


class Sim:
    """Just enough of the specification to stay within what is allowed."""

    def __init__(self, nh, nf):
        self.h = [("closed", 0, 0)] * nh
        self.f = [None] * nf              # None, "junk" or a length

    def shut(self, h):
        k, f, n = self.h[h]
        if k == "rw":
            self.f[f] = n
        elif k in ("tmp", "buf"):
            self.f[f] = None
        self.h[h] = ("closed", 0, 0)

    def busy(self, h, f, kinds):
        return any(g != h and x[0] in kinds and x[1] == f for g, x in enumerate(self.h))


def gen_ops(rng, nh, nf, n, lens):
    s = Sim(nh, nf)
    ops = []
    w = {"create": 2, "range": 2, "reuse": 5, "view": 3, "tmp": 1, "buf": 1.5, "junk": .5, "close": 3, "drop": 2, "move": 3,
         "append": 14, "own": 3, "clear": 1, "resize": 4, "set": 5, "at": 3, "reserve": 2}
    names = list(w)
    v = lambda: rng.randint(1, 200)
    while len(ops) < n:
        o = rng.choices(names, [w[x] for x in names])[0]
        h, f = rng.randrange(nh), rng.randrange(nf)
        k, hf, ln = s.h[h]
        if o in ("create", "range", "tmp", "buf", "reuse"):
            if s.busy(h, f, ("rw", "ro", "tmp", "buf")):
                continue
        if o in ("create", "range"):
            m = rng.choice([0, 1, rng.choice(lens)])
            s.shut(h)
            s.f[f] = 0
            s.h[h] = ("rw", f, m)
            ops.append([o, h + 1, f + 1, m, v(), rng.randint(0, 1)])
        elif o in ("tmp", "buf"):
            s.shut(h)
            s.f[f] = 0
            s.h[h] = (o, f, 0)
            ops.append([o, h + 1, f + 1, rng.choice([0, 1, 3, rng.choice(lens)]) if o == "buf" else rng.randint(0, 1)])
        elif o in ("reuse", "view"):
            if o == "view" and s.busy(h, f, ("rw", "tmp", "buf")):
                continue
            s.shut(h)
            if isinstance(s.f[f], int):
                s.h[h] = ("rw" if o == "reuse" else "ro", f, s.f[f])
            elif rng.random() < .7:
                ops.append([o, h + 1, f + 1, rng.randint(0, 1)])
                continue
            ops.append([o, h + 1, f + 1, rng.randint(0, 1)])
        elif o == "junk":
            if not s.busy(-1, f, ("rw", "ro", "tmp", "buf")):
                s.f[f] = "junk"
                ops.append([o, f + 1, rng.randint(0, 5)])
        elif o == "drop" or o == "close" and k != "buf":
            s.shut(h)
            ops.append([o, h + 1])
        elif o == "move":
            g = rng.randrange(nh)
            if g != h and s.h[g][0] != "closed":
                s.shut(h)
                s.h[h], s.h[g] = s.h[g], ("closed", 0, 0)
                ops.append([o, h + 1, g + 1, rng.randint(0, 1)])
        elif o == "at":
            if k != "closed":
                ops.append([o, h + 1, rng.randint(0, ln + 1)])
        elif k in ("rw", "tmp", "buf"):
            if o == "append":
                m = rng.choice([1, 1, 2, 5, rng.choice(lens)])
                if ln + m <= 700:
                    ops.append([o, h + 1, m, v()])
                    s.h[h] = (k, hf, ln + m)
            elif o == "clear":
                ops.append([o, h + 1])
                s.h[h] = (k, hf, 0)
            elif o in ("own", "set"):
                if ln:
                    ops.append([o, h + 1, rng.choice([0, ln - 1, rng.randrange(ln)])] + ([v()] if o == "set" else []))
                    if o == "own":
                        s.h[h] = (k, hf, ln + 1)
            elif k != "buf":
                m = rng.choice([0, 1, ln, rng.choice(lens), rng.randint(0, ln + 1)])
                if o == "resize":
                    s.h[h] = (k, hf, m)
                    ops.append([o, h + 1, m, v()])
                elif o == "reserve":
                    ops.append([o, h + 1, m])
    return ops


def check(c):
    exe = qbuild.harness("mmapvec")
    rng = random.Random(c.seed)
    wd = tempfile.mkdtemp(prefix="c19", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        for cfg, (nh, nf) in c.pick([("MmapVecGraph", (2, 2)), ("MmapVecGraphOne", (2, 1)), ("MmapVecGraphLong", (1, 1))],
                                    [("MmapVecGraphBig", (2, 2)), ("MmapVecGraphOne", (2, 1)), ("MmapVecGraphLong", (1, 1))]):
            g = graph.Graph("MmapVecGraph", cfg=cfg)
            c.tlc(g.run)
            walks = g.walks(rng)
            c.add(walks=len(walks), transitions_covered=len(g.edges))
            c.log("%s: %d transitions, %d walks" % (cfg, len(g.edges), len(walks)))
            c.sample({"walk": [e["op"] for e in walks[len(walks) // 2]][:20]})
            todo = [(4, 1), (4, 600), (1, 2100), (16, 103), (24, 101), (1000, 34), (4096, 51), (5000, 1), (5000, 40)]
            if cfg == "MmapVecGraph":
                todo = [(4, 1), (16, 257), (1000, 101), (5000, 1)]

            def one(x):
                d = tempfile.mkdtemp(dir=wd)
                graph.replay(c, exe, [d], "%d %d %d %d " % (x[0], x[1], nh, nf), walks)
            with cf.ThreadPoolExecutor(6) as ex:
                list(ex.map(one, todo))
        lines, meta = [], []
        for i in range(c.pick(400, 4000)):
            nh, nf = rng.randint(1, 4), rng.randint(1, 3)
            b = rng.choice([4, 16, 24, 1000, 4096, 5000])
            page = max(1, 4096 // b)
            lens = [99, 100, 101, 102, page, page + 1, 2 * page, 2 * page + 1, 150, 151, 7]
            ops = gen_ops(rng, nh, nf, rng.choice([10, 25, 50]), [x for x in lens if x < 300])
            lines.append("%d 1 %d %d %s" % (b, nh, nf, graph.line(ops)))
            meta.append(({"n": nh, "nf": nf}, ops))
        graph.histories(c, exe, [wd], "MmapVecTrace", lines, meta, chunk=40)
    finally:
        shutil.rmtree(wd, ignore_errors=True)

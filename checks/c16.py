"""C16: the result cache against LruCache.tla."""
import random, subprocess

import graph, qbuild


def fmt(op):
    return ",".join(str(x) for x in op)


def drive(exe, lines):
    r = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    return r.returncode, r.stdout.split("\n")[:-1]


def parse(line):
    res = []
    for p in line.split(";"):
        if not p:
            continue
        f = p.split(" ")
        res.append((f[0], [int(x) for x in f[1:]]) if p != "CHANGED" else ("CHANGED", []))
    return res


def replay(check, exe, jobs):
    """jobs: (keys, entries, total, single, [edge]).  The first difference per walk."""
    bad = []
    lines = ["%d %d %d %d %s" % (k, n, t, s, ";".join(fmt(e["op"]) for e in w)) for k, n, t, s, w in jobs]
    rc, out = drive(exe, lines)
    for j, job in enumerate(jobs):
        w = job[4]
        if j >= len(out):
            bad.append((lines[j], "the cache did not survive this sequence (exit %s)" % rc, w))
            break
        got = parse(out[j])
        for i, e in enumerate(w):
            if i >= len(got) or got[i] != (e["r"], e["see"]):
                bad.append((lines[j], "operation %d %s: expected %s %s, got %s" % (
                    i + 1, e["op"], e["r"], e["see"], got[i] if i < len(got) else None), w[:i + 1]))
                break
        else:
            if len(got) != len(w):
                bad.append((lines[j], "a value that was handed out changed", w))
    return bad


def check(c):
    exe = qbuild.harness("lru")
    rng = random.Random(c.seed)
    erases = "erase" in subprocess.run([exe, "caps"], stdout=subprocess.PIPE, text=True).stdout
    # 1. every transition of the small cache
    for cfg, (keys, n, t, s) in ([("LruGraph", (3, 2, 4, 2))] + [("LruGraphBig", (4, 3, 5, 3))]):
        g = graph.Graph("LruGraph", cfg=cfg, drop=() if erases else ("erase",))
        c.tlc(g.run)
        walks = g.walks(rng)
        c.add(walks=len(walks), steps=sum(map(len, walks)), transitions_covered=len(g.edges))
        c.add(traces_validated_against_impl=len(walks))
        c.log("%s: %d transitions, %d walks, %d steps" % (cfg, len(g.edges), len(walks), sum(map(len, walks))))
        c.sample({"walk": [e["op"] for e in walks[len(walks) // 2]][:20]})
        bad = replay(c, exe, [(keys, n, t, s, w) for w in walks])
        for line, what, w in bad[:3]:
            if replay(c, exe, [(keys, n, t, s, w)]):
                c.violation(what + "\nsequence: " + line, {"input": line, "steps": w})
    # 2. long random histories of bigger caches, judged by TLC
    lines, meta = [], []
    for i in range(c.pick(1000, 5000)):
        keys = rng.randint(2, 12)
        n = rng.choice([0, 1, 2, 3, 5, 8, 20])
        t = rng.choice([0, 5, 20, 60, 10**6])
        s = rng.choice([0, 3, 10, 10**6])
        ops, vid = [], 100
        w = [rng.choice([1, 6, 12]), rng.choice([6, 12]), rng.choice([0, 1, 4]), rng.choice([0, 1, 4]), rng.choice([0, 2]) * erases, .3, .15, .5]
        for _ in range(rng.choice([20, 60, 150])):
            o = rng.choices(["get", "ins", "pinned", "pin", "erase", "clear", "clearall", "limit"], w)[0]
            k = rng.randint(1, keys)
            if o in ("ins", "pinned"):
                vid += 1
                ops.append([o, k, vid, rng.choice([0, 1, 2, 3, 5, 9, 15])])
            elif o in ("clear", "clearall"):
                ops.append([o])
            elif o == "limit":
                ops.append([o, rng.choice([0, 1, 2, 4, 9, 20])])
            else:
                ops.append([o, k])
        meta.append(([n, t, s], ops))
        lines.append("%d %d %d %d %s" % (keys, n, t, s, ";".join(fmt(o) for o in ops)))
    rc, out = drive(exe, lines)
    traces = []
    for j, ((lim, ops), line) in enumerate(zip(meta, out)):
        got = parse(line)
        traces.append({"lim": lim, "ops": [{"op": o, "r": g[0], "see": g[1]} for o, g in zip(ops, got)]})
        if len(got) != len(ops):
            c.violation("a value that was handed out changed: " + lines[j], {"input": lines[j]})
    if len(out) < len(lines):
        c.violation("the cache did not survive this sequence (exit %s): %s" % (rc, lines[len(out)]), {"input": lines[len(out)]})
    c.add(operations=sum(len(t["ops"]) for t in traces))
    for j in graph.accepted(c, "LruTrace", traces, chunk=100)[:3]:
        c.violation("history is not a behaviour of LruCache: " + lines[j], {"input": lines[j], "trace": traces[j]})

"""Walks that cover every transition of a state graph printed by TLC, and
validation of recorded histories by TLC."""
import collections, copy, json, os, re, subprocess, tempfile

import tlc


class Graph:
    def __init__(self, module, cfg=None, workers=1, timeout=600, mem="6g", drop=()):
        r = tlc.run(module, cfg=cfg, workers=workers, timeout=timeout, mem=mem)
        if not r.ok:
            raise tlc.TlcError("TLC on %s: %s" % (module, r.out[-3000:]))
        self.run = r
        self.out = collections.defaultdict(list)  # node -> [(edge index)]
        self.edges = []
        seen = set()
        targets, sources = set(), []
        for m in re.finditer(r'^"EDGE (.*)"$', r.out, re.M):
            e = json.loads(json.loads('"' + m.group(1) + '"'))
            key = (e["f"], json.dumps(e["op"]))
            if key in seen or e["op"][0] in drop:
                continue
            seen.add(key)
            self.out[e["f"]].append(len(self.edges))
            self.edges.append(e)
            if e["f"] not in targets:
                sources.append(e["f"])
            targets.add(e["t"])
        if not self.edges:
            raise tlc.TlcError("no transitions printed by %s" % module)
        m = re.search(r'^"INIT (.*)"$', r.out, re.M)
        self.init = self.edges[0]["f"] if not m else json.loads(json.loads('"' + m.group(1) + '"'))

    def walks(self, rng, length=100):
        """Walks from the initial state that together take every transition."""
        todo = {n: set(es) for n, es in self.out.items()}
        left = len(self.edges)
        # distance tree from the initial state, to reach untaken transitions
        parent = {self.init: None}
        q = collections.deque([self.init])
        while q:
            n = q.popleft()
            for i in self.out[n]:
                t = self.edges[i]["t"]
                if t not in parent:
                    parent[t] = i
                    q.append(t)
        reachable = set(parent)
        unreached = [n for n in todo if n not in reachable and todo[n]]
        assert not unreached, "unreachable states in the graph"
        order = list(parent)
        ptr = 0
        res = []
        while left:
            while ptr < len(order) and not todo.get(order[ptr]):
                ptr += 1
            n = order[ptr]
            path = []
            m = n
            while parent[m] is not None:
                path.append(parent[m])
                m = self.edges[parent[m]]["f"]
            path.reverse()
            for i in path:
                f = self.edges[i]["f"]
                if i in todo[f]:
                    todo[f].discard(i)
                    left -= 1
            while len(path) < length:
                if todo.get(n):
                    i = rng.choice(sorted(todo[n]))
                    todo[n].discard(i)
                    left -= 1
                    path.append(i)
                    n = self.edges[i]["t"]
                    continue
                # the way to the nearest state with something to do
                back = {n: None}
                q = collections.deque([n])
                goal = None
                while q and goal is None:
                    m = q.popleft()
                    for i in self.out[m]:
                        t = self.edges[i]["t"]
                        if t not in back:
                            back[t] = i
                            q.append(t)
                            if todo.get(t):
                                goal = t
                                break
                if goal is None:
                    break
                way = []
                while back[goal] is not None:
                    way.append(back[goal])
                    goal = self.edges[back[goal]]["f"]
                path += reversed(way)
                n = self.edges[way[0]]["t"]
            res.append([self.edges[i] for i in path])
        return res


def accepted(check, module, traces, chunk=400, timeout=600, key="TRACES", workers=1, mem="3g"):
    """Indices of the traces that TLC does not accept."""
    bad = []
    import concurrent.futures as cf

    def one(lo):
        part = traces[lo:lo + chunk]
        with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
            for t in part:
                f.write(json.dumps(t) + "\n")
        try:
            r = tlc.run(module, env={key: f.name}, timeout=timeout, workers=workers, mem=mem)
        finally:
            os.unlink(f.name)
        if not r.ok:
            raise tlc.TlcError("TLC on %s: %s" % (module, r.out[-3000:]))
        acc = {int(x) for x in r.printed("ACC")}
        return r, [lo + i for i in range(len(part)) if i + 1 not in acc]

    with cf.ThreadPoolExecutor(6) as ex:
        for r, b in ex.map(one, range(0, len(traces), chunk)):
            check.tlc(r)
            bad += b
    check.add(traces_validated_against_impl=len(traces))
    return bad


def line(ops):
    return ";".join(",".join(str(x) for x in o) for o in ops)


def drive(exe, args, lines, timeout=800):
    """A harness that reads a sequence of operations per line and prints, as
    JSON, the answer and what is seen after each of them."""
    r = subprocess.run([exe] + list(args), input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=timeout, errors="replace")
    out = []
    for l in r.stdout.split("\n")[:-1]:
        try:
            out.append(json.loads(l))
        except ValueError:
            break
    return r.returncode, out


def replay(check, exe, args, prefix, walks, reports=3):
    """Every step of the walks has to show what the specification says."""
    def diff(ws):
        lines = [prefix + line(e["op"] for e in w) for w in ws]
        rc, out = drive(exe, args, lines)
        for j, w in enumerate(ws):
            if j >= len(out):
                return j, "does not survive this sequence (exit %s)" % rc, lines[j], w
            for i, e in enumerate(w):
                if i >= len(out[j]) or out[j][i][0] != e["r"] or out[j][i][1:] != e["see"]:
                    return (j, "operation %d %s: expected %s %s, got %s" % (
                        i + 1, e["op"], e["r"], e["see"], out[j][i] if i < len(out[j]) else None), lines[j], w[:i + 1])
        return None

    left = walks
    while left and len(check.violations) < reports:
        d = diff(left)
        if not d:
            break
        j, what, l, w = d
        if diff([left[j]]):
            check.violation(what + "\nsequence: " + l, {"args": list(args), "input": l, "steps": w})
        else:
            raise RuntimeError("does not repeat: " + what + "\n" + l)
        left = left[j + 1:]
    check.add(traces_validated_against_impl=len(walks), steps=sum(map(len, walks)))


def histories(check, exe, args, module, lines, metas, chunk=150, reports=3, corrupt=None):
    """Runs operation sequences; TLC decides whether what was seen is a
    behaviour of the specification.  metas: (fields of the trace, operations)."""
    def run(idx):
        rc, out = drive(exe, args, [lines[k] for k in idx])
        traces = [dict(metas[k][0], ops=[{"op": o, "r": g[0], "see": g[1:]} for o, g in zip(metas[k][1], out[n])])
                  for n, k in enumerate(idx) if n < len(out)]
        return rc, out, traces
    idx, start = list(range(len(lines))), 0
    traces, origin = [], []
    while idx and len(check.violations) < reports:
        rc, out, tr = run(idx)
        traces += tr
        origin += idx[:len(out)]
        if len(out) == len(idx):
            break
        k = idx[len(out)]
        if len(run([k])[1]) == 1:
            raise RuntimeError("does not repeat: harness ended with %s on %s" % (rc, lines[k]))
        check.violation("does not survive this sequence (exit %s): %s" % (rc, lines[k]), {"args": list(args), "input": lines[k]})
        idx = idx[len(out) + 1:]
    check.add(operations=sum(len(t["ops"]) for t in traces))
    if not traces:
        return
    check.sample({"operations": lines[len(lines) // 2][:300]})
    control = copy.deepcopy(max(traces, key=lambda t: len(t["ops"])))
    last = control["ops"][-1]["see"]
    if corrupt:
        corrupt(last)
    else:
        last[-1] = last[-1] + [77] if isinstance(last[-1], list) else last[-1] + 1
    bad = accepted(check, module, traces + [control], chunk=chunk)
    if len(traces) not in bad:
        raise RuntimeError("the specification accepts a corrupted history")
    bad.remove(len(traces))
    for j in bad[:reports]:
        tr = run([origin[j]])[2]
        if tr and accepted(check, module, tr):
            check.violation("history is not a behaviour of %s: %s" % (module, lines[origin[j]]),
                            {"args": list(args), "input": lines[origin[j]], "trace": traces[j]})
        else:
            raise RuntimeError("does not repeat: " + lines[origin[j]])

"""Conformance of the real query engine with spec/Sparql.tla.

A session is: a knowledge base, an index built from it by IndexBuilderMain, a
ServerMain on it and a sequence of queries.  The recorded answers are judged by
TLC (spec/EngineTrace.tla).  A query that does not conform is repeated on a
fresh server, alone and in its session, before it is reported.
"""
import concurrent.futures as cf
import json, multiprocessing, os, random, re, shutil, tempfile

import gen, qbuild, qlever, tlc

CORES = 8
BIG = 400          # answers with more rows are judged by size and a sample
HUGE = 3000
ERROR_CELL = -999


def bad_rows(q):
    """What stands for an answer that is an error or no answer."""
    return [[[ERROR_CELL] if s["f"] == "concat" else ERROR_CELL for s in q["sel"]]]


def random_settings(rng):
    """Build settings and limits that lead small data through all code paths."""
    s = {}
    if rng.random() < 0.6:
        s["num-triples-per-partial-vocab"] = rng.choice([3, 5, 10, 40])
        s["parser-batch-size"] = rng.choice([1, 2, 7, 1000])
    lim = {}
    if rng.random() < 0.6:
        lim["GALLOP_THRESHOLD"] = rng.choice([1, 2, 3])
    if rng.random() < 0.5:
        lim["USE_BLOCKS_INDEX_SIZE_TRESHOLD"] = rng.choice([0, 1, 3])
        lim["DISTINCT_LHS_PER_BLOCK"] = rng.choice([1, 2, 3])
    if rng.random() < 0.4:
        lim["THRESHOLD_RELATION_CREATION"] = rng.choice([2, 4])
    if rng.random() < 0.3:
        lim["MAX_NUM_PATTERNS"] = rng.choice([1, 2])
    return s, lim


class Task:
    """One session.  Everything follows from the key."""
    concurrent = False

    def __init__(self, key, families, nq, kbargs=None, settings=True, fixed=None, kbmaker=None):
        self.key, self.families, self.nq = key, families, nq
        self.kbargs, self.settings, self.fixed, self.kbmaker = kbargs or {}, settings, fixed, kbmaker

    def make(self):
        rng = random.Random(self.key)
        kb = self.kbmaker(rng) if self.kbmaker else gen.gen_kb(rng, **self.kbargs)
        qs = []
        if self.fixed is not None:
            for q, names in self.fixed(kb):
                sc = gen.Scope(random.Random(self.key))
                sc.n = names
                qs.append((sc, q, gen.R(kb, sc).query(q)))
        else:
            tries = 0
            while len(qs) < self.nq and tries < 60 * self.nq:
                tries += 1
                fam = rng.choice(self.families)
                sc = gen.Scope(rng)
                q = gen.FAMILIES[fam](rng, kb, sc)
                if q:
                    qs.append((sc, q, gen.R(kb, sc).query(q)))
        s, lim = random_settings(rng) if self.settings else ({}, {})
        return rng, kb, qs, s, lim

    def plan(self):
        rng, kb, qs, s, lim = self.make()
        return Plan(kb, [Ask(*x) for x in qs], settings=s, limits=lim)


def event(kb, sc, q, rows, id, lim=None, size=-1):
    big = 0
    if len(rows) > BIG and not q["ord"] and not q["grp"] and q["lim"] < 0 and q["off"] == 0 and lim is None \
            and all(s["f"] == "var" for s in q["sel"]):
        big = len(rows)
        rows = rows[::max(1, len(rows) // 60)][:60]
    ev = gen.query_event(kb, sc, q, rows, id)
    ev["big"], ev["size"] = big, size
    if lim is not None:
        ev["lim"] = lim if ev["lim"] < 0 else min(lim, ev["lim"])
    return ev


class Ask:
    """A query to be sent: its abstract form, its text, the output format and
    further parameters of the request."""

    def __init__(self, sc, q, text, mode="json", params=None, send=None, size=False, mayfail=False):
        self.sc, self.q, self.text, self.mode = sc, q, text, mode
        self.params = dict(params or {})
        self.send, self.size = send, size
        # a query that may as well be refused
        self.mayfail = mayfail or q.get("_mayfail", False)
        if send is not None:
            self.params["send"] = send


class Cmd:
    """A request whose answer is not judged."""

    def __init__(self, **params):
        self.params = params


class Par:
    """Requests sent at the same time."""

    def __init__(self, items):
        self.items = items


class Restart:
    pass


class Plan:
    """What a session does."""

    def __init__(self, kb, steps, text=None, settings=None, limits=None, build=(), server=(), threads=2, fmt="ttl"):
        self.kb, self.steps, self.text, self.settings, self.limits = kb, steps, text, settings or {}, limits or {}
        self.build, self.server, self.threads, self.fmt = list(build), list(server), threads, fmt

    def number(self):
        """The queries get their numbers."""
        n = 0
        for st in self.steps:
            for x in (st.items if isinstance(st, Par) else [st]):
                x.id = n
                n += 1


def cells(kb, line, sep, sel):
    """The cells of a line; a value may contain the separator."""
    parts = line.split(sep)
    n = len(sel)
    if len(parts) <= n:
        return parts

    def fits(x, k):
        return x == "" or x in kb.byshow or sel[n - k]["f"] in ("count", "sum", "avg", "concat")

    def find(i, k):
        if k == 1:
            x = sep.join(parts[i:])
            return [x] if fits(x, k) else None
        for j in range(i + 1, len(parts) - k + 2):
            x = sep.join(parts[i:j])
            if fits(x, k):
                r = find(j, k - 1)
                if r is not None:
                    return [x] + r
        return None
    return find(0, n) or parts


def ask(server, a, kb):
    """-> status, rows or error text, reported size"""
    if a.mode == "json":
        r = server.query(a.text, **a.params)
        if r["status"] != "OK":
            return r["status"], r["text"], -1
        return "OK", r["rows"], r["resultsize"]
    body = server.tsv(a.text, action=a.mode + "_export", **a.params)
    if body.startswith("{\n") and '"status": "ERROR"' in body:
        return "ERROR", body, -1
    sep = "\t" if a.mode == "tsv" else ","
    if body and not body.endswith("\n"):
        return "GARBAGE", body[-200:], -1
    return "OK", [cells(kb, l, sep, a.q["sel"]) for l in body.split("\n")[:-1]], -1


def run_session(bindir, task, only=None, id0=0):
    """-> kb event, [query events], {id: (text, rows or error)}, data, config"""
    plan = task.plan()
    plan.number()
    kb = plan.kb
    text = plan.text if plan.text is not None else kb.ttl(random.Random(task.key))
    wd = qlever.scratch()
    events, texts, huge = [], {}, set()
    state = {"server": None, "downs": 0, "ix": None}

    def stop():
        if state["server"] is not None:
            state["server"].stop()
        state["server"] = None

    def record(a, res):
        st, rows, size = res
        id = id0 + a.id
        shown = a.text if a.mode == "json" and not a.params else "%s   [%s %s]" % (a.text, a.mode, a.params)
        if st == "OK":
            if size > HUGE / 2:
                huge.add(a.text)
            if gen.rounded(a.q, rows) or len(rows) > HUGE or a.text in huge and (a.q["lim"] >= 0 or a.q["off"] > 0):
                texts["skipped"] = texts.get("skipped", 0) + 1
                return
            ev = event(kb, a.sc, a.q, rows, id, a.send if a.mode == "json" else None, size if a.size else -1)
            texts[id] = (shown, rows[:30] + ([["... %d rows" % len(rows)]] if len(rows) > 30 else []))
        elif a.mayfail and st == "ERROR":
            texts["failed"] = texts.get("failed", 0) + 1
            return
        else:
            ev = gen.query_event(kb, a.sc, a.q, [], id)
            ev["rows"], ev["big"], ev["size"] = bad_rows(a.q), 0, -1
            texts[id] = (shown, st + ": " + rows[:400])
        events.append(ev)

    def send(x):
        if isinstance(x, Cmd):
            state["server"].get(x.params)
            return None
        return ask(state["server"], x, kb)

    try:
        try:
            state["ix"] = qlever.build_index(bindir, wd, text, fmt=plan.fmt, settings=plan.settings or None,
                                             args=plan.build, limits=plan.limits)
        except qlever.BuildCrash as e:
            texts["build"] = str(e)
        for st in plan.steps:
            items = st.items if isinstance(st, Par) else [st]
            if only is not None:
                items = [x for x in items if x.id in only]
            if isinstance(st, Restart):
                stop()
                continue
            if not items:
                continue
            if state["ix"] is None or state["downs"] > 5:
                res = [("DOWN", texts.get("build", "server keeps ending"), -1)] * len(items)
            else:
                try:
                    if state["server"] is None:
                        state["server"] = qlever.Server(bindir, state["ix"], threads=plan.threads,
                                                        args=plan.server, limits=plan.limits)
                    if len(items) == 1:
                        res = [send(items[0])]
                    else:
                        with cf.ThreadPoolExecutor(len(items)) as ex:
                            res = list(ex.map(send, items))
                except qlever.ServerDown as e:
                    stop()
                    state["downs"] += 1
                    res = [("DOWN", str(e), -1)] * len(items)
            for x, r in zip(items, res):
                if isinstance(x, Ask):
                    record(x, r)
                elif r is not None:
                    # a command got no answer: the query that is judged next tells
                    texts["commands_down"] = texts.get("commands_down", 0) + 1
        conf = {"settings": plan.settings, "limits": plan.limits, "build": plan.build, "server": plan.server,
                "threads": plan.threads, "format": plan.fmt}
        return kb.event(), events, texts, text, conf
    finally:
        stop()
        shutil.rmtree(wd, ignore_errors=True)


def judge(sessions, check=None, parts=CORES):
    """sessions: [(kb event, query events)].  The ids that do not conform."""
    sessions = [s for s in sessions if s[1]]
    if not sessions:
        return set()
    chunks = [[] for _ in range(min(parts, len(sessions)))]
    load = [0] * len(chunks)
    for s in sorted(sessions, key=lambda s: -sum(3 + len(e["rows"]) for e in s[1])):
        k = load.index(min(load))
        chunks[k].append(s)
        load[k] += sum(3 + len(e["rows"]) for e in s[1])
    wd = tempfile.mkdtemp(prefix="judge")
    bad = set()
    try:
        def one(k):
            p = os.path.join(wd, "t%d.ndjson" % k)
            with open(p, "w") as f:
                for kbev, evs in chunks[k]:
                    f.write(json.dumps(kbev) + "\n")
                    for e in evs:
                        f.write(json.dumps(e) + "\n")
            return tlc.run("EngineTrace", env={"TRACE": p}, timeout=800)
        with cf.ThreadPoolExecutor(len(chunks)) as ex:
            for r in ex.map(one, range(len(chunks))):
                v = r.printed("VERDICT")
                if not r.ok or not v:
                    raise tlc.TlcError("EngineTrace: " + r.out[-3000:])
                bad |= {int(x) for x in re.findall(r"\d+", v[-1])}
                if check:
                    check.tlc(r)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return bad


_state = {}


def _work(i):
    return run_session(_state["bindir"], _state["tasks"][i], id0=_state["stride"] * i)


def run_tasks(bindir, tasks, stride):
    """All sessions, in parallel processes."""
    _state.update(bindir=bindir, tasks=tasks, stride=stride)
    with multiprocessing.get_context("fork").Pool(CORES) as pool:
        return pool.map(_work, range(len(tasks)), chunksize=1)


def check_sessions(check, tasks, bindir=None, max_reports=3):
    """Run, judge, confirm, report."""
    bindir = bindir or qbuild.mains()
    check.log("programs built")
    stride = 100000
    res = run_tasks(bindir, tasks, stride)
    check.log("%d sessions run" % len(tasks))
    bad = judge([(r[0], r[1]) for r in res], check)
    n = sum(len(r[1]) for r in res)
    check.add(traces_validated_against_impl=len(res), queries=n,
              answers_with_rows=sum(1 for r in res for e in r[1] if e["rows"]),
              rows=sum(len(e["rows"]) for r in res for e in r[1]),
              too_big=sum(r[2].get("skipped", 0) for r in res))
    for r in res[:: max(1, len(res) // 4)]:
        for e in r[1]:
            if e["rows"]:
                check.sample({"data": r[3].split("\n")[:12], "query": r[2][e["id"]][0], "answer": r[2][e["id"]][1][:4]})
                break
    check.log("%d queries judged, %d do not conform" % (n, len(bad)))
    reported = 0
    by_session = {}
    for b in sorted(bad):
        by_session.setdefault(b // stride, []).append(b)
    for si, ids in by_session.items():
        if reported >= max_reports:
            break
        for b in ids[:2]:
            if reported >= max_reports:
                break
            r = confirm(bindir, tasks[si], b - si * stride)
            if r:
                kind, ttl, texts, conf = r
                t, rows = res[si][2][b]
                check.violation("%s\n%s\nanswer: %s" % (kind, t, rows),
                                {"data": ttl, "config": conf, "queries": texts, "failing": t})
                reported += 1
            else:
                check.add(not_repeated=1)
    return res


def confirm(bindir, task, i):
    """Does query i of the session fail again?  Alone, else in the session."""
    kbev, evs, texts, ttl, conf = run_session(bindir, task, only=[i])
    if judge([(kbev, evs)]):
        return "answer does not conform to the specification", ttl, [texts[i][0]], conf
    for _ in range(2):
        kbev, evs, texts, ttl, conf = run_session(bindir, task, only=range(i + 1))
        if i in judge([(kbev, evs)]):
            return "answer does not conform to the specification after the earlier queries of the session", ttl, \
                [texts[e["id"]][0] for e in evs], conf
    # concurrent requests: any answer of the session that does not conform
    for _ in range(8 if task.concurrent else 0):
        kbev, evs, texts, ttl, conf = run_session(bindir, task)
        bad = judge([(kbev, evs)])
        if bad:
            return "answer does not conform to the specification in a session with concurrent requests: %s" % \
                (texts[min(bad)],), ttl, [texts[e["id"]][0] for e in evs], conf
    return None


def listed(prop):
    with open(os.path.join(qbuild.VERIF, "known_findings.txt")) as f:
        pre = "finding: property=%s " % prop
        return [l[len(pre):].strip() for l in f if l.startswith(pre)]


def probe(check, bindir, finding, ttl, query, good):
    """A listed finding: does its input still fail?  good(rows) says what is right."""
    wd = qlever.scratch()
    server = None
    try:
        ix = qlever.build_index(bindir, wd, ttl)
        server = qlever.Server(bindir, ix)
        ans = server.query(query)
    finally:
        if server is not None:
            server.stop()
        shutil.rmtree(wd, ignore_errors=True)
    if ans["status"] == "OK" and good(ans["rows"]):
        return
    for k in listed(check.prop):
        if k.startswith(finding):
            check.known_finding(k)
            return
    check.violation("%s\n%s\nanswer: %s" % (finding, query, ans.get("rows", ans.get("text"))),
                    {"data": ttl, "queries": [query]})

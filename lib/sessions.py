"""Sessions with the real programs whose answers are judged by a trace module of
their own: run in parallel, judge, repeat what does not conform, report."""
import concurrent.futures as cf
import json, multiprocessing, os, re, shutil, tempfile

import qbuild, qlever, tlc

CORES = 8
STRIDE = 100000


class Running:
    """An index and a server on it, or the reason why there is none."""

    def __init__(self, bindir, text, fmt="ttl", settings=None, limits=None, build=(), server=(), threads=2, words=None, docs=None, later=False):
        self.bindir, self.down, self.server = bindir, None, None
        self.wd = qlever.scratch()
        try:
            ix = qlever.build_index(bindir, self.wd, text, fmt=fmt, settings=settings or None, limits=limits, args=list(build),
                                    words=words, docs=docs, later=later)
            self.server = qlever.Server(bindir, ix, limits=limits, args=list(server), threads=threads)
        except (qlever.BuildCrash, qlever.ServerDown) as e:
            self.down = str(e)

    def ask(self, text, **params):
        if self.server is None:
            return {"status": "DOWN", "text": self.down, "rows": []}
        try:
            return self.server.query(text, **params)
        except qlever.ServerDown as e:
            self.server.stop()
            self.server, self.down = None, str(e)
            return {"status": "DOWN", "text": str(e), "rows": []}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.server is not None:
            self.server.stop()
        shutil.rmtree(self.wd, ignore_errors=True)


class Session:
    """run(bindir, only, id0) -> first event, events with ids, {id: (question,
    answer)}, data, configuration.  Everything follows from the key."""
    module = None


def judge(module, sess, check=None, parts=CORES, weight=None):
    """sess: [(first event, events)].  The ids that do not conform."""
    sess = [s for s in sess if s[1]]
    if not sess:
        return set()
    weight = weight or (lambda s: sum(3 + len(json.dumps(e)) / 50 for e in s[1]))
    chunks = [[] for _ in range(min(parts, len(sess)))]
    load = [0] * len(chunks)
    for w, k0 in sorted(((weight(s), k) for k, s in enumerate(sess)), reverse=True):
        k = load.index(min(load))
        chunks[k].append(sess[k0])
        load[k] += w
    wd = tempfile.mkdtemp(prefix="judge")
    bad = set()
    try:
        def one(k):
            p = os.path.join(wd, "t%d.ndjson" % k)
            with open(p, "w") as f:
                for first, evs in chunks[k]:
                    for e in [first] + evs:
                        f.write(json.dumps(e) + "\n")
            return tlc.run(module, env={"TRACE": p}, timeout=800)
        with cf.ThreadPoolExecutor(len(chunks)) as ex:
            for r in ex.map(one, range(len(chunks))):
                v = r.printed("VERDICT")
                if not r.ok or not v:
                    raise tlc.TlcError(module + ": " + r.out[-3000:])
                bad |= {int(x) for x in re.findall(r"\d+", v[-1])}
                if check:
                    check.tlc(r)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return bad


_st = {}


def _work(i):
    return _st["tasks"][i].run(_st["bindir"], id0=STRIDE * i)


def check(c, tasks, control=None, weight=None, reports=3, rerun=2):
    """control(event) -> a wrong answer that must be noticed, or None."""
    module = tasks[0].module
    bindir = qbuild.mains()
    c.log("programs built")
    _st.update(bindir=bindir, tasks=tasks)
    with multiprocessing.get_context("fork").Pool(CORES) as pool:
        res = pool.map(_work, range(len(tasks)), chunksize=1)
    c.log("%d sessions run" % len(tasks))
    bad = judge(module, [(r[0], r[1]) for r in res], c, weight=weight)
    n = sum(len(r[1]) for r in res)
    c.add(traces_validated_against_impl=len(res), answers=n)
    if control:
        # an answer that was accepted is made wrong
        seen = 0
        for r in res:
            for e in r[1]:
                w = control(e) if e["id"] not in bad else None
                if w and seen < 5:
                    seen += 1
                    if not judge(module, [(r[0], [w])]):
                        raise RuntimeError("the judge accepts a corrupted answer: %s" % (r[2][e["id"]],))
                    break
        if not seen:
            raise RuntimeError("nothing to corrupt")
    for r in res[::max(1, len(res) // 4)]:
        for e in r[1]:
            if r[2][e["id"]][1]:
                c.sample({"data": r[3].split("\n")[:8], "config": r[4], "question": r[2][e["id"]][0], "answer": r[2][e["id"]][1][:4]})
                break
    c.log("%d answers judged, %d do not conform" % (n, len(bad)))
    done = set()
    for b in sorted(bad):
        si = b // STRIDE
        if len(c.violations) >= reports or si in done:
            continue
        done.add(si)
        for only in [[b % STRIDE]] + [None] * rerun:
            first, evs, texts, text, conf = tasks[si].run(bindir, only)
            again = judge(module, [(first, evs)])
            if again:
                t = texts[min(again)]
                c.violation("an answer does not conform to %s\n%s\nanswer: %s" % (module, t[0], t[1]),
                            {"data": text[:200000], "config": conf, "queries": [t[0]], "key": tasks[si].key})
                break
        else:
            c.add(not_repeated=1)
    return res

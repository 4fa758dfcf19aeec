"""One query, many texts: every query of a session is asked in several styles
and each answer is judged by the specification.  Corrupted queries: the grammar
(spec/SparqlGrammar.tla) decides whether such a text is still a query; if it is
not, the server has to answer with an error and stay alive."""
import concurrent.futures as cf
import json, os, random, re, shutil, tempfile

import gen, qbuild, qlever, tlc
from engine import Ask, Plan, Task, check_sessions, run_tasks, _state
from sparqltext import Styled, corrupt, lex
import multiprocessing

FAM = ["bgp", "bgp", "opt", "union", "minus", "sub", "fbv", "fbv", "fbv", "agg", "agg", "order", "path", "path", "hp"]
ODD = ["bgp", "bgp", "opt", "union", "sub", "path", "hp"]


def named_kb(rng):
    return gen.gen_kb(rng, base=rng.choice(["", "http://ex.org/", "http://ex.org/x#", "urn:a:b:"]))


class Styles(Task):
    def plan(self):
        rng, kb, qs, s, lim = self.make()
        steps = []
        for sc, q, t in qs:
            steps.append(Ask(sc, q, t))
            for _ in range(4):
                steps.append(Ask(sc, q, Styled(kb, sc, rng).query(q)))
        return Plan(kb, steps, settings=s, limits=lim)


def grammar(check, texts):
    """Which of the texts are well formed, by the specification."""
    toks = [lex(t) for t in texts]
    todo = [(i, [k for k, _ in ts]) for i, ts in enumerate(toks) if ts is not None]
    wd = tempfile.mkdtemp(prefix="gram")
    good = set()
    try:
        def one(k):
            p = os.path.join(wd, "t%d" % k)
            with open(p, "w") as f:
                for i, ts in todo[k::8]:
                    f.write(json.dumps({"id": i, "toks": ts}) + "\n")
            return tlc.run("SparqlGrammar", env={"TRACE": p}, timeout=700) if todo[k::8] else None
        with cf.ThreadPoolExecutor(8) as ex:
            for r in ex.map(one, range(8)):
                if r is None:
                    continue
                v = r.printed("VERDICT")
                if not r.ok or not v:
                    raise tlc.TlcError("SparqlGrammar: " + r.out[-3000:])
                check.tlc(r)
                good |= {int(x) for x in re.findall(r"\d+", v[-1])}
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return good


def _rejects(job):
    """Ask the texts that are no queries; -> those that did not get an error."""
    bindir, key, texts = job
    rng = random.Random(key)
    kb = named_kb(rng)
    wd = qlever.scratch()
    bad, server = [], None
    try:
        ix = qlever.build_index(bindir, wd, kb.ttl())
        for t in texts:
            for attempt in range(2):
                try:
                    if server is None:
                        server = qlever.Server(bindir, ix)
                    r = server.query(t)
                    why = None if r["status"] == "ERROR" else "answered with %s" % str(r["rows"])[:200]
                except qlever.ServerDown as e:
                    why = str(e)
                    server.stop()
                    server = None
                if why is None:
                    break
            if why is not None:
                bad.append((t, why, kb.ttl()))
        return bad
    finally:
        if server is not None:
            server.stop()
        shutil.rmtree(wd, ignore_errors=True)


def malformed(c, bindir):
    jobs, texts = [], []
    for i in range(c.pick(16, 120)):
        key = "C10/m/%d/%d" % (c.seed, i)
        rng = random.Random(key)
        kb = named_kb(rng)
        n = 0
        while n < 220:
            sc = gen.Scope(rng)
            q = gen.FAMILIES[rng.choice(FAM)](rng, kb, sc)
            if not q:
                continue
            t = gen.R(kb, sc).query(q) if rng.random() < 0.7 else Styled(kb, sc, rng).query(q)
            if len(t) > 420:
                continue
            texts.append((i, True, t))
            for _ in range(4):
                texts.append((i, False, corrupt(rng, t)))
                n += 1
        jobs.append(key)
    good = grammar(c, [t for _, _, t in texts])
    c.log("%d texts judged by the grammar" % len(texts))
    for k, (i, orig, t) in enumerate(texts):
        if orig and k not in good:
            raise tlc.TlcError("the grammar does not know " + t)
    bad = [[t for k, (j, orig, t) in enumerate(texts) if j == i and not orig and k not in good] for i in range(len(jobs))]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map(_rejects, [(bindir, k, b) for k, b in zip(jobs, bad)], chunksize=1)
    c.add(malformed=sum(map(len, bad)), texts=len(texts))
    out = [x for r in res for x in r]
    c.log("%d malformed queries asked, %d not rejected" % (sum(map(len, bad)), len(out)))
    for b in bad[:2]:
        c.sample({"malformed": b[0]})
    for t, why, data in out[:3]:
        c.violation("not a well-formed query, but %s\n%s" % (why, t), {"data": data, "queries": [t]})
    return out


def check(c):
    n = c.pick(32, 260)
    bindir = qbuild.mains()
    malformed(c, bindir)
    check_sessions(c, [Styles("C10/%d/%d" % (c.seed, i), FAM, 20, kbmaker=named_kb) for i in range(n)] +
                   [Styles("C10/odd/%d/%d" % (c.seed, i), ODD, 20, kbmaker=gen.odd_kb) for i in range(n // 2)], bindir=bindir)

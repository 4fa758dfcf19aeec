"""The whole content of real indexes, read through every access path, against
spec/Index.tla.  Input files of all formats, in any order, with repetitions,
with batches and blocks of a few triples up to relations of many blocks."""
import random

import gen, sessions

LIKE = ["a", "A", "á", "Á", "aa", "aA", "Aa", "ab", "a b", "a-b", "a_b", "ab ", " ab", "a­b", "a​b", "ss", "ß", "ae", "æ", "a.", ".a",
        "a'", "1", "01", "1.0", "10", "", " ", "co-op", "coop", "résumé", "resume", "Resume", "日本", "日", "ａ", "z", "Z", "é", "e"]


def alike_kb(rng):
    """Terms that a collation takes for (nearly) the same, prefixes of each other."""
    kb = gen.KB()
    words = rng.sample(LIKE, rng.choice([6, 12, 20]))
    ents = [gen.iri(w.replace(" ", "")) for w in rng.sample(LIKE, 8) if w.replace(" ", "")] + [gen.iri("e0")]
    preds = [gen.iri(x) for x in rng.sample(["p", "P", "p1", "p-1", "pp", "p.1", "p1#"], 3)]
    vals = [gen.lit(w) for w in words] + [gen.lit(rng.choice(words), rng.choice(gen.LANGS)) for _ in range(6)] + \
        [gen.Term("lit", rng.choice(words), typ="t")]
    for _ in range(rng.choice([12, 25, 40])):
        kb.add(rng.choice(ents), rng.choice(preds), rng.choice(vals + ents))
    kb.finish()
    return kb


def sized_kb(rng, n):
    """Relations of very different sizes and shapes."""
    kb = gen.KB()
    preds = [gen.iri("p%d" % i) for i in range(rng.choice([1, 3, 6]))]
    ents = [gen.iri("e%d" % i) for i in range(max(4, n // rng.choice([1, 3, 10])))]
    vals = [gen.lit("w%d" % i, rng.choice([None, None, "en", "de"])) for i in range(max(3, n // 20))] + [gen.integer(i) for i in range(-5, 30)]
    shape = {p.text: rng.choice(["any", "functional", "inverse", "star", "fan", "dense"]) for p in preds}
    k = 0
    while len(kb.triples) < n and k < 4 * n:
        k += 1
        p = preds[min(int(rng.expovariate(1.2)), len(preds) - 1)]
        sh = shape[p.text]
        s, o = rng.choice(ents), rng.choice(ents if rng.random() < .6 else vals)
        if sh == "functional":
            s, o = ents[k % len(ents)], o
        elif sh == "inverse":
            o = ents[k % len(ents)]
        elif sh == "star":
            s = ents[0] if rng.random() < .8 else s
        elif sh == "fan":
            o = vals[0] if rng.random() < .8 else o
        elif sh == "dense":
            s, o = rng.choice(ents[:max(2, int(n ** .5))]), rng.choice(ents[:max(2, int(n ** .5))])
        kb.add(s, p, o)
    kb.finish()
    return kb


def written(kb, rng, fmt):
    """The input file: any order, some triples several times."""
    ts = list(kb.facts)
    order = rng.choice(["shuffled", "shuffled", "sorted", "reverse", "by object"])
    if order == "shuffled":
        rng.shuffle(ts)
    elif order == "reverse":
        ts.reverse()
    elif order == "by object":
        ts.sort(key=lambda t: (t[2], t[1], t[0]))
    out = []
    again = rng.choice([0, 0.2, 0.8])
    for t in ts:
        out += [t] * (3 if rng.random() < again / 2 else 1)
        if rng.random() < again:
            out.append(rng.choice(ts))
    if len(out) < 60 and rng.random() < 0.2:
        out = out * 3
    sep = "\t" if fmt == "tsv" else " "
    return "".join(sep.join([kb.t(x).written() for x in t] + ["."]) + "\n" for t in out)


class Session(sessions.Session):
    module = "IndexTrace"

    def __init__(self, key, kind, n=None, scans=400):
        self.key, self.kind, self.n, self.scans = key, kind, n, scans

    def make(self):
        rng = random.Random(self.key)
        fmt = rng.choice(["ttl", "nt", "tsv"])
        if self.kind == "small":
            kb = gen.gen_kb(rng)
        elif self.kind == "alike":
            kb = alike_kb(rng)
        else:
            kb = sized_kb(rng, self.n)
        s, lim = {}, {}
        n = len(kb.facts)
        if rng.random() < 0.85:
            s["num-triples-per-partial-vocab"] = rng.choice([1, 2, 3, 5, 8, 20, 100]) if n < 300 else rng.choice([n // 10, n // 3, n + 1])
            s["parser-batch-size"] = rng.choice([1, 2, 3, 7, 1000])
        if self.n is None or self.n < 5000:
            if rng.random() < 0.7:
                lim["USE_BLOCKS_INDEX_SIZE_TRESHOLD"] = rng.choice([0, 1, 3, 10])
                lim["DISTINCT_LHS_PER_BLOCK"] = rng.choice([1, 2, 3, 7])
            if rng.random() < 0.6:
                lim["THRESHOLD_RELATION_CREATION"] = rng.choice([2, 4, 50])
        build = ["-N"] if rng.random() < 0.2 else []
        return rng, kb, fmt, s, lim, build

    def questions(self, rng, kb):
        """Scans: <<pat, k, pat2, k2>>; every term in every position."""
        subs, preds, objs = ({t[j] for t in kb.facts} for j in range(3))
        known = sorted(subs | preds | objs)
        absent = kb.id(gen.iri("absent"))
        two = {(s, p, 0) for s, p, o in kb.facts} | {(0, p, o) for s, p, o in kb.facts} | {(s, 0, o) for s, p, o in kb.facts}
        pats = [(0, 0, x) for x in known] + [(x, 0, 0) for x in known] + [(0, x, 0) for x in known if kb.t(x).kind == "iri"]
        two = sorted(two)
        pats += rng.sample(two, min(len(two), self.scans))
        for _ in range(self.scans // 4):        # mostly not in the data
            a = [rng.choice(known), rng.choice(sorted(preds)), rng.choice(known)]
            a[rng.randrange(3)] = 0
            pats.append(tuple(a))
        pats += [(absent, 0, 0), (0, absent, 0), (0, 0, absent), (absent, rng.choice(sorted(preds)), 0), (0, rng.choice(sorted(preds)), absent)]
        qs = [(p, 0, (0, 0, 0), 0) for p in pats]
        # restricted scans, also of everything
        for _ in range(self.scans // 4):
            pat = [0, 0, 0]
            for j in range(3):
                if rng.random() < 0.2:
                    pat[j] = rng.choice(sorted((subs, preds, objs)[j]))
            pat2 = [0, rng.choice(sorted(preds)), 0]
            if rng.random() < 0.3:
                pat2[rng.choice([0, 2])] = rng.choice(known)
            ks = [j + 1 for j in range(3) if pat[j] == 0]
            k2s = [j + 1 for j in range(3) if pat2[j] == 0]
            if ks and k2s:
                qs.append((tuple(pat), rng.choice(ks), tuple(pat2), rng.choice(k2s)))
        if len(qs) > 2 * self.scans:
            qs = rng.sample(qs, 2 * self.scans)
        return qs

    def text(self, kb, q):
        pat, k, pat2, k2 = q
        v = ["?s", "?p", "?o"]
        a = [kb.t(x).sparql() if x else v[j] for j, x in enumerate(pat)]
        sel = [v[j] for j in range(3) if not pat[j]]
        if not k:
            return "SELECT %s WHERE { %s . }" % (" ".join(sel), " ".join(a))
        w = ["?x", "?y", "?z"]
        w[k2 - 1] = v[k - 1]
        b = [kb.t(x).sparql() if x else w[j] for j, x in enumerate(pat2)]
        return "SELECT DISTINCT %s WHERE { %s . %s . }" % (" ".join(sel), " ".join(a), " ".join(b))

    def run(self, bindir, only=None, id0=0):
        rng, kb, fmt, s, lim, build = self.make()
        text = written(kb, rng, fmt)
        qs = self.questions(rng, kb)
        evs, texts = [], {}
        with sessions.Running(bindir, text, fmt=fmt, settings=s, limits=lim, build=build) as server:
            for j, q in enumerate(qs):
                if only is not None and j not in only:
                    continue
                t = self.text(kb, q)
                r = server.ask(t)
                ok = r["status"] == "OK"
                rows = [[kb.cell(x) for x in row] for row in r["rows"]] if ok else [[-999]]
                evs.append({"e": "scan", "id": id0 + j, "pat": q[0], "k": q[1], "pat2": q[2], "k2": q[3], "rows": rows})
                texts[id0 + j] = (t, r["rows"][:20] if ok else r["status"] + ": " + r["text"][:400])
                if server.down and len(evs) > 20:
                    break
        return kb.event(), evs, texts, text, {"format": fmt, "settings": s, "limits": lim, "build": build}


def check(c):
    key = "C11/%d/" % c.seed
    tasks = [Session(key + "l%d" % i, "sized", c.pick(24000, 60000), 60) for i in range(c.pick(2, 8))]
    tasks += [Session(key + "m%d" % i, "sized", random.Random(i).choice([60, 200, 600, 2000]), 150) for i in range(c.pick(24, 150))]
    for i in range(c.pick(110, 800)):
        tasks += [Session(key + "s%d" % i, "small", scans=150), Session(key + "a%d" % i, "alike", scans=150)]
    res = sessions.check(c, tasks, control=lambda e: dict(e, rows=e["rows"][1:]) if len(e["rows"]) > 1 else None,
                         weight=lambda s: len(s[0]["triples"]) * len(s[1]) / 50 + sum(3 + len(e["rows"]) for e in s[1]))
    c.add(triples=sum(len(r[0]["triples"]) for r in res), rows=sum(len(e["rows"]) for r in res for e in r[1]))

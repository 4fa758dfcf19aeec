"""Text search: corpora and knowledge bases of all sizes, indexed by the real
builder and asked by text queries; the answers against spec/Text.tla."""
import random

import sessions

POOL = ["walk", "walks", "walked", "walker", "walking", "walkie-talkie", "moon", "moons", "moonlight", "moo", "a", "of", "the", "them", "theme",
        "themes", "on", "2020", "2021", "20", "202", "über", "uber", "überall", "uberx", "café", "cafe", "cafés", "cafeteria", "слова", "слово",
        "словарь", "сло", "naïve", "co-op", "co-opted", "coop", "it's", "zzz", "zzzz", "zzzzz", "éé", "x1", "x", "aaaa", "aaab", "aaa", "aaaaa"]


def cased(rng, w):
    k = rng.random()
    if k < .75:
        return w
    return w.upper() if k < .85 else w[0].upper() + w[1:]


class Corpus:
    def __init__(self, rng, size):
        self.rng = rng
        n = {"tiny": rng.randint(1, 6), "small": rng.randint(6, 25), "mid": rng.randint(40, 90), "big": rng.choice([260, 400, 700])}[size]
        self.ents = ["<e%d>" % j for j in range(rng.randint(2, 9))]
        self.classes = ["<C%d>" % j for j in range(2)]
        self.triples = set()
        for e in self.ents:
            for c in self.classes:
                if rng.random() < .6:
                    self.triples.add((e, "<is>", c))
            for p in ("<p>", "<q>"):
                for _ in range(rng.choice([0, 1, 1, 2, 4])):
                    self.triples.add((e, p, rng.choice(self.ents + ["<y0>", "<y1>", "<y2>"])))
        self.triples.add(("<e0>", "<is>", "<C0>"))
        self.triples.add(("<zz>", "<p>", "<e0>"))
        if rng.random() < .3:
            self.triples.add(("<0>", "<p>", "<e0>"))
        known = self.ents + ["<is>", "<y1>"]
        intext = [e for e in known if rng.random() < .8] or ["<e0>"]
        self.intext = intext
        self.pool = rng.sample(POOL, rng.choice([4, 10, 25, len(POOL)]))
        common = rng.choice(self.pool)
        top = rng.choice([1, 3, 20, 900])
        self.lines, self.docs = [], []
        rid = rng.choice([0, 0, 1, 7])
        self.unique = rng.random() < .75
        ids = []
        for _ in range(n):
            ids.append(rid)
            ws = [rng.choice(self.pool) for _ in range(rng.choice([1, 2, 3, 6] if size != "big" else [0, 1, 2]))]
            if size == "big" and rng.random() < .9:
                ws.append(common)
            es = [rng.choice(intext) for _ in range(rng.choice([0, 1, 1, 2, 3] if size != "big" else [0, 1, 1, 2]))]
            if rng.random() < .2:
                es.append("<unknown%d>" % rng.randint(0, 2))
            ls = [(cased(rng, w), 0) for w in ws] + [(e, 1) for e in es]
            if not ls:
                ls = [(common, 0)]
            rng.shuffle(ls)
            for w, isent in ls:
                self.lines.append((w, isent, rid, rng.randint(1, top)))
            rid += rng.choice([1, 1, 1, 2, 5] if size != "mid" else [1, 1, 17, 40, 130])
        # at least one word: an index without words is not supported
        if not any(not l[1] for l in self.lines):
            self.lines.append((self.pool[0], 0, self.lines[-1][2], 1))
        j = 0
        while j < len(ids):
            step = 1 if self.unique else rng.choice([1, 2, 3])
            last = ids[min(j + step, len(ids)) - 1]
            self.docs.append((last, "text %d%s" % (j, rng.choice(["", " of <b>it</b>", ": two, three"]))))
            j += step

    def ttl(self):
        ts = sorted(self.triples)
        self.rng.shuffle(ts)
        return "".join("%s %s %s .\n" % t for t in ts)

    def words(self):
        return "".join("%s\t%d\t%d\t%d\n" % l for l in self.lines)

    def docsfile(self):
        return "".join("%d\t%s\n" % d for d in self.docs)

    def event(self):
        return {"e": "corpus", "triples": [list(t) for t in sorted(self.triples)], "unique": self.unique, "docs": [list(d) for d in self.docs],
                "lines": [[[] if l[1] else [ord(c) for c in l[0]], l[0] if l[1] else "", l[1], l[2], l[3]] for l in self.lines]}


def term(rng, corpus):
    k = rng.random()
    w = rng.choice([l[0] for l in corpus.lines if not l[1]]) if rng.random() < .75 else rng.choice(POOL)
    if k < .5:
        return {"k": "word", "w": w}
    if k < .8:
        n = rng.choice([4, 4, 4, 5, 6]) if rng.random() < .93 else rng.randint(1, 3)
        w = w[:n]
        if rng.random() < .08:
            w = rng.choice(["nixd", "aaaz", "zzzzzzzz", "walkz", "сло1"])
        return {"k": "prefix", "w": w}
    return {"k": "entity", "e": rng.choice(corpus.intext if rng.random() < .8 else corpus.ents + ["<zz>", "<nix>", "<y0>", "<C1>", "<0>"])}


def shown_term(t, rng):
    return t["e"] if t["k"] == "entity" else cased(rng, t["w"]) + ("*" if t["k"] == "prefix" else "")


def const(s):
    return {"v": False, "s": s}


def var(s):
    return {"v": True, "s": s}


class Query:
    def __init__(self, rng, corpus, big):
        self.rng, self.corpus = rng, corpus
        m = 2 if corpus.unique and rng.random() < .25 and not big else 1
        self.texts, self.pats, self.noteq = [], [], []
        pool = ["?a", "?b", "?c"]
        used = []
        for t in range(m):
            nv = rng.choice([0, 1, 1, 1, 2, 2, 3]) if m == 1 else rng.choice([1, 1, 2])
            if big:
                nv = min(nv, 2)
            vs = rng.sample(pool, nv)
            if t and not set(vs) & set(used):
                vs[0] = rng.choice(used)
            if t and len(set(vs) & set(used)) > 1:      # a join on two columns with text is not supported
                vs = vs[:1]
            used += [v for v in vs if v not in used]
            rest, parts = [term(rng, corpus) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))], []
            while rest:
                n = rng.randint(1, len(rest))
                part, rest = rest[:n], rest[n:]
                parts.append(("entity" if n == 1 and part[0]["k"] == "entity" and rng.random() < .8 else "word", part))
            self.texts.append({"parts": parts, "vars": vs})
        # triple patterns: each variable of a text pattern in a part of its own
        reach = {v: v for v in used}
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3]) if used else 0):
            v = rng.choice(list(reach))
            k = rng.random()
            new = "?n%d" % len(self.pats)
            if k < .4:
                self.pats.append([var(v), const(rng.choice(["<is>"])), const(rng.choice(corpus.classes))])
            elif k < .65:
                self.pats.append([var(v), const(rng.choice(["<p>", "<q>", "<is>"])), var(new)])
                reach[new] = reach[v]
            elif k < .85:
                self.pats.append([var(new), const(rng.choice(["<p>", "<q>"])), var(v)])
                reach[new] = reach[v]
            elif k < .93:
                self.pats.append([var(v), const(rng.choice(["<p>", "<q>"])), const(rng.choice(corpus.ents))])
            else:
                self.pats.append([var(v), const("ql:has-predicate"), var(new)])
        self.vars = used + sorted({x["s"] for p in self.pats for x in p if x["v"]} - set(used))
        if self.vars and rng.random() < .2:
            v = rng.choice(self.vars)
            other = rng.choice(self.vars)
            self.noteq.append({"v": v, "c": var(other) if other != v and rng.random() < .5 else const(rng.choice(corpus.ents))})
        self.k = rng.choice([0, 1, 2, 2, 3, 5, 100])    # 0: not given
        self.mode = rng.choice(["full", "full", "full", "order", "some", "distinct"]) if self.vars else rng.choice(["full", "full", "order"])
        self.cols = self.vars if self.mode in ("full", "order") else rng.sample(self.vars, rng.randint(1, len(self.vars)))

    def text(self):
        rng = self.rng
        ts = []
        for j, t in enumerate(self.texts):
            r = "?t%d" % j
            for kind, part in t["parts"]:
                if kind == "entity":
                    ts.append("%s ql:contains-entity %s" % (r, part[0]["e"]))
                else:
                    ts.append('%s ql:contains-word "%s"' % (r, " ".join(shown_term(x, rng) for x in part)))
            for v in t["vars"]:
                ts.append("%s ql:contains-entity %s" % (r, v))
        for p in self.pats:
            ts.append(" ".join(x["s"] for x in p))
        rng.shuffle(ts)
        fs = ["FILTER(%s != %s)" % (x["v"], x["c"]["s"]) for x in self.noteq]
        cols = list(self.cols)
        if self.mode in ("full", "order"):
            for j in range(len(self.texts)):
                cols += [rng.choice(["TEXT(?t%d)", "TEXT(?t%d)", "?t%d"]) % j, "SCORE(?t%d)" % j]
        return "SELECT %s%s WHERE { %s . %s }%s%s" % ("DISTINCT " if self.mode == "distinct" else "", " ".join(cols), " . ".join(ts), " ".join(fs),
                                                      " ORDER BY DESC(SCORE(?t0))" if self.mode == "order" else "",
                                                      " TEXTLIMIT %d" % self.k if self.k else "")

    def event(self):
        shown = lambda t: dict({"w": [], "e": ""}, **(dict(t, w=[ord(c) for c in t["w"]]) if "w" in t else t))
        return {"texts": [{"parts": [{"p": kind, "terms": [shown(t) for t in part]} for kind, part in x["parts"]], "vars": x["vars"]} for x in self.texts],
                "pats": self.pats, "noteq": self.noteq, "k": self.k or 1, "mode": self.mode, "vars": self.cols}

    def rows(self, rows):
        n = len(self.cols)
        score = lambda s: int(s) if s and s.isdigit() and len(s) < 10 else -1
        return [[x or "" if j < n or (j - n) % 2 == 0 else score(x) for j, x in enumerate(r)] for r in rows]


class Session(sessions.Session):
    module = "TextTrace"

    def __init__(self, key, nq):
        self.key, self.nq = key, nq

    def run(self, bindir, only=None, id0=0):
        rng = random.Random(self.key)
        size = rng.choice(["tiny", "small", "small", "small", "mid", "big"])
        corpus = Corpus(rng, size)
        text = corpus.ttl()
        later = rng.random() < .3
        qs = [Query(rng, corpus, size == "big") for _ in range(self.nq if size != "big" else self.nq // 4)]
        qs = [(q, q.text()) for q in qs]
        evs, texts = [], {}
        s = {"num-triples-per-partial-vocab": rng.choice([2, 5, 100])}
        if rng.random() < .2:
            s["prefixes-external"] = ["<e"]
        with sessions.Running(bindir, text, settings=s, words=corpus.words(), docs=corpus.docsfile(), later=later, server=("-t",)) as server:
            for j, (q, t) in enumerate(qs):
                if only is not None and j not in only:
                    continue
                r = server.ask(t)
                ok = r["status"] == "OK"
                ev = dict(q.event(), e="ask", rows=q.rows(r["rows"])) if ok else dict(q.event(), e="error")
                if r["status"] == "DOWN":
                    ev["texts"] = []
                evs.append(dict(ev, id=id0 + j))
                texts[id0 + j] = (t, r["rows"][:30] if ok else r["status"] + ": " + r["text"][:300])
        return corpus.event(), evs, texts, text + "\n--- words\n" + corpus.words() + "\n--- docs\n" + corpus.docsfile(), {"later": later, "settings": s}


def check(c):
    tasks = [Session("C08/%d/%d" % (c.seed, i), 40) for i in range(c.pick(200, 1500))]
    sessions.check(c, tasks, control=lambda e: dict(e, rows=e["rows"][1:]) if e["e"] == "ask" and e["rows"] else None)

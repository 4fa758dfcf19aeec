"""Knowledge bases and queries for the conformance checks.

A query is kept as the abstract syntax that spec/Sparql.tla evaluates (nested
dicts; terms are positive indices into the term table of the knowledge base,
variables negative numbers) and rendered to SPARQL text for the server.  This
file only generates, writes down and decodes; what an answer should be is
decided by the specification alone.
"""
import random

LANGTAG = "<QLever-internal-function/langtag>"
XSD = "http://www.w3.org/2001/XMLSchema#"
WORDCHARS = "bcghknqrsuwxyz"
KIND = {"lit": 1, "date": 2, "num": 3, "iri": 4, "langpred": 5, "bnode": 6}
LANGS = ["de", "en", "fr"]          # alphabetical; the code of a language is its position + 1
NUMTYPE = {"double": 1, "decimal": 2, "float": 2, "int": 3, "integer": 3}


class Term:
    """One RDF term: how it is written in Turtle/SPARQL and how it is ordered."""

    def __init__(self, kind, text, lang=None, value=None, typ=None, ttl=None):
        self.kind, self.text, self.lang, self.value, self.typ = kind, text, lang, value, typ
        self.ttl = ttl

    def key(self):
        return (self.kind, self.text, self.lang, self.typ)

    def written(self):
        """Turtle and SPARQL form."""
        if self.ttl is not None:
            return self.ttl
        if self.kind == "lit":
            return '"%s"%s' % (escape(self.text), self.tail())
        return self.text

    def tail(self):
        return "@" + self.lang if self.lang else "^^<%s>" % self.typ if self.typ else ""

    def shown(self):
        """As the server shows it: without escapes."""
        return '"%s"%s' % (self.text, self.tail()) if self.kind == "lit" else self.text

    def sparql(self):
        return self.written()

    def plain(self):
        """As a constant of a FILTER."""
        # a plain decimal is a float for QLever and not equal to a decimal
        return self.text if self.kind == "num" and self.typ == "int" else self.written()

    def display(self):
        """The forms in which the server shows the term."""
        if self.kind == "num":
            v = self.text
            if self.typ == "int":
                return ['"%s"^^<%sint>' % (v, XSD), '"%s"^^<%sinteger>' % (v, XSD)]
            return ['"%s"^^<%s%s>' % (v, XSD, self.typ)]
        if self.kind == "date":
            return [self.ttl, '"%sT00:00:00"^^<%sdateTime>' % (self.text, XSD)]
        return [self.shown()]

    def desc(self):
        if self.kind == "num":
            return {"k": KIND["num"], "s": [self.value, NUMTYPE[self.typ]], "l": 0, "d": [], "n": self.value}
        if self.kind == "date":
            return {"k": KIND["date"], "s": list(self.value), "l": 0, "d": [], "n": 0}
        s = self.text.strip("<>")       # IRIs are ordered by their text
        if s.startswith("QLever"):      # the case of letters comes last
            s = s.lower()
        return {"k": KIND[self.kind], "s": [ord(c) for c in s],
                "l": 1 + LANGS.index(self.lang) if self.lang else 0,
                "d": [ord(c) for c in self.shown()], "n": 0}


def escape(text):
    for a, b in (("\\", "\\\\"), ('"', '\\"'), ("\n", "\\n"), ("\r", "\\r"), ("\t", "\\t")):
        text = text.replace(a, b)
    return text


def iri(name):
    return Term("iri", "<%s>" % name)


def lit(text, lang=None):
    return Term("lit", text, lang)


def integer(v):
    return Term("num", str(v), value=v * 1000, typ="int", ttl='"%d"^^<%sint>' % (v, XSD))


def decimal(thousandths):
    sign = "-" if thousandths < 0 else ""
    a, b = divmod(abs(thousandths), 1000)
    frac = ("%03d" % b).rstrip("0") or "0"
    t = "%s%d.%s" % (sign, a, frac)
    return Term("num", t, value=thousandths, typ="decimal", ttl='"%s"^^<%sdecimal>' % (t, XSD))


def date(y, m, d):
    t = "%04d-%02d-%02d" % (y, m, d)
    return Term("date", t, value=(y, m, d), ttl='"%s"^^<%sdate>' % (t, XSD))


class KB:
    def __init__(self):
        self.terms = []
        self.index = {}
        self.byshow = {}
        self.triples = set()
        self.facts = []
        self.profile = {}

    def id(self, term):
        k = term.key()
        if k not in self.index:
            self.terms.append(term)
            self.index[k] = len(self.terms)
            for s in term.display():
                self.byshow.setdefault(s, len(self.terms))
        return self.index[k]

    def t(self, i):
        return self.terms[i - 1]

    def add(self, s, p, o):
        self.triples.add((self.id(s), self.id(p), self.id(o)))

    def finish(self):
        self.facts = sorted(self.triples)
        # the helper terms of the language filter
        self.langtag = self.id(iri(LANGTAG[1:-1]))
        self.langents = [self.id(iri("QLever-internal-function/@" + l)) for l in LANGS]
        self.langpreds = []
        preds = sorted({p for _, p, o in self.triples if self.t(o).lang})
        for p in preds:
            for i, l in enumerate(LANGS):
                x = self.id(Term("langpred", "@%s@%s" % (l, self.t(p).text)))
                self.langpreds.append([p, i + 1, x])

    def ttl(self, rng=None):
        ts = list(self.facts)
        if rng:
            rng.shuffle(ts)
        return "".join("%s %s %s .\n" % tuple(self.t(x).written() for x in t) for t in ts)

    def event(self):
        return {"e": "kb", "terms": [t.desc() for t in self.terms], "triples": [list(t) for t in self.facts],
                "langTag": self.langtag, "langEnts": self.langents, "langPreds": self.langpreds}

    def cell(self, show):
        if show is None or show == "":
            return 0
        return self.byshow.get(show, -999)


def word(rng, n=None):
    return "".join(rng.choice(WORDCHARS) for _ in range(n or rng.choice([1, 2, 2, 3])))


def gen_kb(rng, size=None, values=True, langs=True, lits=True, selfpred=True, base=""):
    kb = KB()
    ne = rng.choice([3, 4, 5, 7])
    np_ = rng.choice([1, 2, 3, 4])
    nt = size or rng.choice([6, 10, 14, 20, 28])
    ents = [iri(base + "e%d" % i) for i in range(ne)]
    preds = [iri(base + "p%d" % i) for i in range(np_)]
    texts = list({word(rng) for _ in range(5)})
    texts.sort()
    vals = []
    if lits:
        vals += [lit(w) for w in texts]
        if langs:
            vals += [lit(rng.choice(texts), rng.choice(LANGS)) for _ in range(4)]
    if values:
        vals += [integer(rng.choice([0, 1, 2, 3, 7, 10, 42, -1, -5, 100])) for _ in range(4)]
        vals += [decimal(rng.choice([1500, 250, -2500, 125, 10250, 99500])) for _ in range(2)]
        vals += [date(rng.choice([1999, 2000, 2015]), rng.randint(1, 12), rng.randint(1, 28)) for _ in range(2)]
    # some predicates relate entities, some have values, some both
    kinds = {p.text: rng.choice(["ent", "ent", "mix", "val", "num"]) for p in preds}
    nums = [v for v in vals if v.kind == "num"]
    # skew: a few subjects/objects get most of the triples
    heavy = rng.random() < 0.4
    for _ in range(nt):
        s = ents[0] if heavy and rng.random() < 0.4 else rng.choice(ents)
        p = preds[0] if heavy and rng.random() < 0.4 else rng.choice(preds)
        k = kinds[p.text]
        r = rng.random()
        if k == "num" and nums:
            o = rng.choice(nums)
        elif vals and (k == "val" or (k == "mix" and r < 0.5)):
            o = rng.choice(vals)
        else:
            o = rng.choice(ents)
            if selfpred and r > 0.95:
                o = rng.choice(preds)
        if selfpred and rng.random() < 0.03:
            s = rng.choice(preds)
        kb.add(s, p, o)
    kb.ents, kb.preds = ents, preds
    kb.finish()
    return kb


ODDTEXT = ["", " ", "a b", "A", "a", "x,y", "q;r", "it's", 'say "hi"', '"', "back\\slash", "\\", "\\n", "\\\\", "tab\there",
           "Ünïcödé", "ß", "漢字", "😀 x", "é", "o'clock", "#no comment", "@en", "x@en", "^^<t>", "a\\", "<e0>", "?x",
           "{}", "1", "-1", "2020-01-01", "%20", "a&b=c+d", "\u200b", "'", "''", "'''", "NULL", "\x7f", "a" * 200, ".", "x .", "_:b"]
ODDIRI = ["http://ex.org/a?b=c&d=e#f", "http://ex.org/ü/漢", "e,x", "e;y", "urn:x:(1)", "a'b", "http://ex.org/%20+%2B", "x" * 150,
          "http://ex.org/", "E0", "e0", "p@q", "mailto:a@b.c", "1", "?q", "a.b.", "😀"]


def odd_kb(rng):
    '''Terms with all sorts of characters (not to be compared: their order is
    that of the locale).'''
    kb = KB()
    ents = [iri(x) for x in rng.sample(ODDIRI, rng.choice([3, 5, 7]))]
    preds = [iri("p%d" % i) for i in range(2)] + [iri(rng.choice(ODDIRI))]
    vals = []
    for t in rng.sample(ODDTEXT, rng.choice([5, 9, 14])):
        vals.append(lit(t))
        if rng.random() < 0.3:
            vals.append(lit(t, rng.choice(LANGS)))
        if rng.random() < 0.2:
            vals.append(Term("lit", t, typ=rng.choice(["http://ex.org/t", XSD + "string", "t"])))
    for _ in range(rng.choice([10, 16, 24])):
        kb.add(rng.choice(ents), rng.choice(preds), rng.choice(vals) if rng.random() < 0.75 else rng.choice(ents))
    kb.ents, kb.preds, kb.odd = ents, preds, True
    kb.finish()
    return kb


# ---------------------------------------------------------------- queries

class Scope:
    """Variables in use: name them, and remember which are certainly bound."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        pool = ["x", "y", "z", "a", "b", "foo", "X1", "n_1", "w", "t", "s", "o", "p", "q1", "v2"]
        rng.shuffle(pool)
        self.names = pool

    def fresh(self):
        self.n += 1
        return -self.n

    def name(self, v):
        return "?" + self.names[-v - 1]


def connected_facts(rng, kb, k, start=None):
    """k triples that hang together by subjects/objects (a walk in the data)."""
    facts = kb.facts
    pick = [start or rng.choice(facts)]
    for _ in range(k - 1):
        nodes = {x for t in pick for x in (t[0], t[2])}
        near = [t for t in facts if t[0] in nodes or t[2] in nodes]
        pick.append(rng.choice(near or facts))
    return pick


def gen_bgp(rng, kb, sc, k, bound=None, pvar=0.15, pconst=0.25, pnoise=0.1, allvar=False):
    """k connected triple patterns sharing at least one variable with `bound'
    (a dict term -> var of the surrounding group).  Returns the patterns and
    the map of the terms they were abstracted from."""
    for attempt in range(50):
        save = sc.n
        m = dict(bound or {})
        start = None
        if bound:
            near = [t for t in kb.facts if t[0] in bound or t[2] in bound]
            if near:
                start = rng.choice(near)
        facts = connected_facts(rng, kb, k, start)
        ts = []
        new = {}
        for f in facts:
            pat = []
            for pos, x in enumerate(f):
                if pos == 1:
                    usevar = rng.random() < pvar
                elif x in m:
                    usevar = rng.random() < 0.97
                else:
                    usevar = rng.random() >= pconst
                if usevar:
                    if x not in m or (pos != 1 and rng.random() < 0.08):
                        m[x] = sc.fresh()
                        new[x] = m[x]
                    pat.append(m[x])
                elif rng.random() < pnoise:
                    y = rng.choice(kb.facts)[pos]
                    if rng.random() < 0.2:
                        y = kb.id(iri("nowhere%d" % rng.randint(0, 2)))
                    pat.append(y)
                else:
                    pat.append(x)
            ts.append(pat)
        okay = bgp_ok(ts, set((bound or {}).values()), allvar) and sc.n <= 7
        if okay:
            return ts, m
        sc.n = save
    return None


def vars_of(ts):
    return {x for t in ts for x in t if x < 0}


def connected(ts, bound=()):
    """Every pattern has a variable, and all hang together (through `bound')."""
    if any(not any(x < 0 for x in t) for t in ts):
        return False
    seen = set(bound)
    rest = [set(x for x in t if x < 0) for t in ts]
    if not seen:
        seen |= rest.pop(0)
    while rest:
        for i, r in enumerate(rest):
            if r & seen:
                seen |= r
                rest.pop(i)
                break
        else:
            return False
    return True


def bgp_ok(ts, bound, allvar):
    if len({tuple(t) for t in ts}) < len(ts):
        return False
    if not connected(ts) or (bound and not vars_of(ts) & set(bound)):
        return False
    full = [t for t in ts if all(x < 0 for x in t)]
    if full and not allvar:
        return False
    for t in full:
        if len(set(t)) < 3:
            return False
        # the parts that hang together without it: each is joined on one column
        parts = [set(bound)] if bound else []
        for u in ts:
            if u is not t:
                us = vars_of([u])
                parts = [x for x in parts if not x & us] + [us.union(*[x for x in parts if x & us])]
        if not parts or any(len(x & set(t)) != 1 for x in parts) or len(full) > 1:
            return False
    return True


def full_scans_ok(g):
    """The same for all patterns of a group."""
    ts = [t for e in g if e["t"] == "bgp" for t in e["ts"]]
    rest = [bound_vars([e]) for e in g if e["t"] not in ("bgp", "filter", "bind")]
    for t in ts:
        if all(x < 0 for x in t):
            parts = []
            for us in [vars_of([u]) for u in ts if u is not t] + [b[1] for b in rest if b]:
                parts = [x for x in parts if not x & us] + [us.union(*[x for x in parts if x & us])]
            if not parts or any(len(x & set(t)) != 1 for x in parts):
                return False
    return True


class R:
    """Rendering to SPARQL."""

    def __init__(self, kb, sc):
        self.kb, self.sc = kb, sc

    def x(self, v):
        return self.sc.name(v) if v < 0 else self.kb.t(v).sparql()

    def c(self, v):
        return self.sc.name(v) if v < 0 else self.kb.t(v).plain()

    def path(self, p):
        t = p["t"]
        if t == "pred":
            return self.kb.t(p["p"]).sparql()
        if t == "inv":
            return "^" + self.wrap(p["a"])
        if t == "alt":
            return self.wrap(p["a"]) + "|" + self.wrap(p["b"])
        if t == "seq":
            return self.wrap(p["a"]) + "/" + self.wrap(p["b"])
        return self.wrap(p["a"]) + {"plus": "+", "star": "*", "opt": "?"}[t]

    def wrap(self, p):
        return self.path(p) if p["t"] == "pred" else "(" + self.path(p) + ")"

    def elem(self, e):
        t = e["t"]
        if t == "bgp":
            return " ".join("%s %s %s ." % tuple(self.x(v) for v in tr) for tr in e["ts"])
        if t == "hp":
            return "%s ql:has-predicate %s ." % (self.x(e["s"]), self.x(e["o"]))
        if t == "path":
            return "%s %s %s ." % (self.x(e["s"]), self.path(e["p"]), self.x(e["o"]))
        if t == "opt":
            return "OPTIONAL { %s }" % self.group(e["g"])
        if t == "minus":
            return "MINUS { %s }" % self.group(e["g"])
        if t == "union":
            return "{ %s } UNION { %s }" % (self.group(e["a"]), self.group(e["b"]))
        if t == "group":
            return "{ %s }" % self.group(e["g"])
        if t == "values":
            if len(e["vs"]) == 1:
                return "VALUES %s { %s }" % (self.x(e["vs"][0]), " ".join(self.x(r[0]) for r in e["rows"]))
            return "VALUES (%s) { %s }" % (" ".join(self.x(v) for v in e["vs"]),
                                           " ".join("(" + " ".join(self.x(c) for c in r) + ")" for r in e["rows"]))
        if t == "bind":
            if e["o"] == "":
                return ". BIND(%s AS %s) ." % (self.x(e["x"]), self.x(e["v"]))
            if e["o"] == "int":
                return ". BIND(%d AS %s) ." % (e["n"] // 1000, self.x(e["v"]))
            return ". BIND(%s %s %s AS %s) ." % (self.x(e["x"]), e["o"], self.x(e["y"]), self.x(e["v"]))
        if t == "filter":
            f = self.filt(e["f"])
            return "FILTER %s" % f if f.startswith("langMatches") else "FILTER(%s)" % f
        if t == "sub":
            q = e["q"]
            outs = {a["out"]: a for a in q.get("aggs", [])}
            o = "{ SELECT %s%s WHERE { %s }" % ("DISTINCT " if q["dist"] else "",
                                                " ".join(self.agg(outs[v], self.x(v)) if v in outs else self.x(v)
                                                         for v in q["vs"]), self.group(q["g"]))
            if q.get("grp"):
                o += " GROUP BY " + " ".join(self.x(v) for v in q["grp"])
            if q.get("ord"):
                o += " ORDER BY " + " ".join(("DESC(%s)" if k["desc"] else "%s") % self.x(k["v"]) for k in q["ord"])
            return o + " }"
        raise ValueError(t)

    def filt(self, f):
        op = f["op"]
        if op in OPS:
            r = self.kb.t(f["r"]).text if f.get("num") and f["r"] > 0 else self.c(f["r"])
            return "%s %s %s" % (self.x(f["l"]), OPS[op], r)
        if op == "lang":
            return 'langMatches(lang(%s), "%s")' % (self.x(f["l"]), LANGS[f["lang"] - 1])
        if op == "regex":
            return 'regex(%s, "%s"%s)' % (self.x(f["l"]), "".join(map(chr, f["c"])), ', "i"' if f["i"] else "")
        if op == "prefix" and f.get("fn") and len(f["alts"]) == 1:
            a = f["alts"][0]
            return 'prefix(%s, "%s")' % (self.x(a["l"]), "".join(map(chr, a["c"][1:])))
        if op == "prefix":
            return " || ".join('regex(%s, "^%s")' % (self.x(a["l"]), "".join(map(chr, a["c"])).replace('"', '\\"'))
                               for a in f["alts"])
        raise ValueError(op)

    def group(self, g):
        t = " ".join(self.elem(e) for e in g)
        return t.replace(". . BIND", ". BIND").replace("} . BIND", "} BIND")

    def sel(self, s, i):
        return self.x(s["v"]) if s["f"] == "var" else self.agg(s, "?agg%d" % i)

    def agg(self, s, name):
        d = "DISTINCT " if s["d"] and not s.get("plain") else ""
        f = {"count": "COUNT", "sum": "SUM", "avg": "AVG", "min": "MIN", "max": "MAX", "sample": "SAMPLE",
             "concat": "GROUP_CONCAT"}[s["f"]]
        sep = '; separator="%s"' % s.get("sep", SEP) if s["f"] == "concat" else ""
        return "(%s(%s%s%s) as %s)" % (f, d, self.x(s["v"]), sep, name)

    def col(self, q, i):
        s = q["sel"][i - 1]
        return self.x(s["v"]) if s["f"] == "var" else "?agg%d" % i

    def query(self, q):
        o = "PREFIX ql: <QLever-internal-function/> " if "has-predicate" in repr(q) or '"hp"' in repr(q) or "'hp'" in repr(q) else ""
        o += "SELECT %s%s WHERE { %s }" % ("DISTINCT " if q["dist"] else "",
                                           " ".join(self.sel(s, i + 1) for i, s in enumerate(q["sel"])),
                                           self.group(q["g"]))
        if q["grp"]:
            o += " GROUP BY " + " ".join(self.x(v) for v in q["grp"])
        if q["having"]:
            o += " HAVING"
        for h in q["having"]:
            c = self.c(h["r"]) if h["r"] else "%g" % (h["n"] / 1000.0)
            o += " (%s %s %s)" % (self.col(q, h["col"]), OPS[h["op"]], c)
        if q["ord"]:
            o += " ORDER BY"
            for k in q["ord"]:
                v = self.col(q, k["col"]) if k.get("col") else self.x(k["v"])
                o += (" DESC(%s)" if k["desc"] else " ASC(%s)" if k.get("asc") else " %s") % v
        if q["lim"] >= 0:
            o += " LIMIT %d" % q["lim"]
        if q["off"] > 0:
            o += " OFFSET %d" % q["off"]
        return o


OPS = {"eq": "=", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
SEP = "#~#"


def base_query(g, sel):
    return {"g": g, "sel": [{"f": "var", "v": v, "d": 0} for v in sel], "dist": 0, "grp": [], "having": [],
            "ord": [], "lim": -1, "off": 0}


def decode_cell(kb, s, show):
    """A shown cell of column s as the specification's value."""
    f = s["f"]
    if f in ("var", "min", "max", "sample") and s.get("num"):
        return number_code(show)
    if f in ("var", "min", "max", "sample"):
        return kb.cell(show)
    if show is None:
        return -999
    if f == "count":
        try:
            return int(show)
        except ValueError:
            return -999
    if f in ("sum", "avg"):
        if show.lower() in ("nan", "-nan"):
            return -2147483647
        try:
            v = float(show)
        except ValueError:
            return -999999
        if abs(v) > 2000000:
            return -999999
        return int(round(v * 1000))
    if f == "concat":
        one = number_code if s.get("num") else kb.cell
        return [one(x) for x in show.split(s.get("sep", SEP))] if show else []
    raise ValueError(f)


NUMBERS = -1000000000


def number_code(show):
    """A computed number: its value in 64ths, moved away from the terms."""
    if show is None or show == "":
        return 0
    try:
        v = float(show)
    except (ValueError, TypeError):
        return -999
    if v != v:
        return NUMBERS - 500000000
    return NUMBERS + int(round(v * 64)) if abs(v) < 4000000 else -999


def query_event(kb, sc, q, rows, id):
    """The trace event of a query and the rows (lists of strings) it got."""
    ev = {k: v for k, v in q.items() if not k.startswith("_")}
    ev["e"], ev["id"], ev["nv"] = "query", id, max(sc.n, 1)
    out = []
    for r in rows:
        if len(r) != len(q["sel"]):
            out.append([-999] * len(q["sel"]))
        else:
            out.append([decode_cell(kb, s, c) for s, c in zip(q["sel"], r)])
    ev["rows"] = out
    return ev


# --------------------------------------------------- query families

def select_some(rng, vs, full=0.5):
    vs = sorted(vs, reverse=True)
    if rng.random() < full or len(vs) == 1:
        out = list(vs)
    else:
        out = rng.sample(vs, rng.randint(1, len(vs)))
    rng.shuffle(out)
    return out


def q_bgp(rng, kb, sc):
    k = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5])
    r = gen_bgp(rng, kb, sc, k, pvar=rng.choice([0, 0.1, 0.3]), pconst=rng.choice([0.05, 0.25, 0.45]),
                allvar=rng.random() < 0.3)
    if not r:
        return None
    ts, m = r
    return base_query([{"t": "bgp", "ts": ts}], select_some(rng, vars_of(ts), 0.8))


def nest(rng, kb, sc, bound, depth, k=None):
    """A group whose certainly bound variables are returned (term -> var)."""
    r = gen_bgp(rng, kb, sc, k or rng.choice([1, 1, 2]), bound=bound, pvar=0.08)
    if not r:
        return None
    ts, m = r
    return [{"t": "bgp", "ts": ts}], {t: v for t, v in m.items() if v in vars_of(ts)}


def bound_vars(g, certain=(), possible=()):
    """(certain, possible) variables of a group, or None if something is joined
    on a variable that is not certainly bound on both sides."""
    c, p = set(certain), set(possible)
    for e in g:
        t = e["t"]
        if t in ("filter",):
            continue
        if t == "bgp":
            ec = ep = vars_of(e["ts"])
        elif t in ("path", "hp"):
            ec = ep = {x for x in (e["s"], e["o"]) if x < 0}
        elif t == "values":
            ec = ep = set(e["vs"])
        elif t == "bind":
            used = {e[k] for k in ("x", "y") if e.get(k, 0) < 0}
            if not used <= c or e["v"] in p:
                return None
            c.add(e["v"])
            p.add(e["v"])
            continue
        elif t == "union":
            a, b = bound_vars(e["a"]), bound_vars(e["b"])
            if not a or not b:
                return None
            ec, ep = a[0] & b[0], a[1] | b[1]
        elif t == "sub":
            a = bound_vars(e["q"]["g"])
            if not a:
                return None
            outs = {x["out"] for x in e["q"].get("aggs", [])}
            ec, ep = (a[0] | outs) & set(e["q"]["vs"]), (a[1] | outs) & set(e["q"]["vs"])
        else:
            a = bound_vars(e["g"])
            if not a:
                return None
            ec, ep = a
        if p and not (p & ep <= c & ec and p & ep):
            return None
        if t == "minus":
            continue
        p |= ep
        if t != "opt":
            c |= ec
    return c, p


def q_group(rng, kb, sc, depth=2, want=None):
    """Groups with OPTIONAL, UNION, MINUS, subqueries."""
    r = nest(rng, kb, sc, None, depth, rng.choice([1, 1, 2, 3]))
    if not r:
        return None
    g, m = r
    visible = set(m.values())
    r = extend(rng, kb, sc, g, m, visible, depth, rng.choice([1, 1, 2, 3]), want)
    if not r:
        return None
    g, m, visible = r
    if sc.n > 8 or not bound_vars(g):
        return None
    return base_query(g, select_some(rng, visible, 0.85))


def extend(rng, kb, sc, g, m, visible, depth, n, want=None):
    """Add n elements that join with the group on certainly bound variables."""
    g, m, visible = list(g), dict(m), set(visible)
    for _ in range(n):
        kind = rng.choice(want or ["opt", "opt", "union", "minus", "sub", "bgp"])
        if kind == "bgp":
            r = nest(rng, kb, sc, m, 0)
            if not r:
                continue
            g += r[0]
            m.update(r[1])
            visible |= set(r[1].values())
            continue
        inner = alike(rng, kb, g, m) if rng.random() < 0.2 else None
        inner = inner or nest(rng, kb, sc, m, depth - 1)
        if not inner:
            return None
        ig, im = inner
        shared = {v for v in im.values() if v in m.values()}
        if not shared:
            return None
        iv = set(im.values())
        if depth > 1 and rng.random() < 0.35:
            r = extend(rng, kb, sc, ig, im, iv, depth - 1, 1, want)
            if r:
                ig, im, iv = r
        if kind == "opt":
            g.append({"t": "opt", "g": ig})
            visible |= iv
        elif kind == "minus":
            g.append({"t": "minus", "g": ig})
        elif kind == "group":
            g.append({"t": "group", "g": ig})
            m.update(im)
            visible |= iv
        elif kind == "sub":
            sel = sorted(shared) + [v for v in sorted(iv - shared) if rng.random() < 0.6]
            rng.shuffle(sel)
            g.append({"t": "sub", "q": {"vs": sel, "g": ig, "dist": rng.choice([0, 0, 1]), "ord": sub_order(rng, sel)}})
            m.update({t: v for t, v in im.items() if v in sel})
            visible |= set(sel)
        elif kind == "union":
            # the second branch shares the same variables with the outside
            other = None
            for _ in range(20):
                save = sc.n
                o = nest(rng, kb, sc, {t: v for t, v in im.items() if v in shared}, depth - 1)
                if o and shared <= set(o[1].values()) and not (set(o[1].values()) & set(m.values())) - shared:
                    other = o
                    break
                sc.n = save
            if not other:
                return None
            og, om = other
            ov = set(om.values())
            if rng.random() < 0.5:
                # bind the other new variables of the first branch here, too
                new1, new2 = sorted(iv - shared), sorted(ov - shared)
                ren = dict(zip(new2, new1))
                og = rename(og, ren)
                ov = {ren.get(v, v) for v in ov}
            if rng.random() < 0.5:
                ig, og = og, ig
            g.append({"t": "union", "a": ig, "b": og})
            visible |= iv | ov
    return g, m, visible


def sub_order(rng, vs):
    """ORDER BY in a subquery: without a meaning, but to be accepted."""
    if rng.random() < 0.75:
        return []
    return [{"v": v, "desc": rng.choice([0, 1])} for v in rng.sample(vs, rng.randint(1, min(3, len(vs))))]


def alike(rng, kb, g, m):
    """A group with many of the variables of g: some of its patterns, changed."""
    ts = [t for e in g if e["t"] == "bgp" for t in e["ts"]]
    if not ts:
        return None
    ts = [list(t) for t in rng.sample(ts, rng.randint(1, len(ts)))]
    for t in ts:
        r = rng.random()
        if t[1] > 0 and r < 0.4:
            t[1] = rng.choice(kb.facts)[1]
        elif r < 0.5:
            t[0], t[2] = t[2], t[0]
        elif t[1] > 0 and r < 0.6:
            t[1] = rng.choice(kb.facts)[1]
            t[0], t[2] = t[2], t[0]
    if not bgp_ok(ts, set(), False) or any(t[0] > 0 and kb.t(t[0]).kind != "iri" for t in ts):
        return None
    vs = vars_of(ts)
    return [{"t": "bgp", "ts": ts}], {t: v for t, v in m.items() if v in vs}


def rename(x, ren):
    """Rename variables in a group."""
    if isinstance(x, list):
        return [rename(y, ren) for y in x]
    if isinstance(x, dict):
        return {k: (v if k in ("c", "n", "lang", "i", "d", "dist", "plain") else rename(v, ren)) for k, v in x.items()}
    if isinstance(x, int):
        return ren.get(x, x)
    return x


def q_opt(rng, kb, sc):
    return q_group(rng, kb, sc, 2, ["opt"])


def q_union(rng, kb, sc):
    return q_group(rng, kb, sc, 2, ["union"])


def q_minus(rng, kb, sc):
    return q_group(rng, kb, sc, 2, ["minus"])


def q_sub(rng, kb, sc):
    return q_group(rng, kb, sc, 2, ["sub"])


# ---- FILTER, BIND, VALUES

def terms_of(kb, kinds):
    return sorted({x for t in kb.facts for x in t if kb.t(x).kind in kinds})


VALUE_WORD_CHARS = ":vfloatdeimpntd0123456789+-"


def plain_text(kb):
    """Has the data no numbers and dates?"""
    return not terms_of(kb, ["num", "date"])


def gen_filter(rng, kb, sc, m):
    """A condition on variables of m (term -> variable)."""
    items = sorted(m.items())
    t, v = rng.choice(items)
    term = kb.t(t)
    r = rng.random()
    lits = [(t, v) for t, v in items if kb.t(t).kind == "lit"]
    if lits and r < 0.15:
        t, v = rng.choice(lits)
        return {"op": "lang", "l": v, "lang": rng.randint(1, 3)}
    if lits and r < 0.3:
        t, v = rng.choice(lits)
        w = kb.t(t).text
        alts = [{"l": v, "c": [ord(c) for c in '"' + w[:rng.randint(1, len(w))]]}]
        if rng.random() < 0.3:
            t2, v2 = rng.choice(lits)
            w2 = rng.choice([kb.t(t2).text, word(rng)])
            alts.append({"l": v2, "c": [ord(c) for c in '"' + w2[:rng.randint(1, len(w2))]]})
        return {"op": "prefix", "alts": alts, "fn": int(rng.random() < 0.3)}
    if r < 0.4 and term.kind in ("lit", "iri"):
        w = term.text.strip("<>")
        if w.isalnum():
            i = rng.randrange(len(w))
            c = w[i:i + rng.randint(1, 2)]
            ic = rng.choice([0, 1])
            if ic and rng.random() < 0.5:
                c = c.upper()
            if not plain_text(kb) and set(c.lower()) & set(VALUE_WORD_CHARS):
                # numbers and dates are matched in their internal form
                return {"op": "eq", "l": v, "r": t}
            return {"op": "regex", "l": v, "c": [ord(x) for x in c], "i": ic}
    if r < 0.5 and len(items) > 1:
        other = [w for u, w in items if w != v and (kb.t(u).kind == term.kind)]
        if other:
            return {"op": rng.choice(list(OPS)), "l": v, "r": rng.choice(other)}
    return {"op": rng.choice(list(OPS)), "l": v, "r": constant_like(rng, kb, t)}


def constant_like(rng, kb, t):
    """A constant of the same kind as t, in the data or not."""
    term = kb.t(t)
    if rng.random() < 0.55:
        return rng.choice([t] + terms_of(kb, [term.kind]))
    if term.kind == "num":
        taken = {kb.t(x).value for x in terms_of(kb, ["num"])}
        for _ in range(10):
            k = rng.random() < 0.6
            n = integer(rng.randint(-6, 110)) if k else decimal(rng.choice([1750, -2250, 10500, 99750, 625, 3125]))
            if n.value not in taken:
                return kb.id(n)
        return t
    if term.kind == "date":
        return kb.id(date(rng.choice([1998, 1999, 2000, 2007, 2016]), rng.randint(1, 12), rng.randint(1, 28)))
    if term.kind == "lit":
        return kb.id(lit(word(rng)))
    return kb.id(iri(rng.choice(["e", "e0x", "e00", "zzz", "a", "p", "e%d" % rng.randint(3, 9)])))


def fbv_group(rng, kb, sc, bound=None, depth=1):
    """A group with FILTER, BIND, VALUES."""
    r = gen_bgp(rng, kb, sc, rng.choice([1, 1, 2, 2, 3]), bound=bound, pvar=0.05, pconst=0.15)
    if not r:
        return None
    ts, m = r
    vs = vars_of(ts)
    m = {t: v for t, v in m.items() if v in vs}
    g = [{"t": "bgp", "ts": ts}]
    if rng.random() < 0.25:
        v = gen_values(rng, kb, sc, m)
        if v:
            g.insert(rng.choice([0, len(g)]), v)
    if rng.random() < 0.3:
        b = gen_bind(rng, kb, sc, m)
        if b:
            g.append(b)
            if b["o"] == "" and b["x"] < 0 and rng.random() < 0.5:
                t = [t for t, v in m.items() if v == b["x"]][0]
                g.append({"t": "filter", "f": {"op": rng.choice(list(OPS)), "l": b["v"],
                                               "r": constant_like(rng, kb, t)}})
            elif b["o"] != "" and rng.random() < 0.6:
                g += computed(rng, kb, sc, b, numeric_vars(kb, ts))
    for _ in range(rng.choice([0, 1, 1, 2, 3] if len(g) > 1 else [1, 1, 2, 3])):
        f = {"t": "filter", "f": gen_filter(rng, kb, sc, m)}
        g.insert(rng.choice([len(g), len(g), rng.randint(0, len(g))]), f)
    return g, m


def computed(rng, kb, sc, b, nums):
    """Conditions on the number that b computes, and further numbers computed of it."""
    if b["o"] == "int":
        return [{"t": "filter", "f": {"op": rng.choice(list(OPS)), "l": b["v"], "num": 1,
                                      "r": kb.id(integer(rng.choice([0, 1, 6, 7, 8, b["n"] // 1000])))}}]
    if not {b["x"], b["y"]} <= nums:
        return []
    out, others = [], []
    if rng.random() < 0.4:
        v = sc.fresh()
        o = rng.choice("+-")
        out.append({"t": "bind", "v": v, "x": b["v"], "y": rng.choice(sorted(nums) + [b["v"]]), "o": o, "n": 0})
        others = [v]
    if others and rng.random() < 0.4:
        rhs = others[0]
    else:
        rhs = kb.id(rng.choice([integer(rng.choice([-5, 0, 1, 3, 10, 20, 50, 100])), decimal(rng.choice([1500, -2500, 250]))]))
    out.append({"t": "filter", "f": {"op": rng.choice(list(OPS)), "l": b["v"], "r": rhs, "num": 1}})
    return out


def gen_values(rng, kb, sc, m):
    items = sorted(m.items())
    rng.shuffle(items)
    items = items[:rng.choice([1, 1, 2])]
    rows = []
    for _ in range(rng.choice([1, 2, 3])):
        row = []
        for t, v in items:
            x = rng.choice([t] + terms_of(kb, ["iri", "lit", "num"]))
            row.append(x)
        if row not in rows:
            rows.append(row)
    return {"t": "values", "vs": [v for _, v in items], "rows": rows}


def gen_bind(rng, kb, sc, m):
    items = sorted(m.items())
    nums = [v for t, v in items if kb.t(t).kind == "num"]
    r = rng.random()
    v = sc.fresh()
    if r < 0.35:
        return {"t": "bind", "v": v, "x": rng.choice(items)[1], "y": 0, "o": "", "n": 0}
    if r < 0.55:
        return {"t": "bind", "v": v, "x": rng.choice(terms_of(kb, ["iri", "lit"])), "y": 0, "o": "", "n": 0}
    if r < 0.65:
        return {"t": "bind", "v": v, "x": 0, "y": 0, "o": "int", "n": 1000 * rng.choice([0, 1, 7, 42, 100000])}
    if not nums:
        sc.n -= 1
        return None
    # the first operand is a number; the other one may be anything
    return {"t": "bind", "v": v, "x": rng.choice(nums), "y": rng.choice(nums + [items[0][1]]),
            "o": rng.choice("+-*"), "n": 0}


def number_vars(g):
    """The variables that stand for computed numbers."""
    out = set()
    for e in g:
        if e["t"] == "bind" and (e["o"] != "" or e["x"] in out):
            out.add(e["v"])
        if e["t"] == "sub":
            q = e["q"]
            inner = number_vars(q["g"])
            out |= inner & set(q["vs"])
            out |= {a["out"] for a in q.get("aggs", []) if a["f"] in ("count", "sum") or a["v"] in inner}
        for k in ("g", "a", "b"):
            if isinstance(e.get(k), list):
                out |= number_vars(e[k])
    return out


def mark_numbers(q):
    nv = number_vars(q["g"])
    text = repr(q["g"])
    for s in q["sel"]:
        if s["v"] in nv and s["f"] in ("var", "min", "max", "sample", "concat"):
            s["num"] = 2 if "'sum'" in text or "'o': '+'" in text or "'o': '-'" in text or "'o': '*'" in text else 1
    return q


def rounded(q, rows):
    """Are there numbers that are not shown exactly?"""
    for i, s in enumerate(q["sel"]):
        if s.get("num") == 2:
            for r in rows:
                try:
                    if len(r) == len(q["sel"]) and 10000 <= abs(float(r[i])) < 1e9:
                        return True
                except (ValueError, TypeError):
                    pass
    return False


def weight(g):
    """Filters and triple patterns of a group and the groups in it."""
    n = 0
    for e in g:
        n += 1 if e["t"] in ("filter", "path", "hp", "values") else len(e["ts"]) if e["t"] == "bgp" else 0
        for k in ("g", "a", "b"):
            if k in e:
                n += weight(e[k])
        if e["t"] == "sub":
            n += weight(e["q"]["g"])
    return n


def q_fbv(rng, kb, sc):
    r = fbv_group(rng, kb, sc)
    if not r:
        return None
    g, m = r
    if rng.random() < 0.4:
        inner = fbv_group(rng, kb, sc, m)
        if inner and set(inner[1].values()) & set(m.values()):
            kind = rng.choice(["opt", "minus", "union", "sub"])
            if kind == "union":
                e = {"t": "union", "a": inner[0], "b": [{"t": "bgp", "ts": inner_bgp(inner[0])}]}
                e["b"].append({"t": "filter", "f": gen_filter(rng, kb, sc, inner[1])})
            elif kind == "sub":
                e = {"t": "sub", "q": {"vs": sorted(set(inner[1].values())), "g": inner[0], "dist": rng.choice([0, 1])}}
            else:
                e = {"t": kind, "g": inner[0]}
            g.append(e)
            both = bound_vars(g)
            # conditions on values that may be missing
            loose = {t: v for t, v in inner[1].items() if both and v in both[1] - both[0]}
            if loose and kind in ("opt", "union") and rng.random() < 0.6:
                x = dict(loose)
                if rng.random() < 0.4:
                    x.update(m)
                g.append({"t": "filter", "f": gen_filter(rng, kb, sc, x)})
    b = bound_vars(g)
    # planning takes a time exponential in the number of filters and patterns
    if sc.n > 8 or not b or sum(1 for e in g if e["t"] == "filter") > 2 or weight(g) > 8:
        return None
    q = base_query(g, select_some(rng, b[1], 0.85))
    if rng.random() < 0.03:
        # a variable that the group does not have: no solution satisfies the condition
        v = sc.fresh()
        t, w = rng.choice(sorted(m.items()))
        f = rng.choice([{"op": rng.choice(list(OPS)), "l": v, "r": t}, {"op": rng.choice(list(OPS)), "l": v, "r": w},
                        {"op": rng.choice(list(OPS)), "l": w, "r": v}])
        g.insert(rng.randint(0, len(g)), {"t": "filter", "f": f})
        q["_mayfail"] = True
    return mark_numbers(q)


def inner_bgp(g):
    return [e for e in g if e["t"] == "bgp"][0]["ts"]


# ---- GROUP BY, aggregates, HAVING, DISTINCT

def q_agg(rng, kb, sc):
    r = gen_bgp(rng, kb, sc, rng.choice([1, 1, 2, 2, 3]), pvar=0.12, pconst=rng.choice([0.05, 0.25]))
    if not r:
        return None
    ts, m = r
    vs = sorted(vars_of(ts))
    m = {t: v for t, v in m.items() if v in vs}
    g = [{"t": "bgp", "ts": ts}]
    if rng.random() < 0.2:
        e = extend(rng, kb, sc, g, m, set(vs), 1, 1, ["opt", "union", "minus"])
        if e:
            g = e[0]
    if rng.random() < 0.2:
        g.append({"t": "filter", "f": gen_filter(rng, kb, sc, m)})
    b = bound_vars(g)
    if sc.n > 8 or not b:
        return None
    certain = sorted(b[0])
    q = base_query(g, [])
    if rng.random() < 0.25:
        q["sel"] = [{"f": "var", "v": v, "d": 0} for v in rng.sample(sorted(b[1]), rng.randint(1, len(b[1])))]
        q["dist"] = 1
        return q
    ng = rng.choice([0, 1, 1, 1, 2, 2, 3])
    maybe = sorted(b[1] - b[0])
    grp = rng.sample(certain, min(ng, len(certain)))
    if maybe and rng.random() < 0.3:
        grp = (grp + [rng.choice(maybe)])[-max(ng, 1):]
        rng.shuffle(grp)
    q["grp"] = grp
    # which variables have numbers only?
    numvar = {}
    for v in certain:
        objs = [p for p in ts if p[2] == v and p[1] > 0 and p[0] != v]
        numvar[v] = any(all(kb.t(f[2]).kind == "num" for f in kb.facts if f[1] == p[1]) for p in objs)
    sel = [{"f": "var", "v": v, "d": 0} for v in grp]
    rest = [v for v in certain if v not in grp] or certain
    for _ in range(rng.choice([0, 1, 1, 2, 3] if grp else [1, 1, 2])):
        v = rng.choice(rest if rng.random() < 0.8 else certain)
        fs = ["count", "count", "min", "max", "sample", "concat"]
        if numvar.get(v):
            fs += ["sum", "sum", "avg", "avg"]
        sel.append({"f": rng.choice(fs), "v": v, "d": rng.choice([0, 0, 1])})
    if maybe and rng.random() < 0.5:
        sel.append({"f": "count", "v": rng.choice(maybe), "d": rng.choice([0, 0, 1])})
    if not sel:
        return None
    for s in sel:
        if s["f"] in ("min", "max", "sample"):
            s["d"] = 0 if rng.random() < 0.7 else s["d"]
    rng.shuffle(sel)
    q["sel"] = sel
    aggs = [i for i, s in enumerate(sel) if s["f"] in ("count",)]
    for i in aggs:
        if rng.random() < 0.35:
            q["having"].append({"col": i + 1, "op": rng.choice(list(OPS)), "r": 0, "n": 1000 * rng.choice([1, 1, 2, 3])})
    if aggs and q["having"] and rng.random() < 0.3:
        q["having"].append({"col": aggs[0] + 1, "op": rng.choice(["gt", "ge", "lt", "ne"]), "r": 0,
                            "n": 1000 * rng.choice([0, 1, 2, 4])})
    if all(s["f"] in ("var", "count") for s in sel) and rng.random() < 0.3:
        for i in rng.sample(range(len(sel)), rng.randint(1, len(sel))):
            q["ord"].append({"col": i + 1, "desc": rng.choice([0, 1])})
    return q


# ---- subqueries with aggregates

def numeric_vars(kb, ts):
    """Variables that can only stand for numbers."""
    return {v for v in vars_of(ts)
            if any(p[2] == v and p[1] > 0 and p[0] != v and
                   all(kb.t(f[2]).kind == "num" for f in kb.facts if f[1] == p[1]) for p in ts)}


def gen_aggsub(rng, kb, sc, bound=None):
    """A subquery with aggregates.  -> element, {term: variable}, {out: f}"""
    r = gen_bgp(rng, kb, sc, rng.choice([1, 1, 2, 2, 3]), bound=bound, pvar=0.08, pconst=rng.choice([0.05, 0.2]))
    if not r:
        return None
    ts, m = r
    vs = vars_of(ts)
    m = {t: v for t, v in m.items() if v in vs}
    shared = vs & set((bound or {}).values())
    nums = numeric_vars(kb, ts)
    g = [{"t": "bgp", "ts": ts}]
    if rng.random() < 0.2:
        x = extend(rng, kb, sc, g, m, set(vs), 1, 1, ["opt", "union", "minus", "sub"])
        if x and bound_vars(x[0]) and not (x[2] - vs) & set((bound or {}).values()):
            g = x[0]
    if rng.random() < 0.2:
        g.append({"t": "filter", "f": gen_filter(rng, kb, sc, m)})
    grp = sorted(shared) + [v for v in sorted(vs - shared) if rng.random() < 0.25]
    if not grp:
        grp = rng.sample(sorted(vs), 1)
    rng.shuffle(grp)
    rest = sorted(vs - set(grp)) or sorted(vs)
    aggs, fs = [], {}
    for _ in range(rng.choice([1, 1, 2])):
        v = rng.choice(rest if rng.random() < 0.85 else sorted(vs))
        f = rng.choice(["count", "count", "count", "min", "max"] + (["sum", "sum", "sum"] if v in nums else []))
        out = sc.fresh()
        aggs.append({"f": f, "v": v, "d": rng.choice([0, 0, 1]) if f in ("count", "sum") else 0, "out": out})
        fs[out] = f
    sel = sorted(shared) + [v for v in grp if v not in shared and (rng.random() < 0.7 or not shared)] + sorted(fs)
    rng.shuffle(sel)
    e = {"t": "sub", "q": {"vs": sel, "g": g, "dist": rng.choice([0, 0, 0, 1]), "grp": grp, "aggs": aggs,
                           "ord": sub_order(rng, sorted(grp))}}
    return e, {t: v for t, v in m.items() if v in sel}, fs


def mixed_branches(g):
    """Is a variable a computed number in one branch of a UNION and not in the other?"""
    for e in g:
        if e["t"] == "union":
            a, b = bound_vars(e["a"]), bound_vars(e["b"])
            if not a or not b or number_vars(e["a"]) & a[1] & b[1] != number_vars(e["b"]) & a[1] & b[1]:
                return True
        if any(mixed_branches(e[k]) for k in ("g", "a", "b") if isinstance(e.get(k), list)):
            return True
        if e["t"] == "sub" and mixed_branches(e["q"]["g"]):
            return True
    return False


def q_aggsub(rng, kb, sc):
    fs = {}
    if rng.random() < 0.5:
        r = nest(rng, kb, sc, None, 1, rng.choice([1, 1, 2]))
        if not r:
            return None
        g, m = r
        n = 1
    else:
        r = gen_aggsub(rng, kb, sc)
        if not r:
            return None
        g, m = [r[0]], dict(r[1])
        fs.update(r[2])
        n = rng.choice([0, 1, 1, 2])
    outer = dict(fs)
    for _ in range(n):
        r = rng.random()
        x = gen_aggsub(rng, kb, sc, m) if r < 0.65 or not fs else None
        if x:
            e, im, ifs = x
            if not set(im.values()) & set(m.values()):
                return None
            fs.update(ifs)
            y = rng.random()
            if y < 0.6:
                g.append(e)
                m.update(im)
                outer.update(ifs)
            elif y < 0.8:
                g.append({"t": "opt", "g": [e]})
            elif y < 0.9:
                g.append({"t": "minus", "g": [e]})
            else:
                o = nest(rng, kb, sc, {t: v for t, v in im.items() if v in m.values()}, 0)
                if not o:
                    return None
                a, b = [e], o[0]
                if rng.random() < 0.4:
                    # the same numbers in both branches, with other conditions
                    b = [e]
                    x = alike(rng, kb, o[0] if rng.random() < 0.5 else g, m)
                    a = [e] + (x[0] if x and set(x[1].values()) & set(im.values()) else o[0])
                if rng.random() < 0.5:
                    a, b = b, a
                g.append({"t": "union", "a": a, "b": b})
        else:
            o = gen_bgp(rng, kb, sc, rng.choice([1, 1, 2]), bound=m, pvar=0.2, allvar=rng.random() < 0.4)
            if not o:
                return None
            g.append({"t": "bgp", "ts": o[0]})
            m.update({t: v for t, v in o[1].items() if v in vars_of(o[0])})
    counts = sorted(v for v in outer if outer[v] == "count")
    sums = sorted(v for v in outer if outer[v] == "sum")
    b = bound_vars(g)
    if not fs or not b:
        return None
    if (counts or sums) and rng.random() < 0.4:
        v = rng.choice(counts + sums)
        same = [w for w in (counts if v in counts else sums) if w != v]
        if same and rng.random() < 0.6:
            rhs = rng.choice(same)
        elif v in counts:
            rhs = kb.id(integer(rng.choice([1, 1, 2, 2, 3, 5])))
        else:
            rhs = kb.id(rng.choice([integer(rng.choice([-5, 0, 1, 3, 10])), decimal(rng.choice([1500, -2500, 250]))]))
        g.append({"t": "filter", "f": {"op": rng.choice(list(OPS)), "l": v, "r": rhs, "num": 1}})
    if (counts or sums) and rng.random() < 0.25:
        nums = counts + sums + [v for t, v in sorted(m.items()) if kb.t(t).kind == "num" and v in b[0]]
        v = sc.fresh()
        g.append({"t": "bind", "v": v, "x": rng.choice(counts + sums), "y": rng.choice(nums), "o": "+-*"[rng.randrange(3 if not sums else 2)], "n": 0})
    if m and rng.random() < 0.15:
        g.append({"t": "filter", "f": gen_filter(rng, kb, sc, m)})
    b = bound_vars(g)
    if sc.n > 10 or not b or weight(g) > 7 or mixed_branches(g) or not full_scans_ok(g):
        return None
    q = base_query(g, select_some(rng, b[1], 0.85))
    certain = sorted(b[0])
    r = rng.random()
    if r < 0.25:
        # aggregates of aggregates
        q["grp"] = rng.sample(certain, rng.choice([0, 1, 1]))
        pool = counts + sums or certain
        q["sel"] = [{"f": "var", "v": v, "d": 0} for v in q["grp"]]
        for _ in range(rng.choice([1, 1, 2])):
            v = rng.choice(pool)
            f = rng.choice(["count", "min", "max", "sum", "avg", "concat"] if v in counts else
                           ["count", "min", "max", "sum", "avg"] if v in sums else ["count", "min", "max"])
            q["sel"].append({"f": f, "v": v, "d": rng.choice([0, 0, 1]) if f in ("count", "sum", "avg", "concat") else 0})
    elif r < 0.4:
        q["dist"] = 1
    elif r < 0.6:
        nv = number_vars(g)
        pool = sorted((set(certain) - nv) | set(counts))
        for v in rng.sample(pool, min(len(pool), rng.choice([1, 1, 2]))):
            q["ord"].append({"v": v, "desc": rng.choice([0, 1]), "asc": rng.choice([0, 1])})
        if rng.random() < 0.5:
            q["lim"], q["off"] = rng.choice([1, 2, 5, 10]), rng.choice([0, 0, 1, 2])
    return mark_numbers(q)


# ---- ORDER BY, LIMIT, OFFSET

def q_order(rng, kb, sc):
    r = rng.random()
    if r < 0.6:
        b = gen_bgp(rng, kb, sc, rng.choice([1, 1, 2, 2, 3]), pvar=0.15, pconst=0.05)
        if not b:
            return None
        vs = sorted(vars_of(b[0]))
        q = base_query([{"t": "bgp", "ts": b[0]}], vs)
    else:
        q = q_group(rng, kb, sc, 1, rng.choice([["opt"], ["union"], ["opt", "sub"]]))
        if not q:
            return None
        vs = sorted(bound_vars(q["g"])[1])
    sel = select_some(rng, vs, 0.7)
    q["sel"] = [{"f": "var", "v": v, "d": 0} for v in sel]
    if rng.random() < 0.25:
        q["dist"] = 1
    if rng.random() < 0.85:
        pool = sel if q["dist"] else vs
        for v in rng.sample(pool, rng.randint(1, min(3, len(pool)))):
            q["ord"].append({"v": v, "desc": rng.choice([0, 0, 1]), "asc": rng.choice([0, 1])})
    if rng.random() < 0.6:
        q["lim"] = rng.choice([0, 1, 2, 3, 5, 10, 1000])
    if rng.random() < 0.4:
        q["off"] = rng.choice([1, 2, 3, 5, 10, 1000])
    return q


# ---- property paths

def gen_path(rng, kb, depth):
    preds = [kb.id(p) for p in kb.preds]
    if depth == 0 or rng.random() < 0.25:
        return {"t": "pred", "p": rng.choice(preds)}
    t = rng.choice(["inv", "alt", "alt", "seq", "seq", "plus", "plus", "star", "opt"])
    p = {"t": t, "a": gen_path(rng, kb, depth - 1)}
    if t in ("alt", "seq"):
        p["b"] = gen_path(rng, kb, depth - 1)
    return p


def nullable(p):
    """Does the path relate a node to itself without a step?"""
    t = p["t"]
    return t in ("star", "opt") or t in ("plus", "inv") and nullable(p["a"]) or \
        t == "alt" and (nullable(p["a"]) or nullable(p["b"])) or t == "seq" and nullable(p["a"]) and nullable(p["b"])


def has_nullable(p):
    return nullable(p) or any(has_nullable(p[k]) for k in ("a", "b") if k in p)


def q_path(rng, kb, sc):
    p = gen_path(rng, kb, rng.choice([1, 1, 2, 2, 3, 3]))
    if p["t"] == "pred" or nullable(p):  # not supported as a whole
        return None
    ents = terms_of(kb, ["iri"])
    g = []
    bound = {}
    if rng.random() < 0.5:
        r = gen_bgp(rng, kb, sc, rng.choice([1, 1, 2]), pvar=0, pconst=0.2)
        if not r:
            return None
        g.append({"t": "bgp", "ts": r[0]})
        bound = sorted(vars_of(r[0]))
    def end(first):
        x = rng.random()
        if bound and (first or x < 0.3):
            return rng.choice(bound)
        if x < 0.2:
            return rng.choice(ents)
        if x < 0.27 and not first:
            return rng.choice(kb.facts)[2]
        if x < 0.3:
            return constant_like(rng, kb, rng.choice(kb.facts)[0 if first else 2])
        return sc.fresh()
    s = end(True)
    o = end(False)
    if rng.random() < 0.5 and (o < 0 or kb.t(o).kind == "iri"):
        s, o = o, s
    if rng.random() < 0.07:
        o = s
    if s > 0 and o > 0:
        return None
    e = {"t": "path", "s": s, "p": p, "o": o}
    if g and rng.random() < 0.4:
        inner = [e]
        new = [x for x in (s, o) if x < 0 and x not in bound]
        if new and rng.random() < 0.4:
            # a pattern that goes on from the other end
            t = list(rng.choice(kb.facts))
            t[0], t[2] = rng.choice([(new[0], sc.fresh()), (sc.fresh(), new[0]), (new[0], t[2])])
            inner.insert(rng.randint(0, 1), {"t": "bgp", "ts": [t]})
        kind = rng.choice(["opt", "minus", "sub", "union"])
        if kind == "sub":
            iv = bound_vars(inner)
            if not iv:
                return None
            sel = [v for v in sorted(iv[1]) if v in bound or rng.random() < 0.7]
            if not sel:
                return None
            g.append({"t": "sub", "q": {"vs": sel, "g": inner, "dist": rng.choice([0, 1]), "ord": sub_order(rng, sel)}})
        elif kind == "union":
            other = {"t": "path", "s": s, "p": gen_path(rng, kb, 2), "o": o}
            if nullable(other["p"]) or s > 0 or o > 0:
                return None
            if other["p"]["t"] == "pred":
                other = {"t": "bgp", "ts": [[s, other["p"]["p"], o]]}
            elif has_nullable(other["p"]):
                p = other["p"]
            g.append({"t": "union", "a": inner, "b": [other]})
        else:
            g.append({"t": kind, "g": inner})
    else:
        g.insert(rng.randint(0, len(g)), e)
    vs = bound_vars(g)
    if not vs or sc.n > 6:
        return None
    q = base_query(g, select_some(rng, vs[1], 0.8))
    walks = not has_nullable(p)
    if not walks:
        # the number of walks is not specified then, only which nodes are related
        q["dist"] = 1
    return decorate(rng, kb, sc, q, walks) if rng.random() < 0.35 else q


def decorate(rng, kb, sc, q, exact=True):
    """Filters, groups, order and slices on top of a plain query; exact: the numbers of solutions are specified."""
    g = q["g"]
    certain = sorted(bound_vars(g)[0])
    if not certain or getattr(kb, "odd", False):
        return q
    if rng.random() < 0.4:
        t = rng.choice(rng.choice(kb.facts))
        m = {t: rng.choice(certain)}
        if rng.random() < 0.3 and len(certain) > 1:
            a, b = rng.sample(certain, 2)
            f = {"op": rng.choice(list(OPS)), "l": a, "r": b}
        else:
            f = gen_filter(rng, kb, sc, m)
        g.insert(rng.randint(0, len(g)), {"t": "filter", "f": f})
    x = rng.random()
    if x < 0.4:
        q["dist"] = 0
        q["grp"] = rng.sample(certain, min(len(certain), rng.choice([1, 1, 2])))
        q["sel"] = [{"f": "var", "v": v, "d": 0} for v in q["grp"]]
        rest = [v for v in certain if v not in q["grp"]]
        for v in rng.sample(rest, min(len(rest), rng.choice([0, 1, 1, 2]))):
            f = rng.choice(["count", "count", "min", "max"])
            alone = exact and not any(e["t"] == "hp" for e in g)
            q["sel"].append({"f": f, "v": v, "d": (rng.choice([0, 1]) if alone else 1) if f == "count" else 0})
    elif x < 0.5:
        q["dist"] = 1
    if rng.random() < 0.4:
        if q["grp"]:
            pool = [i + 1 for i, y in enumerate(q["sel"])]
            q["ord"] = [{"col": i, "desc": rng.choice([0, 1])} for i in rng.sample(pool, rng.randint(1, min(2, len(pool))))]
        else:
            pool = [y["v"] for y in q["sel"] if y["v"] in certain] if q["dist"] else certain
            q["ord"] = [{"v": v, "desc": rng.choice([0, 1]), "asc": rng.choice([0, 1])}
                        for v in rng.sample(pool, rng.randint(1, min(2, len(pool))))] if pool else []
    if (exact or q["dist"] or q["grp"]) and rng.random() < 0.3:
        q["lim"], q["off"] = rng.choice([1, 2, 3, 5, 10]), rng.choice([0, 0, 1, 2, 5])
    return q


# ---- ql:has-predicate

def q_hp(rng, kb, sc):
    r = rng.random()
    subs = sorted({f[0] for f in kb.facts})
    preds = sorted({f[1] for f in kb.facts})
    ents = terms_of(kb, ["iri"])
    if r < 0.35:
        s = rng.choice([sc.fresh(), rng.choice(ents)])
        o = rng.choice([sc.fresh(), rng.choice(preds)]) if s < 0 else sc.fresh()
        g = [{"t": "hp", "s": s, "o": o}]
        vs = [x for x in (s, o) if x < 0]
        q = base_query(g, select_some(rng, vs, 0.8))
        if len(vs) == 2 and rng.random() < 0.4:
            q["sel"] = [{"f": "var", "v": o, "d": 0}, {"f": "count", "v": s, "d": 0}]
            q["grp"] = [o]
        elif len(vs) == 1 and vs[0] == o and rng.random() < 0.4:
            q["sel"] = [{"f": "var", "v": o, "d": 0}]
            q["grp"] = [o]
        return q
    b = gen_bgp(rng, kb, sc, rng.choice([1, 1, 2]), pvar=0.15, pconst=0.25)
    if not b:
        return None
    ts, m = b
    vs = sorted(vars_of(ts))
    sv = [v for v in vs if any(t[0] == v or t[2] == v for t in ts)]
    if not sv:
        return None
    s = rng.choice(sv)
    x = rng.random()
    o = sc.fresh() if x < 0.75 else rng.choice(preds)
    g = [{"t": "bgp", "ts": ts}, {"t": "hp", "s": s, "o": o}]
    if rng.random() < 0.3:
        return hp_within(rng, kb, sc, g, vs, s, o)
    if rng.random() < 0.4:
        g.reverse()
    allv = sorted(set(vs) | ({o} if o < 0 else set()))
    q = base_query(g, select_some(rng, allv, 0.8))
    if rng.random() < 0.2:
        return decorate(rng, kb, sc, q, False)
    if o < 0 and rng.random() < 0.55:
        # the predicates of a set of subjects, counted
        d = 1 if rng.random() < 0.25 else 0
        q["sel"] = [{"f": "var", "v": o, "d": 0}]
        if rng.random() < 0.85:
            # without DISTINCT QLever counts the distinct subjects as well
            q["sel"].append({"f": "count", "v": s, "d": 1, "plain": 1 - d})
        q["grp"] = [o]
        x = rng.random()
        if x < 0.12:
            g.insert(rng.randint(0, 2), {"t": "filter", "f": gen_filter(rng, kb, sc, {rng.choice(preds): o})})
        if 0.12 <= x < 0.36 and len(q["sel"]) > 1:
            if rng.random() < 0.5:
                q["sel"].pop()
            else:
                q["sel"][1]["plain"] = 0
        if 0.12 <= x < 0.24:
            rows = [[p] for p in rng.sample(preds + ents, rng.choice([1, 2, 3])) if kb.t(p).kind == "iri"]
            g.insert(rng.randint(0, 2), {"t": "values", "vs": [o], "rows": sorted(rows)})
        elif 0.24 <= x < 0.36:
            t = rng.choice(kb.facts)
            e = rng.choice([{"t": "bgp", "ts": [rng.choice([[t[0], o, sc.fresh()], [s, o, t[2]], [o, t[1], sc.fresh()]])]},
                            {"t": "hp", "s": t[0], "o": o}])
            g.append({"t": rng.choice(["minus", "minus", "union"]), "g": [e]} if rng.random() < 0.7 else e)
            if g[-1]["t"] == "union":
                g[-1] = {"t": "union", "a": [e], "b": [{"t": "hp", "s": rng.choice(kb.facts)[0], "o": o}]}
            if not bound_vars(g):
                return None
        if len(q["sel"]) > 1 and rng.random() < 0.3:
            q["ord"].append({"col": 2, "desc": rng.choice([0, 1])})
        if len(q["sel"]) > 1 and rng.random() < 0.2:
            q["having"].append({"col": 2, "op": rng.choice(list(OPS)), "r": 0, "n": 1000 * rng.choice([1, 2])})
    return q


def hp_within(rng, kb, sc, g, vs, s, o):
    """ql:has-predicate in a group within the group."""
    bgp, hp = g
    kind = rng.choice(["opt", "minus", "sub", "union", "two", "chain"])
    if kind == "two":
        # the predicates that two subjects have in common
        r = [v for v in vs if v != s]
        if not r:
            return None
        g = [bgp, hp, {"t": "hp", "s": rng.choice(r), "o": rng.choice([o, o, sc.fresh()])}]
    elif kind == "chain":
        # the predicates are used further on
        if o > 0:
            return None
        x = rng.random()
        v = sc.fresh()
        g = [bgp, hp, {"t": "hp", "s": o, "o": v} if x < 0.5 else {"t": "bgp", "ts": [[o, rng.choice(kb.facts)[1], v]]}]
    elif kind == "sub":
        sel = [v for v in (s, o) if v < 0 and (v == s or rng.random() < 0.8)]
        g = [bgp, {"t": "sub", "q": {"vs": sel, "g": [hp], "dist": rng.choice([0, 1]), "ord": sub_order(rng, sel)}}]
    elif kind == "union":
        t = list(rng.choice(kb.facts))
        if o < 0:
            b = rng.choice([{"t": "bgp", "ts": [[s, t[1], o]]}, {"t": "bgp", "ts": [[o, t[1], s]]}])
        else:
            b = {"t": "bgp", "ts": [[s, t[1], t[2]]]}
        a = [hp]
        b = [b]
        if rng.random() < 0.5:
            a, b = b, a
        g = [bgp, {"t": "union", "a": a, "b": b}]
    else:
        g = [bgp, {"t": kind, "g": [hp]}]
    b = bound_vars(g)
    if not b:
        return None
    q = base_query(g, select_some(rng, b[1], 0.8))
    return decorate(rng, kb, sc, q) if rng.random() < 0.3 else q


# ---- related queries

def variant(rng, kb, q):
    """A query that shares parts of its evaluation with q, or None."""
    import copy
    q = copy.deepcopy(q)
    if any(s.get("num") for s in q["sel"]):
        return None
    plain = not q["grp"] and all(s["f"] == "var" for s in q["sel"])
    r = rng.random()
    if not plain:
        if r < 0.5 and not q["ord"] and all(s["f"] in ("var", "count") for s in q["sel"]):
            q["ord"] = [{"col": i + 1, "desc": rng.choice([0, 1])}
                        for i in rng.sample(range(len(q["sel"])), rng.randint(1, len(q["sel"])))]
            return q
        if q["having"]:
            q["having"].pop()
            return q
        return None
    vs = [s["v"] for s in q["sel"]]
    certain = sorted(bound_vars(q["g"])[0]) if q["g"] else []
    if r < 0.2:
        q["dist"] = 1 - q["dist"] if not q["ord"] and not paths_in(q["g"]) else q["dist"]
    elif r < 0.4 and not paths_in(q["g"]):
        keep = rng.sample(vs, rng.randint(1, len(vs)))
        if q["dist"] and q["ord"]:
            return None
        q["sel"] = [{"f": "var", "v": v, "d": 0} for v in keep]
    elif r < 0.6:
        keys = [v for v in vs if v in certain] or None
        if not keys:
            return None
        q["ord"] = [{"v": v, "desc": rng.choice([0, 0, 1]), "asc": rng.choice([0, 1])}
                    for v in rng.sample(keys, rng.randint(1, len(keys)))]
    elif r < 0.7:
        q["lim"], q["off"] = rng.choice([0, 1, 2, 5]), rng.choice([0, 0, 1, 3])
    elif r < 0.8 and any(e["t"] == "bgp" for e in q["g"]):
        for e in q["g"]:
            if e["t"] == "bgp":
                rng.shuffle(e["ts"])
    elif r < 0.9 and len(q["g"]) == 1 and q["g"][0]["t"] == "bgp" and len(q["g"][0]["ts"]) > 1:
        e = q["g"][0]
        gone = rng.randrange(len(e["ts"]))
        e["ts"] = e["ts"][:gone] + e["ts"][gone + 1:]
        left = vars_of(e["ts"])
        if not bgp_ok(e["ts"], set(), True):
            return None
        q["sel"] = [s for s in q["sel"] if s["v"] in left]
        q["ord"] = [k for k in q["ord"] if k["v"] in left]
        if not q["sel"]:
            return None
    else:
        keys = [v for v in certain if v in vs]
        if not keys or any(e["t"] in ("filter", "bind") for e in q["g"]) or weight(q["g"]) > 4:
            return None
        f = rng.choice(kb.facts)
        v = rng.choice(keys)
        c = rng.choice([x for x in f if kb.t(x).kind in ("iri", "lit", "num")])
        q["g"].append({"t": "filter", "f": {"op": rng.choice(["eq", "ne", "lt", "ge"]), "l": v, "r": c}})
    return q


def near(rng, kb, q):
    """The query with one thing changed, so that an evaluation that takes one
    for the other gives a wrong answer; or None."""
    import copy
    q = copy.deepcopy(q)
    q.pop("_near", None)
    opts = []

    def put(d, k, v):
        if d[k] != v:
            opts.append((d, k, v))

    def some(kinds, x):
        return rng.choice([y for y in terms_of(kb, kinds) if y != x] or [x])

    def path(p):
        if p["t"] == "pred":
            put(p, "p", some(["iri"], p["p"]) if rng.random() < 0.3 else kb.id(rng.choice(kb.preds)))
        if p["t"] in ("alt", "seq"):
            put(p, "t", "seq" if p["t"] == "alt" else "alt")
        if p["t"] in ("plus", "star", "opt"):
            put(p, "t", rng.choice(["plus", "star", "opt"]))
        for k in ("a", "b"):
            if k in p:
                path(p[k])

    def group(g):
        nv = number_vars(g)
        for i, e in enumerate(g):
            t = e["t"]
            if t == "bgp":
                for tr in e["ts"]:
                    for pos in (0, 1, 2):
                        if tr[pos] > 0:
                            put(tr, pos, rng.choice(kb.facts)[pos])
                    if tr[0] < 0 and tr[2] < 0:
                        opts.append((tr, slice(0, 3), [tr[2], tr[1], tr[0]]))
            elif t in ("path", "hp"):
                if e["s"] > 0:
                    put(e, "s", rng.choice(kb.facts)[0])
                if e["o"] > 0:
                    put(e, "o", rng.choice(kb.facts)[1 if t == "hp" else 2])
                if e["s"] < 0 and e["o"] < 0 and not (t == "hp" and any(y["f"] != "var" for y in q["sel"])):
                    opts.append((g, i, dict(e, s=e["o"], o=e["s"])))
                if t == "path":
                    path(e["p"])
            elif t in ("opt", "minus", "group"):
                put(e, "t", rng.choice(["opt", "minus"]))
            elif t == "values":
                for r in e["rows"]:
                    k = rng.randrange(len(r))
                    put(r, k, some(["iri", "lit", "num"], r[k]))
                if len(e["rows"]) > 1:
                    put(e, "rows", e["rows"][1:])
                if len(e["vs"]) == 2:
                    put(e, "vs", e["vs"][::-1])
            elif t == "bind" and e["o"]:
                if e["o"] == "int":
                    put(e, "n", 1000 * rng.choice([0, 1, 7, 42, 100000]))
                else:
                    put(e, "o", rng.choice("+-*"))
                    opts.append((g, i, dict(e, x=e["y"], y=e["x"])))
            elif t == "bind" and e["x"] > 0:
                put(e, "x", some(["iri", "lit"], e["x"]))
            elif t == "filter":
                f = e["f"]
                if f["op"] in OPS:
                    put(f, "op", rng.choice(list(OPS)))
                    if f["r"] > 0 and not f.get("num") and f["l"] not in nv:
                        put(f, "r", some([kb.t(f["r"]).kind], f["r"]))
                elif f["op"] == "lang":
                    put(f, "lang", rng.randint(1, 3))
                elif f["op"] == "regex":
                    put(f, "i", 1 - f["i"])
                    up = [ord(chr(c).swapcase()) for c in f["c"]]
                    put(f, "c", up)
                    opts.append((e, "f", dict(f, i=1, c=up)))
                elif f["op"] == "prefix":
                    ls = sorted({a["l"] for a in f["alts"]})
                    for a in f["alts"]:
                        put(a, "l", rng.choice(ls))
                        if len(a["c"]) > 2:
                            put(a, "c", a["c"][:-1])
                    if len(f["alts"]) == 2:
                        x, y = f["alts"]
                        opts.append((f, "alts", [dict(x, l=y["l"]), dict(y, l=x["l"])]))
            elif t == "sub":
                s = e["q"]
                put(s, "dist", 1 - s["dist"])
                if s.get("ord"):
                    put(s, "ord", [])
                for a in s.get("aggs", []):
                    if a["f"] in ("count", "sum"):
                        put(a, "d", 1 - a["d"])
                    if a["f"] in ("min", "max"):
                        put(a, "f", "min" if a["f"] == "max" else "max")
                group(s["g"])
            elif t == "union":
                opts.append((g, i, dict(e, a=e["b"], b=e["a"])))
                opts.append((g, i, dict(e, b=e["a"])))
            for k in ("g", "a", "b"):
                if isinstance(e.get(k), list):
                    group(e[k])

    group(q["g"])
    if "'path'" in repr(q["g"]):
        q["dist"] = 1 if all(s["f"] == "var" for s in q["sel"]) else q["dist"]
    hp = "'hp'" in repr(q["g"])
    for s in q["sel"]:
        if s["f"] != "var" and not hp:
            if s["f"] not in ("min", "max", "sample"):
                put(s, "d", 1 - s["d"])
            if s["f"] in ("count", "min", "max", "sample") and not s.get("num") and not q["having"] and not q["ord"]:
                put(s, "f", rng.choice(["count", "min", "max", "sample"]))
            if s["f"] in ("sum", "avg"):
                put(s, "f", "sum" if s["f"] == "avg" else "avg")
            if s["f"] == "concat":
                s.setdefault("sep", SEP)
                put(s, "sep", rng.choice([SEP, "~##", "|||"]))
    for k in q["ord"]:
        put(k, "desc", 1 - k["desc"])
    if len(q["ord"]) > 1:
        put(q, "ord", q["ord"][::-1])
    if len(q["grp"]) > 1 and not hp:
        put(q, "grp", q["grp"][::-1])
    for h in q["having"]:
        put(h, "op", rng.choice(list(OPS)))
        put(h, "n", h["n"] + 1000)
    if not q["grp"] and all(s["f"] == "var" for s in q["sel"]) and not paths_in(q["g"]):
        put(q, "dist", 1 - q["dist"])
    if not opts:
        return None
    d, k, v = rng.choice(opts)
    d[k] = v
    if not acceptable(kb, q["g"]):
        return None
    if q["dist"] and not {k["v"] for k in q["ord"] if "v" in k} <= {s["v"] for s in q["sel"]}:
        return None
    certain = bound_vars(q["g"])
    if not {s["v"] for s in q["sel"]} <= certain[1] or \
            not ({s["v"] for s in q["sel"] if s["f"] != "var"} | set(q["grp"])) <= certain[0]:
        return None
    if any(s["f"] in ("sum", "avg") for s in q["sel"]) and d not in q["sel"]:
        return None
    for s in q["sel"]:
        s.pop("num", None)
    return mark_numbers(q)


def acceptable(kb, g):
    """Can the server be expected to answer a query with this group?"""
    if not bound_vars(g) or mixed_branches(g) or not full_scans_ok(g):
        return False

    def good(e):
        if e["t"] == "bgp":
            return bgp_ok(e["ts"], set(), True) and all(kb.t(t[0]).kind == "iri" for t in e["ts"] if t[0] > 0)
        if e["t"] == "path":
            return not nullable(e["p"]) and e["p"]["t"] != "pred" and e["s"] != e["o"]
        if e["t"] == "sub" and any(a["f"] == "sum" for a in e["q"].get("aggs", [])) and \
                not {a["v"] for a in e["q"]["aggs"] if a["f"] == "sum"} <= \
                set().union(*[numeric_vars(kb, x["ts"]) for x in e["q"]["g"] if x["t"] == "bgp"]):
            return False
        for k in ("g", "a", "b"):
            if isinstance(e.get(k), list) and not all(good(x) for x in e[k]):
                return False
        return e["t"] != "sub" or all(good(x) for x in e["q"]["g"])
    return all(good(e) for e in g)


def paths_in(g):
    return "'path'" in repr(g)


FAMILIES = {"bgp": q_bgp, "opt": q_opt, "union": q_union, "minus": q_minus, "sub": q_sub, "group": q_group,
            "fbv": q_fbv, "agg": q_agg, "order": q_order, "path": q_path, "hp": q_hp, "aggsub": q_aggsub}

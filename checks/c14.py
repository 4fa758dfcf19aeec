"""Numbers and dates: listed, looked up, compared, sorted and summed by the
real programs, judged digit by digit by spec/Values.tla."""
import random, re, shutil

import qbuild, qlever
import sessions

XSD = "http://www.w3.org/2001/XMLSchema#"
OPS = {"eq": "=", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}


def digits(s):
    return [int(c) for c in s]


def num(lex, typ):
    """The parts of a written number."""
    m = re.fullmatch(r"([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?", lex)
    if not m or not (m.group(2) or m.group(3)):
        return None
    return {"k": 3, "neg": int(m.group(1) == "-"), "int": digits(m.group(2)), "frac": digits(m.group(3) or ""),
            "exp": int(m.group(4) or 0), "typ": "int" if typ == "integer" else typ}


def date(lex):
    m = re.fullmatch(r"(-?)(\d+)(?:-(\d\d))?(?:-(\d\d))?(?:T(\d\d):(\d\d):(\d\d))?Z?", lex)
    if not m:
        return None
    return {"k": 2, "neg": int(m.group(1) == "-"), "int": digits(m.group(2)), "rest": [int(x or 0) for x in m.groups()[2:]]}


NOTHING = {"k": 3, "neg": 0, "int": [9] * 40, "frac": [], "exp": 0, "typ": "none"}


def shown(s):
    """A value as the server shows it."""
    m = re.fullmatch(r'"([^"]*)"\^\^<%s(\w+)>' % re.escape(XSD), s or "")
    if not m:
        return NOTHING
    if m.group(2) in ("date", "dateTime", "gYear", "gYearMonth"):
        return date(m.group(1)) or NOTHING
    return num(m.group(1), m.group(2)) or NOTHING


def written(lex, typ):
    return '"%s"^^<%s%s>' % (lex, XSD, typ)


def rdigits(rng, n):
    return "".join(rng.choice("0000123456789999") for _ in range(n))


def gen_num(rng, near=None):
    """A number as it may be written; sometimes close to another one."""
    typ = rng.choice(["int", "integer", "decimal", "decimal", "float", "double", "double"])
    if near and rng.random() < 0.5:
        lex, t = near
        k = rng.random()
        if k < .3:
            return lex, typ if typ not in ("int", "integer") or re.fullmatch(r"[+-]?\d+", lex) else t
        if k < .5:
            return (lex[1:] if lex[0] == "-" else "-" + lex.lstrip("+")), t
        p = [j for j, ch in enumerate(lex.split("e")[0].split("E")[0]) if ch.isdigit()]
        j = rng.choice(p)
        return lex[:j] + rng.choice("0123456789") + lex[j + 1:], t
    sign = rng.choice(["", "", "", "-", "-", "+"])
    small = rng.random() < .5
    if typ in ("int", "integer"):
        n = rng.choice([1, 1, 2, 3]) if small else rng.choice([9, 10, 19, 20, 29, 30])
        return sign + rng.choice(["", "", "0", "00"]) + rdigits(rng, n), typ
    a = rdigits(rng, rng.choice([1, 1, 2]) if small else rng.choice([1, 4, 8, 14]))
    b = rdigits(rng, rng.choice([0, 1, 1, 2]) if small else rng.choice([0, 5, 9, 14]))
    if rng.random() < .3:
        a = "0"
    if rng.random() < .15:
        b = "0" * rng.choice([1, 4, 9, 15, 31, 60]) + b
    if rng.random() < .1:
        a = a + "0" * rng.choice([5, 15, 31, 60])
    if rng.random() < .1 and b:
        a = ""
    lex = sign + a + ("." + b if b or rng.random() < .1 else "")
    if not (a or b):
        lex += "0"
    if typ in ("float", "double") and rng.random() < .4:
        lex += rng.choice("eE") + rng.choice(["", "-", "+"]) + str(rng.choice([0, 1, 2, 3, 5, 9, 10, 20, 30, 37] + ([99, 100, 299] if typ == "double" else [])))
    return lex, typ


def gen_date(rng, near=None):
    if near and rng.random() < .3 and not near[0].startswith("0000"):
        lex, t = near
        return (lex[1:] if lex[0] == "-" else "-" + lex), t
    y = rng.choice(["%04d" % rng.randint(0, 30), "%04d" % rng.randint(1890, 2030), "%04d" % rng.randint(1, 9999), str(rng.randint(10000, 10 ** 6)),
                    str(rng.randint(10 ** 8, 10 ** 11)), "9999", "0001", "2000"])
    if rng.random() < .3 and y != "0000":
        y = "-" + y
    t = rng.choice(["date", "date", "dateTime", "dateTime", "gYear", "gYearMonth"])
    mo, d = "%02d" % rng.choice([1, 2, 9, 10, 12]), "%02d" % rng.choice([1, 2, 9, 10, 28, 30])
    h = "T%02d:%02d:%02d" % (rng.choice([0, 1, 9, 10, 23]), rng.choice([0, 1, 10, 59]), rng.choice([0, 9, 10, 59]))
    return {"date": y + "-" + mo + "-" + d, "dateTime": y + "-" + mo + "-" + d + h + rng.choice(["", "", "Z"]), "gYear": y,
            "gYearMonth": y + "-" + mo}[t], t


def significant(v):
    """Digits from the first to the last that is not 0, and the power of ten of the first."""
    d = "".join(map(str, v["int"] + v["frac"]))
    lead = len(d) - len(d.lstrip("0"))
    return len(d.strip("0")), len(v["int"]) - lead - 1 + v["exp"]


def value(lex, typ):
    return date(lex) if typ in ("date", "dateTime", "gYear", "gYearMonth") else num(lex, typ)


class Session(sessions.Session):
    module = "ValuesTrace"

    def __init__(self, key, nq):
        self.key, self.nq = key, nq

    def run(self, bindir, only=None, id0=0):
        rng = random.Random(self.key)
        kind = rng.choice([gen_num, gen_num, gen_num, gen_date])
        lits = []
        for _ in range(rng.choice([6, 12, 25])):
            x = kind(rng, rng.choice(lits) if lits else None)
            if kind is gen_date or significant(value(*x))[0] <= 30:     # as many digits as are kept
                lits.append(x)
        text = "".join("<s%d> <p> %s .\n" % (j + 1, written(*x)) for j, x in enumerate(lits))
        s = {"num-triples-per-partial-vocab": rng.choice([2, 5, 100]), "parser-batch-size": rng.choice([1, 3, 1000])}
        qs = [("list", "SELECT ?s ?o WHERE { ?s <p> ?o . }", {})]
        for dsc in (0, 1):
            qs.append(("order", "SELECT ?s ?o WHERE { ?s <p> ?o . } ORDER BY %s" % ("DESC(?o)" if dsc else "?o"), {"desc": dsc}))
        for f in ("min", "max"):
            qs.append(("ext", "SELECT ?g (%s(?o) as ?m) WHERE { ?s <p> ?o . ?s <g> ?g . } GROUP BY ?g" % f.upper(), {"f": f}))
        text += "".join("<s%d> <g> <g1> .\n" % (j + 1) for j in range(len(lits)))
        # sums and means are computed with floats
        if kind is gen_num and all(abs(significant(value(*x))[1]) <= 36 or not significant(value(*x))[0] for x in lits):
            qs.append(("sum", "SELECT ?s (SUM(?o) as ?m) WHERE { ?s <p> ?o . } GROUP BY ?s", {}))
            qs.append(("sum", "SELECT ?s (AVG(?o) as ?m) WHERE { ?s <p> ?o . } GROUP BY ?s", {}))
        for op in OPS:
            if len(lits) <= 12:
                qs.append(("pairs", "SELECT ?s ?t WHERE { ?s <g> ?g . ?s <p> ?o . ?t <g> ?g . ?t <p> ?u . FILTER(?o %s ?u) }" % OPS[op], {"op": op}))
        while len(qs) < self.nq:
            x = rng.choice(lits)
            if rng.random() < .5:
                x = kind(rng, x)
            if kind is gen_num and significant(value(*x))[0] > 30:
                continue
            if rng.random() < .2:
                qs.append(("look", "SELECT ?s WHERE { ?s <p> %s . }" % written(*x), {"c": value(*x)}))
                continue
            op = rng.choice(list(OPS))
            c, val = written(*x), value(*x)
            if kind is gen_num and re.fullmatch(r"-?\d+(\.\d+)?", x[0]) and rng.random() < .4:
                c, val = x[0], num(x[0], "float" if "." in x[0] else "int")
            qs.append(("filter", "SELECT ?s WHERE { ?s <p> ?o . FILTER(?o %s %s) }" % (OPS[op], c), {"op": op, "c": val}))
        kbev = {"e": "kb", "vals": [value(*x) for x in lits]}
        subject = lambda x: int(x[2:-1]) if re.fullmatch(r"<s\d+>", x or "") else 0
        evs, texts = [], {}

        def judged(e, rows, extra):
            if e in ("filter", "look", "order"):
                return dict(extra, rows=[subject(r[0]) for r in rows])
            if e == "pairs":
                return dict(extra, rows=[[subject(r[0]), subject(r[1])] for r in rows])
            if e == "list":
                return {"rows": [[subject(r[0]), shown(r[1])] for r in rows]}
            if e == "sum":
                return {"rows": [[subject(r[0]), num(r[1], "float") or NOTHING] for r in rows]}
            return dict(extra, row=shown(rows[0][1]) if len(rows) == 1 else NOTHING)

        with sessions.Running(bindir, text, settings=s) as server:
            for j, (e, t, extra) in enumerate(qs):
                if only is not None and j not in only:
                    continue
                r = server.ask(t)
                ok = r["status"] == "OK"
                ev = dict({"e": e}, **judged(e, r["rows"], extra)) if ok else {"e": "error"}
                evs.append(dict(ev, id=id0 + j))
                texts[id0 + j] = (t, r["rows"][:30] if ok else r["status"] + ": " + r["text"][:300])
        return kbev, evs, texts, text, {"settings": s}


def check(c):
    tasks = [Session("C14/%d/%d" % (c.seed, i), 60) for i in range(c.pick(300, 2500))]
    sessions.check(c, tasks, control=lambda e: dict(e, rows=e["rows"][1:]) if e["e"] in ("list", "order") else None)

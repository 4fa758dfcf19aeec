"""Turtle documents, loaded by every Turtle parser with read buffers of a few
bytes up to the whole file; the triples in the index against spec/Turtle.tla."""
import random

import sessions

XSD = "http://www.w3.org/2001/XMLSchema#"
HELPER = "<QLever-internal-function/"
ODD = "äéßñçøλжאש日本€😀"


def codes(s):
    return [ord(c) for c in s]


def tok(k, src, v="", w=""):
    return {"k": k, "src": src, "v": v, "w": w}


class Doc:
    def __init__(self, rng):
        self.rng, self.toks = rng, []
        self.ascii = rng.random() < .6
        self.odd = "" if self.ascii else ODD
        self.px, self.labels = {}, []
        self.tight = rng.choice([0, .3, .9])
        self.comments = rng.choice([0, 0, .1, .4])
        self.bnodes = 0
        self.nlit = 0

    def put(self, k, src, v="", w=""):
        self.toks.append(tok(k, src, v, w))

    # names
    def prefix_name(self):
        rng = self.rng
        return rng.choice(["", "e", "ex", "a", "ab", "x.y", "p-1", "t", "true", "f", "A1", "prefix", "_x"[1:], "q_r"] + (["é", "日x"] if self.odd else []))

    def iri_chars(self, n=None):
        rng = self.rng
        out, src = "", ""
        for _ in range(n if n is not None else rng.choice([1, 1, 2, 3, 5])):
            r = rng.random()
            if r < .6:
                c = rng.choice("abcxyzAZ019")
            elif r < .85:
                c = rng.choice("/#.:-_~?=&;,()'!*+@$%[]")
            else:
                c = rng.choice((self.odd or "abc") + "_-")
            if rng.random() < .08:
                c = rng.choice("abcZ09-_ä日é" if not self.ascii else "abcZ09-_")
                src += self.uchar(c)
            else:
                src += c
            out += c
        return out, src

    def uchar(self, c):
        rng = self.rng
        h = "%04X" % ord(c) if ord(c) < 65536 and rng.random() < .7 else "%08X" % ord(c)
        if rng.random() < .5:
            h = h.lower()
        return ("\\u" if len(h) == 4 else "\\U") + h

    def iri(self):
        c, src = self.iri_chars()
        base = self.rng.choice(["http://x/", "http://x/y#", "u:", "http://e.org/"])
        self.put("iri", "<" + base + src + ">", base + src)

    def local(self):
        rng = self.rng
        n = rng.choice([0, 1, 1, 2, 3, 5])
        src = ""
        for j in range(n):
            r = rng.random()
            if r < .55:
                src += rng.choice("abcxyzAZ_")
            elif r < .7:
                src += rng.choice("0159")
            elif r < .76:
                src += ":"
            elif r < .8:
                src += rng.choice(["%41", "%fF", "%00"])
            elif r < .85 and src:
                src += "-"
            elif r < .91 and src and j < n - 1:
                src += rng.choice([".", ".."])
            elif r < .95 and not self.ascii:
                src += "\\" + rng.choice("_~.-!$&'()*+,;=/?#@%")
            elif self.odd:
                src += rng.choice([c for c in self.odd if c not in "€😀"] or "a")
        if src.endswith("."):
            src += "z"
        return src

    def name(self, simple=False):
        rng = self.rng
        if self.px and rng.random() < (.8 if simple else .6):
            p = rng.choice(list(self.px))
            w = rng.choice(["p", "q", "r1", "s-t"]) if simple else self.local()
            self.put("pn", p + ":" + w, p, w)
        elif simple:
            v = rng.choice(["http://x/p", "http://x/q", "u:r", "u:s'"])
            self.put("iri", "<" + v + ">", v)
        else:
            self.iri()

    def label(self):
        rng = self.rng
        if self.labels and rng.random() < .6:
            v = rng.choice(self.labels)
        else:
            v = rng.choice(["a", "b", "b1", "1", "1a", "x.y", "x-y", "_z", "a..b", "QLever", "0"] + (["é"] if self.odd else []))
            if v not in self.labels:
                if self.bnodes >= 6:
                    return self.name()
                self.labels.append(v)
                self.bnodes += 1
        self.put("bl", "_:" + v, v)

    # literals
    def string(self):
        rng = self.rng
        q = rng.choice(['"', '"', "'", '"""', "'''"])
        n = rng.choice([0, 1, 2, 3, 6, 12]) if rng.random() < .95 else rng.choice([60, 300])
        src, run = "", 0
        for j in range(n):
            r = rng.random()
            if r < .4:
                c = rng.choice("abcxyz 019")
            elif r < .6:
                c = rng.choice("#.,;<>[]()@^:/?&=+-_|{}%$!~`*")
            elif r < .72:
                c = "\\" + rng.choice("tbnrf\"'\\\\")
            elif r < .77:
                c = self.uchar(rng.choice("aZ\"\\'\n ä日😀" if not self.ascii else "aZ\"\\'\n "))
            elif r < .9:
                c = rng.choice("\"'")
                if c == q:
                    c = "\\" + c
                elif c == q[0]:                    # at most two in a row, none at the end
                    if run >= 2 or j == n - 1:
                        c = "\\" + c
            elif r < .95 and len(q) == 3:
                c = rng.choice(["\n", "\n", "\r\n", "\t"])
            else:
                c = rng.choice(self.odd or "abc")
            run = run + 1 if c == q[0] else 0
            src += c
        self.put("str", q + src + q, src)
        r = rng.random()
        if r < .2:
            l = rng.choice(["en", "de", "en-US", "x-y-1", "EN"])
            self.put("lang", "@" + l, l)
        elif r < .4:
            self.put("^^", "^^")
            if "xsd" in self.px and rng.random() < .4:
                self.put("pn", "xsd:string1", "xsd", "string1")
            else:
                self.name()

    def number(self):
        rng = self.rng
        d = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
        s = rng.choice(["", "", "", "-", "+"])
        k = rng.choice("iiiddeee")
        if k == "i":
            s += d(rng.choice([1, 1, 2, 5, 12]))
        elif k == "d":
            s += d(rng.choice([0, 1, 2, 5])) + "." + d(rng.choice([1, 2, 6]))
        else:
            a = d(rng.choice([0, 1, 1, 3]))
            b = d(rng.choice([0, 1, 2, 4]))
            if not a and not b:
                a = "7"
            s += a + ("." + b if b or rng.random() < .3 else "") + rng.choice("eE") + rng.choice(["", "-", "+"]) + rng.choice(["0", "1", "3", "10", "25"])
        self.put("num", s, s)

    def typed_number(self):
        rng = self.rng
        t, lex = rng.choice([("integer", "5"), ("int", "-12"), ("decimal", "1.50"), ("double", "1e2"), ("float", "0.5"), ("boolean", "true"),
                             ("string", "x"), ("integer", "007")])
        self.put("str", '"' + lex + '"', lex)
        self.put("^^", "^^")
        self.put("iri", "<" + XSD + t + ">", XSD + t)

    def literal(self):
        r = self.rng.random()
        if r < .62:
            self.string()
        elif r < .8:
            self.number()
        elif r < .9:
            b = self.rng.choice(["true", "false"])
            self.put("bool", b, b)
        else:
            self.typed_number()

    # structure
    def object(self, depth):
        rng = self.rng
        r = rng.random()
        if r < .35:
            self.name()
        elif r < .72:
            self.literal()
        elif r < .8:
            self.label()
        elif r < .85 and self.bnodes < 8:
            self.bnodes += 1
            self.put("anon", rng.choice(["[]", "[ ]", "[\n\t]"]))
        elif depth < 3 and self.bnodes < 10:
            self.plist(depth + 1)
        else:
            self.name()

    def plist(self, depth):
        self.bnodes += 1
        self.put("[", "[")
        self.predicates(depth)
        # something that tells it from the others
        self.nlit += 1
        self.put(";", ";")
        self.name(simple=True)
        self.put("str", '"n%d"' % self.nlit, "n%d" % self.nlit)
        self.put("]", "]")

    def predicates(self, depth):
        rng = self.rng
        for j in range(rng.choice([1, 1, 1, 2, 3])):
            if j:
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    self.put(";", ";")
            if rng.random() < .15:
                self.put("a", "a")
            else:
                self.name(simple=True)
            for i in range(rng.choice([1, 1, 1, 2, 4])):
                if i:
                    self.put(",", ",")
                self.object(depth)
        if rng.random() < .2:
            self.put(";", ";")

    def directive(self):
        rng = self.rng
        if rng.random() < .08:
            v = "http://b/" + rng.choice("abc")
            k = rng.choice(["@base", "BASE", "BASE"])
            self.put(k, k if k == "@base" else rng.choice(["BASE", "base", "Base"]))
            self.put("iri", "<" + v + ">", v)
        else:
            p = self.prefix_name() if rng.random() < .9 else "xsd"
            if self.px and rng.random() < .3:
                p = rng.choice(list(self.px))
            v = rng.choice(["http://e/", "http://f/", "http://f#", "u:x", "http://x/"]) if p != "xsd" else XSD
            if rng.random() < .1:
                v += self.uchar("a")
            k = rng.choice(["@prefix", "@prefix", "PREFIX"])
            self.put(k, k if k == "@prefix" else rng.choice(["PREFIX", "PREFIX", "prefix", "Prefix"]))
            self.put("ns", p + ":", p)
            self.put("iri", "<" + v + ">", v)
            self.px[p] = v
        if k[0] == "@":
            self.put(".", ".")

    def statement(self):
        rng = self.rng
        if rng.random() < .18:
            return self.directive()
        r = rng.random()
        if r < .7:
            self.name()
        elif r < .8:
            self.label()
        elif r < .85:
            self.bnodes += 1
            self.put("anon", rng.choice(["[]", "[ \n ]"]))
        else:
            self.plist(1)
            if rng.random() < .4:
                return self.put(".", ".")
        self.predicates(0)
        self.put(".", ".")

    # white space and comments
    def gap(self, needed):
        rng = self.rng
        if not needed and rng.random() < self.tight:
            return ""
        out = rng.choice([" ", " ", " ", "\n", "\t", "  ", "\r\n", " \n\t "])
        while rng.random() < self.comments:
            out += "#" + "".join(rng.choice(["a", " ", ".", '"', "'", "<", ">", "#", "@prefix", "\\", ";", "[", self.odd[:1]]) for _ in range(rng.choice([0, 1, 5])))
            out += rng.choice(["\n", "\n", "\r\n", "\n "])
        return out

    def text(self):
        out = "" if self.rng.random() < .7 else self.gap(True)
        for a, b in zip(self.toks, self.toks[1:] + [None]):
            out += a["src"]
            if b is None:
                break
            nxt = b["src"][0]
            word = nxt not in "<\"'[](),;.^" or b["k"] == "num"
            if a["k"] in ("@prefix", "PREFIX", "@base", "BASE"):
                need = True
            elif a["k"] in ("pn", "bl", "num", "bool", "a", "lang", "ns"):
                need = word or (a["k"] == "a" and nxt != "<")
            elif a["k"] == ".":
                need = nxt not in "<[@"
            else:
                need = False
            if a["k"] == "num" and nxt in "\"'":
                need = True
            out += self.gap(need)
        if self.rng.random() < .7:
            out += self.gap(True)
            if self.rng.random() < self.comments:
                out += "# end"
        return out


def term(s):
    t = {"k": "bn", "v": codes(s or ""), "lang": [], "typ": []}
    if s and s[0] == "<" and s[-1] == ">":
        t.update(k="iri", v=codes(s[1:-1]))
    elif s and s[0] == '"' and '"' in s[1:]:
        j = s.rindex('"')
        rest = s[j + 1:]
        if not rest:
            t.update(k="lit", v=codes(s[1:j]))
        elif rest[0] == "@":
            t.update(k="lit", v=codes(s[1:j]), lang=codes(rest[1:]))
        elif rest.startswith("^^<"):
            t.update(k="lit", v=codes(s[1:j]), typ=codes(rest[3:-1]))
    return t


def loaded(server):
    """Every triple of the index; None: an error."""
    r = server.ask("PREFIX ql: <QLever-internal-function/> SELECT DISTINCT ?p WHERE { ?s ql:has-predicate ?p . }")
    if r["status"] != "OK":
        return None, r["status"] + ": " + r["text"][-400:]
    out = []
    for (p,) in sorted(r["rows"]):
        if not p.startswith(HELPER):
            r = server.ask("SELECT ?s ?o WHERE { ?s %s ?o . }" % p)
            if r["status"] != "OK":
                return None, p + " " + r["status"] + ": " + r["text"][-400:]
            out += [[s, p, o] for s, o in r["rows"]]
    return out, ""


class Session(sessions.Session):
    module = "TurtleTrace"

    def __init__(self, key, n):
        self.key, self.n = key, n

    def run(self, bindir, only=None, id0=0):
        rng = random.Random(self.key)
        doc = Doc(rng)
        if rng.random() < .8:
            for _ in range(rng.choice([1, 2, 3])):
                doc.directive()
        for _ in range(rng.choice([1, 2, 4, 8, 20])):
            doc.statement()
        doc.iri()                       # never without a triple
        doc.name(simple=True)
        doc.iri()
        doc.put(".", ".")
        text = doc.text()
        size = len(text.encode())
        confs = [("ttl", False, 0, 0), ("mmap", False, 0, rng.choice([0, 1, 3]))]
        while len(confs) < self.n:
            b = rng.choice([1, 2, 3, 4, 5, 7, 8, 11, 16, 23, 32, 50, 64, 100, 200, 1000])
            if rng.random() < .3:
                b = rng.randint(max(1, size // 2 - 20), size + 2)
            confs.append(("ttl", doc.ascii and rng.random() < .5, b, rng.choice([0, 1, 2, 5, 50])))
        evs, texts = [], {}
        for j, (fmt, asc, buf, least) in enumerate(confs):
            if only is not None and j not in only:
                continue
            lim = {}
            if buf:
                lim["FILE_BUFFER_SIZE"] = buf
            if least:
                lim["PARSER_MIN_TRIPLES_AT_ONCE"] = least
            s = {"ascii-prefixes-only": True} if asc else {}
            with sessions.Running(bindir, text, fmt=fmt, settings=s, limits=lim, threads=1) as server:
                rows, why = loaded(server)
            evs.append({"e": "loaded", "id": id0 + j, "rows": [[term(x) for x in r] for r in rows or []]})
            texts[id0 + j] = ("%s %s %s\n%s" % (fmt, s, lim, text), rows if rows is not None else why)
        first = {"e": "doc", "text": text, "toks": [{"k": t["k"], "v": codes(t["v"]), "w": codes(t["w"])} for t in doc.toks]}
        return first, evs, texts, text, confs


def check(c):
    tasks = [Session("C13/%d/%d" % (c.seed, i), 7) for i in range(c.pick(220, 1500))]
    res = sessions.check(c, tasks, control=lambda e: dict(e, rows=e["rows"][1:]) if e["rows"] else None)
    c.add(tokens=sum(len(r[0]["toks"]) for r in res), documents=len(res))

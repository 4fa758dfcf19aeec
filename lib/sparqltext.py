"""SPARQL text: tokens, different ways to write the same query, corruption.

Styled writes a query of gen.py in a random style.  lex splits any text into
the token classes of spec/SparqlGrammar.tla (which decides what is well formed).
"""
import re

from gen import OPS, R, SEP, LANGS

PRED = "\x02"        # stands around a predicate: no white space inside, some behind

_B = "A-Za-zÀ-ÖØ-öø-˿Ͱ-ͽͿ-῿‌-‍⁰-↏Ⰰ-⿯、-퟿豈-﷏ﷰ-\ufffd\U00010000-\U000effff"
_U = _B + "_"
_C = _U + r"\-0-9·\u0300-\u036f‿-⁀"
_PLX = r"%[0-9a-fA-F]{2}|\\[_~.\-!$&'()*+,;=/?#@%]"
_PREFIX = r"(?:[%s](?:[%s.]*[%s])?)?:" % (_B, _C, _C)
_LOCAL = r"(?:[%s:0-9]|%s)(?:(?:[%s.:]|%s)*(?:[%s:]|%s))?" % (_U, _PLX, _C, _PLX, _C, _PLX)
_EC = r"\\[tbnrf\\\"']|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{8}"
WORDS = ("select distinct reduced where as optional filter minus union values bind having limit offset textlimit asc desc prefix "
         "regex langmatches lang str text score bound undef true false separator count sum avg min max sample group_concat a").split()
TOKENS = [(k, re.compile(v)) for k, v in [
    ("WS", r"(?:[ \t\r\n]|#[^\n\r]*)+"),
    ("IRI", r"(?:@[a-zA-Z]+(?:-[a-zA-Z0-9]+)*@)?<[^<>\"{}|^`\\\x00-\x20]*>"),
    ("VAR", r"[?$][%s0-9][%s0-9·\u0300-\u036f‿-⁀]*" % (_U, _U)),
    ("STRING", r"'''(?:'{0,2}(?:[^'\\]|%s))*'''|\"\"\"(?:\"{0,2}(?:[^\"\\]|%s))*\"\"\"|'(?:[^'\\\n\r]|%s)*'|\"(?:[^\"\\\n\r]|%s)*\"" % ((_EC,) * 4)),
    ("BNODE", r"_:[%s0-9](?:[%s.]*[%s])?|\[[ \t\r\n]*\]" % (_U, _C, _C)),
    ("PNAME", _PREFIX + _LOCAL),
    ("PNAME_NS", _PREFIX),
    ("LANGTAG", r"@[a-zA-Z]+(?:-[a-zA-Z0-9]+)*"),
    ("DEC", r"[0-9]*\.?[0-9]+[eE][+-]?[0-9]+|[0-9]+\.[eE][+-]?[0-9]+|[0-9]*\.[0-9]+"),
    ("INT", r"[0-9]+"),
    ("NEG", r"[+-](?:[0-9]*\.?[0-9]+(?:[eE][+-]?[0-9]+)?)"),
    ("WORD2", r"(?i)(?:group|order)(?:[ \t\r\n]|#[^\n\r]*[\n\r])*by"),
    ("WORD", r"(?i)" + "|".join(sorted(WORDS, key=lambda w: -len(w)))),
    ("SYM", r"\^\^|\|\||&&|[!<>][ \t\r\n]*=|[{}().;,=<>*/|^?+!\-]"),
]]


def lex(text):
    """[(class, raw)] or None if the text has something that is no token."""
    out, i = [], 0
    while i < len(text):
        best = None
        for k, r in TOKENS:
            m = r.match(text, i)
            if m and (best is None or m.end() > best[1]):
                best = (k, m.end())
        if best is None:
            return None
        k, e = best
        raw = text[i:e]
        if k == "WORD2":
            k = raw[:5].lower() + "by"
        elif k == "WORD":
            k = raw.lower()
            if raw == "A":
                return None
        elif k == "SYM":
            # QLever takes the two characters of a relation for one each
            k = re.sub(r"\s", "", raw)
        if k != "WS":
            out.append((k, raw))
        i = e
    return out


class Styled(R):
    """The same query, written in a random style."""

    def __init__(self, kb, sc, rng, prefixes=True):
        R.__init__(self, kb, sc)
        self.rng = rng
        self.prefixes = {}          # label -> IRI
        self.useprefix = prefixes and rng.random() < 0.7
        self.ws = rng.choice(["one", "tight", "wild", "wild"])
        self.case = rng.choice(["upper", "lower", "mixed", "as"])
        self.lists = rng.random() < 0.6
        self.parens = rng.random() < 0.4

    # -- structure

    def path(self, p, level=0):
        """level: 0 alternative, 1 sequence, 2 ^ or postfix, 3 operand of a postfix"""
        t, rng = p["t"], self.rng
        if t == "pred":
            s, prec = self.kb.t(p["p"]).sparql(), 3
        elif t == "alt":
            s, prec = self.path(p["a"], 0) + "|" + self.path(p["b"], rng.choice([0, 1])), 0
        elif t == "seq":
            s, prec = self.path(p["a"], 1) + "/" + self.path(p["b"], rng.choice([1, 2])), 1
        elif t == "inv":
            s, prec = "^" + self.path(p["a"], 2.5), 2
        else:
            s, prec = self.path(p["a"], 3) + {"plus": "+", "star": "*", "opt": "?"}[t], 2.5
        if prec < level or self.parens and rng.random() < 0.15:
            s = "(" + s + ")"
        return s

    def triples(self, e):
        if e["t"] == "bgp":
            return [(self.x(a), PRED + self.x(b) + PRED if b > 0 else self.x(b), self.x(c)) for a, b, c in e["ts"]]
        p = "ql:has-predicate" if e["t"] == "hp" else self.path(e["p"])
        return [(self.x(e["s"]), PRED + p + PRED, self.x(e["o"]))]

    def group(self, g):
        rng, out, i = self.rng, "", 0
        while i < len(g):
            if g[i]["t"] not in ("bgp", "hp", "path"):
                e = g[i]
                # what follows a triple needs a dot before it
                out += self.elem(e) + rng.choice([" ", " . "])
                i += 1
                continue
            ts = []
            while i < len(g) and g[i]["t"] in ("bgp", "hp", "path"):
                ts += self.triples(g[i])
                i += 1
            for k, (s, p, o) in enumerate(ts):
                if k and self.lists and s == ts[k - 1][0] and rng.random() < 0.8:
                    if p == ts[k - 1][1]:
                        out += " , %s" % o
                    else:
                        out += " ; " * rng.choice([1, 1, 1, 2]) + "%s %s" % (p, o)
                else:
                    out += (" . " if k else "") + "%s %s %s" % (s, p, o)
            if self.lists and rng.random() < 0.1:
                out += " ; "
            out += " . " if i < len(g) or rng.random() < 0.5 else " "
        return out

    def elem(self, e):
        t, rng = e["t"], self.rng
        if t == "values" and len(e["vs"]) == 1 and rng.random() < 0.4:
            return "VALUES (%s) { %s }" % (self.x(e["vs"][0]), " ".join("( %s )" % self.x(r[0]) for r in e["rows"]))
        if t == "bind":
            return R.elem(self, e).strip(" .")
        if t == "filter":
            f = self.filt(e["f"])
            if f.startswith(("langMatches", "regex")) and "||" not in f and rng.random() < 0.5:
                return "FILTER " + f
            n = 1 if rng.random() < 0.8 else 2
            return "FILTER %s%s%s" % ("( " * n, f, " )" * n)
        return R.elem(self, e)

    def filt(self, f):
        if f["op"] in OPS and f["r"] > 0 and not f.get("num") and self.rng.random() < 0.4:
            flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
            o = OPS[f["op"]]
            return "%s %s %s" % (self.c(f["r"]), flip.get(o, o), self.x(f["l"]))
        if f["op"] == "lang" and self.rng.random() < 0.3:
            return '(lang(%s) = "%s")' % (self.x(f["l"]), LANGS[f["lang"] - 1])
        return R.filt(self, f)

    # -- text

    def query(self, q):
        body = R.query(self, q)
        head = ""
        if body.startswith("PREFIX"):
            head, body = body.split("> ", 1)
            head += "> "
        if self.rng.random() < 0.3:
            head = ""               # ql: is declared anyway
        toks = []
        for i, part in enumerate(body.split(PRED)):
            if i % 2:
                toks.append(("PRED", "".join(self.token(k, r, True) for k, r in lex(part))))
            else:
                ts = lex(part)
                assert ts is not None, part
                for j, (k, r) in enumerate(ts):
                    if k == "^^" or k == "LANGTAG":
                        toks[-1] = ("STRING", toks[-1][1] + r)
                    elif toks and toks[-1][1].endswith("^^"):
                        toks[-1] = ("STRING", toks[-1][1] + self.token(k, r, False))
                    else:
                        toks.append((k, self.token(k, r, False)))
        decl = []
        for l, x in self.prefixes.items():
            decl += [("prefix", self.word("PREFIX")), ("PNAME_NS", l + ":"), ("IRI", "<%s>" % x)]
        if head:
            h = lex(head)
            decl = [(k, self.word(r) if k == "prefix" else r) for k, r in h] + decl
        return self.join(decl + toks)

    def token(self, k, r, pred):
        if k == "IRI":
            return self.name(r[1:-1]) or r
        if k == "STRING":
            return self.string(r)
        if k in ("groupby", "orderby"):
            return self.word(r[:5]) + self.space(True) + self.word("BY")
        if k.isalpha() and k.islower():
            return self.word(r)
        return r

    def word(self, w):
        if self.case == "upper":
            return w.upper()
        if self.case == "lower":
            return w.lower()
        if self.case == "mixed":
            return "".join(self.rng.choice([c.upper(), c.lower()]) for c in w)
        return w

    def name(self, x):
        """A prefixed name for an IRI, or None."""
        rng = self.rng
        if not self.useprefix or rng.random() < 0.25:
            return None
        own = [l for l, b in self.prefixes.items() if x.startswith(b)]
        if own and rng.random() < 0.8:
            l = rng.choice(own)
        else:
            free = [l for l in ("", "a", "ex", "text", "as", "x.y", "é", "x1", "select", "A", "p-q", "str", "xsd", "Ex",
                                "filter", "limit", "by", "count", "order", "a_b") if l not in self.prefixes]
            if not free:
                return None
            l = rng.choice(free)
            cut = rng.choice([0, len(x), x.rfind("/") + 1, x.rfind("#") + 1, rng.randint(0, len(x))])
            self.prefixes[l] = x[:cut]
        local = x[len(self.prefixes[l]):]
        out = ""
        for i, ch in enumerate(local):
            if re.match("[%s:0-9]" % _U, ch):
                out += ch
            elif i and re.match("[%s]" % _C, ch):
                out += ch
            elif ch == "." and 0 < i < len(local) - 1 and rng.random() < 0.5:
                out += ch
            elif ch in "_~.-!&'()*+,;=/?#@":
                out += "\\" + ch
            else:
                return None
        return l + ":" + out

    def string(self, r):
        """Another way to write a short string in double quotes."""
        rng = self.rng
        text = re.sub(r"\\(.)", lambda m: {"n": "\n", "r": "\r", "t": "\t"}.get(m.group(1), m.group(1)), r[1:-1])
        q = rng.choice(['"', '"', "'", '"""', "'''"])
        out = ""
        for i, ch in enumerate(text):
            x = rng.random()
            if x < 0.04:
                out += ("\\u%04X" if ord(ch) < 65536 else "\\U%08x") % ord(ch)
            elif x < 0.06:
                out += "\\U%08X" % ord(ch)
            elif ch == "\\":
                out += "\\\\"
            elif ch in "\n\r" and (len(q) == 1 or ch == "\r" or x < 0.5):
                out += {"\n": "\\n", "\r": "\\r"}[ch]
            elif ch == "\t" and x < 0.5:
                out += "\\t"
            elif ch == q[0] and (len(q) == 1 or x < 0.5 or i + 1 == len(text) or text[i + 1] == ch):
                out += "\\" + ch
            elif ch in "\"'" and x < 0.3:
                out += "\\" + ch
            else:
                out += ch
        return q + out + q

    def space(self, need):
        rng = self.rng
        if self.ws == "one":
            return " "
        if self.ws == "tight":
            return " " if need else ""
        r = rng.random()
        if not need and r < 0.3:
            return ""
        if r < 0.6:
            return rng.choice([" ", "  ", "\t", "\n", "\r\n", " \n "])
        if r < 0.7:
            return rng.choice([" ", "\n"]) + rng.choice(["#\n", "# } ?x \"\n", "#c\r\n", "#c\r", "# PREFIX ' <\n", "##\n\n"])
        return " "

    def join(self, toks):
        out = self.space(False)
        word = re.compile(r"[\w?$.:@\\%-]|[^\x00-\x7f]")
        for i, (k, r) in enumerate(toks):
            out += r
            if i + 1 == len(toks):
                break
            k2, r2 = toks[i + 1]
            need = k == "PRED" or ((r[-2:-1] == "\\" and k != "STRING" or word.match(r[-1]) is not None) and word.match(r2[0]) is not None)
            if k in ("<", ">", "<=", ">=", "=", "!=", "+", "-", "*", "/") or k2 in ("<", ">", "<=", ">=", "=", "!=", "+", "-", "*", "/"):
                need = True
            if k == "." or k2 == ".":
                # not a part of a number or a name
                need = need and (r[-1].isdigit() and k in ("INT", "DEC") or r2[0].isdigit() or k in ("PNAME", "PNAME_NS"))
                if k == "." and (k2 in ("INT", "DEC") or i and (word.match(toks[i - 1][1][-1]) or toks[i - 1][1][-2:-1] == "\\") and word.match(r2[0])):
                    need = True         # the dot could be a part of a name
            if r[-1] in "\"'" and r2[0] in "\"'":
                need = True
            out += self.space(need)
        return out + (self.space(False) if self.ws == "wild" else "")


# ------------------------------------------------------------ corruption

INSERT = ["{", "}", "(", ")", ".", ";", ",", "|", "/", "^", "*", "+", "?", "=", "<", ">", "!", "||", "&&", "SELECT", "WHERE", "FILTER",
          "OPTIONAL", "UNION", "MINUS", "VALUES", "BIND", "AS", "GROUP BY", "ORDER BY", "HAVING", "LIMIT", "OFFSET", "ASC", "DESC",
          "DISTINCT", "REDUCED", "PREFIX", "REGEX", "LANG", "STR", "COUNT", "TEXT", "SCORE", "TEXTLIMIT", "?x", "?zz", "<p0>", "<e1>",
          '"a"', "5", "-3", "1.5", "x:", "x:y", "foo", "@en", "^^", "*", "by", "LIMIT 1", "?x <p0> ?y", "<", "<p", '"', "'", "\\", "$", "%", "&"]


def corrupt(rng, text):
    """A text that differs from a query in a few places."""
    ts = lex(text)
    if rng.random() < 0.35 or ts is None:
        # characters
        for _ in range(rng.choice([1, 1, 1, 2])):
            i = rng.randrange(len(text))
            x = rng.random()
            if x < 0.4:
                text = text[:i] + text[i + 1:]
            elif x < 0.7:
                text = text[:i] + rng.choice("{}().;,<>\"'?|/^*+!=&\\@#:-x5 \n") + text[i:]
            elif x < 0.85:
                text = text[:i] + rng.choice("{}().;,<>\"'?|/^*+!=&\\@:-x5 ") + text[i + 1:]
            elif i + 1 < len(text):
                text = text[:i] + text[i + 1] + text[i] + text[i + 2:]
        return text
    # tokens, with the blanks that follow them
    parts, i = [], 0
    for k, r in ts:
        j = text.index(r, i) + len(r)
        parts.append(text[i:j])
        i = j
    x = rng.random()
    n = len(parts)
    k = rng.randrange(n)
    if x < 0.25:
        del parts[k:k + rng.choice([1, 1, 1, 2, 3])]
    elif x < 0.4:
        parts.insert(k, parts[k])
    elif x < 0.55:
        j = rng.randrange(n)
        parts[k], parts[j] = parts[j], parts[k]
    elif x < 0.65:
        parts[k] = " " + rng.choice(INSERT)
    elif x < 0.85:
        parts.insert(rng.choice([k, k, n, 0]), " " + rng.choice(INSERT) + " ")
    elif x < 0.95:
        parts = parts[:k]
    else:
        j = rng.randrange(n)
        parts += parts[min(j, k):max(j, k)]
    return "".join(parts)

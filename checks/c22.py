"""The server under good and bad requests: one client after another and several
at the same time, in HTTP as it should and should not be, with small limits for
memory and time; what the clients see against spec/Server.tla."""
import json, random, socket, struct, threading, urllib.parse as up

import qlever, sessions

NODES = ["<a>", "<b>", "<c>", "<d>", "<HTTP>", '"GET /"', '"HTTP/1.1"', '"x y"@en', '"ä&ö=ü"', '"50%"', '"a+b"', '"?#"']
PREDS = ["<p>", "<q>", "<r>"]
BIG = "SELECT ?a ?b ?c WHERE { ?a <big> ?b . ?c <big> ?b . }"

REJECTED = [
    "", "SELECT", "SELECT ?a", "SELECT ?a WHERE", "SELECT ?a WHERE {", "SELECT ?a WHERE { ?a <p> }", "SELECT WHERE { ?a <p> ?b . }",
    "SELECT ?a WHERE { ?a <p> ?b . } LIMIT -1", "SELECT ?a WHERE { ?a <p> ?b . } LIMIT x", "SELECT ?a WHERE { ?a <p> ?b . } OFFSET -5",
    "SELECT ?a WHERE { ?a <p> ?b . } ORDER BY ?z", "SELECT ?a WHERE { ?a <p> ?b . } GROUP BY ?z", "SELECT ?a ?b WHERE { ?a <p> ?b . } GROUP BY ?a",
    "SELECT (SUM(?z) AS ?y) WHERE { ?a <p> ?b . }", "SELECT (COUNT( AS ?y) WHERE { ?a <p> ?b . }", "PREFIX", "PREFIX : <", "PREFIX : <x> ",
    'SELECT ?a WHERE { ?a <p> "abc . }', "SELECT ?a WHERE { ?a <p> ?b . FILTER", "SELECT ?a WHERE { ?a <p> ?b . FILTER(}",
    'SELECT ?a WHERE { ?a <p> ?b . FILTER regex(?b, "(") }', 'SELECT ?a WHERE { ?a <p> ?b . FILTER regex(?b, "[") }',
    "SELECT ?a WHERE { ?a <p> ?b . FILTER regex(?b) }", "SELECT ?a WHERE { VALUES ?a { } }",
    "SELECT ?a WHERE { VALUES (?a ?b) { (<x>) } ?a <p> ?b . }", "SELECT ?a WHERE { ?a <p>/ ?b . }", "SELECT ?a WHERE { ?a <p>| ?b . }",
    "SELECT ?a WHERE { ?a <p>+5 ?b . }", "SELECT ?a WHERE { ?a ^ ?b . }", "SELECT ?a WHERE { ?a ql:has-predicate . }",
    "SELECT ?t WHERE { ?t ql:contains-word . }", "SELECT ?a WHERE { ?a <p> ?b . } HAVING", "SELECT ?a WHERE { ?a <p> ?b . BIND(1 AS ) }",
    "SELECT ?a WHERE { ?a <p> ?b . BIND(?z AS ?c) }", "SELECT ?a WHERE { ?a <p> ?b . FILTER(?b > ) }", "SELECT ?a WHERE { ?a <p ?b . }",
    "SELECT ?a WHERE { ?a <p> ?b . } ORDER BY DESC(", "SELECT ?a WHERE { ?a <p> ?b . } ORDER BY", "SELECT ?a WHERE { ; }", "\0", "ASK", "}", "{", "\n",
    "SELECT (SAMPLE() AS ?x) WHERE { ?a <p> ?b . }", "SELECT (COUNT(DISTINCT) AS ?x) WHERE { ?a <p> ?b . }", "SELECT ?a WHERE { ?a @@<p> ?b . }",
    "SELECT ?a WHERE { ?a <p> ?b . } LIMIT 1 LIMIT 2", 'SELECT (GROUP_CONCAT(?a; separator="x) AS ?x) WHERE { ?a <p> ?b . }']
# answered or not as the server likes, but without harm
ODD = [
    "SELECT ?z WHERE { ?a <p> ?b . }", "SELECT ?a WHERE { }", "SELECT ?a WHERE { ?a ?p ?b . }", "SELECT ?a WHERE { <a> <p> <b> . }",
    "SELECT ?a WHERE { ?a <p> ?b . ?c <q> ?d . }", "SELECT ?a WHERE { ?a <p>* ?b . }", "SELECT ?a WHERE { ?a <p>+ ?a . }",
    "SELECT ?a WHERE { ?a <p> ?b . OPTIONAL { } }", "SELECT ?a WHERE { OPTIONAL { ?a <p> ?b . } }", "SELECT ?a WHERE { { } UNION { } }",
    "SELECT ?a WHERE { ?a <p> ?b . MINUS { ?x <p> ?y . } }", "SELECT ?a WHERE { ?a <p> ?b . FILTER(?z > 3) }", "SELECT ?a ?a WHERE { ?a <p> ?b . }",
    "SELECT ?a WHERE { ?a <p> ?b . } OFFSET 99999999999999999999", "SELECT ?a WHERE { ?a <p> ?b . } LIMIT 99999999999999999999",
    'SELECT ?a WHERE { ?a <p> "abc"^^<http://www.w3.org/2001/XMLSchema#int> . }', 'SELECT ?a WHERE { ?a <p> ""^^<http://www.w3.org/2001/XMLSchema#dateTime> . }',
    'SELECT ?a WHERE { ?a <p> ?b . FILTER(?b > "-"^^<http://www.w3.org/2001/XMLSchema#int>) }', 'SELECT ?a WHERE { ?a <p> ?b . FILTER langMatches(lang(?b), "") }',
    'SELECT ?t WHERE { ?t ql:contains-word "x" . }', 'SELECT ?t WHERE { ?t ql:contains-word "*" . ?t ql:contains-entity ?e . }',
    "SELECT (COUNT(?a) AS ?a) WHERE { ?a <p> ?b . }", "SELECT ?a WHERE { ?a nope:x ?b . }", 'SELECT ?a WHERE { ?a <p> "\0" . }']
LINES = [b"HTTP GET", b"GET HTTP", b"GETHTTP", b"GET", b"HTTP", b"HTTPGET", b"", b"GET /?HTTP", b"GET / HTTP/1.1", b"GET /? HTTP/1.1", b"GET /?query HTTP/1.1",
         b"GET /?query= HTTP/1.1", b"GET ?query=x HTTP/1.1", b"GET /?query=%FF%FE HTTP/1.1", b"GET /?query=%F HTTP/1.1", b"GET /?query=% HTTP/1.1",
         b"GET /?%FF=1 HTTP/1.1", b"GET /?\xff=\xfe HTTP/1.1", b"GET /?&&& HTTP/1.1", b"GET /?=&=&= HTTP/1.1", b"POST / HTTP/1.1", b"PUT HTTP", b"GET /x HTTP/1.1",
         b"GET /../../etc/passwd HTTP/1.1", b"GET //// HTTP/1.1", b"GET /?cmd= HTTP/1.1", b"GET /?cmd=nothing HTTP/1.1", b"GET /?query=a&query=b HTTP/1.1",
         b"get /?query=x http/1.1", b"GET  /?query=x HTTP", b"GET /?query=x&timeout HTTP/1.1", b"GET /?action=csv_export HTTP/1.1", b"GET\t/\tHTTP/1.1"]


class Query:
    """A connected set of triple patterns."""

    def __init__(self, rng):
        var = lambda v: {"v": True, "s": v}
        const = lambda t: {"v": False, "s": t}
        names = ["?x", "?y", "?z", "?u"]
        self.pats, used = [], ["?x"]
        for j in range(rng.choice([1, 1, 2, 3])):
            a = var(rng.choice(used))
            fresh = [v for v in names if v not in used]
            b = const(rng.choice(NODES)) if self.pats and rng.random() < .3 else var(fresh[0])
            if b["v"]:
                used.append(b["s"])
            p = const(rng.choice(PREDS))
            self.pats.append([a, p, b] if rng.random() < .7 or (not b["v"] and b["s"][0] == '"') else [b, p, a])
        self.cols = used
        self.text = "SELECT %s WHERE { %s }" % (" ".join(used), " ".join("%s ." % " ".join(x["s"] for x in p) for p in self.pats))


def encoded(rng, text):
    k = rng.random()
    if k < .4:
        return up.quote_plus(text)
    if k < .6:
        return up.quote(text, safe="")
    if k < .8:      # more than needed, small letters
        return "".join("%%%02x" % b if rng.random() < .5 or chr(b) not in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ" else chr(b) for b in text.encode())
    return up.quote(text, safe="?<>{}.\"/:@").replace("%20", "+")


def line(rng, params):
    ps = list(params.items())
    if rng.random() < .3:
        ps.append((rng.choice(["foo", "x", "send2"]), rng.choice(["", "1", "a b"])))
    rng.shuffle(ps)
    up_ = lambda n: n if rng.random() < .9 else n.upper()
    return ("GET /?" + "&".join("%s=%s" % (up_(n), encoded(rng, str(v))) for n, v in ps) + " HTTP/1.1").encode()


def whole(rng, l):
    heads = b"".join(rng.choice([b"Host: x\r\n", b"User-Agent: GET HTTP\r\n", b"Accept: */*\r\n", b"X: " + b"y" * 300 + b"\r\n"]) for _ in range(rng.randint(0, 3)))
    return l + b"\r\n" + heads + b"\r\n"


def mutated(rng, text):
    t = list(text)
    for _ in range(rng.choice([1, 1, 2, 5])):
        k, j = rng.random(), rng.randrange(len(t) + 1)
        if k < .4 and t:
            del t[min(j, len(t) - 1)]
        elif k < .6:
            t.insert(j, rng.choice('{}()<>".?;,^|/*+@\\ \n\t\'#' + "aäZ"))
        elif k < .8:
            t = t[:j]
        else:
            h = rng.randrange(len(t) + 1)
            t = t + t[min(j, h):max(j, h)]
    return "".join(t)


def nested(rng):
    n = rng.choice([5, 20, 60, 150, 1000, 20000])
    k = rng.randrange(4)
    close = rng.random() < .6
    q = ["SELECT ?a WHERE { ?a <p> ?b . " + "OPTIONAL { ?a <p> ?b . " * n + " }" * n * close,
         "SELECT ?a WHERE { ?a <p> ?b . " + "{ SELECT ?a WHERE { ?a <p> ?b . " * n + " } }" * n * close,
         "SELECT ?a WHERE { " + "{ ?a <p> ?b . } UNION { " * n + " ?a <p> ?b . }" + " }" * n * close,
         "SELECT ?a WHERE { ?a " + "(" * n + "<p>" + ")" * n * close + " ?b . }"][k]
    return q + " }" * close


class Client:
    def __init__(self, server, rng):
        self.server, self.rng = server, rng

    def send(self, data, half=False, hangup=None):
        """-> status, body.  half: no more will be sent; hangup: close after so many bytes."""
        rng = self.rng
        try:
            with socket.create_connection(("127.0.0.1", self.server.port), timeout=60) as s:
                parts = [data]
                if rng.random() < .2 and len(data) > 3:
                    j = rng.randrange(1, len(data))
                    parts = [data[:j], data[j:]]
                for p in parts:
                    if hangup is not None:
                        p = p[:hangup]
                    s.sendall(p)
                if hangup is not None:
                    if rng.random() < .5:
                        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    return "closed", b""
                if half:
                    s.shutdown(socket.SHUT_WR)
                out = []
                while True:
                    b = s.recv(1 << 16)
                    if not b:
                        break
                    out.append(b)
        except socket.timeout:
            return "none", b""
        except OSError:
            return ("closed" if self.server.alive() else "down"), b""
        r = b"".join(out)
        head, _, body = r.partition(b"\r\n\r\n")
        if not r:
            return "closed", b""
        code = head.split(b" ")[1:2]
        if code != [b"200"]:
            return code[0].decode() if code else "garbage", body
        try:
            return json.loads(body.decode("utf8", "surrogateescape")).get("status", "OK"), body
        except ValueError:
            return "garbage", body


class Session(sessions.Session):
    module = "ServerTrace"

    def __init__(self, key, n):
        self.key, self.n = key, n

    def good(self, rng, cl, q, pin, crowd=False):
        ps = {"query": q.text}
        if pin:
            ps[rng.choice(["pinresult", "pinresult", "pinsubtrees"])] = "true"
        if rng.random() < .2:
            ps["timeout"] = "1000"
        if rng.random() < .1:
            ps["send"] = "100000"
        l = line(rng, ps)
        st, body = cl.send(whole(rng, l))
        rows = json.loads(body.decode("utf8", "surrogateescape"))["res"] if st == "OK" else []
        return dict(e="good", q=q.text, pats=q.pats, cols=q.cols, pin=pin, status=st, rows=rows), (l.decode("latin1"), rows if st == "OK" else st + " " + body[:300].decode("latin1"))

    def big(self, rng, cl):
        msecs = rng.choice([0, 0, 1, 1, 1, 20])
        ps = {"query": BIG, "send": "0"}
        if msecs:
            ps["timeout"] = "%.3f" % (msecs / 1000)
        l = line(rng, ps)
        st, body = cl.send(whole(rng, l))
        got = json.loads(body.decode("utf8", "surrogateescape"))["resultsize"] if st == "OK" else -1
        return dict(e="big", msecs=msecs, status=st, got=got), (l.decode("latin1"), "%s %d %s" % (st, got, body[:300].decode("latin1")))

    def bad(self, rng, cl, q, leave):
        k = rng.random() * (1 if leave else .88)
        odd = gone = False
        if k < .2:
            l = rng.choice(LINES)
            data = whole(rng, l)
            st, body = cl.send(data, half=True)
        elif k < .3:
            data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 10, 100, 20000])))
            if rng.random() < .5:
                data = b"GET /?" + data + b" HTTP/1.1\r\n\r\n"
            st, body = cl.send(data, half=True)
        elif k < .45:
            data = whole(rng, line(rng, {"query": rng.choice(REJECTED)}))
            st, body = cl.send(data)
        elif k < .55:
            odd, data = True, whole(rng, line(rng, {"query": rng.choice(ODD)}))
            st, body = cl.send(data)
        elif k < .75:
            odd, data = True, whole(rng, line(rng, {"query": mutated(rng, q.text)}))
            st, body = cl.send(data)
        elif k < .8:
            odd, data = True, whole(rng, line(rng, {"query": q.text, rng.choice(["timeout", "send"]): rng.choice(["-1", "abc", "", "1e300", "nan", "0", "999999999999999999999"])}))
            st, body = cl.send(data)
        elif k < .88:
            odd, data = True, whole(rng, line(rng, {"query": nested(rng)}))
            st, body = cl.send(data)
        else:
            odd = gone = True
            data = whole(rng, line(rng, {"query": q.text if rng.random() < .7 else BIG}))
            st, body = cl.send(data, hangup=rng.choice([0, 1, 10, len(data) - 2, len(data), len(data)]))
        return dict(e="bad", odd=odd, gone=gone, status=st), (data[:2000].decode("latin1"), st + " " + body[:300].decode("latin1"))

    def command(self, rng, cl, cmd, q):
        st, body = cl.send(whole(rng, line(rng, {"cmd": {"clear": "clearcache", "clearall": "clearcachecomplete"}[cmd]})))
        return dict(e=cmd, status=st), (cmd, st)

    def stats(self, rng, cl):
        st, body = cl.send(whole(rng, line(rng, {"cmd": "cachestats"})))
        try:
            j = json.loads(body)
            return dict(e="stats", pinned=j["num-pinned-entries"], others=j["num-non-pinned-entries"]), ("cachestats", body.decode("latin1"))
        except (ValueError, KeyError):
            return dict(e="bad", odd=False, gone=False, status="garbage"), ("cachestats", st)

    def run(self, bindir, only=None, id0=0):
        rng = random.Random(self.key)
        triples = {(rng.choice(NODES[:5]), rng.choice(PREDS), rng.choice(NODES)) for _ in range(rng.randint(5, 25))}
        heavy = rng.random() < .15
        groups = [rng.randint(700, 800), rng.randint(720, 800)] if heavy else [rng.choice([rng.randint(1, 40), rng.randint(80, 200)]) for _ in range(rng.randint(1, 3))]
        text = "".join(" ".join(t) + " .\n" for t in sorted(triples))
        text += "".join("<s%d_%d> <big> <o%d> .\n" % (g, j, g) for g, n in enumerate(groups) for j in range(n))
        memory = 0
        if rng.random() < .45:
            memory = rng.choice([2000000, 10000000] if heavy else [400000, 600000, 1000000])
        threads = rng.choice([1, 1, 2, 4])
        leave = threads == 1 or rng.random() < .3
        pool = [Query(rng) for _ in range(6)]
        evs, texts = [], {}

        def note(ev, t, crowd=False):
            ev.update(crowd=crowd, id=id0 + len(evs))
            evs.append(ev)
            texts[ev["id"]] = t

        def step(rng, cl, crowd=False):
            q = rng.choice(pool)
            k = rng.random()
            if k < .4:
                return [self.good(rng, cl, q, rng.random() < .2)]
            if k < .72:
                return [self.bad(rng, cl, q, crowd or leave)]
            if k < .82:
                return [self.big(rng, cl)]
            if k < .86:
                return [self.command(rng, cl, "clear", q)]
            if k < .92:
                r = [self.command(rng, cl, "clearall", q)]
                return r if crowd else r + [self.good(rng, cl, q, False)]
            return [] if crowd else [self.stats(rng, cl)]

        limits = {"MEMORY_FOR_QUERIES": memory} if memory else None
        with sessions.Running(bindir, text, threads=threads, limits=limits) as r:
            if r.server is None:
                note(dict(e="bad", odd=False, gone=False, status="down"), ("start", r.down))
            else:
                for _ in range(self.n):
                    for ev, t in step(rng, Client(r.server, rng)):
                        note(ev, t)
                lock, seeds = threading.Lock(), [rng.random() for _ in range(rng.choice([2, 4, 6]))]

                def one(seed):
                    g = random.Random(seed)
                    for _ in range(8):
                        for ev, t in step(g, Client(r.server, g), True):
                            with lock:
                                note(ev, t, True)
                ts = [threading.Thread(target=one, args=(x,)) for x in seeds]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                for _ in range(self.n // 3):
                    for ev, t in step(rng, Client(r.server, rng)):
                        note(ev, t)
        first = {"e": "kb", "triples": [list(t) for t in sorted(triples)], "memory": memory, "threads": threads, "groups": groups}
        return first, evs, texts, text, {"threads": threads, "memory": memory}


def check(c):
    tasks = [Session("C22/%d/%d" % (c.seed, i), 40) for i in range(c.pick(300, 1500))]
    sessions.check(c, tasks, control=lambda e: dict(e, rows=e["rows"][1:]) if e["e"] == "good" and e["status"] == "OK" and e["rows"] and e["crowd"] is False else None)

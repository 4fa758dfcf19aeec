"""ORDER BY, LIMIT and OFFSET against spec/Sparql.tla."""
import qbuild
from engine import Task, check_sessions, probe

INT = '"%d"^^<http://www.w3.org/2001/XMLSchema#int>'
TTL = "".join("<%s> <n> %s .\n" % (x, INT % n) for x, n in (("a", 3), ("b", -7), ("c", 0), ("d", -2)))
SUM = "SELECT ?x (SUM(?n) AS ?s) WHERE { ?x <n> ?n } GROUP BY ?x ORDER BY ?s"

# what most queries are about, and some in which it is a part
FAMILIES = ["order"] * 6 + ["aggsub", "group"]


def check(c):
    n = c.pick(240, 800)
    check_sessions(c, [Task("C05/%d/%d" % (c.seed, i), FAMILIES, 40) for i in range(n)])
    probe(c, qbuild.mains(), "ORDER BY a sum, mean or computed number", TTL, SUM,
          lambda rows: [r[0] for r in rows] == ["<b>", "<d>", "<c>", "<a>"])

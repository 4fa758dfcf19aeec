"""OPTIONAL, UNION, MINUS and subqueries against spec/Sparql.tla."""
import qbuild
from engine import Task, check_sessions, probe

TTL = "<a> <p> <x> .\n<b> <p> <x> .\n<c> <p> <x> .\n<a> <q> <y> .\n<b> <q> <y> .\n<c> <q> <y> .\n"
LIMIT = "SELECT ?x WHERE { { SELECT ?x WHERE { ?x <p> ?y } LIMIT 1 } ?x <q> ?z }"

# what most queries are about, and some in which it is a part
FAMILIES = ["opt", "union", "minus", "sub", "group", "aggsub"] * 2 + ["fbv", "agg", "order"]


def check(c):
    n = c.pick(320, 1200)
    check_sessions(c, [Task("C02/%d/%d" % (c.seed, i), FAMILIES, 40) for i in range(n)])
    probe(c, qbuild.mains(), "LIMIT/OFFSET inside a subquery is ignored", TTL, LIMIT, lambda rows: len(rows) == 1)

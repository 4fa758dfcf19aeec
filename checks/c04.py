"""Grouping, aggregates, HAVING and DISTINCT against spec/Sparql.tla."""
import qbuild
from engine import Task, check_sessions, probe

TTL = "<a> <p> <x> .\n<b> <p> <x> .\n<x> <q> <y> .\n"
CONCAT = "SELECT ?y ?c ?z WHERE { { SELECT ?y (GROUP_CONCAT(?x) AS ?c) WHERE { ?x <p> ?y } GROUP BY ?y } ?y <q> ?z }"

# what most queries are about, and some in which it is a part
FAMILIES = ["agg"] * 5 + ["aggsub"] * 3 + ["group", "hp"]


def check(c):
    n = c.pick(320, 1200)
    check_sessions(c, [Task("C04/%d/%d" % (c.seed, i), FAMILIES, 40) for i in range(n)])
    probe(c, qbuild.mains(), "the result of GROUP_CONCAT in a subquery is lost", TTL, CONCAT,
          lambda rows: len(rows) == 1 and rows[0][1] in ("<a> <b>", "<b> <a>"))

"""FILTER, BIND and VALUES against spec/Sparql.tla."""
from engine import Task, check_sessions

# what most queries are about, and some in which it is a part
FAMILIES = ["fbv"] * 5 + ["agg", "aggsub", "union", "opt"]


def check(c):
    n = c.pick(320, 1200)
    check_sessions(c, [Task("C03/%d/%d" % (c.seed, i), FAMILIES, 40) for i in range(n)])

"""Property paths against spec/Sparql.tla."""
from engine import Task, check_sessions

FAMILIES = ["path"]


def check(c):
    n = c.pick(320, 1200)
    check_sessions(c, [Task("C06/%d/%d" % (c.seed, i), FAMILIES, 40) for i in range(n)])

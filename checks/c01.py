"""Conjunctive queries (and everything they pass through: planner, joins,
permutations, vocabulary) against the algebra of spec/Sparql.tla."""
from engine import Task, check_sessions

# what most queries are about, and some in which it is a part
FAMILIES = ["bgp"] * 5 + ["sub", "opt", "aggsub", "fbv", "order"]


def check(c):
    n = c.pick(320, 1200)
    check_sessions(c, [Task("C01/%d/%d" % (c.seed, i), FAMILIES, 40) for i in range(n)])

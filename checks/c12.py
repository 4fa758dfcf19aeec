"""The same data and queries with every kind of storage: each build variant is
a session of its own whose answers are judged by the specification (which knows
nothing of storage)."""
import random

import gen
from engine import Ask, Plan, Restart, Task, check_sessions
from c10 import named_kb

FAM = ["bgp", "bgp", "bgp", "opt", "union", "minus", "sub", "fbv", "fbv", "agg", "agg", "path", "hp", "hp", "order"]
ODD = ["bgp", "bgp", "opt", "union", "sub", "path", "hp"]


def order_free(x):
    """Nothing in the query compares or sorts texts."""
    if isinstance(x, list):
        return all(order_free(y) for y in x)
    if isinstance(x, dict):
        if x.get("op") in ("lt", "le", "gt", "ge", "prefix", "regex") and "f" not in x:
            return False
        if x.get("f") in ("min", "max") or x.get("ord"):
            return False
        return all(order_free(v) for v in x.values())
    return True


VARIANTS = ["plain", "uncompressed", "nopatterns", "literals", "literals", "prefixes", "prefixes", "languages", "languages", "all",
            "batches", "ascii", "keep"]


class Build(Task):
    def __init__(self, key, variant, nq, kbmaker, families):
        Task.__init__(self, key, families, nq, kbmaker=kbmaker)
        self.variant = variant

    def plan(self):
        rng, kb, qs, s, lim = self.make()
        v = self.variant
        rng = random.Random(self.key + v)
        s, lim, build, server = {}, {}, [], []
        names = [v] if v != "all" else ["literals", "prefixes", "languages", "batches"] + rng.choice([[], ["uncompressed"], ["nopatterns"]])
        for n in names:
            if n == "uncompressed":
                build.append("-N")
            elif n == "nopatterns":
                build.append("--no-patterns")
                server.append("--no-patterns")
            elif n == "literals":
                build.append("-l")
                lim["MAX_INTERNAL_LITERAL_BYTES"] = rng.choice([2, 3, 4, 5, 8, 30])
            elif n == "prefixes":
                ents = [t.text for t in kb.terms if t.kind == "iri" and not t.text.startswith("<QLever")]
                s["prefixes-external"] = rng.choice([["<e"], ["<p"], ["<http"], ["<"], [rng.choice(ents)], ["<e1", "<p0"],
                                                     [x[:rng.randint(1, len(x))] for x in rng.sample(ents, min(3, len(ents)))]])
            elif n == "languages":
                s["languages-internal"] = rng.choice([["en"], ["de", "fr"], [""], ["en", "de", "fr"], ["xx"], []])
            elif n == "batches":
                s["num-triples-per-partial-vocab"] = rng.choice([2, 3, 5, 8])
                s["parser-batch-size"] = rng.choice([1, 2, 3, 1000])
            elif n == "ascii":
                s["ascii-prefixes-only"] = True
            elif n == "keep":
                build.append("-k")
        if rng.random() < 0.4:
            s.setdefault("num-triples-per-partial-vocab", rng.choice([3, 5, 10]))
        external = bool({"literals", "prefixes", "languages"} & set(names))
        steps = []
        for sc, q, t in qs:
            if external and not order_free(q):
                continue
            if "--no-patterns" in build and "'hp'" in repr(q):
                continue
            if rng.random() < 0.05:
                steps.append(Restart())
            steps.append(Ask(sc, q, t))
        return Plan(kb, steps, settings=s, limits=lim, build=build, server=server)


def check(c):
    tasks = []
    for i in range(c.pick(12, 90)):
        for maker, fam, name in ((None, FAM, "p"), (named_kb, FAM, "n"), (gen.odd_kb, ODD, "o")):
            for v in sorted(set(VARIANTS)):
                for k in range(VARIANTS.count(v)):
                    tasks.append(Build("C12/%s/%d/%d" % (name, c.seed, i), v, 24, maker, fam))
    check_sessions(c, tasks)

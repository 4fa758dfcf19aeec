"""Runs a scheduled harness and has TLC judge the histories it records."""
import concurrent.futures as cf
import json, subprocess

import graph


class Job:
    def __init__(self, id, mode, runs, seed, scenario, meta):
        self.id, self.mode, self.runs, self.seed, self.scenario, self.meta = id, mode, runs, seed, scenario, meta

    def line(self):
        return "%s %s %d %d %s" % (self.id, self.mode, self.runs, self.seed, self.scenario)


def drive(exe, job, timeout=900):
    r = subprocess.run([exe], input=job.line() + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    hist, broken, runs, steps = [], None, 0, 0
    for l in r.stdout.split("\n"):
        f = l.split(" ", 3)
        if f[0] == "H":
            hist.append((json.loads(f[3]), int(f[2])))
        elif f[0] == "B":
            broken = (f[2], f[3])
        elif f[0] == "R":
            runs, steps = int(f[2]), int(f[3])
    if broken is None and (r.returncode != 0 or runs == 0):
        broken = ("ended with status %d" % r.returncode, "")
    return hist, broken, runs, steps


def explore(check, exe, module, jobs, corrupt=None, chunk=300):
    """jobs -> histories -> verdicts.  corrupt(history) gives a history that must be rejected."""
    jobs_by = {j.id: j for j in jobs}
    traces, origin = [], []
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: (j, drive(exe, j)), jobs))
    for j, (hist, broken, runs, steps) in res:
        check.add(schedules=runs, scheduler_steps=steps, histories=len(hist))
        if broken and len(check.violations) < 3:
            again = drive(exe, j)[1]
            if again:
                check.violation("%s in scenario %s: %s" % (broken[0], j.line(), broken[1][-1500:]),
                                {"input": j.line(), "what": broken})
            else:
                raise RuntimeError("%s in scenario %s does not repeat" % (broken[0], j.line()))
        for h, n in hist:
            if not h:
                continue
            traces.append(dict(j.meta, ev=h))
            origin.append(j)
    if traces:
        check.sample({"scenario": origin[0].line(), "history": traces[len(traces) // 3]["ev"]})
    control = corrupt(traces[0]) if corrupt and traces else None
    bad = graph.accepted(check, module, traces + ([control] if control else []), chunk=chunk)
    if control:
        if len(traces) not in bad:
            raise RuntimeError("the specification accepts a corrupted history")
        bad.remove(len(traces))
    for i in bad[:3]:
        check.violation("not a behaviour of the specification: scenario %s\nhistory %s" % (
            origin[i].line(), json.dumps(traces[i]["ev"])), {"input": origin[i].line(), "history": traces[i]})
    if len(bad) > 3:
        check.log("%d histories are not behaviours of the specification" % len(bad))

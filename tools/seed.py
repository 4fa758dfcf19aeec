#!/usr/bin/env python3
"""Plants bugs (development tool, no check uses it).

seed.py new FILE.py   FILE defines BUGS = [dict(id, property, needs, breaks,
                      edits=[(file, old, new)], data, case)], each is turned
                      into seeded/<id>/, built, tested, demonstrated
seed.py check ID...   applies seeded/<id>, runs the check of its property
"""
import json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def clean():
    assert sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip() == "", "repo not clean"


def revert():
    sh(["git", "-C", REPO, "checkout", "--", "."])


def demo(d):
    return sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO, timeout=300)


def new(bugs):
    for b in bugs:
        clean()
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        for k, v in b.get("files", {}).items():
            with open(os.path.join(d, k), "w") as f:
                f.write(v)
        if "case" in b:
            shutil.copy(os.path.join(V, "tools", "demo_query.py"), os.path.join(d, "demo.py"))
            with open(os.path.join(d, "data." + b["case"].get("format", "ttl")), "w") as f:
                f.write(b["data"])
            with open(os.path.join(d, "case.json"), "w") as f:
                json.dump(b["case"], f, indent=1)
            with open(os.path.join(d, "demo.sh"), "w") as f:
                f.write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
            sh(["bash", "/opt/vp/build.sh"])
            print(sh(["python3", os.path.join(d, "demo.py"), "--record"], cwd=REPO).stdout)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        try:
            for fn, old, nw in b["edits"]:
                p = os.path.join(REPO, fn)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], fn, s.count(old))
                open(p, "w").write(s.replace(old, nw))
            diff = sh(["git", "-C", REPO, "diff"]).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            r = sh(["bash", "/opt/vp/build.sh"])
            if r.returncode:
                print(b["id"], "DOES NOT BUILD\n", r.stdout[-2500:])
                continue
            sh(["bash", "/opt/vp/test.sh", "/tmp/seed_out.json"])
            t = json.load(open("/tmp/seed_out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            dr = demo(d)
            print("%s tests passed %d failed %s; demo with patch: %d %s" % (
                b["id"], len(t["passed"]), t["failed"], dr.returncode, dr.stdout[-700:]))
        finally:
            revert()
        sh(["bash", "/opt/vp/build.sh"])
        dr = demo(d)
        print("%s demo unchanged: %d %s" % (b["id"], dr.returncode, dr.stdout[-300:]), flush=True)


def check(ids, tier="quick"):
    for i in ids:
        clean()
        d = os.path.join(V, "seeded", i)
        m = json.load(open(os.path.join(d, "meta.json")))
        r = sh(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])
        if r.returncode:
            print(i, "does not apply", r.stdout)
            continue
        try:
            t = time.time()
            r = sh(["python3", "checks/run.py", os.environ.get("PROP", m["property"])], cwd=V,
                   env=dict(os.environ, VERIF_TIER=tier))
            print("%s %s rc=%d %.0fs\n%s" % (i, m["property"], r.returncode, time.time() - t, r.stdout[-900:]), flush=True)
        finally:
            revert()


if __name__ == "__main__":
    if sys.argv[1] == "new":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        only = sys.argv[3:]
        new([b for b in ns["BUGS"] if not only or b["id"] in only])
    else:
        check(sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded"))))

"""Builds an index from data.ttl, runs the queries of case.json on a server and
compares the answers with the recorded right ones.  Exit 0: all right."""
import json, os, shutil, socket, subprocess, sys, tempfile, time, urllib.parse, urllib.request

here = os.path.dirname(os.path.abspath(__file__))
case = json.load(open(os.path.join(here, "case.json")))
bindir = os.path.abspath("_build")
wd = tempfile.mkdtemp(prefix="demo")
rc = 0
srv = None


def canon(q, rows):
    return rows if q.get("ordered") else sorted(rows, key=lambda r: json.dumps(r))


try:
    ext = case.get("format", "ttl")
    shutil.copy(os.path.join(here, "data." + ext), os.path.join(wd, "data." + ext))
    cmd = [os.path.join(bindir, "IndexBuilderMain"), "-i", "ix", "-f", "data." + ext, "-F", ext] + case.get("build", [])
    if "settings" in case:
        json.dump(case["settings"], open(os.path.join(wd, "settings.json"), "w"))
        cmd += ["-s", "settings.json"]
    for f in case.get("files", []):
        shutil.copy(os.path.join(here, f), os.path.join(wd, f))
    r = subprocess.run(cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if r.returncode != 0:
        print(r.stdout.decode("utf8", "replace")[-1500:])
        print("index build failed")
        sys.exit(1)
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    srv = subprocess.Popen([os.path.join(bindir, "ServerMain"), "-i", "ix", "-p", str(port)] + case.get("server", []),
                           cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for _ in range(200):
        try:
            socket.create_connection(("127.0.0.1", port), 1).close()
            break
        except OSError:
            time.sleep(0.1)
    for q in case["queries"]:
        params = dict(q.get("params", {}))
        if "query" in q:
            params["query"] = q["query"]
        url = "http://127.0.0.1:%d/?%s" % (port, urllib.parse.urlencode(params))
        try:
            body = urllib.request.urlopen(url, timeout=30).read().decode("utf8", "replace")
        except Exception as e:
            body = "no answer: %s" % e
        if "expect" not in q and "expect_text" not in q and "--record" not in sys.argv:
            continue
        if q.get("raw"):
            got = body
        else:
            try:
                d = json.loads(body)
                got = canon(q, d["res"]) if d.get("status") == "OK" else "ERROR"
            except ValueError:
                got = "no JSON: " + body[:200]
        if "--record" in sys.argv:
            if not q.get("setup"):
                q["expect"] = got
            print(q.get("query"), "->", json.dumps(got)[:600])
        elif got != q["expect"]:
            print("WRONG:", q.get("query"), "\n  got     ", json.dumps(got)[:600], "\n  expected", json.dumps(q["expect"])[:600])
            rc = 1
    if "--record" in sys.argv:
        json.dump(case, open(os.path.join(here, "case.json"), "w"), indent=1)
finally:
    if srv:
        srv.kill()
        srv.wait()
    shutil.rmtree(wd, ignore_errors=True)
sys.exit(rc)

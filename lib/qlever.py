"""Drives the real programs: builds an index with IndexBuilderMain, runs
ServerMain on it and talks HTTP to it.  Everything lives in a scratch dir."""
import json, os, shutil, signal, socket, subprocess, tempfile, threading, time, urllib.parse

ENV = {"LC_ALL": "C.UTF-8", "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
       "HOME": "/tmp", "OMP_NUM_THREADS": "1"}


class ToolError(Exception):
    """The machinery (not the property) failed."""


class BuildCrash(Exception):
    """The index builder did not finish with exit code 0."""


def scratch(prefix="qv"):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def build_index(bindir, wd, text, fmt="ttl", settings=None, args=(), limits=None,
                base="kb", words=None, docs=None, later=False, timeout=60):
    """text: bytes or str of the input file; later: add the text index in a
    second run.  Raises BuildCrash if it fails."""
    if isinstance(text, str):
        text = text.encode("utf8")
    inp = os.path.join(wd, base + "." + fmt)
    with open(inp, "wb") as f:
        f.write(text)
    cmd = [os.path.join(bindir, "IndexBuilderMain"), "-i", os.path.join(wd, base),
           "-f", inp, "-F", fmt] + list(args)
    if settings is not None:
        sp = os.path.join(wd, base + ".settings.json")
        with open(sp, "w") as f:
            json.dump(settings, f)
        cmd += ["-s", sp]
    cmds = [cmd]
    if later:
        cmd = [cmd[0], "-i", os.path.join(wd, base), "-A"] + list(args)
        cmds.append(cmd)
    if words is not None:
        wp = os.path.join(wd, base + ".wordsfile")
        with open(wp, "w") as f:
            f.write(words)
        cmd += ["-w", wp]
    if docs is not None:
        dp = os.path.join(wd, base + ".docsfile")
        with open(dp, "w") as f:
            f.write(docs)
        cmd += ["-d", dp]
    env = dict(ENV)
    for k, v in (limits or {}).items():
        env["QLEVER_LIMIT_" + k] = str(v)
    # STXXL's (sparse) disk file: a small one in the scratch directory.
    with open(os.path.join(wd, ".stxxl"), "w") as f:
        f.write("disk=%s,100MiB,syscall delete\n" % os.path.join(wd, "stxxl.tmp"))
    with open(os.path.join(wd, base + ".build.log"), "wb") as log:
        rc = 0
        for cmd in cmds:
            try:
                rc = rc or subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=wd, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
    if rc != 0:
        with open(os.path.join(wd, base + ".build.log"), "rb") as f:
            tail = f.read()[-600:].decode("utf8", "replace")
        raise BuildCrash("IndexBuilderMain ended with %s: %s" % (rc, tail))
    return os.path.join(wd, base)


def _free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Server:
    def __init__(self, bindir, index, threads=2, args=(), limits=None, timeout=60):
        self.index = index
        env = dict(ENV)
        for k, v in (limits or {}).items():
            env["QLEVER_LIMIT_" + k] = str(v)
        wd = os.path.dirname(index)
        self.log = index + ".server.log"
        for attempt in range(5):
            self.port = _free_port()
            with open(self.log, "wb") as log:
                self.proc = subprocess.Popen(
                    [os.path.join(bindir, "ServerMain"), "-i", index, "-p", str(self.port),
                     "-j", str(threads)] + list(args),
                    stdout=log, stderr=subprocess.STDOUT, env=env, cwd=wd)
            end = time.time() + timeout
            ok = False
            while time.time() < end and self.proc.poll() is None:
                try:
                    with socket.create_connection(("127.0.0.1", self.port), timeout=2):
                        ok = True
                        break
                except OSError:
                    time.sleep(0.01)
            if ok:
                return
            tail = open(self.log, "rb").read()[-500:].decode("utf8", "replace")
            self.stop()
            if "Failed to create socket" not in tail:
                break
        raise ServerDown("server did not start: " + tail)

    def raw(self, data, wait=60):
        """Send raw bytes, return all bytes of the answer."""
        try:
            with socket.create_connection(("127.0.0.1", self.port), timeout=wait) as s:
                s.sendall(data)
                out = []
                while True:
                    b = s.recv(1 << 16)
                    if not b:
                        break
                    out.append(b)
                return b"".join(out)
        except OSError as e:
            if self.proc.poll() is not None:
                raise ServerDown("server ended with %s" % self.proc.returncode)
            raise ServerDown("no answer: %r" % e)

    def get(self, params, wait=60):
        q = urllib.parse.urlencode(params)
        r = self.raw(("GET /?" + q + " HTTP/1.1\r\nHost: x\r\n\r\n").encode("ascii"), wait)
        head, _, body = r.partition(b"\r\n\r\n")
        if not head:
            if self.proc.poll() is not None:
                raise ServerDown("server ended with %s" % self.proc.returncode)
            raise ServerDown("empty answer")
        return head, body

    def query(self, sparql, wait=60, **params):
        """-> dict: status OK/ERROR, rows (list of lists of str), resultsize."""
        p = {"query": sparql}
        p.update(params)
        head, body = self.get(p, wait)
        try:
            j = json.loads(body.decode("utf8", "surrogateescape"))
        except ValueError:
            return {"status": "GARBAGE", "rows": [], "text": body[:300].decode("utf8", "replace")}
        if j.get("status") == "OK":
            return {"status": "OK", "rows": j["res"], "resultsize": j["resultsize"], "selected": j["selected"]}
        return {"status": "ERROR", "rows": [], "text": j.get("exception", "")}

    def tsv(self, sparql, action="tsv_export", wait=60, **params):
        p = {"query": sparql, "action": action}
        p.update(params)
        head, body = self.get(p, wait)
        return body.decode("utf8", "surrogateescape")

    def alive(self):
        return self.proc.poll() is None

    def stop(self):
        try:
            self.proc.kill()
        except OSError:
            pass
        self.proc.wait()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


class ServerDown(Exception):
    """The server ended or gave no answer."""

"""Runs TLC on a module of spec/."""
import os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    """TLC did not finish its job (not: it found a violation)."""


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"(\d+) states generated \(", out) if not m else m
        self.ok = rc == 0 and "No error has been found" in out
        self.violated = rc in (12, 13)  # safety, liveness

    def printed(self, tag):
        """The values printed as <<"tag", value>>."""
        return re.findall(r'<<\s*"%s",\s*(.*?)\s*>>\s*\n' % tag, self.out, re.S)


def run(module, cfg=None, env=None, workers=1, timeout=600, args=(), mem="3g", deadlock=None):
    wd = tempfile.mkdtemp(prefix="tlc")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss32m", "-Xmx" + mem,
               "-Djava.io.tmpdir=" + wd,
               "-cp", JARS, "tlc2.TLC", "-config", (cfg or module) + ".cfg", "-workers", str(workers),
               "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC on %s took more than %d s" % (module, timeout))
        return Result(r.returncode, r.stdout.decode("utf8", "replace"))
    finally:
        shutil.rmtree(wd, ignore_errors=True)

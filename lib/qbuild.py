"""Builds what a check needs from /repo's current working tree, hooks on.

The sources are copied by content into build/src (a changed file gets a fresh
time stamp, so an incremental build is right whatever the time stamps in /repo
are), and the build output stays in build/.  Nothing in /repo is written.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(BUILD, "src")
QDIR = os.path.join(BUILD, "q")
FLAGS = "-include cstdint -include utility -O1 -w -DNDEBUG -DQLEVER_VERIF_HOOKS"


class BuildError(Exception):
    pass


def _run(cmd, log):
    env = dict(os.environ, LC_ALL="C.UTF-8")
    for v in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
        env.pop(v, None)
    with open(log, "ab") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env)
    if r.returncode != 0:
        with open(log, "rb") as f:
            tail = f.read()[-4000:].decode("utf8", "replace")
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def sync():
    """Bring build/src in step with /repo, by content.  Returns a digest."""
    os.makedirs(SRC, exist_ok=True)
    subprocess.run(["rsync", "-rlc", "--delete", "--exclude", "/_build",
                    "--exclude", "/build", "--exclude", ".git",
                    REPO + "/", SRC + "/"], check=True)
    h = hashlib.sha256()
    for base in ("src", "CMakeLists.txt"):
        p = os.path.join(SRC, base)
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
            continue
        for d, dirs, files in os.walk(p):
            dirs.sort()
            for fn in sorted(files):
                q = os.path.join(d, fn)
                h.update(os.path.relpath(q, SRC).encode() + b"\0")
                h.update(open(q, "rb").read() + b"\0")
    return h.hexdigest()


def _stamp(name, digest=None):
    p = os.path.join(BUILD, "stamp-" + name)
    if digest is None:
        return open(p).read() if os.path.exists(p) else None
    with open(p, "w") as f:
        f.write(digest)


def mains():
    """IndexBuilderMain and ServerMain.  Returns their directory."""
    with Lock():
        digest = sync() + FLAGS
        targets = ["IndexBuilderMain", "ServerMain"]
        if _stamp("mains") == digest and all(
                os.path.exists(os.path.join(QDIR, t)) for t in targets):
            return QDIR
        log = os.path.join(BUILD, "mains.log")
        open(log, "w").close()
        cache = os.path.join(QDIR, "CMakeCache.txt")
        if os.path.exists(cache) and "HOME_DIRECTORY:INTERNAL=%s\n" % SRC not in open(cache).read():
            shutil.rmtree(QDIR)         # a copy of another place's build directory
        if not os.path.exists(os.path.join(QDIR, "build.ninja")):
            _run(["cmake", "-S", SRC, "-B", QDIR, "-G", "Ninja",
                  "-DCMAKE_BUILD_TYPE=None",
                  "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                  "-DCMAKE_PROJECT_QLever_INCLUDE=" + os.path.join(VERIF, "lib", "deps.cmake"),
                  "-DADDITIONAL_COMPILER_FLAGS=" + FLAGS], log)
        _run(["ninja", "-C", QDIR, "-j8"] + targets, log)
        _stamp("mains", digest)
        return QDIR


ABSL = ["-labsl_" + x for x in ("hash", "city", "low_level_hash", "raw_hash_set", "hashtablez_sampler",
                                "strings", "strings_internal", "base", "int128", "throw_delegate",
                                "raw_logging_internal", "bad_optional_access", "bad_variant_access")]


def harness(name, scheduled=False, libs=()):
    """Compile harness/<name>.cpp against the headers of the tree.  scheduled:
    under the scheduler of harness/sched.cpp, with a scheduling point at every
    memory access (the compiler's thread sanitizer instrumentation, without its
    run-time library)."""
    with Lock():
        digest = sync()
        hd = os.path.join(VERIF, "harness")
        files = [name + ".cpp"] + (["sched.cpp", "sched.h", "explore.h"] if scheduled else [])
        for f in files:
            digest += hashlib.sha256(open(os.path.join(hd, f), "rb").read()).hexdigest()
        digest += FLAGS + repr(libs)
        out = os.path.join(BUILD, name)
        if _stamp("h-" + name) == digest and os.path.exists(out):
            return out
        log = os.path.join(BUILD, name + ".log")
        open(log, "w").close()
        inc = os.path.join(BUILD, "vp_include", "absl", "base")
        os.makedirs(inc, exist_ok=True)
        with open("/usr/include/absl/base/options.h") as f:
            o = f.read().replace("ABSL_OPTION_USE_STD_STRING_VIEW 0", "ABSL_OPTION_USE_STD_STRING_VIEW 1")
        with open(os.path.join(inc, "options.h"), "w") as f:
            f.write(o)
        cc = (["g++", "-std=c++20"] + FLAGS.split() +
              ["-I" + os.path.join(BUILD, "vp_include"), "-I" + os.path.join(SRC, "third_party/json"),
               "-I" + os.path.join(SRC, "third_party/ctre/include"), "-I" + SRC,
               "-I/usr/src/googletest/googletest/include", "-fopenmp", "-pthread"])
        objs = []
        if scheduled:
            objs = [os.path.join(BUILD, name + "-sched.o")]
            _run(cc + ["-c", os.path.join(hd, "sched.cpp"), "-o", objs[0]], log)
        obj = os.path.join(BUILD, name + ".o")
        _run(cc + (["-fsanitize=thread"] if scheduled else []) + ["-c", os.path.join(hd, name + ".cpp"), "-o", obj], log)
        _run(["g++", obj] + objs + ["-o", out, "-fopenmp", "-pthread", "-rdynamic"] + ABSL + list(libs) + ["-ldl"], log)
        _stamp("h-" + name, digest)
        return out


if __name__ == "__main__":
    t = time.time()
    print(mains(), "%.1fs" % (time.time() - t))

#!/usr/bin/env python3
"""Build driver: rebuild NNTile from /repo's *current* working tree in several flavours.

The sources of /repo are mirrored into build/src by content (a file that has not changed keeps
its timestamp, a changed one gets a new one), so that ninja rebuilds exactly what changed no
matter what timestamps /repo carries.  Nothing is ever written in /repo.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/nntile-venv/bin/python"
COMMON = "-Wno-error -w -include cmath"
FLAVOURS = {
    # as the project builds it (RelWithDebInfo), minus debug info
    "plain": dict(cxx="-O2 -g1 -DNDEBUG"),
    # address + undefined behaviour sanitizers, checked standard containers
    "asan": dict(cxx="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
                     "-fno-sanitize=alignment,vptr -fno-sanitize-recover=all "
                     "-D_GLIBCXX_ASSERTIONS",
                 link="-fsanitize=address,undefined"),
    # thread sanitizer
    "tsan": dict(cxx="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
                 link="-fsanitize=thread"),
}

class BuildError(Exception):
    pass

def run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write(("$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        tail = subprocess.run(["tail", "-n", "30", log], capture_output=True, text=True).stdout
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))

def repo_files():
    """Tracked and untracked (not ignored) files of the working tree."""
    out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-coz",
                          "--exclude-standard"], capture_output=True)
    if out.returncode == 0:
        return [f for f in out.stdout.decode().split("\0") if f]
    res = []
    for d, dirs, files in os.walk(REPO):
        if d == REPO:
            dirs[:] = [x for x in dirs if x not in ("_build", ".git")]
        res += [os.path.relpath(os.path.join(d, f), REPO) for f in files]
    return res

KEEP = ("src/", "include/", "external/", "wrappers/", "cmake_modules/", "tests/", "examples/",
        "CMakeLists.txt")

def sync(dst):
    """Mirror the needed part of the working tree; returns a digest of the contents."""
    want = {}
    for f in repo_files():
        if not f.startswith(KEEP):
            continue
        p = os.path.join(REPO, f)
        if os.path.isdir(p) and not os.path.islink(p):
            # a submodule directory: take everything in it
            for d, dirs, files in os.walk(p):
                dirs[:] = [x for x in dirs if x != ".git"]
                for x in files:
                    q = os.path.join(d, x)
                    want[os.path.relpath(q, REPO)] = q
        elif os.path.exists(p):
            want[f] = p
    h = hashlib.sha256()
    for f in sorted(want):
        data = open(want[f], "rb").read()
        h.update(f.encode() + b"\0" + hashlib.sha256(data).digest())
        q = os.path.join(dst, f)
        try:
            old = open(q, "rb").read()
        except OSError:
            old = None
        if old != data:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q + ".tmp~", "wb") as o:
                o.write(data)
            os.replace(q + ".tmp~", q)
    for d, dirs, files in os.walk(dst):
        for x in files:
            q = os.path.join(d, x)
            if os.path.relpath(q, dst) not in want:
                os.unlink(q)
    return h.hexdigest()

def ensure_pybind(src):
    """external/pybind11 lives in the tree (or was put there by the build environment)."""
    q = os.path.join(src, "external", "pybind11", "CMakeLists.txt")
    if not os.path.exists(q):
        p = os.path.join(REPO, "external", "pybind11")
        if os.path.exists(os.path.join(p, "CMakeLists.txt")):
            shutil.copytree(p, os.path.dirname(q), dirs_exist_ok=True,
                            ignore=shutil.ignore_patterns(".git"))
    return q

def build(flavour, want_python=True, jobs=8):
    """Build one flavour; returns dict of paths."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        t0 = time.time()
        src = os.path.join(BUILD, "src")
        digest = sync(src)
        fl = FLAVOURS[flavour]
        b = os.path.join(BUILD, flavour)
        os.makedirs(b, exist_ok=True)
        log = os.path.join(b, "vbuild.log")
        open(log, "w").close()
        env = dict(os.environ, HOME=os.environ.get("HOME", "/root"), STARPU_SILENT="1",
                   STARPU_HOME=b, CCACHE_DIR=os.path.join(BUILD, "ccache"),
                   CCACHE_MAXSIZE="3G", CCACHE_NOCOMPRESS="1", PYTHONDONTWRITEBYTECODE="1")
        env.pop("LD_PRELOAD", None)
        cfg = ["cmake", "-S", src, "-B", b, "-G", "Ninja", "-Wno-dev",
               "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
               "-DCMAKE_BUILD_TYPE=None",
               "-DCMAKE_CXX_FLAGS=%s %s" % (COMMON, fl["cxx"]),
               "-DCMAKE_SHARED_LINKER_FLAGS=%s" % fl.get("link", ""),
               "-DCMAKE_MODULE_LINKER_FLAGS=%s" % fl.get("link", ""),
               "-DCMAKE_EXE_LINKER_FLAGS=%s" % fl.get("link", ""),
               "-DBUILD_TESTS=OFF", "-DBUILD_EXAMPLES=OFF", "-DUSE_CUDA=OFF",
               "-DPYTHON_EXECUTABLE=" + PY,
               "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
               "-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS"]
        if shutil.which("ccache"):
            cfg.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
        stamp = os.path.join(b, ".configured")
        key = " ".join(cfg)
        if not (os.path.exists(os.path.join(b, "build.ninja")) and os.path.exists(stamp)
                and open(stamp).read() == key):
            run(cfg, log, env=env)
            open(stamp, "w").write(key)
        targets = ["nntile"] + (["nntile_core"] if want_python else [])
        run(["ninja", "-C", b, "-j%d" % jobs] + targets, log, env=env)
        res = dict(flavour=flavour, dir=b, src=src, digest=digest)
        # Python package: always the current files of the working tree
        pk = os.path.join(b, "pypkg")
        psrc = os.path.join(src, "wrappers", "python", "nntile")
        want = set()
        for d, dirs, files in os.walk(psrc):
            for x in files:
                if x.endswith(".py"):
                    q = os.path.join(d, x)
                    rel = os.path.relpath(q, psrc)
                    want.add(rel)
                    o = os.path.join(pk, "nntile", rel)
                    data = open(q, "rb").read()
                    if not os.path.exists(o) or open(o, "rb").read() != data:
                        os.makedirs(os.path.dirname(o), exist_ok=True)
                        open(o, "wb").write(data)
        for d, dirs, files in os.walk(os.path.join(pk, "nntile")):
            for x in files:
                q = os.path.join(d, x)
                if x.endswith(".py") and os.path.relpath(q, os.path.join(pk, "nntile")) not in want:
                    os.unlink(q)
        if want_python:
            so = os.path.join(b, "wrappers", "python", "nntile", "nntile_core.so")
            ln = os.path.join(pk, "nntile", "nntile_core.so")
            if not os.path.islink(ln):
                os.makedirs(os.path.dirname(ln), exist_ok=True)
                os.symlink(so, ln)
        res["pypath"] = pk
        res["native"] = build_native(flavour, fl, b, src, log, env)
        res["wall"] = time.time() - t0
        return res
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()

def build_native(flavour, fl, b, src, log, env):
    """/verif's own native parts, by their own CMakeLists, against this flavour's library."""
    nb = os.path.join(b, "native")
    os.makedirs(nb, exist_ok=True)
    cfg = ["cmake", "-S", os.path.join(VERIF, "native"), "-B", nb, "-G", "Ninja", "-Wno-dev",
           "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_BUILD_TYPE=None",
           "-DCMAKE_CXX_FLAGS=%s %s" % (COMMON, fl["cxx"]),
           "-DVFLAVOUR=" + flavour, "-DNNTILE_SRC=" + src, "-DNNTILE_BIN=" + b,
           "-DLINKF=" + fl.get("link", ""), "-DPYTHON_EXECUTABLE=" + PY]
    if shutil.which("ccache"):
        cfg.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
    stamp = os.path.join(nb, ".configured")
    key = " ".join(cfg) + hashlib.sha256(
        open(os.path.join(VERIF, "native", "CMakeLists.txt"), "rb").read()).hexdigest()
    if not (os.path.exists(os.path.join(nb, "build.ninja")) and os.path.exists(stamp)
            and open(stamp).read() == key):
        run(cfg, log, env=env)
        open(stamp, "w").write(key)
    run(["ninja", "-C", nb], log, env=env)
    return nb

if __name__ == "__main__":
    for f in sys.argv[1:] or list(FLAVOURS):
        r = build(f)
        print(f, "built in %.1f s" % r["wall"])

"""Mirrors /repo/core into /verif/build/src (content-compared, so a build never goes stale) and builds monitors against it."""
import os, shutil, subprocess, sys, filecmp, fcntl, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
JOBS = os.environ.get("VP_JOBS", "8")
COMPAT = os.path.join(VERIF, "monitors", "kokkos37_compat.h")

VARIANTS = {
    # the shipped configuration (Release, asserts off), slightly less optimised so that an edit rebuilds quickly
    "rel": dict(cxx="/usr/bin/g++", cc="/usr/bin/gcc", flags="-O2 -DNDEBUG", defs=[]),
    # memory + undefined behaviour; dyablo's own debug assertions on
    "asan": dict(cxx="/usr/bin/g++", cc="/usr/bin/gcc",
                 flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS", defs=[]),
    # data races; libgomp's fork/join is made visible to TSan by tsan_gomp_shim.c
    "tsan": dict(cxx="/usr/bin/g++", cc="/usr/bin/gcc", flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -DNDEBUG -I%s" % os.path.join(VERIF, "monitors", "tsan_inc"), defs=["-DVP_TSAN=ON"]),
}

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sync(src, dst):
    """Make dst a copy of src; files whose content is unchanged keep their mtime."""
    n = 0
    os.makedirs(dst, exist_ok=True)
    want = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        dirs[:] = [d for d in dirs if d not in (".git", "_build", "unit_test", "doc")]
        d = os.path.normpath(os.path.join(dst, rel))
        os.makedirs(d, exist_ok=True)
        for f in files:
            s, t = os.path.join(root, f), os.path.join(d, f)
            want.add(t)
            if os.path.islink(s) and not os.path.exists(s):
                continue
            if not (os.path.exists(t) and filecmp.cmp(s, t, shallow=False)):
                shutil.copyfile(s, t)
                n += 1
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if p not in want:
                os.remove(p)
                n += 1
    return n

def configure(variant):
    v = VARIANTS[variant]
    b = os.path.join(BUILD, variant)
    os.makedirs(b, exist_ok=True)
    sig = repr((v, sorted(f for f in os.listdir(os.path.join(VERIF, "monitors")) if not f.endswith(".h")), open(os.path.join(VERIF, "monitors", "targets.cmake")).read()))
    sigf = os.path.join(b, ".sig")
    if os.path.exists(os.path.join(b, "build.ninja")) and os.path.exists(sigf) and open(sigf).read() == sig:
        return b
    cmd = ["cmake", "-S", os.path.join(SRC, "core"), "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
           "-DCMAKE_C_COMPILER=" + v["cc"], "-DCMAKE_CXX_COMPILER=" + v["cxx"],
           "-DCMAKE_CXX_FLAGS=-include %s %s" % (COMPAT, v["flags"]),
           "-DCMAKE_C_FLAGS=" + v["flags"],
           "-DDYABLO_ENABLE_UNIT_TESTING=OFF", "-DDYABLO_USE_MPI=ON", "-DDYABLO_USE_HDF5=ON", "-DDYABLO_COMPILE_PABLO=OFF",
           "-DDYABLO_USE_INTERNAL_KOKKOS=OFF", "-DKokkos_DIR=/usr/lib/x86_64-linux-gnu/cmake/Kokkos",
           "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
           "-DFETCHCONTENT_SOURCE_DIR_BACKWARD-CPP_EXTERNAL=" + os.path.join(VERIF, "monitors", "backward-shim"),
           "-DCMAKE_PROJECT_dyablo_INCLUDE=" + os.path.join(VERIF, "monitors", "inject.cmake")] + v["defs"]
    if shutil.which("ccache") and not os.environ.get("VP_NO_CCACHE"):
        cmd.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
    subprocess.run(cmd, check=True, stdout=open(os.path.join(b, "configure.log"), "w"), stderr=subprocess.STDOUT)
    with open(sigf, "w") as f:
        f.write(sig)
    return b

class BuildFailed(Exception):
    pass

def build(variant, targets):
    """Returns the directory of the built monitors. Raises BuildFailed when /repo's tree does not compile."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = time.time()
        n = sync(os.path.join(REPO, "core"), os.path.join(SRC, "core"))
        # a new external/ tree is not needed: googletest and bitpit are off
        b = configure(variant)
        env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="6G", CCACHE_NODIRECT="", LC_ALL="C.UTF-8")
        env.pop("CCACHE_NODIRECT")
        r = subprocess.run(["ninja", "-C", b, "-j", JOBS] + list(targets), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            log(r.stdout.decode("utf-8", "replace")[-4000:])
            raise BuildFailed(variant)
        log("[build %s] %d files changed, %.0f s" % (variant, n, time.time() - t))
    return b

def exe(variant, name):
    b = os.path.join(BUILD, variant)
    return os.path.join(b, "bin", name) if name == "dyablo" else os.path.join(b, name)

if __name__ == "__main__":
    for v in sys.argv[1].split(","):
        build(v, sys.argv[2:])

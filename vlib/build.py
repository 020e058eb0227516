"""Builds the simulator and the system under test from /repo's working tree.

The result is cached under /verif/.build/<content hash>; nothing is written to /repo.
"""
import hashlib, os, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
NCOPIES = 12

SUT_FLAGS = ("-std=gnu++98 -pipe -O1 -g1 -fPIC -fno-gnu-unique -U_FORTIFY_SOURCE -fsanitize=address "
             "-fno-sanitize-address-use-after-scope -fsanitize-coverage=trace-pc -I. -Iinclude -D_LARGEFILE64_SOURCE -w").split()
SUT_LIBS = ("-lboost_system -lboost_thread -lboost_filesystem -lboost_iostreams -lboost_date_time "
            "-lstatgrab -lpthread -lrt").split()
SIM_FLAGS = "-std=gnu++17 -pipe -O2 -g1 -Wall -Wno-unused-result -fsanitize=address -fno-builtin -U_FORTIFY_SOURCE".split()
SIM_SRCS = ["core.cpp", "net.cpp", "fs.cpp", "main.cpp", "client.cpp", "env.cpp"]


class BuildError(Exception):
    pass


def files_of(root, dirs, exts):
    out = []
    for d in dirs:
        base = os.path.join(root, d)
        if os.path.isfile(base):
            out.append(base)
            continue
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(exts):
                    out.append(os.path.join(dp, f))
    return out


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def run(cmd, cwd, log):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        out = r.stdout.decode(errors="replace").splitlines()
        err = [l[:300] for l in out if "error" in l or "undefined" in l][:20] or [l[:300] for l in out[-20:]]
        raise BuildError("build failed: %s\n%s" % (cmd[-3:], "\n".join(err)))


def scen_sources():
    d = os.path.join(VERIF, "sim", "scen")
    return sorted("scen/" + f for f in os.listdir(d) if f.endswith(".cpp")) if os.path.isdir(d) else []


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    sut_in = files_of(REPO, ["daemon", "lib", "include", "splitter"], (".cpp", ".h", ".inl"))
    for opt in ("config.h",):
        p = os.path.join(REPO, opt)
        if os.path.exists(p):
            sut_in.append(p)
    sut_key = digest(sut_in + [os.path.abspath(__file__)], " ".join(SUT_FLAGS + SUT_LIBS) + str(NCOPIES))
    sim_in = files_of(os.path.join(VERIF, "sim"), ["."], (".cpp", ".h", ".list"))
    sim_key = digest(sim_in, " ".join(SIM_FLAGS))
    libdir = os.path.join(BUILD, "sut-" + sut_key)
    simdir = os.path.join(BUILD, "sim-" + sim_key)
    jobs = []
    pool = ThreadPoolExecutor(8)
    sut_fut = []
    if not os.path.exists(os.path.join(libdir, "ok")):
        shutil.rmtree(libdir, ignore_errors=True)
        os.makedirs(libdir)
        obj = os.path.join(libdir, "obj")
        os.makedirs(obj)
        srcroot = REPO
        if not os.path.exists(os.path.join(REPO, "config.h")):
            # an unconfigured tree: configure a copy
            srcroot = os.path.join(libdir, "src")
            shutil.copytree(REPO, srcroot, ignore=shutil.ignore_patterns(".git", "obj", "bin"))
            run(["bash", "./configure"], srcroot, None)
        srcs = [os.path.relpath(p, REPO) for p in sut_in if p.endswith(".cpp") and "/splitter/" not in p]
        slow = ["daemon/main.cpp", "daemon/EagerConnection.cpp", "daemon/StatServer.cpp", "daemon/RequestInFlight.cpp", "daemon/StatStore.cpp"]
        srcs.sort(key=lambda s: (slow.index(s) if s in slow else 99, -os.path.getsize(os.path.join(REPO, s))))
        objs = []
        for s in srcs + ["splitter/main.cpp"]:
            o = os.path.join(obj, s.replace("/", "_")[:-4] + ".o")
            if s != "splitter/main.cpp":
                objs.append(o)
            sut_fut.append(pool.submit(run, ["g++"] + SUT_FLAGS + ["-c", s, "-o", o], srcroot, None))
    sim_fut = []
    if not os.path.exists(os.path.join(simdir, "ok")):
        shutil.rmtree(simdir, ignore_errors=True)
        os.makedirs(simdir)
        sobjs = []
        for s in sorted(SIM_SRCS + scen_sources(), key=lambda s: -os.path.getsize(os.path.join(VERIF, "sim", s))):
            o = os.path.join(simdir, s.replace("/", "_")[:-4] + ".o")
            sobjs.append(o)
            sim_fut.append(pool.submit(run, ["g++"] + SIM_FLAGS + ["-I" + os.path.join(VERIF, "sim"), "-c", s, "-o", o], os.path.join(VERIF, "sim"), None))
    for f in sut_fut:
        f.result()
    if sut_fut:
        so = os.path.join(libdir, "libsut_0.so")
        f1 = pool.submit(run, ["g++", "-shared", "-fsanitize=address", "-Wl,-Bsymbolic", "-o", so] + objs + SUT_LIBS, srcroot, None)
        sp = os.path.join(libdir, "libsplit_0.so")
        f2 = pool.submit(run, ["g++", "-shared", "-fsanitize=address", "-Wl,-Bsymbolic", "-o", sp, os.path.join(obj, "splitter_main.o")] +
                         [o for o in objs if "/lib_" in o] + SUT_LIBS, srcroot, None)
        f1.result(); f2.result()
        for i in range(1, NCOPIES):
            shutil.copy(so, os.path.join(libdir, "libsut_%d.so" % i))
            if i < 3:
                shutil.copy(sp, os.path.join(libdir, "libsplit_%d.so" % i))
        shutil.rmtree(obj)
        shutil.rmtree(os.path.join(libdir, "src"), ignore_errors=True)
        open(os.path.join(libdir, "ok"), "w").close()
    if sim_fut:
        for f in sim_fut:
            f.result()
        run(["g++", "-fsanitize=address", "-o", os.path.join(simdir, "simrun")] + sobjs +
            ["-Wl,--dynamic-list=" + os.path.join(VERIF, "sim", "export.list"), "-Wl,--no-as-needed"] + SUT_LIBS + ["-ldl", "-lpthread", "-lz"], VERIF, None)
        for o in sobjs:
            os.unlink(o)
        open(os.path.join(simdir, "ok"), "w").close()
    pool.shutdown()
    # keep the cache small
    olds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD)
                  if d.startswith(("sut-", "sim-")) and os.path.join(BUILD, d) not in (libdir, simdir))
    for _, d in olds[:-4]:
        if time.time() - _ > 3600:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    for d in (libdir, simdir):
        os.utime(d)
    lock.close()
    return {"libdir": libdir, "simrun": os.path.join(simdir, "simrun"), "seconds": time.time() - t0, "sut": sut_key, "sim": sim_key}


if __name__ == "__main__":
    try:
        b = build(True)
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        raise SystemExit(2)
    print(b["simrun"], b["libdir"], "%.1fs" % b["seconds"])

#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree.

Everything is keyed by content (compiler command and all inputs), so a changed tree never reuses a stale object.
Usage: build.py BINARY... ; prints nothing, leaves build/bin/<BINARY>. As a module: build(names) -> {name: path}."""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
CXX = os.environ.get("SIM_CXX", "g++")
VENV = "/opt/vp/venv/bin/python3"

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b":")
        h.update(p)
    return h.hexdigest()[:20]

def tree_hash(paths):
    """Hash of the contents of files below the given paths."""
    h = hashlib.sha256()
    for top in paths:
        if os.path.isfile(top):
            files = [top]
        else:
            files = []
            for d, dn, fn in os.walk(top):
                dn[:] = sorted(x for x in dn if x not in ("__pycache__", "data", "gui", "visu"))
                files += [os.path.join(d, f) for f in sorted(fn) if not f.endswith(".pyc")]
        for f in files:
            h.update(os.path.relpath(f, top).encode() + b"\0")
            with open(f, "rb") as i:
                h.update(hashlib.sha256(i.read()).digest())
    return h.hexdigest()[:20]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout.decode(errors="replace")

LIBSRC = ["compress", "debugger", "directory", "pipes", "poller", "protocol", "synchronizer", "util", "zmq"]
BASE = ["-std=gnu++17", "-g1", "-O1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-w",
        "-DSTORED_DRAFT_API=1", "-DSTORED_HAVE_HEATSHRINK=1", "-DSTORED_HAVE_ZMQ=1", "-DSTORED_POLL_AUTO", "-D_DEBUG=1",
        "-DSTORED_NAME=stored-sim", "-I/usr/include/heatshrink", "-pthread"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,null,nonnull-attribute,returns-nonnull-attribute",
       "-fno-sanitize-recover=all"]
LIBS = ["-lzmq", "-lheatshrink_dynalloc", "-pthread"]

DBG = ("static int const DebuggerAlias = 4;static int const DebuggerMacro = 120;static int const DebuggerStreams = 3;"
       "static size_t const DebuggerStreamBuffer = 100;")

OSWRAP = ["-Wl," + ",".join("--wrap=" + f for f in "open close read write poll fcntl signal realloc malloc mkfifo isatty tcgetattr "
                           "tcsetattr tcdrain tcsendbreak usleep".split())]

# name: sources, stores, flags
BINARIES = {
    "arq": dict(src=["fam_arq.cpp"], lib=["protocol", "util", "poller", "zmq", "directory"], stores=[]),
    "dbgarq": dict(src=["fam_dbgarq.cpp"], lib=["protocol", "util", "poller", "zmq", "directory"], stores=[]),
    "stack": dict(src=["fam_stack.cpp"], lib=["protocol", "util", "poller", "zmq", "directory", "compress"], stores=[]),
    "sync": dict(src=["fam_sync.cpp"], lib=["protocol", "util", "poller", "zmq", "directory", "synchronizer"],
                 stores=[("le", "SimSmall"), ("le", "SimMid")]),
    "syncbe": dict(src=["fam_sync.cpp"], lib=["protocol", "util", "poller", "zmq", "directory", "synchronizer"],
                   stores=[("be", "SimSmall"), ("be", "SimMid")],
                   flags=["-DSIM_BE", "-DSIM_CONFIG_EXTRA=static bool const StoreInLittleEndian = false;"]),
    "dbg": dict(src=["fam_dbg.cpp"], lib=["protocol", "util", "poller", "zmq", "directory", "debugger", "compress"],
                stores=[("le", "SimDbg"), ("le", "SimSmall")],
                flags=["-fno-sanitize=alignment", "-DSIM_CONFIG_EXTRA=" + DBG + "static bool const CompressStreams = true;"]),
    "dbgdyn": dict(src=["fam_dbg.cpp"], lib=["protocol", "util", "poller", "zmq", "directory", "debugger", "compress"],
                   stores=[("le", "SimDbg"), ("le", "SimSmall")],
                   flags=["-fno-sanitize=alignment", "-DSIM_DBG_DYN", "-DSIM_CONFIG_EXTRA=" + DBG + "static bool const CompressStreams = false;"]),
    "dbgalt": dict(src=["fam_dbg.cpp"], lib=["protocol", "util", "poller", "zmq", "directory", "debugger", "compress"],
                   stores=[("be", "SimDbg"), ("be", "SimSmall")],
                   flags=["-DSIM_DBG_ALT", "-DSIM_CONFIG_EXTRA=" + DBG + "static bool const CompressStreams = false;"
                          "static bool const AvoidDynamicMemory = true;static bool const UnalignedAccess = false;"
                          "static size_t const DebuggerStreamBufferOverflow = 24;"
                          "static bool const StoreInLittleEndian = false;"]),
    "full": dict(src=["fam_full.cpp"], lib=["protocol", "util", "poller", "zmq", "directory", "debugger", "compress"],
                 stores=[("le", "SimDbg")],
                 flags=["-fno-sanitize=alignment", "-DSIM_CONFIG_EXTRA=" + DBG + "static bool const CompressStreams = false;"]),
    "fifo": dict(src=["fam_fifo.cpp"], lib=["protocol", "util", "poller", "zmq", "directory"], stores=[], san=[],
                 plain=["memsim.cpp", "kernel.cpp"], flags=["-fsanitize=thread", "-fno-builtin", "-Wno-tsan"],
                 link=["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]),
    "os": dict(src=["fam_os.cpp", "os_poll.cpp", "os_file.cpp", "os_tty.cpp", "os_zmq.cpp", "simos.cpp"], lib=["protocol", "util", "poller", "zmq", "directory"], stores=[],
               link=OSWRAP, libs=["-lheatshrink_dynalloc", "-pthread"]),
    "osnz": dict(src=["fam_os.cpp", "os_poll.cpp", "os_file.cpp", "os_tty.cpp", "os_zmq.cpp", "simos.cpp"], lib=["protocol", "util", "poller", "zmq", "directory"], stores=[],
                 flags=["-USTORED_HAVE_ZMQ"], link=OSWRAP, libs=["-lheatshrink_dynalloc", "-pthread"]),
    "py": dict(src=["fam_py.cpp"], lib=["protocol", "util", "poller", "zmq", "directory", "debugger", "compress"], stores=[("le", "SimDbg")],
               flags=["-fno-sanitize=alignment", "-DSIM_CONFIG_EXTRA=" + DBG + "static bool const CompressStreams = false;",
                      "-I/usr/include/python3.12", '-DSIM_REPO_DIR="%s"' % REPO, '-DSIM_HERE="%s"' % HERE],
               libs=["-lzmq", "-lheatshrink_dynalloc", "-lpython3.12", "-pthread"]),
    "pipes": dict(src=["fam_pipes.cpp"], lib=["protocol", "util", "poller", "zmq", "directory", "pipes"], stores=[]),
    "fullalt": dict(src=["fam_full.cpp"], lib=["protocol", "util", "poller", "zmq", "directory", "debugger", "compress"],
                    stores=[("le", "SimDbg")],
                    flags=["-DSIM_DBG_ALT", "-DSIM_CONFIG_EXTRA=" + DBG + "static bool const CompressStreams = true;"
                           "static bool const AvoidDynamicMemory = true;static bool const UnalignedAccess = false;"
                           "static size_t const DebuggerStreamBufferOverflow = 24;"]),
}

def version():
    v = open(os.path.join(REPO, "version/version.txt")).readline().strip()
    return v

def gen_tree():
    """A directory with version.h, and the stores generated by /repo's generator."""
    stores = sorted(glob.glob(os.path.join(HERE, "sim/stores/*.st")))
    key = tree_hash([os.path.join(REPO, "python/libstored"), os.path.join(REPO, "include"), os.path.join(REPO, "src"),
                     os.path.join(REPO, "version"), os.path.join(HERE, "build.py")] + stores)
    d = os.path.join(OUT, "gen-" + key)
    if os.path.isdir(d):
        return d
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp + "/include/libstored")
    v = version()
    nums = re.match(r"(\d+)\.(\d+)\.(\d+)(.*)", v)
    t = open(os.path.join(REPO, "include/libstored/version.h.in")).read()
    for k, x in (("MAJOR", nums[1]), ("MINOR", nums[2]), ("PATCH", nums[3]), ("SUFFIX", nums[4]), ("HASH", "")):
        t = t.replace("@LIBSTORED_VERSION_%s@" % k, x)
    open(tmp + "/include/libstored/version.h", "w").write(t)
    # The generator, run from a copy, so nothing is written in /repo.
    tree = tmp + "/tree"
    os.makedirs(tree)
    for e in os.listdir(REPO):
        if e not in ("python", "_build", ".git"):
            os.symlink(os.path.join(REPO, e), os.path.join(tree, e))
    shutil.copytree(os.path.join(REPO, "python"), tree + "/python",
                    ignore=shutil.ignore_patterns("data", "gui", "visu", "__pycache__"))
    t = open(os.path.join(REPO, "python/libstored/version.py.in")).read()
    t = t.replace("@LIBSTORED_VERSION_PYTHON@", nums[1] + "." + nums[2] + "." + nums[3]).replace("@LIBSTORED_VERSION@", v)
    open(tree + "/python/libstored/version.py", "w").write(t)
    env = dict(os.environ, PYTHONPATH=tree + "/python", PYTHONDONTWRITEBYTECODE="1")
    for variant, args in (("le", []), ("be", ["-b"])):
        for s in stores:
            n = os.path.splitext(os.path.basename(s))[0]
            out = "%s/%s/%s" % (tmp, variant, n)
            os.makedirs(out)
            run([VENV, "-m", "libstored.generator"] + args + [s, out], env=env, cwd=tree)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp)
    return d

def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return
    tmp = obj + ".tmp%d.o" % os.getpid()
    run([CXX] + flags + ["-c", src, "-o", tmp])
    os.rename(tmp, obj)

def build(names):
    os.makedirs(OUT + "/obj", exist_ok=True)
    os.makedirs(OUT + "/bin", exist_ok=True)
    gen = gen_tree()
    inchash = tree_hash([os.path.join(REPO, "include")]) + os.path.basename(gen)
    cxxv = sha(run([CXX, "--version"]))
    simhash = sha(*[open(f).read() for f in sorted(glob.glob(HERE + "/sim/*.h") + [HERE + "/sim/fam_full.cpp"] + glob.glob(HERE + "/sim/config/*.h"))])
    jobs = {}
    links = []
    for n in names:
        b = BINARIES[n]
        san = b.get("san", SAN)
        inc = ["-I" + HERE + "/sim/config", "-I" + gen + "/include", "-I" + REPO + "/include", "-I" + HERE + "/sim"]
        for variant, s in b["stores"]:
            inc.append("-I%s/%s/%s/include" % (gen, variant, s))
        flags = BASE + san + b.get("flags", []) + inc
        objs = []
        def add(path, extra="", flags=flags):
            k = sha(inchash, cxxv, " ".join(flags).replace(gen, "GEN"), open(path, "rb").read(), extra, os.path.basename(path))
            o = "%s/obj/%s-%s.o" % (OUT, os.path.basename(path).replace(".cpp", ""), k)
            jobs[o] = (path, o, flags)
            objs.append(o)
        cfgh = open(HERE + "/sim/config/stored_config.h").read()
        for l in b["lib"]:
            add("%s/src/%s.cpp" % (REPO, l), cfgh)
        for variant, s in b["stores"]:
            add("%s/%s/%s/src/%s.cpp" % (gen, variant, s, s), cfgh)
        for s in b["src"] + [x for x in ["kernel.cpp"] if x not in b.get("plain", [])]:
            add(HERE + "/sim/" + s, simhash)
        for s in b.get("plain", []):
            add(HERE + "/sim/" + s, simhash, BASE + inc)
        k = sha(*objs, " ".join(b.get("link", []) + b.get("libs", LIBS)))
        links.append((n, "%s/bin/%s-%s" % (OUT, n, k), objs, san, b.get("link", []), b.get("libs", LIBS)))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for _ in ex.map(compile_one, jobs.values()):
            pass
    res = {}
    for n, exe, objs, san, link, libs in links:
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            run([CXX] + san + objs + ["-o", tmp] + link + libs)
            os.rename(tmp, exe)
        res[n] = exe
    return res

if __name__ == "__main__":
    try:
        t = time.time()
        for n, p in build(sys.argv[1:] or list(BINARIES)).items():
            print(n, p)
    except BuildError as e:
        print(e)
        sys.exit(3)

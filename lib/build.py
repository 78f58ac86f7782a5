#!/usr/bin/env python3
"""Content-hash-cached build of skaled's real sources (from /repo's working tree) plus the simulator.

usage: build.py TARGET...      targets: see TARGETS
Objects are cached under build/cache by the hash of (compiler command, contents of every /repo and /verif
file the object depends on), so flipping a change in and out of /repo costs only the affected objects.
"""
import os, sys, re, json, hashlib, subprocess, glob, shlex, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(VERIF, "build")
CACHE = os.path.join(B, "cache")
GEN = os.path.join(B, "gen")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))

DEFS = ["-DBOOST_ALL_NO_LIB", "-DBOOST_TIMER_ENABLE_DEPRECATED", "-DBOOST_LOG_DYN_LINK",
        "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-DCONSENSUS=1", "-DMICROPROFILE_ENABLED=0", "-DETH_FATDB=1"]
INCS = ["-I" + GEN, "-I" + VERIF + "/shim", "-I" + REPO, "-I" + REPO + "/libskutils/include", "-I" + REPO + "/utils",
        "-I" + VERIF + "/sim", "-idirafter", "/usr/include/nlohmann", "-idirafter", "/usr/include/jsoncpp"]
CXX = ["g++", "-std=c++17", "-O1", "-g0", "-w", "-fno-strict-aliasing", "-ffunction-sections", "-fdata-sections", "-pipe"]
PREINC = "compat.h"
CC = ["gcc", "-O2", "-g0", "-w"]

SKIP = set("""libdevcore/microprofile.cpp libdevcrypto/LibSnark.cpp libskale/httpserveroverride.cpp
libskutils/src/rest_call.cpp libskutils/src/http_pg.cpp libskutils/src/ws.cpp libethereum/ClientTest.cpp libethereum/db_repair.cpp libethereum/ConsensusStub.cpp
libethashseal/EthashClient.cpp libethashseal/EthashCPUMiner.cpp""".split())
WEB3 = "Eth Skale Net Web3 JsonHelper SessionManager AccountHolder Debug Tracing SkalePerformanceTracker UnixSocketServer IpcServerBase".split()
DIRS = ["libdevcore", "libdevcrypto", "libethcore", "libevm", "libethereum", "libskale", "libbatched-io",
        "libskutils/src", "libethashseal", "libethashseal/genesis", "utils/json_spirit"]

def repo_sources(historic=False):
    out = []
    for d in DIRS + (["libhistoric"] if historic else []):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            rel = os.path.relpath(f, REPO)
            if rel not in SKIP:
                out.append(rel)
    for w in WEB3:
        if os.path.exists(os.path.join(REPO, "libweb3jsonrpc", w + ".cpp")):
            out.append("libweb3jsonrpc/%s.cpp" % w)
    return out

LIBS = ["-lleveldb", "-lsecp256k1", "-lscrypt", "-ljsonrpccpp-common", "-ljsonrpccpp-client", "-ljsonrpccpp-server", "-ljsoncpp",
        "-lcryptopp", "-luv", "-lboost_filesystem", "-lboost_system", "-lboost_thread", "-lboost_log", "-lboost_log_setup",
        "-lboost_program_options", "-lboost_chrono", "-lboost_fiber", "-lboost_context", "-lsnappy", "-lssl", "-lcrypto", "-lcurl", "-lz", "-ldl", "-lpthread"]

_h = {}
def fhash(p):
    r = _h.get(p)
    if r is None:
        try:
            with open(p, "rb") as f:
                r = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            r = "-"
        _h[p] = r
    return r

def key_of(cmdkey, deps):
    h = hashlib.sha256(cmdkey.encode())
    for d in deps:
        h.update(d.encode()); h.update(fhash(d).encode())
    return h.hexdigest()[:40]

def tracked(p):
    return p.startswith(REPO + "/") or p.startswith(VERIF + "/")

def compile_one(src, flags, cname):
    """returns (objpath, None) or (None, errors)"""
    c = src.endswith(".c")
    cmd = (CC if c else CXX) + DEFS + flags + INCS + ([] if c else ["-include", VERIF + "/shim/" + PREINC])
    cmdkey = " ".join(cmd) + " " + src
    base = os.path.join(CACHE, hashlib.sha256(cmdkey.encode()).hexdigest()[:24])
    idx = base + ".idx"
    variants = []
    if os.path.exists(idx):
        try:
            variants = json.load(open(idx))
        except Exception:
            variants = []
    for deps in variants:
        k = key_of(cmdkey, deps)
        o = base + "-" + k + ".o"
        if os.path.exists(o):
            os.utime(o)
            return o, None
    tmp = base + ".%d.%s" % (os.getpid(), re.sub(r"\W", "_", os.path.basename(src)))
    p = subprocess.run(cmd + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        for x in (".d", ".o"):
            if os.path.exists(tmp + x): os.unlink(tmp + x)
        return None, "%s\n%s" % (src, p.stdout[-6000:])
    txt = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1]
    deps = sorted(set(os.path.normpath(x) for x in txt.split() if tracked(os.path.normpath(x))))
    os.unlink(tmp + ".d")
    k = key_of(cmdkey, deps)
    o = base + "-" + k + ".o"
    os.rename(tmp + ".o", o)
    if deps not in variants:
        variants = ([deps] + variants)[:6]
        with open(idx + ".%d" % os.getpid(), "w") as f: json.dump(variants, f)
        os.rename(idx + ".%d" % os.getpid(), idx)
    return o, None

# files whose plain memory accesses and atomics are scheduling points (compiled with -fsanitize=thread, linked
# against the simulator's own callbacks instead of the sanitizer's run-time)
TSAN = set("""libethereum/TransactionQueue.cpp libethereum/SkaleHost.cpp libethereum/Client.cpp libethereum/ClientBase.cpp
libethereum/SnapshotAgent.cpp libethereum/SnapshotStorage.cpp libethereum/CommonNet.cpp libethereum/InstanceMonitor.cpp libethereum/BlockDetails.cpp
libskale/broadcaster.cpp libskale/SnapshotHashAgent.cpp libskale/OverlayDB.cpp libskale/State.cpp libskale/UnsafeRegion.cpp libskale/RotatingHistoricState.cpp
libdevcore/Worker.cpp libdevcore/ManuallyRotatingLevelDB.cpp libdevcore/LevelDB.cpp libdevcore/StatusAndControl.cpp libdevcore/Guards.cpp
libbatched-io/batched_db.cpp libbatched-io/batched_rotating_db_io.cpp libbatched-io/rotating_db_io.cpp libbatched-io/batched_blocks_and_extras_db.cpp
libskutils/src/dispatch.cpp libskutils/src/thread_pool.cpp libskutils/src/multithreading.cpp libskutils/src/unddos.cpp libskutils/src/multifunction.cpp
libweb3jsonrpc/UnixSocketServer.cpp libweb3jsonrpc/IpcServerBase.cpp""".split())

# ---- targets: name -> (sources, per-repo flags)
def target(name):
    shim = [VERIF + "/shim/src/" + f for f in sorted(os.listdir(VERIF + "/shim/src"))]
    sim = sorted(glob.glob(VERIF + "/sim/*.cpp"))
    if name == "sim":
        return dict(repo=repo_sources(), rflags=[], own=shim + sim, oflags=[])
    if name == "simh":
        return dict(repo=repo_sources(True), rflags=["-DHISTORIC_STATE=1"], own=shim + sim, oflags=["-DHISTORIC_STATE=1"])
    raise SystemExit("unknown target " + name)

def build(name, quiet=False):
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True); os.makedirs(B + "/bin", exist_ok=True)
    lock = open(B + "/.lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    subprocess.check_call([VERIF + "/gen_headers.sh", GEN])
    t = target(name)
    jobs = [(os.path.join(REPO, s), t["rflags"] + (["-fsanitize=thread"] if s in TSAN else [])) for s in t["repo"]] + [(s, t["oflags"]) for s in t["own"]]
    # long compilations first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    objs, errs = [], []
    with ThreadPoolExecutor(JOBS) as ex:
        for o, e in ex.map(lambda j: compile_one(j[0], j[1], name), jobs):
            if e: errs.append(e)
            else: objs.append(o)
    if errs:
        sys.stderr.write("BUILD FAILED (%s)\n" % name + "\n".join(errs[:5]) + "\n")
        return None
    objs.sort()
    lk = hashlib.sha256(("\n".join(objs) + " ".join(LIBS)).encode()).hexdigest()[:24]
    exe = B + "/bin/%s-%s" % (name, lk)
    if not os.path.exists(exe):
        rsp = exe + ".rsp"
        open(rsp, "w").write("\n".join(objs))
        p = subprocess.run(["g++", "-no-pie", "-rdynamic", "-Wl,--gc-sections", "-fuse-ld=gold" if os.path.exists("/usr/bin/ld.gold") else "-pthread", "@" + rsp, "-o", exe + ".tmp"] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.unlink(rsp)
        if p.returncode != 0:
            sys.stderr.write("LINK FAILED (%s)\n" % name + p.stdout[-8000:] + "\n")
            return None
        os.rename(exe + ".tmp", exe)
        # keep only a few executables
        old = sorted(glob.glob(B + "/bin/%s-*" % name), key=os.path.getmtime)
        for x in old[:-6]:
            os.unlink(x)
    link = B + "/bin/" + name
    tmp = link + ".l%d" % os.getpid()
    os.symlink(exe, tmp); os.rename(tmp, link)
    if not quiet:
        sys.stderr.write("built %s in %.1f s\n" % (name, time.time() - t0))
    return exe

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from props import PROPS
    names = sorted(set(p.get("exe", "sim") for c in PROPS.values() for p in c["profiles"])) if sys.argv[1:] == ["all"] else sys.argv[1:] or ["sim"]
    for n in names:
        if not build(n):
            sys.exit(2)

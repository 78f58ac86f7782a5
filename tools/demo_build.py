"""demo_build.py REPO WORK: compiles what the demonstration needs from REPO and links WORK/demo"""
import os, sys, subprocess
from concurrent.futures import ThreadPoolExecutor
repo, w = sys.argv[1:3]
os.environ["VERIF_REPO"] = repo
sys.path.insert(0, w + "/lib")
import build as B
B.CXX[B.CXX.index("-O1")] = "-O0"
full = os.path.exists(w + "/sim/FULL")
skip = set("""libdevcore/Base64.cpp libdevcore/DBFactory.cpp libdevcore/LoggingProgramOptions.cpp libdevcore/SharedSpace.cpp libdevcore/TransientDirectory.cpp
libethashseal/Ethash.cpp libethashseal/EthashProofOfWork.cpp libethashseal/GenesisInfo.cpp libethashseal/genesis/mainNetwork.cpp libethashseal/genesis/ropsten.cpp libethashseal/genesis/skale.cpp
libethcore/BasicAuthority.cpp libethereum/BasicGasPricer.cpp libethereum/BlockChainSync.cpp libethereum/CommonNet.cpp libethereum/ConsensusHost.cpp libethereum/GasPricer.cpp libethereum/GenericMiner.cpp
libethereum/StateImporter.cpp libskutils/src/command_line_parser.cpp libskutils/src/http.cpp libskutils/src/mail.cpp libskutils/src/network.cpp libskutils/src/stats.cpp
libweb3jsonrpc/AccountHolder.cpp libweb3jsonrpc/Debug.cpp libweb3jsonrpc/Eth.cpp libweb3jsonrpc/JsonHelper.cpp libweb3jsonrpc/Net.cpp libweb3jsonrpc/SessionManager.cpp
libweb3jsonrpc/Skale.cpp libweb3jsonrpc/SkalePerformanceTracker.cpp libweb3jsonrpc/Tracing.cpp libweb3jsonrpc/Web3.cpp""".split())
subprocess.check_call([w + "/gen_headers.sh", B.GEN]); os.makedirs(B.CACHE, exist_ok=True)
OPT = ("libskale/SnapshotHashAgent.cpp",)   # its inlined accesses are scheduling points
hist = os.path.exists(w + "/sim/HISTORIC")
t = B.target("simh" if hist else "sim")
jobs = [(os.path.join(repo, s), t["rflags"] + (["-fsanitize=thread"] if s in B.TSAN else []) + (["-O1"] if s in OPT else [])) for s in t["repo"] if full or s not in skip]
own = [(s, t["oflags"]) for s in t["own"]]
jobs.sort(key=lambda j: -os.path.getsize(j[0]))
def pch(f):   # precompiled headers, one for each set of options
    subprocess.run(B.CXX + B.DEFS + f + B.INCS + ["-x", "c++-header", w + "/shim/pch.h", "-o", w + "/shim/pch.h.gch/" + ("tsan" if "-fsanitize=thread" in f else "plain")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
os.makedirs(w + "/shim/pch.h.gch", exist_ok=True)
with ThreadPoolExecutor(8) as ex:
    list(ex.map(pch, [t["rflags"], t["rflags"] + ["-fsanitize=thread"]]))
    B.PREINC = "pch.h"
    res = list(ex.map(lambda j: B.compile_one(j[0], j[1], "demo"), own + jobs))
bad = [e for o, e in res if e]
if bad:
    print("\n".join(bad)[:4000]); sys.exit(3)
o = [o for o, e in res]
if os.path.exists(w + "/a.a"): os.unlink(w + "/a.a")
subprocess.check_call(["ar", "rcs", w + "/a.a"] + o[len(own):])
p = subprocess.run(["g++", "-no-pie", "-rdynamic", "-Wl,--gc-sections"] + o[:len(own)] + [w + "/a.a"] + B.LIBS + ["-o", w + "/demo"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode: print(p.stdout[-4000:])
sys.exit(3 if p.returncode else 0)

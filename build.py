#!/usr/bin/env python3
"""Builds the simulator with the sources of /repo's working tree."""
import hashlib, os, subprocess, sys, fcntl, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KSIM_REPO", "/repo")
OUT = os.environ.get("KSIM_BUILD", os.path.join(HERE, "build"))

SUT = ["-std=c++14", "-fopenmp", "-g", "-I" + REPO, "-pthread", "-w", "-fno-gnu-unique"]
DBG = SUT + ["-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-fno-pie"]
REL = SUT + ["-O2", "-DNDEBUG", "-fno-pie"]
SIM = ["-std=c++17", "-O2", "-g", "-Wall", "-fno-pie"]
RT = SIM + ["-fno-builtin", "-U_FORTIFY_SOURCE", "-Wno-builtin-declaration-mismatch", "-fno-threadsafe-statics"]


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_files():
    r = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "_build", "build")]
        r += [os.path.join(d, f) for f in fs if f.endswith((".h", ".cc", ".cpp", ".hpp", ".inc", ".c"))]
    return r


def local(obj, pairs):
    """One relocatable object of the system under test with only its entry point visible."""
    tmp = obj + ".r.o"
    sh(["ld", "-r", "--force-group-allocation", "-o", tmp, obj])
    cmd = ["objcopy"]
    for a, b in pairs:
        if a != b:
            cmd += ["--redefine-sym", a + "=" + b]
    for _, b in pairs:
        cmd += ["--keep-global-symbol=" + b]
    sh(cmd + [tmp, obj])
    os.remove(tmp)


def build():
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked()


def build_locked():
    sim = os.path.join(HERE, "sim")
    simsrc = glob.glob(sim + "/*.cc") + glob.glob(sim + "/*.h") + [os.path.abspath(__file__)]
    rf = repo_files()
    key = digest(simsrc + rf)
    exe = os.path.join(OUT, "ksim-" + key)
    if os.path.exists(exe):
        return exe
    obj = os.path.join(OUT, "obj")
    os.makedirs(obj, exist_ok=True)
    simkey = digest(simsrc)
    lib_ok = [True]
    jobs = []

    def simobj(n, flags, cc="g++"):
        o = os.path.join(obj, n + "-" + simkey + ".o")
        if not os.path.exists(o):
            sh([cc] + flags + ["-c", os.path.join(sim, n + ".cc"), "-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
        return o

    def sut(tool, src, variant, flags):
        o = os.path.join(obj, "sut-%s-%s-%s.o" % (tool, variant, key))
        sh(["g++"] + flags + ["-c", os.path.join(REPO, "tools", src), "-o", o])
        local(o, [("main", "sut_main_%s_%s" % (tool, variant))])
        return o

    def lib():
        o = os.path.join(obj, "lib-" + key + ".o")
        try:
            sh(["g++"] + DBG + ["-I" + sim, "-c", os.path.join(sim, "lib.cc"), "-o", o])
            keep = ["lib_main"]
            local(o, [(k, k) for k in keep])
        except RuntimeError as e:
            sys.stderr.write("build: the library scenarios do not compile with this tree:\n%s\n" % e)
            lib_ok[0] = False
            stub = os.path.join(obj, "stub.cc")
            with open(stub, "w") as f:
                f.write('#include <stdio.h>\n#include <stdlib.h>\nextern "C" int lib_main(void *) { return 97; }\n')
            sh(["g++", "-fno-pie", "-c", stub, "-o", o])
        return o

    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(lib)]
        for t, s in (("icdar", "Icdar17KwsEval.cc"), ("simple", "SimpleKwsEval.cc")):
            fs.append(ex.submit(sut, t, s, "dbg", DBG))
            fs.append(ex.submit(sut, t, s, "rel", REL))
        for n in ("tool_checks", "lib_checks", "scen", "model", "gen", "main"):
            fs.append(ex.submit(simobj, n, SIM))
        fs.append(ex.submit(simobj, "rt", RT))
        fs.append(ex.submit(simobj, "guard", SIM + ["-fno-threadsafe-statics"]))
        objs = [f.result() for f in fs]
    tmp = exe + ".tmp"
    sh(["g++", "-no-pie", "-rdynamic", "-o", tmp] + objs + ["-lgomp", "-lpthread", "-ldl"])
    os.rename(tmp, exe)
    if lib_ok[0]:
        open(exe + ".libok", "w").close()
    for o in objs:
        if key in o:
            os.remove(o)
    # keep the newest few executables
    old = sorted((f for f in glob.glob(OUT + "/ksim-*") if not f.endswith(".libok")), key=os.path.getmtime)[:-6]
    for f in old:
        os.remove(f)
        if os.path.exists(f + ".libok"):
            os.remove(f + ".libok")
    return exe


if __name__ == "__main__":
    try:
        print(build())
    except RuntimeError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(3)

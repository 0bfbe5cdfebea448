#!/usr/bin/env python3
"""Build the simulator executable from /repo's working tree. Objects are cached by content under /verif/build."""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("TT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
COMMON = ["-pthread", "-g1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-pie", "-w"]
SRV = COMMON + ["-O2", "-ffast-math", "-std=c++11", "-fsanitize=thread", "-fstack-protector-strong", "-fno-builtin-memcpy", "-fno-builtin-memset",
                "-D_GLIBCXX_ASSERTIONS", "-DCOMPILE_TIME=1700000000", "-DTT_BRANCH=\"sim\"", "-DTT_COMMIT=\"sim\"", "-I" + REPO + "/include"]
HAR = COMMON + ["-O2", "-std=c++17", "-fno-stack-protector", "-fno-threadsafe-statics", "-fno-gnu-unique", "-D_GLIBCXX_ASSERTIONS"]
LINK = ["-no-pie", "-rdynamic", "-pthread", "-lz", "-ldl"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "strlen", "memcmp")]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(f):
    with open(f, "rb") as fh:
        return fh.read()

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(" ".join(cmd)[-300:] + "\n" + p.stdout.decode(errors="replace"))
        raise SystemExit(2)

def build(verbose=False):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    srcs = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/*/*.cpp"))
    if not srcs:
        sys.stderr.write("no sources in " + REPO + "/src\n"); raise SystemExit(2)
    hdrs = sorted(glob.glob(REPO + "/include/**/*", recursive=True))
    hh = sha(*[f + "\0" + hashlib.sha256(rd(f)).hexdigest() for f in hdrs if os.path.isfile(f)])
    simh = sha(*[hashlib.sha256(rd(f)).hexdigest() for f in sorted(glob.glob(HERE + "/*.h"))])
    jobs, objs, sims = [], [], []
    for s in srcs:
        flags = list(SRV)
        if s.endswith("/src/main.cpp"):
            flags.append("-Dmain=tt_main")
        o = os.path.join(BUILD, "obj", os.path.basename(s)[:-4] + "-" + sha(rd(s), hh, " ".join(flags)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append([CXX, *flags, "-c", s, "-o", o + ".tmp"])
    for s in sorted(glob.glob(HERE + "/*.cpp")):
        o = os.path.join(BUILD, "obj", "sim_" + os.path.basename(s)[:-4] + "-" + sha(rd(s), simh, " ".join(HAR)) + ".o")
        sims.append(o)
        if not os.path.exists(o):
            jobs.append([CXX, *HAR, "-c", s, "-o", o + ".tmp"])
    def one(cmd):
        run(cmd)
        os.rename(cmd[-1], cmd[-1][:-4])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    # Template instantiations of the simulator must not be merged with the server's instrumented ones:
    # a scheduling point inside the simulator's own containers would corrupt it.
    simo = os.path.join(BUILD, "obj", "simall-" + sha(*[os.path.basename(o) for o in sims]) + ".o")
    if not os.path.exists(simo):
        run(["ld", "-r", "--force-group-allocation", *sims, "-o", simo + ".r"])
        nm = subprocess.run(["nm", "--defined-only", simo + ".r"], stdout=subprocess.PIPE).stdout.decode().split("\n")
        weak = [l.split()[-1] for l in nm if len(l.split()) == 3 and l.split()[1] in "WVu"]
        with open(simo + ".w", "w") as f:
            f.write("\n".join(weak) + "\n")
        run(["objcopy", "--localize-symbols=" + simo + ".w", simo + ".r", simo + ".tmp"])
        os.unlink(simo + ".r"); os.unlink(simo + ".w")
        os.rename(simo + ".tmp", simo)
    objs.append(simo)
    exe = os.path.join(BUILD, "ttsim-" + sha(*[os.path.basename(o) for o in objs], " ".join(LINK)))
    if not os.path.exists(exe):
        run([CXX, *objs, *LINK, "-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
        # keep the cache small
        keep = set(objs)
        allo = sorted(glob.glob(BUILD + "/obj/*.o"), key=os.path.getmtime)
        for f in allo[:-400]:
            if f not in keep:
                os.unlink(f)
        for f in sorted(glob.glob(BUILD + "/ttsim-*"), key=os.path.getmtime)[:-12]:
            os.unlink(f)
    lock.close()
    return exe

if __name__ == "__main__":
    print(build(True))

"""Builds /repo's library sources and the harness, from the current working tree.

Objects are cached under /verif/build/obj-<flavour> keyed by a digest of the source, every
header in the tree and the flags, so that a stale object can never be used."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EG_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

DEFS = ["-DEXPORT_INTERNALS", "-DHACL_CAN_COMPILE_VEC128",
        "-DHACL_CAN_COMPILE_VEC256", "-DUSE_STANDARD_PRIMES", "-DELECTIONGUARD_BUILD_SHARED"]
INCS = ["-isystem", REPO + "/include", "-isystem", REPO + "/src",
        "-isystem", REPO + "/src/electionguard", "-isystem", REPO + "/src/karamel"]

FLAVOURS = {
    "std": {"c": ["-O2"], "cxx": ["-O0"], "hot": ["-O2"], "ld": []},
    "tsan": {"c": ["-O1", "-g", "-fsanitize=thread"], "cxx": ["-O1", "-g", "-fsanitize=thread"],
             "hot": ["-O1", "-g", "-fsanitize=thread"], "ld": ["-fsanitize=thread"]},
    "asan": {"c": ["-O2"], "cxx": ["-O0", "-g", "-fsanitize=address"],
             "hot": ["-O1", "-g", "-fsanitize=address"], "ld": ["-fsanitize=address"]},
}
HOT = {"group.cpp", "Hacl_Bignum4096.cpp", "Hacl_Bignum256.cpp", "hash.cpp", "nonces.cpp"}


class BuildError(Exception):
    pass


def lib_sources():
    text = open(REPO + "/src/CMakeLists.txt").read()
    found = re.findall(r"\$\{PROJECT_SOURCE_DIR\}/([^\s\")]+\.(?:cpp|c))\b", text)
    out = []
    for f in found:
        p = os.path.join(REPO, f)
        if p not in out and os.path.exists(p):
            out.append(p)
    return out


def headers_digest():
    h = hashlib.sha256()
    files = []
    for base in (REPO + "/include", REPO + "/src"):
        for root, _, names in os.walk(base):
            files += [os.path.join(root, n) for n in names if re.search(r"\.(h|hpp|hh|inc|ipp)$", n)]
    files += glob.glob(VERIF + "/harness/*.hpp")
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_one(job):
    src, obj, cmd = job
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp, src], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (src, r.stderr[:20000]))
    os.replace(tmp, obj)
    return obj


def build(target, harness, flavour="std", only=None):
    """target: name of the executable; harness: harness sources; only: restrict library sources."""
    fl = FLAVOURS[flavour]
    odir = os.path.join(BUILD, "obj-" + flavour)
    os.makedirs(odir, exist_ok=True)
    hd = headers_digest()
    jobs, objs = [], []
    srcs = lib_sources()
    if only:
        srcs = [s for s in srcs if s.endswith(".c") or os.path.basename(s) in only
                and "/facades/" not in s or ("/facades/Hacl" in s)]
    srcs = srcs + [os.path.join(VERIF, "harness", h) for h in harness]
    for s in srcs:
        base = os.path.basename(s)
        if s.endswith(".c"):
            cmd = ["gcc", "-fPIC", "-w", "-c"] + fl["c"] + DEFS + INCS
        else:
            opt = fl["hot"] if base in HOT else fl["cxx"]
            cmd = ["g++", "-std=c++17", "-fPIC", "-pthread", "-w", "-c"] + opt + DEFS + INCS
        key = hashlib.sha256("\0".join([hd, s, " ".join(cmd)]).encode() + open(s, "rb").read()).hexdigest()[:24]
        obj = os.path.join(odir, base + "." + key + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append((s, obj, cmd))
    heavy = {"manifest.cpp": 9, "ballot.cpp": 8, "ballot_compact.cpp": 7, "election.cpp": 6, "encrypt.cpp": 7}
    jobs.sort(key=lambda j: -(heavy.get(os.path.basename(j[0]), 0) * 10 ** 6 + os.path.getsize(j[0]) / 1000))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(compile_one, jobs))
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s-%s" % (target, flavour, key))
    if not os.path.exists(exe):
        r = subprocess.run(["g++", "-pthread"] + fl["ld"] + objs + ["-lfmt"] + ["-o", exe + ".tmp%d" % os.getpid()],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("link failed\n" + r.stderr[:20000])
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe


def classes():
    """Compiles the Java overrides of EGPrim."""
    src = sorted(glob.glob(VERIF + "/java/*.java"))
    h = hashlib.sha256()
    for s in src:
        h.update(open(s, "rb").read())
    out = os.path.join(BUILD, "classes-" + h.hexdigest()[:16])
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = subprocess.run(["javac", "-d", tmp, "-cp", "/opt/veriftools/tla/tla2tools.jar"] + src,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("javac failed\n" + r.stderr)
        os.replace(tmp, out)
    return out


if __name__ == "__main__":
    print(classes())

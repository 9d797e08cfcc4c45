"""Builds the conformance harness (and the command-line program) from /repo's
current working tree, in a directory named after the content of the sources."""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PSCM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
FLAGS = ["-g1", "-O0", "-std=c++20", "-w", "-include", "limits.h", "-I", f"{REPO}/src/c", "-I", f"{REPO}/src",
         "-I", f"{VERIF}/harness"]
WRAP = ["-Wl,--wrap=_Z8gc_alloc7TypeTagm"]


class BuildError(Exception):
    pass


def _sources():
    d = f"{REPO}/src/c"
    ccs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".cc", ".cpp", ".c")))
    hs = []
    for root, dirs, files in os.walk(f"{REPO}/src"):
        dirs.sort()
        hs += sorted(os.path.join(root, f) for f in files if f.endswith((".h", ".hpp", ".inc", ".def")))
    return ccs, hs


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def _run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(verbose=False):
    """Returns {"harness": path, "cli": path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(verbose)


def _build(verbose):
    ccs, hs = _sources()
    hsrc = [os.path.join(VERIF, "harness", f) for f in ("harness.cc", "capi.inc")]
    main = f"{REPO}/src/main.cc"
    key = _digest(ccs + hs + hsrc + [main], " ".join(FLAGS))
    out = os.path.join(BUILD, "bin-" + key)
    if os.path.exists(os.path.join(out, "done")):
        return {"harness": os.path.join(out, "harness"), "cli": os.path.join(out, "pscm_cc")}
    for d in os.listdir(BUILD):
        if d.startswith("bin-"):
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(out, exist_ok=True)
    hdig = _digest(hs, " ".join(FLAGS))

    def comp(args):
        src, deps = args
        k = _digest([src] + deps, hdig)
        obj = os.path.join(objdir, os.path.basename(src) + "." + k + ".o")
        if not os.path.exists(obj):
            for old in os.listdir(objdir):
                if old.startswith(os.path.basename(src) + "."):
                    os.unlink(os.path.join(objdir, old))
            r = _run([CXX] + FLAGS + ["-c", src, "-o", obj + ".tmp"])
            if r.returncode:
                raise BuildError(f"{src}:\n{r.stdout[-4000:]}")
            os.rename(obj + ".tmp", obj)
        return obj

    jobs = [(s, []) for s in ccs] + [(hsrc[0], hsrc[1:]), (main, [])]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, jobs))
    lib, hobj, mobj = objs[:-2], objs[-2], objs[-1]
    r = _run([CXX, "-o", f"{out}/harness", hobj] + lib + WRAP)
    if r.returncode:
        raise BuildError(r.stdout[-4000:])
    r = _run([CXX, "-o", f"{out}/pscm_cc", mobj] + lib)
    if r.returncode:
        raise BuildError(r.stdout[-4000:])
    open(f"{out}/done", "w").close()
    return {"harness": f"{out}/harness", "cli": f"{out}/pscm_cc"}


if __name__ == "__main__":
    try:
        print(build(True))
    except BuildError as e:
        print(e)
        sys.exit(2)

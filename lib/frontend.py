"""Front end: builds the clang extractor, runs it over every translation unit
of /repo's current tree and links the result into one Program."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL_SRC = os.path.join(VERIF, "tool", "extract.cc")
BUILD = os.path.join(VERIF, "build")          # git-ignored
TOOL = os.path.join(BUILD, "gcp-extract")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, parse error, ...)."""


def repo_root():
    return os.path.realpath(os.environ.get("GCP_REPO", "/repo"))


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(TOOL_SRC, "rb").read()).hexdigest()
    stamp = TOOL + ".stamp"
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return TOOL
    tmp = TOOL + ".%d" % os.getpid()
    cmd = ["/usr/bin/g++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-w",
           "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-o", tmp, TOOL_SRC,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM.so.1"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisBroken("cannot build the extractor:\n" + p.stderr[-2000:])
    os.replace(tmp, TOOL)
    open(stamp, "w").write(h)
    return TOOL


SYS_INC = """/usr/lib/x86_64-linux-gnu/openmpi/include
/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi /usr/include/petsc
/usr/include/trilinos /usr/include/hdf5/openmpi /usr/include/scotch
/usr/include/suitesparse /usr/include/opencascade /usr/include/slepc""".split()


def flags(root):
    f = ["-x", "c++", "-std=c++17", "-w", "-ferror-limit=20", "-I" + root + "/include"]
    for d in SYS_INC:
        if os.path.isdir(d):
            f += ["-isystem", d]
    f += ["-resource-dir", LLVM + "/lib/clang/18"]
    return f


def units(root):
    """Every .cc of the library and of the applications (what the build
    compiles).  Cross-checked against the CMake list of the library."""
    lib = sorted(glob.glob(root + "/source/**/*.cc", recursive=True))
    app = sorted(glob.glob(root + "/applications/*.cc"))
    cml = os.path.join(root, "source", "CMakeLists.txt")
    listed = set(re.findall(r"([\w/]+\.cc)", open(cml).read())) if os.path.exists(cml) else set()
    have = {os.path.relpath(p, root + "/source") for p in lib}
    lib = [p for p in lib if os.path.relpath(p, root + "/source") in listed] if listed else lib
    for m in listed - have:
        raise AnalysisBroken("source/CMakeLists.txt lists %s, which does not exist" % m)
    return lib + app


def _one(args):
    tool, root, f, out, fl = args
    p = subprocess.run([tool, root + "/", out, f, "--"] + fl, capture_output=True, text=True)
    return f, p.returncode, p.stderr


def extract(root=None, only=None):
    """Returns the list of per-unit JSON objects."""
    root = root or repo_root()
    tool = build_tool()
    us = units(root)
    if only:
        us = [u for u in us if any(os.path.relpath(u, root) == o for o in only)]
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    hdrs = sorted(glob.glob(root + "/include/**/*.h", recursive=True))
    hh = hashlib.sha256()
    hh.update(open(TOOL_SRC, "rb").read())
    for h in hdrs:
        hh.update(h.encode() + b"\0" + open(h, "rb").read())
    fl = flags(root)
    hh.update(repr(fl).encode())
    jobs, res = [], {}
    keys = {}
    for u in us:
        k = hh.copy()
        k.update(u.encode() + b"\0" + open(u, "rb").read())
        keys[u] = os.path.join(cache, k.hexdigest()[:32] + ".json")
        if not os.path.exists(keys[u]):
            jobs.append((tool, root, u, keys[u] + ".tmp%d" % os.getpid(), fl))
    # biggest first: better load balance
    jobs.sort(key=lambda j: -os.path.getsize(j[2]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f, rc, err in ex.map(_one, jobs):
            out = keys[f] + ".tmp%d" % os.getpid()
            if rc != 0 or not os.path.exists(out):
                raise AnalysisBroken("clang could not parse %s:\n%s" % (f, err[-1500:]))
            os.replace(out, keys[f])
    # keep the cache small
    ents = sorted(glob.glob(cache + "/*.json"), key=lambda e: os.path.getmtime(e) if os.path.exists(e) else 0)
    keep = set(keys.values())
    for e in ents[:-400]:
        if e not in keep:
            try:
                if time.time() - os.path.getmtime(e) > 3600:
                    os.remove(e)
            except FileNotFoundError:
                pass
    out = []
    for u in us:
        j = json.load(open(keys[u]))
        if j.get("errors"):
            raise AnalysisBroken("%s: %d parse errors" % (u, j["errors"]))
        j["unit"] = u
        out.append(j)
    return out


class Program:
    def __init__(self, us, root):
        self.root = root
        self.units = [os.path.relpath(u["unit"], root) for u in us]
        self.funcs = {}          # usr -> function
        self.records = {}
        self.enums = {}
        self.enumval = {}
        for u in us:
            for f in u["functions"]:
                f["relfile"] = os.path.relpath(f["file"], root)
                self.funcs.setdefault(f["u"], f)
            for r in u["records"]:
                self.records.setdefault(r["q"], r)
            for e in u["enums"]:
                self.enums.setdefault(e["q"], e["c"])
                self.enumval.update(zip(e["c"], e.get("v", [])))
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f["q"], []).append(f)

    def find(self, q, nparams=None, pred=None):
        """All bodies of the function with this qualified name (template
        arguments are part of the class prefix, e.g. gCP::FEField<2>::n_dofs)."""
        fs = self.by_q.get(q, [])
        if nparams is not None:
            fs = [f for f in fs if len(f["params"]) == nparams]
        if pred:
            fs = [f for f in fs if pred(f)]
        return fs

    def one(self, q, nparams=None, pred=None):
        fs = self.find(q, nparams, pred)
        if len(fs) != 1:
            raise AnalysisBroken("anchor %s: %d definitions found (1 expected)" % (q, len(fs)))
        return fs[0]


def load(root=None, only=None):
    root = os.path.realpath(root or repo_root())
    return Program(extract(root, only), root)


if __name__ == "__main__":
    t = time.time()
    p = load()
    print(len(p.funcs), "functions", len(p.records), "records", time.time() - t)

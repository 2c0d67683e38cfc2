"""Front end: build the extractor, run it over the current /repo tree, load the
resulting program model.  Nothing of LearnTA is executed."""
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LEARNTA_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis could not be carried out (vanished anchor, parse failure)."""


def build_extractor():
    src = os.path.join(VERIF, "tool", "extract.cc")
    out = os.path.join(BUILD, "extract")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-O1", "-DNDEBUG", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(tmp):
        raise AnalysisBroken("cannot build the extractor:\n" + r.stdout[-2000:])
    os.rename(tmp, out)
    return out


FLAGS = ["-std=gnu++17", '-DLearnTA_VERSION="0.0.1"', "-DBOOST_LOG_DYN_LINK=1", "-w",
         "-I/usr/include/eigen3"]


def _inputs(repo):
    hs = sorted(glob.glob(repo + "/include/*.hh") + glob.glob(repo + "/include/*.h") + glob.glob(repo + "/include/*.hpp"))
    ex = sorted(glob.glob(repo + "/examples/*.hh"))
    cc = sorted(glob.glob(repo + "/src/*.cc") + glob.glob(repo + "/src/*.cpp"))
    return hs, ex, cc


def extract(repo=REPO):
    tool = build_extractor()
    hs, ex, cc = _inputs(repo)
    if len(hs) < 20 or len(cc) < 4:
        raise AnalysisBroken("sources not found under %s (%d headers, %d sources)" % (repo, len(hs), len(cc)))
    h = hashlib.sha256()
    for f in [os.path.join(VERIF, "tool", "extract.cc")] + hs + ex + cc:
        h.update(f.encode())
        with open(f, "rb") as fp:
            h.update(fp.read())
    key = h.hexdigest()[:24]
    cache = os.path.join(BUILD, "ir-" + key)
    if os.path.isdir(cache):
        return [json.load(open(p)) for p in sorted(glob.glob(cache + "/*.json"))]
    tmp = tempfile.mkdtemp(prefix="sa-ir-")
    try:
        drv = os.path.join(tmp, "driver.cc")
        with open(drv, "w") as f:
            f.write("#include <cassert>\n#include <climits>\n#include <list>\n#include <deque>\n#include <stdexcept>\n#include <iostream>\n#include <chrono>\n")
            for x in hs + ex:
                f.write('#include "%s"\n' % x)
        flags = FLAGS + ["-I" + repo + "/include", "-I" + repo + "/examples"]
        jobs = [(drv, os.path.join(tmp, "00-headers.json"))]
        for c in cc:
            jobs.append((c, os.path.join(tmp, "10-" + os.path.basename(c) + ".json")))

        def run(j):
            r = subprocess.run([tool, os.path.realpath(repo) + "/", j[1], j[0], "--"] + flags,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r

        with ThreadPoolExecutor(max_workers=6) as p:
            rs = list(p.map(run, jobs))
        for j, r in zip(jobs, rs):
            if r.returncode != 0 or not os.path.exists(j[1]):
                raise AnalysisBroken("clang could not parse %s:\n%s" % (j[0], r.stdout[-3000:]))
        out = [json.load(open(j[1])) for j in jobs]
        os.makedirs(BUILD, exist_ok=True)
        # keep only a handful of cached trees
        def age(d):
            try:
                return os.path.getmtime(d)
            except OSError:
                return 0
        old = sorted(glob.glob(BUILD + "/ir-*"), key=age)
        for o in old[:-8]:
            shutil.rmtree(o, ignore_errors=True)
        t2 = cache + ".%d" % os.getpid()
        os.makedirs(t2, exist_ok=True)
        for j in jobs:
            shutil.copy(j[1], t2)
        try:
            os.rename(t2, cache)
        except OSError:
            shutil.rmtree(t2, ignore_errors=True)
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Func:
    __slots__ = ("fid", "name", "file", "line", "endline", "params", "body", "cls", "const", "static", "virtual",
                 "overrides", "inits", "ret", "void", "lam", "access", "implicit", "raw")

    def __init__(self, o):
        self.fid = o["fid"]
        self.name = o["name"]
        self.file = o["file"]
        self.line = o["line"]
        self.endline = o.get("endline", self.line)
        self.params = o["params"]
        self.body = o.get("body")
        self.cls = o.get("cls")
        self.const = o.get("const", False)
        self.static = o.get("static", False)
        self.virtual = o.get("virtual", False)
        self.overrides = o.get("overrides", [])
        self.inits = o.get("inits", [])
        self.ret = o["ret"]
        self.void = o.get("void", False)
        self.lam = o.get("lambda", False)
        self.access = o.get("access")
        self.implicit = o.get("implicit", False)
        self.raw = o

    @property
    def rel(self):
        return os.path.relpath(self.file, os.path.realpath(REPO))

    def where(self, l=None):
        return "%s:%d" % (self.rel, (l[0] if l else self.line))

    def __repr__(self):
        return "<%s>" % self.fid


class Program:
    def __init__(self, tus):
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.by_name = {}
        for n, tu in enumerate(tus):
            if tu.get("errors"):
                raise AnalysisBroken("parse errors")
            for r in tu["records"]:
                self.records.setdefault(r["name"], r)
            for r in tu["enums"]:
                self.enums.setdefault(r["name"], r)
            for f in tu["functions"]:
                if f["fid"] in self.funcs:
                    continue
                self._renumber(f, n)
                self.funcs[f["fid"]] = Func(f)
        for f in self.funcs.values():
            self.by_name.setdefault(f.name, []).append(f)
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.overrides:
                self.overriders.setdefault(o, []).append(f.fid)
        self.parent_of_lambda = {}
        for f in self.funcs.values():
            for e in walk(f.raw):
                if e.get("k") == "Lambda":
                    for x in e["fids"]:
                        self.parent_of_lambda.setdefault(x, f.fid)

    def _renumber(self, o, n):
        base = n * 10000000
        st = [o]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                v = x.get("id")
                if isinstance(v, int):
                    x["id"] = base + v
                v = x.get("hv")
                if isinstance(v, int):
                    x["hv"] = base + v
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)

    def find(self, name, nparams=None, pred=None, required=True):
        """The unique function with this qualified name (and parameter filter)."""
        c = [f for f in self.by_name.get(name, []) if f.body is not None]
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        if len(c) != 1:
            if required:
                raise AnalysisBroken("anchor %s: %d definitions" % (name, len(c)))
            return None
        return c[0]

    def find_all(self, name):
        return [f for f in self.by_name.get(name, []) if f.body is not None and not f.raw.get("implicit")]

    def derives(self, cls, base):
        seen = set()
        st = [cls]
        while st:
            c = st.pop()
            if c == base:
                return True
            if c in seen:
                continue
            seen.add(c)
            r = self.records.get(c)
            if r:
                st.extend(r["bases"])
        return False


def walk(o):
    """All dict nodes below (and including) o, pre-order."""
    st = [o]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in reversed(list(x.values())) if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in reversed(x) if isinstance(v, (dict, list)))


def load(repo=REPO):
    return Program(extract(repo))


if __name__ == "__main__":
    p = load()
    print(len(p.funcs), "functions", len(p.records), "records")
    pat = sys.argv[1] if len(sys.argv) > 1 else None
    if pat:
        for f in p.funcs.values():
            if pat in f.fid:
                print(f.fid, f.where(), "body" if f.body else "-")

"""Extraction of /repo's current sources into the typed IR, and loading of that IR."""
import json, os, subprocess, sys, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PPK_REPO", "/repo")
TOOL = os.path.join(VERIF, "tool", "extract")
CLANG_RES = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisBroken(Exception):
    """the analysis cannot give an answer (front end failed, anchor vanished, construct unsupported)"""


def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    tmp = TOOL + ".%d" % os.getpid()
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stdout[-3000:])
    os.replace(tmp, TOOL)


COMMON = ["-x", "c++", "-std=c++17", "-DKOKKOS_DEPENDENCE", "-DNDEBUG", "-DUSE_HDF5", "-DUSE_DOUBLE", "-fopenmp", "-w",
          "-I" + os.path.join(VERIF, "tool", "inc")]
RES = ["-resource-dir", CLANG_RES]
INC = lambda: ["-I" + REPO + "/src", "-I" + REPO + "/src/utils", "-I" + REPO + "/src/muscl", "-I" + REPO + "/src/utils/config/inih",
               "-I" + REPO + "/src/utils/mpiUtils"]
MPI_INC = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]


def flags(config):
    f = list(COMMON) + INC()
    if config == "serial":
        f += ["-DUSE_SDM", "-I/usr/include/hdf5/serial"]
    elif config == "mpi":
        f += ["-DMPI_CUDA_AWARE_OFF", "-DUSE_HDF5_PARALLEL", "-DUSE_MPI", "-I/usr/include/hdf5/openmpi"] + MPI_INC
    elif config == "mpisdm":
        f += ["-DMPI_CUDA_AWARE_OFF", "-DUSE_HDF5_PARALLEL", "-DUSE_MPI", "-DUSE_SDM", "-I/usr/include/hdf5/openmpi"] + MPI_INC
    else:
        raise ValueError(config)
    return f + RES


def tree_hash():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".h", ".cpp", ".c", ".hpp")):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(open(os.path.join(VERIF, "tool", "extract.cpp"), "rb").read())
    return h.hexdigest()[:20]


def extract(config, source, skip="-", th=None):
    """source: path relative to REPO (or absolute). returns parsed json"""
    src = source if os.path.isabs(source) else os.path.join(REPO, source)
    if not os.path.exists(src):
        raise AnalysisBroken("source file vanished: " + src)
    cache = os.path.join(VERIF, ".cache"); os.makedirs(cache, exist_ok=True)
    th = th or tree_hash()
    tag = config + "_" + source.replace("/", "_").replace(".", "_")
    out = os.path.join(cache, "%s.%s.%s.json" % (tag, hashlib.sha256(skip.encode()).hexdigest()[:6], th))
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run([TOOL, tmp, tag, skip, os.path.realpath(REPO) + "/src" if False else REPO + "/src", src, "--"] + flags(config),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise AnalysisBroken("front end failed on %s (%s): %s" % (source, config, r.stdout[-2000:]))
        os.replace(tmp, out)
    return out


def prune_cache(keep_hash):
    cache = os.path.join(VERIF, ".cache")
    if os.path.isdir(cache):
        for f in os.listdir(cache):
            if f.endswith(".json") and keep_hash not in f:
                try: os.unlink(os.path.join(cache, f))
                except OSError: pass


class Func:
    __slots__ = ("id", "d", "types", "name", "disp", "file", "line", "cls", "params", "body", "kind", "static", "virt", "inits", "ret", "tu", "copy", "impl", "targs", "annot")

    def __init__(self, id, d, types, tu):
        self.id = id; self.d = d; self.types = types; self.tu = tu
        self.name = d["name"]; self.disp = d["disp"]; self.file = d["file"]; self.line = d["line"]; self.cls = d["cls"]
        self.params = d["params"]; self.body = d["body"]; self.kind = d["kind"]; self.static = d["static"]; self.virt = d["virt"]
        self.inits = d.get("inits", []); self.ret = d["ret"]; self.copy = d["copy"]; self.impl = d["impl"]; self.targs = d.get("targs", [])
        self.annot = d["annot"]

    def relfile(self):
        return self.file[len(REPO) + 1:] if self.file.startswith(REPO + "/") else self.file

    def where(self, line=None):
        return "%s:%d" % (self.relfile(), line if line else self.line)


class Program:
    def __init__(self, config):
        self.config = config
        self.funcs = {}; self.records = {}; self.globals = {}; self.enums = {}; self.rectypes = {}; self.files = set(); self.tus = []
        self.typebyname = {}

    def load(self, path, tag):
        j = json.load(open(path))
        types = j["types"]
        for t in types:
            if t is not None:
                t["_tu"] = types
                self.typebyname.setdefault(t["s"], t)
        for fid, d in j["funcs"].items():
            if fid not in self.funcs:
                self.funcs[fid] = Func(fid, d, types, tag)
        for n, r in j["records"].items():
            old = self.records.get(n)
            if old is None or (not old.get("fields") and r.get("fields")):
                r["_types"] = types
                self.records[n] = r
        for n, g in j["globals"].items():
            if n not in self.globals or (self.globals[n]["init"] is None and g["init"] is not None):
                g["_types"] = types
                self.globals[n] = g
        self.enums.update(j["enums"])
        self.files.update(j["files"])
        self.tus.append(tag)

    def find(self, name=None, cls=None, disp=None, pred=None):
        out = []
        for f in self.funcs.values():
            if name is not None and f.name != name: continue
            if cls is not None and f.cls != cls and (self.records.get(f.cls, {}).get("qual") != cls): continue
            if disp is not None and f.disp != disp: continue
            if pred and not pred(f): continue
            out.append(f)
        return out

    def enumval(self, name):
        for e in self.enums.values():
            if name in e: return e[name]
        raise AnalysisBroken("enumerator %s vanished" % name)


def load_program(config, sources, skip="-"):
    build_tool()
    th = tree_hash()
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda s: extract(config, s, skip, th), sources))
    prune_cache(th)
    P = Program(config)
    for s, o in zip(sources, outs):
        P.load(o, s)
    return P

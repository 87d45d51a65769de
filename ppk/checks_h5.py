"""HDF5 snapshots: what is written describes the state, and reading a snapshot back gives the state that was saved."""
from .checks_io import *
from .h5 import H5, tname

H5SRC = IOSRC + ["src/utils/io/IO_HDF5.cpp"]
_Q = {}


def h5prog(config):
    if config not in _Q:
        src = H5SRC + (["src/utils/mpiUtils/MpiComm.cpp", "src/utils/mpiUtils/MpiCommCart.cpp"] if config == "mpi" else [])
        _Q[config] = load_program(config, src)
    return _Q[config]


def base_cfg(solver, cfg, restart):
    cls, dim, nbvar, gw, mhd = SOLVERS[solver]
    c = {("hydro", "riemann"): "hlld" if mhd else "hllc", ("OTHER", "implementationVersion"): 0, ("hydro", "slope_type"): 1, ("gravity", "static"): False, ("gravity", "point"): False,
         ("run", "restart_enabled"): restart, ("hydro", "problem"): "blast", ("run", "noutput"): 10, ("output", "vtk_enabled"): False, ("output", "hdf5_enabled"): True,
         ("output", "outputDir"): "Dir", ("output", "outputPrefix"): "Pre", ("run", "restart_upscale"): False, ("run", "restart_filename"): "in.h5",
         ("output", "ghostIncluded"): False, ("output", "allghostIncluded"): False, ("output", "reassembleInFile"): True, ("output", "hdf5_verbose"): False, ("run", "hdf5_verbose"): False}
    c.update(cfg)
    return c


def h5_prog_run(config, solver, cfg, restart):
    cls, dim, nbvar, gw, mhd = SOLVERS[solver]
    def pre(I): I.h5 = H5(I, None)
    R = solver_run(h5prog(config), solver, "ppkMHD::" + cls, base_cfg(solver, cfg, restart), opt={"streams": 2, "heapviews": True}, pre=pre)
    R.solver, R.dim, R.config, R.gw, R.nb, R.mhd = solver, dim, config, gw, nbvar, mhd
    if config == "mpi": R.I.mpi.anyrank = True
    return R


def h5_save(config, solver, cfg, it=0):
    R = h5_prog_run(config, solver, cfg, False); R.it = it
    step(R, iteration=it, method="init_io")
    R.st.mem[R.sloc + ("m_t",)] = mk("sym", "t"); R.st.mem[R.sloc + ("m_times_saved",)] = psym("saved")
    R.n0 = len(R.I.events)
    step(R, iteration=it, method="save_solution")
    return R


def h5_load(config, solver, cfg):
    R = h5_prog_run(config, solver, cfg, True)
    n = [k for k, e in enumerate(R.I.events) if e[0] == "h5" or (e[0] == "hostview")]
    R.n0 = 0
    return R


class Val:
    """linear combination of atoms (saved cells, elements of a file)"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = {k: v for k, v in t.items() if v}
    def __eq__(self, o): return isinstance(o, Val) and self.t == o.t
    def __hash__(self): return hash(frozenset(self.t.items()))
    def add(self, o, c=1):
        t = dict(self.t)
        for k, v in o.t.items(): t[k] = t.get(k, 0) + c * v
        return Val(t)
    def scale(self, c): return Val({k: v * c for k, v in self.t.items()})
    def __repr__(self): return " + ".join("%s%s" % ("" if v == 1 else "%s " % v, atom_s(k)) for k, v in sorted(self.t.items(), key=repr)) or "0"


def atom_s(a):
    if a == (): return "1"
    if a[0] == "cell": return "%s%s of process %s" % (a[2], list(a[3]), a[1])
    if a[0] == "file": return "%s%s" % (a[1], list(a[2]))
    return "an unset element of %s%s" % (a[1], list(a[2]))


def atom(*a): return Val({a: Fraction(1)})


class Mach:
    """host memory, HDF5 objects and one file during the replay for chosen symbols"""
    def __init__(self, R, env, rank, fileobj, reading=None):
        self.R = R; self.I = R.I; self.env = env; self.rank = rank; self.f = fileobj; self.src = reading
        self.mem = {}; self.alias = {}; self.ld = {}; self.spaces = {}; self.sets = {}; self.err = []; self.reads = 0; self.writes = 0; self.size = {}
        self.ix = {id(e): k for k, e in enumerate(R.I.events)}

    def cell(self, alloc, idx):
        v = self.mem.get((alloc, idx))
        if v is not None: return v
        a = self.alias.get(alloc, None)
        if a is not None: return a[0].get((a[1], idx)) or atom("cell", self.rank, a[1], idx)
        if alloc.startswith(("heap", "mirror")): return atom("unset", alloc, idx)
        return atom("cell", self.rank, alloc, idx)

    def ev(self, v):
        env = self.env
        if isinstance(v, Sel): return self.ev(v.a if env.b(v.c) else v.b)
        if isinstance(v, (int, Fraction, Poly)): return Val({(): Fraction(env.p(v))})
        if isinstance(v, Node):
            if v.op == "c": return Val({(): Fraction(v.a[0])})
            if v.op == "i2f": return Val({(): Fraction(env.p(v.a[0]))})
            if v.op == "ld":
                k = (v.a[0], v.a[1], v.a[2])
                idx = tuple(env.p(x) for x in v.a[1])
                return self.ld[k] if k in self.ld else self.cell(v.a[0], idx)
            if v.op == "sel": return self.ev(v.a[1] if env.b(v.a[0]) else v.a[2])
            if v.op in "+-": return self.ev(v.a[0]).add(self.ev(v.a[1]), 1 if v.op == "+" else -1)
            if v.op == "neg": return self.ev(v.a[0]).scale(-1)
            if v.op in "*/":
                a, b = self.ev(v.a[0]), self.ev(v.a[1])
                if set(b.t) <= {()}: c = b.t.get((), Fraction(0)); return a.scale(c if v.op == "*" else 1 / c)
                if v.op == "*" and set(a.t) <= {()}: return b.scale(a.t.get((), Fraction(0)))
        raise AnalysisBroken("value %r copied to or from a snapshot" % (v,))

    def emit(self, e, env):
        k = e[0]
        if k == "deep_copy":
            if len(e[1]) > 1 and isinstance(e[1][0], View) and isinstance(e[1][1], View) and all(env.b(c) for c in e[2]):
                d, s = e[1][0].alloc, e[1][1].alloc
                snap = dict(self.mem)
                if s in self.alias: snap = dict(self.alias[s][0]); snap.update({(self.alias[s][1], i): v for (a, i), v in self.mem.items() if a == s}); s = self.alias[s][1]
                self.mem = {x: v for x, v in self.mem.items() if x[0] != d}
                self.alias[d] = (snap, s)
            return
        if k == "hostview":
            _, kind, alloc, idx, val, pc, w = e
            if not all(env.b(c) for c in pc): return
            i = tuple(env.p(x) for x in idx)
            if kind == "read": self.ld[(alloc, idx, self.ix[id(e)] + 1)] = self.cell(alloc, i); return
            if kind == "write": self.mem[(alloc, i)] = self.ev(val); return
            raise AnalysisBroken("%s: %s of an array element" % (w, kind))
        if k == "h5" and all(env.b(c) for c in e[3]): self.h5(e[1], e[2], e[4])

    def ints(self, l): return None if l is None else [self.env.p(x) for x in l]
    def bad(self, key, m, w): self.err.append((key, "%s (%s)" % (m, w)))

    def space(self, h, w):
        if isinstance(h, Sel): h = h.a if self.env.b(h.c) else h.b
        if h == 0: return None
        s = self.spaces.get(repr(h))
        if s is None: raise AnalysisBroken("%s: unknown data space %r" % (w, h))
        return s

    def coords(self, s):
        dims, sel = s
        if sel is None: return list(itertools.product(*[range(n) for n in dims]))
        st, sr, ct, bl = sel; ax = []
        for d in range(len(dims)): ax.append([st[d] + c * (sr[d] if sr else 1) + b for c in range(ct[d]) for b in range(bl[d] if bl else 1)])
        return list(itertools.product(*ax))

    def h5(self, n, d, w):
        if n == "Fcreate": self.f.name = name_of(d[1], self.env); self.f.created += 1
        elif n == "Fopen": self.opened = name_of(d[1], self.env) if not isinstance(d[1], str) else d[1]
        elif n == "Screate_simple": self.spaces[repr(d[0])] = [self.ints(d[1]), None]
        elif n == "Screate": self.spaces[repr(d[0])] = [[], None]
        elif n == "Sselect_hyperslab":
            s = self.space(d[0], w)
            if d[1] != 0: raise AnalysisBroken("%s: hyperslab operation other than H5S_SELECT_SET" % w)
            sel = [self.ints(x) for x in d[2]]; s[1] = sel
            for a in range(len(s[0])):
                hi = sel[0][a] + (sel[2][a] - 1) * (sel[1][a] if sel[1] else 1) + (sel[3][a] if sel[3] else 1)
                if sel[0][a] < 0 or hi > s[0][a]: self.bad("bounds", "the selection reaches element %d of direction %d of a data space of size %d" % (hi - 1, a, s[0][a]), w)
        elif n.startswith("Dcreate"):
            name = name_of(d[2], self.env); s = self.space(d[4] if n == "Dcreate2" and False else d[4] if False else self.dcspace(d), w)
            self.sets[repr(d[0])] = name
            o = self.f.dims.setdefault(name, list(s[0]))
            if o != s[0]: self.bad("dims", "data set %s is created with size %s by one process and %s by another" % (name, o, s[0]), w)
            self.f.created_sets.append(name)
        elif n.startswith("Dopen"): self.sets[repr(d[0])] = name_of(d[2], self.env)
        elif n in ("Dwrite", "Dread"):
            name = self.sets.get(repr(d[0]))
            if name is None: raise AnalysisBroken("%s: unknown data set" % w)
            f = self.f if n == "Dwrite" else self.src
            if name not in f.dims: self.bad("name", "data set %s is not in the file" % name, w); return
            ty = tname(d[1])
            if "DOUBLE" not in ty and not (n == "Dread" and "typeof" in ty): self.bad("type", "8-byte reals are transferred as %s" % ty, w)
            fs = self.space(d[3], w) or [f.dims[name], None]; ms = self.space(d[2], w) or fs
            if fs[0] != f.dims[name]: self.bad("extent", "data set %s has size %s, it is accessed with size %s" % (name, f.dims[name], fs[0]), w); return
            mc, fc = self.coords(ms), self.coords(fs)
            if len(mc) != len(fc): self.bad("count", "%d elements in memory for %d elements of data set %s" % (len(mc), len(fc), name), w); return
            b = d[5].loc if isinstance(d[5], Ref) else None
            base = 0
            if b is not None and b[0] == "view": a = b[1]; base = self.env.p(b[2][0])
            elif b is not None and b[-1] == "[]" and b[:-1] in self.I.heapviews: a = self.I.heapviews[b[:-1]]
            else: raise AnalysisBroken("%s: buffer %r" % (w, d[5]))
            tot = 1
            for x in ms[0]: tot *= x
            if base + tot > self.env.p(self.bufsize(a)): self.bad("buffer", "a buffer of %d elements is used as an array of %s" % (self.env.p(self.bufsize(a)), ms[0]), w)
            for m, c in zip(mc, fc):
                flat = 0
                for x, q in zip(ms[0], m): flat = flat * x + q
                if n == "Dwrite": self.f.data.setdefault(name, {}).setdefault(c, []).append((self.cell(a, (base + flat,)), w)); self.writes += 1
                else: self.mem[(a, (base + flat,))] = atom("file", name, c); self.reads += 1
        elif n == "Awrite":
            self.f.attrs[d[0]] = d[2]

    def dcspace(self, d): return d[3]

    def bufsize(self, a):
        for r, x in self.I.heapviews.items():
            if x == a:
                for e in self.I.events:
                    if e[0] == "new[]" and e[1][2] == r: return e[1][1]
        raise AnalysisBroken("buffer of unknown size")


class File:
    def __init__(self): self.dims = {}; self.data = {}; self.attrs = {}; self.name = None; self.created = 0; self.created_sets = []


def play(R, env, rank, f, src=None):
    M = Mach(R, env, rank, f, src)
    replay(R.I, R.h5ev, env, M.emit)
    return M


def prune(R):
    """the events between the first and last HDF5 call, without everything that has nothing to do with them"""
    ev = R.I.events; k = [i for i, e in enumerate(ev) if i >= R.n0 and e[0] == "h5"]
    if not k: return []
    first = k[0]; last = k[-1]
    while last + 1 < len(ev) and not (ev[last][0] == "deep_copy"): last += 1
    a = R.n0 if R.n0 else max([i for i, e in enumerate(ev[:first]) if e[0] == "deep_copy"] + [0])
    return [e for e in ev[a:last + 1] if e[0] in ("h5", "hostview", "deep_copy", "loop", "endloop")]


MODES = {"interior": {}, "external ghosts": {("output", "ghostIncluded"): True}, "all ghosts": {("output", "allghostIncluded"): True},
         "both ghost options": {("output", "allghostIncluded"): True, ("output", "ghostIncluded"): True},
         "pieces": {("output", "reassembleInFile"): False}, "pieces with ghosts": {("output", "reassembleInFile"): False, ("output", "ghostIncluded"): True}}


def layout(mode, dim, n, g, gw, np):
    """file size and, per element, (process, cell incl. ghosts); x last"""
    ax = list(range(dim))
    if mode == "interior": dims = [n[d] * g[d] for d in ax]
    elif mode == "external ghosts": dims = [n[d] * g[d] + 2 * gw for d in ax]
    elif mode in ("all ghosts", "both ghost options"): dims = [(n[d] + 2 * gw) * g[d] for d in ax]
    else:
        k = 2 * gw if "ghosts" in mode else 0
        dims = [n[d] + k for d in ax]; dims[dim - 1] *= np
    def at(c):
        if mode.startswith("pieces"):
            b = n[dim - 1] + (2 * gw if "ghosts" in mode else 0); r = c[dim - 1] // b
            x = list(c[:dim - 1]) + [c[dim - 1] % b]
            return r, tuple(v + (0 if "ghosts" in mode else gw) for v in x)
        pos, x = [], []
        for d in ax:
            if mode == "interior": p, q = divmod(c[d], n[d]); q += gw
            elif mode == "external ghosts": p = min(max((c[d] - gw) // n[d], 0), g[d] - 1); q = c[d] - p * n[d]
            else: p, q = divmod(c[d], n[d] + 2 * gw)
            pos.append(p); x.append(q)
        r = 0
        for d in ax: r = r * g[d] + pos[d]
        return r, tuple(x)
    return dims, at


def vars_of(R):
    if R.mhd: return list(range(8))
    return [0, 1, 2, 3] if R.dim == 2 else [0, 1, 2, 3, 4]


def save_all(R, n, g, np, s):
    f = File(); errs = []; ms = []
    for r in range(np):
        M = play(R, mkenv(R, n, g, np, r, s), r, f); errs += M.err; ms.append(M)
    return f, errs, ms


def task_save(config, solver, mode, it, tier):
    res = Result(); R = h5_save(config, solver, MODES[mode], it); R.h5ev = prune(R)
    cur = "U" if it % 2 == 0 else "U2"
    key = "%s%s, %s" % (solver, " MPI" if config == "mpi" else "", mode)
    if not res.check(bool(R.h5ev), "none:" + key, "%s: save_solution writes no HDF5 file" % key): return res
    names = {}
    for n, g, np, s in grids_of(R, tier):
        what = "%s, %s cells per process, %d processes" % (key, "x".join(map(str, n[:R.dim])), np)
        f, errs, ms = save_all(R, n, g, np, s)
        for k, m in errs: res.violate(k + ":" + key, "%s: %s" % (what, m))
        res.check(f.created == np, "create:" + key, "%s: the file is created %d times by %d processes" % (what, f.created, np))
        res.check(f.name is not None and f.name.startswith("Dir/Pre") and f.name.endswith(".h5"), "path:" + key, "%s: file %s, expected directory 'Dir', prefix 'Pre', suffix '.h5'" % (what, f.name))
        for s2 in (s, s + 100000, 34):
            M = Mach(R, mkenv(R, n, g, np, 0, s2), 0, File()); nm = [name_of(e[2][1], M.env) for e in R.h5ev if e[0] == "h5" and e[1] == "Fcreate"]
            o = names.setdefault(nm[0], s2); res.check(o == s2, "unique:" + key, "%s: outputs %s and %s use the same file %s" % (what, o, s2, nm[0]))
        want = sorted("/" + NAMES[v] for v in vars_of(R))
        res.check(sorted(f.created_sets) == sorted(want * np), "sets:" + key, "%s: data sets %s, the stored variables are %s" % (what, sorted(set(f.created_sets)), want))
        dims, at = layout(mode, R.dim, n, g, R.gw, np)
        for v in vars_of(R):
            name = "/" + NAMES[v]; dat = f.data.get(name, {})
            if not res.check(f.dims.get(name) == dims[::-1], "size:" + key, "%s: data set %s has size %s, expected %s" % (what, name, f.dims.get(name), dims[::-1])): continue
            for c in itertools.product(*[range(x) for x in dims[::-1]]):
                l = dat.get(c, []); vs = {x[0] for x in l}
                r, cell = at(c[::-1])
                w = atom("cell", r, cur, cell + (v,))
                if len(vs) == 1 and w in vs: res.ok() if hasattr(res, "ok") else setattr(res, "obl", res.obl + 1); continue
                if not l: res.violate("hole:" + key, "%s: element %s of %s is not written" % (what, list(c), name))
                elif len(vs) > 1: res.violate("race:" + key, "%s: element %s of %s is written with %s (%s)" % (what, list(c), name, " and ".join(sorted(map(repr, vs))), l[0][1]))
                else: res.violate("data:" + key, "%s: element %s of %s holds %r, expected %r (%s)" % (what, list(c), name, list(vs)[0], w, l[0][1]))
                break
        a = f.attrs
        res.check(a.get("time step") == psym("saved"), "step:" + key, "%s: attribute 'time step' is %r, the output number is expected" % (key, a.get("time step")))
        res.check(a.get("total time") == mk("sym", "t"), "time:" + key, "%s: attribute 'total time' is %r, the time of the state is expected" % (key, a.get("total time")))
        e0 = mkenv(R, n, g, np, 0, s)
        for d in range(R.dim):
            x = a.get("n" + "xyz"[d]); res.check(x is not None and e0.p(x) == n[d], "n:" + key, "%s: attribute n%s is %r" % (what, "xyz"[d], x))
        res.count("elements", sum(len(x) for x in f.data.values())); res.count("files")
    return res


def grids_of(R, tier):
    if R.config != "mpi": return [(n, (1, 1, 1), 1, 3) for n in sizes(R.dim, tier)]
    out = []
    for n in sizes(R.dim, tier):
        for g in ([(2, 3, 1), (1, 1, 1)] if R.dim == 2 else [(2, 1, 2), (1, 3, 1)]):
            out.append((n, g, g[0] * g[1] * (g[2] if R.dim == 3 else 1), 3))
    return out


def task_load(config, solver, mode, tier):
    """save, then load with the same and with other process grids"""
    res = Result(); R = h5_save(config, solver, MODES[mode], 0); R.h5ev = prune(R)
    L = h5_load(config, solver, MODES[mode]); L.h5ev = prune(L)
    key = "restart %s%s, %s" % (solver, " MPI" if config == "mpi" else "", mode)
    if not res.check(bool(L.h5ev), "none:" + key, "%s: nothing is read" % key): return res
    mt = L.st.mem.get(L.sloc + ("m_times_saved",)); res.check(mt == psym("attr:time step"), "lstep:" + key, "%s: the output counter becomes %r, attribute 'time step' of the file is expected" % (key, mt))
    tt = L.st.mem.get(L.sloc + ("m_t",)); ok = isinstance(tt, Node) and (tt is mk("sym", "attr:total time") or tt.op == "sel" and mk("sym", "attr:total time") in tt.a[1:])
    res.check(ok, "ltime:" + key, "%s: the time becomes %r, attribute 'total time' of the file is expected" % (key, tt))
    D = R.dim; gw = R.gw
    if D == 2: cases = [((2, 3, 1), (2, 1, 1), (2, 3, 1), (2, 1, 1)), ((3, 2, 1), (2, 3, 1), (3, 2, 1), (2, 3, 1)), ((2, 3, 1), (2, 1, 1), (4, 1, 1), (1, 3, 1))]
    else: cases = [((2, 3, 1), (2, 1, 2), (2, 3, 1), (2, 1, 2)), ((1, 2, 3), (1, 3, 1), (1, 2, 3), (1, 3, 1)), ((2, 3, 1), (2, 1, 2), (4, 1, 2), (1, 3, 1))]
    if config != "mpi": cases = [((3, 2, 4), (1, 1, 1)) * 2, ((1, 4, 2), (1, 1, 1)) * 2]
    if mode in ("all ghosts", "both ghost options"): cases = cases[:2]
    for n, g, n2, g2 in cases:
        np = g[0] * g[1] * (g[2] if D == 3 else 1); np2 = g2[0] * g2[1] * (g2[2] if D == 3 else 1)
        what = "%s, saved as %s by %s processes, loaded as %s by %s processes" % (key, n[:D], g[:D], n2[:D], g2[:D])
        f, errs, _ = save_all(R, n, g, np, 3)
        if errs: res.count("unreadable"); res.obl += 1; continue
        compare(res, R, L, f, n, g, n2, g2, np2, key, what, False)
    return res


def compare(res, R, L, f, n, g, n2, g2, np2, key, what, upscale):
    D, gw = R.dim, R.gw
    for r in range(np2):
        M = play(L, mkenv(L, n2, g2, np2, r, 3), r, File(), f)
        for k, m in M.err: res.violate(k + ":" + key, "%s: %s" % (what, m))
        if M.err: return
        if not res.check("U" in M.alias, "nocopy:" + key, "%s: the array of the solution is not set from what is read" % what): return
        p = pos_of(R, g2, r)
        for v in vars_of(R):
            for c in itertools.product(*[range(n2[d]) for d in range(D)]):
                got = M.cell("U", tuple(x + gw for x in c) + (v,))
                t = Val({})
                for a, q in got.t.items():
                    if a and a[0] == "file":
                        l = f.data[a[1]].get(a[2], [])
                        t = t.add((l[-1][0] if l else atom("unset", a[1], a[2])).scale(q))
                    else: t = t.add(Val({a: q}))
                glob = [p[d] * n2[d] + c[d] for d in range(D)]
                def saved(gl):
                    pos = [min(gl[d] // n[d], g[d] - 1) for d in range(D)]; rk = 0
                    for d in range(D): rk = rk * g[d] + pos[d]
                    return atom("cell", rk, "U", tuple(gl[d] - pos[d] * n[d] + gw for d in range(D)) + (v,))
                if not upscale: w = saved(glob)
                else:
                    lo = [x // 2 for x in glob]; w = saved(lo)
                    if R.mhd and v >= 5 and v - 5 < D and glob[v - 5] % 2 == 1:
                        hi = list(lo); hi[v - 5] += 1; w = w.add(saved(hi)).scale(Fraction(1, 2))
                if not res.check(t == w, "value:" + key, "%s: cell %s of variable %s becomes %r, saved was %r" % (what, glob, NAMES[v], t, w)): return
        res.count("loads")


def task_upscale(config, solver, tier):
    """a snapshot of half the resolution is refined when it is read"""
    m = MODES["external ghosts"]; res = Result(); R = h5_save(config, solver, m, 0); R.h5ev = prune(R)
    L = h5_load(config, solver, {**m, ("run", "restart_upscale"): True}); L.h5ev = prune(L)
    key = "upscaled restart %s%s" % (solver, " MPI" if config == "mpi" else ""); D = R.dim
    for n, g in ([((2, 3, 1), (2, 1, 2)), ((1, 2, 2), (1, 1, 1))] if config == "mpi" else [((2, 3, 2), (1, 1, 1)), ((1, 2, 1), (1, 1, 1))]):
        np = g[0] * g[1] * (g[2] if D == 3 else 1); n2 = tuple(2 * x for x in n)
        f, errs, _ = save_all(R, n, g, np, 3)
        compare(res, R, L, f, n, g, n2, g, np, key, "%s from %s cells by %s processes" % (key, n[:D], g[:D]), True)
    return res


def h5_tasks(tier):
    T = []
    for config in ("serial", "mpi"):
        for s in [x for x in SOLVERS if "Muscl" in x]:
            for m in (("interior", "external ghosts") if config == "serial" else MODES):
                T.append((task_save, (config, s, m, 0, tier)))
                if not m.startswith("pieces"): T.append((task_load, (config, s, m, tier)))
            T.append((task_save, (config, s, "interior", 1, tier)))
            T.append((task_upscale, (config, s, tier)))
    return T

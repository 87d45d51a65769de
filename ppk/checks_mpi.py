"""Distributed runs: the halo exchange leaves in every ghost cell what a single-process run on the global mesh has there, and the
collective operations of all processes match."""
from .checks_bc import *

PCLS = ("single", "first", "last", "mid", "first2", "last2")


class PDeno(Deno):
    """denotation on one process of the process grid; receives are resolved on the sending process"""
    lazy_pc = False

    def __init__(self, I, facts, seed, start, proc, dims, fam=None, base=None):
        self.proc = proc; self.dims = dims
        self.possub = {"pos:" + AX[d]: p for d, p in enumerate(proc)}
        self.possub.update({m: v for m, v in dims[1].items()})
        Deno.__init__(self, I, facts, seed, start)
        self.fam = fam if fam is not None else {}
        self.fam[self.pkey()] = self
        for k, e in enumerate(I.events):
            if k >= start and e[0] == "mpi" and e[1].get("kind") == "p2p":
                self.writers.setdefault(self.buf(e[1]["recv"]).alloc, []).append(k)
        for w in self.writers.values(): w.sort()
        self.act = {}

    def pkey(self): return tuple(p.key() for p in self.proc)

    def buf(self, v):
        if isinstance(v, Lib) and v.ty == "viewdata" and isinstance(v.args[0], View): return v.args[0]
        raise AnalysisBroken("message buffer %r is not a whole array" % (v,))

    def env(self, d):
        e = dict(self.possub); e.update(d)
        return Deno.env(self, e)

    def neighbour(self, off):
        out = []
        for d, p in enumerate(self.proc):
            o = off[d]; q = padd(p, pc(o)); m = self.dims[0][d]
            if o:
                r = self.facts.decide_eq0(padd(q, m, -1)) if o > 0 else self.facts.decide_eq0(padd(q, pc(1)))
                if r is None: raise Undecided(beq0(padd(q, m, -1) if o > 0 else padd(q, pc(1))))
                if r: q = pc(0) if o > 0 else padd(m, pc(-1))
            out.append(q)
        k = tuple(p.key() for p in out)
        f = self.fam.get(k)
        return f if f is not None else PDeno(self.I, self.facts, self.seed, self.start, out, self.dims, self.fam)

    def active(self, k):
        r = self.act.get(k)
        if r is None: r = self.act[k] = self.pcval(self.I.events[k][1]["pc"])
        return r

    def size_ok(self, d, what):
        v = self.buf(d[what]); n = 1
        for x in v.ext: n = padd(topoly(n) if isinstance(n, int) else n, Poly({})) ; break
        n = pc(1)
        for x in v.ext: n = pmul(n, topoly(x))
        c = d["scount" if what == "send" else "rcount"]
        return self.I.norm(n) == self.I.norm(topoly(c)), v

    def _load(self, alloc, idx, e):
        ev = self.I.events[e] if e is not None else None
        if ev is None or ev[0] != "mpi": return Deno._load(self, alloc, idx, e)
        if not self.active(e): return self.load(alloc, idx, e)
        d = ev[1]
        if d["src"] is None: raise Mismatch("%s receives from a process that is not a neighbour" % site1(d))
        S = self.neighbour(d["src"])
        # messages between the two processes with this tag, in order
        recvs = [k for k in range(self.start, e + 1) if self.msg(k) and self.msg(k)["rtag"] == d["rtag"] and self.same(self.msg(k)["src"], d["src"], -1) and self.active(k)]
        n = len(recvs) - 1
        sends = [k for k in range(self.start, len(self.I.events)) if S.msg(k) and S.msg(k)["stag"] == d["rtag"] and self.same(self.msg(k)["dest"], d["src"], 1) and S.active(k)]
        if n >= len(sends): raise Mismatch("%s: no process sends the message received here (tag %r)" % (site1(d), d["rtag"]))
        k = sends[n]; s = self.msg(k)
        if k != e: raise Mismatch("%s: the message received here is sent by the call at %s, processes wait for each other" % (site1(d), site1(s)))
        a, sv = S.size_ok(s, "send"); b, rv = self.size_ok(d, "recv")
        if not a or not b: raise Mismatch("%s: element count differs from the size of the %s buffer" % (site1(d), "send" if not a else "receive"))
        if s["stype"] != "double" or d["rtype"] != "double": raise Mismatch("%s: doubles are transferred as MPI type %s/%s" % (site1(d), s["stype"], d["rtype"]))
        if [self.I.norm(topoly(x)) for x in sv.ext] != [self.I.norm(topoly(x)) for x in rv.ext]:
            raise Mismatch("%s: the send and receive buffers have different shapes" % site1(d))
        return S.load(sv.alloc, idx, k)

    def msg(self, k):
        e = self.I.events[k]
        return e[1] if e[0] == "mpi" and e[1].get("kind") == "p2p" else None

    def same(self, a, b, sg):
        """a + sg*b is a multiple of the process grid in every direction"""
        if a is None: return False
        for d, m in enumerate(self.dims[0]):
            o = abs(a[d] + sg * b[d])
            if o == 0: continue
            if m.is_const():
                if o % m.const(): return False
                continue
            for q in range(1, o + 1):
                if o % q: continue
                r = self.facts.decide_eq0(padd(m, pc(-q)))
                if r is None: raise Undecided(beq0(padd(m, pc(-q))))
                if r: break
            else: return False
        return True

    def base_leaf(self, alloc, idx): return hsh(self.seed, "leaf", self.pkey(), alloc, pkey(idx))


class Mismatch(Exception): pass


def site1(d):
    for w in d["stack"]:
        if "mpiUtils" not in w: return w
    return d["where"]


def proc_of(pcl, dim):
    """(process coordinates, ([process grid sizes], substitution), facts)"""
    pos, ms, sub, F = [], [], {}, []
    for d in range(dim):
        p = psym("pos:" + AX[d]); m = psym("cfg:mpi/m" + AX[d]); c = pcl[d]
        if c in ("single", "first2", "last2"):
            sub["cfg:mpi/m" + AX[d]] = m = pc(1 if c == "single" else 2); p = pc(int(c == "last2"))
        elif c == "first": p = pc(0); F.append(padd(m, pc(-3)))
        elif c == "last": p = padd(m, pc(-1)); F.append(padd(m, pc(-3)))
        else: F += [padd(p, pc(-1)), padd(padd(m, pc(-2)), p, -1)]
        pos.append(p); ms.append(m)
    return pos, (ms, sub), F


def expected_mpi(D, fam, dim, bcs, pcl, cl, gw, v):
    off = [0] * dim; loc = []; sg = 1
    for d, (k, a) in enumerate(cl):
        n = nsym(d); i = cls_index(cl, gw)[d]
        if k == "in": loc.append(i); continue
        outer = pcl[d] == "single" or pcl[d].startswith("first" if k == "lo" else "last")
        bc = bcs[2 * d + (k == "hi")]
        if outer and bc == "DIRICHLET":
            loc.append(padd(pc(2 * gw - 1), i, -1) if k == "lo" else padd(padd(padd(n, n), pc(2 * gw - 1)), i, -1))
            if v == 2 + d or v == 5 + d: sg = -sg
        elif outer and bc == "NEUMANN": loc.append(pc(gw) if k == "lo" else padd(n, pc(gw - 1)))
        else:
            off[d] = -1 if k == "lo" else 1
            loc.append(padd(i, n) if k == "lo" else padd(i, n, -1))
    return off, loc, sg


def task_halo(fam, dim, it, bcs, pcls, tier):
    res = Result(); P = prog("mpi")
    R = build(P, fam, dim, 0, None, 1, it, False, bccfg(P, bcs, dim))
    gw = R.gw; I = R.I; res.count("contexts")
    base = "%s step=%s boundaries=%s" % (sname(fam, dim), "even" if it % 2 == 0 else "odd", ",".join(bcs))
    # the process grid
    cc = [e[1] for e in I.events if e[0] == "mpi" and e[1]["name"] == "Cart_create"]
    if len(cc) != 1: raise AnalysisBroken("%s: %d process grids are created" % (base, len(cc)))
    want = [psym("cfg:mpi/m" + AX[d]) for d in range(dim)]
    res.check(cc[0]["dims"] == want and all(p == 1 for p in cc[0]["periods"]), base + ":grid", "%s: the process grid created at %s is not the periodic mx,my,mz grid" % (base, " ".join(cc[0]["stack"][:2])))
    bl = [e[1] for k, e in enumerate(I.events) if k >= R.n0 and e[0] == "launch" and is_fill(e[1])]
    where = ", ".join(sorted(set(wherefn(L) for L in bl if any(x[1] == R.old and x[0] == "write" for x in L.effects)))[:4])
    seed = trial_seeds(tier, 1, 1)[0]
    nv = nvar(fam, dim)
    for pcl in pcls:
        pos, dims, PF = proc_of(pcl, dim)
        name = base + " process=" + ",".join(pcl)
        bad = set()
        for cl in classes(dim, gw):
            if all(k == "in" for k, _ in cl) and pcl != pcls[0]: continue
            F0 = domain(dim, gw, cl).add(*PF)
            idx = tuple(unpoly(x) for x in cls_index(cl, gw))
            def one(F):
                D = PDeno(I, F, seed, R.n0, pos, dims)
                out = []
                for v in range(nv):
                    got = D.load(R.old, idx + (v,), R.filled)
                    off, loc, sg = expected_mpi(D, fam, dim, bcs, pcl, cl, gw, v)
                    S = D.neighbour(off)
                    w = S.base_leaf(R.old, tuple(unpoly(x) for x in loc) + (v,))
                    out.append((got, w if sg == 1 else (-w) % PR))
                return out
            res.count("cell_classes")
            gh = " and ".join("%s%s+%d" % (AX[d], "min" if k == "lo" else "max", n) for d, (k, n) in enumerate(cl) if k != "in") or "no face"
            try: regs = with_cases(F0, one)
            except (Inconsistent, Mismatch) as e:
                res.check(False, base + ":" + type(e).__name__, "%s: %s" % (name, e)); continue
            for F, r in regs:
                for v, (a, b) in enumerate(r):
                    res.check(a == b, base + ":" + "".join(k for k, _ in cl),
                              "%s: after the halo exchange the cell beyond %s holds a %s that is not the one of the global mesh (filled by %s)" % (name, gh, VNAME[v], where))
    return res


class GData(Data):
    """mesh symbols of the process-local parameters: n cells on each of m processes"""
    def symval(self):
        s = Data.symval(self)
        for d in range(3):
            m = hsh(self.seed, "m", d); s["cfg:mpi/m" + AX[d]] = m
            if self.local: s["cfg:mesh/n" + AX[d]] = s["cfg:mesh/n" + AX[d]] * inv(m) % PR
        return s


def task_same(fam, dim, impl, it, gravity, tier):
    """given the same ghost cells, one process computes for its cells what a single-process run computes for the global mesh"""
    res = Result(); res.count("contexts")
    cfg = {("gravity", "static"): gravity}
    RS = build(prog("serial"), fam, dim, impl, None, 1, it, False, cfg); RM = build(prog("mpi"), fam, dim, impl, None, 1, it, False, cfg)
    name = "%s impl=%d step=%s%s" % (sname(fam, dim), impl, "even" if it % 2 == 0 else "odd", " gravity" if gravity else "")
    for s in trial_seeds(tier, 2, 6):
        out = []
        for R, loc in ((RS, False), (RM, True)):
            dat = GData(dim, fam, s); dat.local = loc
            D = Deno(R.I, generic(R), s, R.start, leaf=dat.leaf(R.old), symval=dict(dat.symval(), **{"<reduced>": sq(hsh(s, "red"))}))
            for e in R.I.events:        # the process that has the smallest time step
                if e[0] == "mpi" and e[1]["name"] == "Allreduce": D.symval["allreduced%d" % e[1]["n"]] = D.val(e[1]["value"], D.env({}))
            v = []
            for n in ("dx", "dy", "dz")[:dim]:
                x = R.st.mem.get(R.ploc + (n,))
                v.append(("cell size " + n, D.val(x, D.env({})) if isinstance(x, Node) else frac(Fraction(x))))
            for q in range(nvar(fam, dim)): v.append((VNAME[q], newval(D, R, q)))
            out.append(v); res.count("value_graph_nodes", D.touched)
        for (n, a), (_, b) in zip(*out):
            res.check(a == b, name + ":" + n, "%s: %s computed by one process of a distributed run is not the one of the global mesh" % (name, n))
    return res


def pclasses(dim, n, tier):
    """process classes: homogeneous ones are shared out over the contexts, plus mixed ones"""
    out = [tuple(PCLS[(n + d * (1 + n // 6)) % 6] for d in range(dim))]
    out.append(tuple(PCLS[(n + 1 + d * 5 + n // 3) % 6] for d in range(dim)))
    if n < 6: out.append((PCLS[n],) * dim)
    if tier != "quick":
        rnd = random.Random(n)
        for _ in range(6): out.append(tuple(rnd.choice(PCLS) for _ in range(dim)))
    return list(dict.fromkeys(out))


def halo_tasks(tier):
    t = []
    for fam in (HY, MH):
        for dim in (3, 2):
            for n, b in enumerate(combos(dim, tier)):
                for it in ((n % 2,) if tier == "quick" else (0, 1)): t.append((task_halo, (fam, dim, it, b, pclasses(dim, n + (2 if fam == MH else 0), tier), tier)))
    t.sort(key=lambda x: -(x[1][1] * 10 + (x[1][0] == MH)))
    for (fam, dim), im in IMPLS.items():
        for impl in im:
            for g in ((False, True) if fam == HY else (False,)):
                for it in ((impl % 2,) if tier == "quick" else (0, 1)): t.append((task_same, (fam, dim, impl, it, g, tier)))
    return t


def prepare(pid, tier): prog("mpi"); prog("serial")

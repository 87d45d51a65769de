"""Abstract runs of the spectral difference solvers and symbolic cell data at their solution points."""
import math
from .driver import *
from .deno import *
from .scheme import AX, X, Data, RData, SYMPOS, sq, rq, is_fill, interior
from .mpi import MPI_SRC

RK = {"euler": 1, "ssprk2": 2, "ssprk3": 3, "ssprk54": 5}
ORDER = {"euler": 1, "ssprk2": 2, "ssprk3": 3, "ssprk54": 4}
VN = ("density", "energy", "momentum_x", "momentum_y", "momentum_z")


def sdm_cls(dim, N): return "ppkMHD::sdm::SolverHydroSDM<%d, %d>" % (dim, N)


def build_sdm(P, dim, N, rk="euler", riemann="hllc", limiter=False, positivity=False, viscous=False, cfg=None, problem="implode", opt=None, bc="PERIODIC"):
    c = {("hydro", "problem"): problem, ("run", "noutput"): 0, ("run", "restart_enabled"): False, ("hydro", "riemann"): riemann,
         ("gravity", "static"): False, ("gravity", "point"): False, ("OTHER", "implementationVersion"): 0,
         ("sdm", "forward_euler"): rk == "euler", ("sdm", "ssprk2"): rk == "ssprk2", ("sdm", "ssprk3"): rk == "ssprk3", ("sdm", "ssprk54"): rk == "ssprk54",
         ("sdm", "limiter_enabled"): limiter, ("sdm", "positivity_enabled"): positivity}
    c[("hydro", "mu")] = Fraction(1, 4) if viscous else 0
    c[("hydro", "kappa")] = 0
    c[("sdm", "rescale_dt_enabled")] = False
    c.update(bc_all(P, dim, bc) if bc else {})
    c.update(cfg or {})
    cls = sdm_cls(dim, N)
    if cls not in P.records: raise AnalysisBroken("solver %s vanished" % cls)
    R = solver_run(P, "Hydro_SDM_%dD_degree%d" % (dim, N), cls, c, opt=opt)
    R.n0 = len(R.I.events)
    R.dim, R.N, R.rk, R.riemann = dim, N, rk, riemann
    R.opts = (limiter, positivity, viscous); R.fam = "hydro"; R.impl = "N%d" % N
    step(R, iteration=0)
    ks = [k for k, e in enumerate(R.I.events) if k >= R.n0 and e[0] == "launch" and is_fill(e[1])]
    if not ks: raise AnalysisBroken("%s: no boundary-filling kernel in the time step" % cls)
    # the first fill of the step: a run of consecutive fill kernels
    k = ks[0]
    while k + 1 < len(R.I.events) and k + 1 in ks: k += 1
    R.filled = R.start = k + 1
    R.gw = ghost_width(R)
    R.old = R.new = "U"
    R.nv = dim + 2
    R.ndof = N ** dim
    return R


def bc_all(P, dim, bc):
    c = {}
    for d in range(dim):
        for s in ("min", "max"): c[("mesh", "boundary_type_%s%s" % (AX[d], s))] = P.enumval("BC_" + bc)
    return c


def ghost_width(R):
    v = R.st.mem.get(R.ploc + ("ghostWidth",))
    if not isinstance(v, int): raise AnalysisBroken("ghost width %r" % (v,))
    return v


def ctx_sdm(R):
    o = [n for n, f in zip(("limiter", "positivity", "viscous"), R.opts) if f]
    return "Hydro_SDM_%dD_degree%d %s riemann=%s%s" % (R.dim, R.N, R.rk, R.riemann, " " + "+".join(o) if o else "")


def ids_of(dof, N, dim): return tuple((dof // N ** d) % N for d in range(dim)) + (0,) * (3 - dim)
def dof_of(ids, v, N, dim): return sum(ids[d] * N ** d for d in range(dim)) + N ** dim * v


# ---- cos(r pi) with the reflection symmetries as field elements --------------------------------------------------------------
_PI = Fraction(math.pi)
def trig(name, arg):
    """(sign, numerator, denominator) of cos(sign * pi * num/den) in [0, 1/2], or None"""
    r = float(arg) / math.pi
    f = Fraction(r).limit_denominator(240)
    if abs(float(f) - r) > 1e-13: return None
    if name == "sin": f = Fraction(1, 2) - f
    f = abs(f) % 2
    if f > 1: f = 2 - f
    s = 1
    if f > Fraction(1, 2): f = 1 - f; s = -1
    return s, f


def trig_res(seed, name, arg):
    t = trig(name, arg)
    if t is None: return None
    s, f = t
    if f == 0: v = 1
    elif f == Fraction(1, 2): v = 0
    elif f == Fraction(1, 3): v = frac(Fraction(1, 2))
    else: v = hsh(seed, "cospi", f)
    return v if s == 1 else (-v) % PR


def dcos(f):
    """cos(pi f), 30 digits"""
    decimal.getcontext().prec = 40
    pi = Decimal("3.14159265358979323846264338327950288419716939937510582")
    x = pi * Decimal(f.numerator) / Decimal(f.denominator)
    t = Decimal(1); s = Decimal(1); k = 0
    while abs(t) > Decimal("1e-42"):
        k += 2; t = -t * x * x / (k * (k - 1)); s += t
    decimal.getcontext().prec = 36
    return +s


class HostArrays:
    """mix-in: element writes of host arrays are part of the event sequence; state arrays start symbolic, tables are followed back to
    the constructor"""
    def setup_hosts(self, I, start):
        hw = {}; lw = set()
        for k, e in enumerate(I.events):
            if e[0] == "hostview" and e[1] == "write": hw.setdefault(e[2], []).append(k)
            elif e[0] == "launch":
                for l in e[1].final: lw.add(l[1])
                for x in e[1].effects:
                    if x[0].startswith("atomic"): lw.add(x[1])
        self.hw = hw
        for k, e in enumerate(I.events[:start]):
            if e[0] == "deep_copy" and isinstance(e[1][0], View) and e[1][0].alloc not in lw:
                self.writers.setdefault(e[1][0].alloc, []).append(k)
        for a in self.writers: self.writers[a] = sorted(set(self.writers[a]))

    def load(self, alloc, idx, epoch):
        h = self.hw.get(alloc)
        if h:
            best = None
            for k in h:
                if k >= epoch: break
                ix = self.I.events[k][3]
                if len(ix) != len(idx) or not all(isinstance(a, int) and isinstance(b, int) for a, b in zip(ix, idx)): raise AnalysisBroken("host array %s accessed at a symbolic index" % alloc)
                if tuple(ix) == tuple(idx): best = k
            if best is not None:
                ev = self.I.events[best]
                if ev[5] and not self.pcval(ev[5]): raise AnalysisBroken("conditional host write of %s" % alloc)
                v = ev[4]
                return self.val(v, self.env({})) if isinstance(v, Node) else self.hconst(v)
        return super().load(alloc, idx, epoch)


class DenoD(HostArrays, Deno):
    def __init__(self, I, facts, seed, start=0, leaf=None, cfgbool=None, symval=None):
        Deno.__init__(self, I, facts, seed, start, leaf, cfgbool, symval)
        self.setup_hosts(I, start)

    def hconst(self, v): return frac(Fraction(v))

    def _val(self, n, env):
        if n.op == "fn" and n.a[0] in ("cos", "sin") and isinstance(n.a[1], Node) and n.a[1].op == "c":
            r = trig_res(self.seed, n.a[0], n.a[1].a[0])
            if r is not None: return r
        return Deno._val(self, n, env)


class DenoDR(HostArrays, DenoR):
    def __init__(self, I, facts, seed, start=0, leaf=None, cfgbool=None, symval=None):
        DenoR.__init__(self, I, facts, seed, start, leaf, cfgbool, symval)
        self.setup_hosts(I, start)

    def hconst(self, v): return self.const(Fraction(v))

    def _val(self, n, env):
        if n.op == "fn" and n.a[0] in ("cos", "sin") and isinstance(n.a[1], Node) and n.a[1].op == "c":
            r = trig_res(self.seed, n.a[0], n.a[1].a[0])
            if r is not None:
                s, f = trig(n.a[0], n.a[1].a[0])
                x = dcos(f) * s
                if r == 0: return (0, Z, Z)
                return (r, x, Decimal(1))
        return DenoR._val(self, n, env)


class SdmData(Data):
    """symbolic conserved variables at the solution points; values depend on the cell offset and the node"""
    def __init__(self, dim, N, seed, window=None, **k):
        Data.__init__(self, dim, "hydro", seed, **k)
        self.N = N; self.window = window

    def raw(self, off, ids, v):
        if self.uniform or (self.window is not None and not self.window(off)): off, ids = "u", "u"
        else:
            off = tuple(0 if d in self.zinv else o for d, o in enumerate(off))
            ids = tuple(0 if d in self.zinv else o for d, o in enumerate(ids))
        if v in self.zero: return 0
        if v == 0: return sq(hsh(self.seed, "rho", off, ids))
        if v == 1:
            g1 = (self.sym("cfg:hydro/gamma0") - 1) % PR
            rho = self.raw(off, ids, 0) if off != "u" else sq(hsh(self.seed, "rho", "u", "u"))
            s = 0
            for d in range(3):
                m = (0 if 2 + d in self.zero else hsh(self.seed, "q%d" % (2 + d), off, ids))
                s += sq(m)
            return (s * inv(2 * rho % PR) + sq(hsh(self.seed, "p", off, ids)) * inv(g1)) % PR
        return hsh(self.seed, "q%d" % v, off, ids)

    def value(self, off, dof):
        N, dim = self.N, self.dim
        v = dof // N ** dim
        ids = list(ids_of(dof % N ** dim, N, dim))
        o = list(off) + [0] * (3 - len(off)); sg = 1
        for m in self.mirror:
            o[m] = -o[m]; ids[m] = N - 1 - ids[m]
            if v == 2 + m: sg = -sg
        c = [0, 0, 0]; ci = [0, 0, 0]
        for d in range(3): c[self.perm[d]] = o[d]; ci[self.perm[d]] = ids[d]
        if v in (2, 3, 4): v = 2 + self.perm[v - 2]
        r = self.raw(tuple(c), tuple(ci), v)
        return self.signed(r, sg)

    def signed(self, r, sg): return r if sg == 1 else (-r) % PR
    def times(self, r, f): return r * f % PR

    periodic = False
    origin = X
    def leaf(self, old):
        def off1(D, q, d):
            if q.is_const(): return int(q.const())
            n = psym("cfg:mesh/n" + AX[d])
            for s in (0, 1, -1) if self.periodic else (0,):
                p = padd(q, n, s) if s else q
                if p.is_const(): return int(p.const())
                for c in range(-8, 9):
                    if D.facts.decide_eq0(padd(p, pc(-c))): return c
            return None
        def f(D, alloc, idx):
            if alloc != old or not isinstance(idx[self.dim], int): return None
            off = [off1(D, padd(topoly(idx[d]), self.origin[d], -1), d) for d in range(self.dim)]
            if None in off:
                if self.uniform: off = [0] * self.dim
                else: return None
            r = self.value(off, idx[self.dim])
            if self.scale: r = self.times(r, self.scale(idx[self.dim] // self.N ** self.dim))
            return r
        return f


class SdmRData(SdmData, RData):
    def __init__(self, dim, N, seed, bulk=(0, 0, 0), amp=200, window=None, **k):
        RData.__init__(self, dim, "hydro", seed, bulk, amp, 0, **k)
        self.N = N; self.window = window

    def raw(self, off, ids, v):
        if self.uniform or (self.window is not None and not self.window(off)): key = "u"
        else: key = (tuple(0 if d in self.zinv else o for d, o in enumerate(off)), tuple(0 if d in self.zinv else o for d, o in enumerate(ids)))
        return self.rv(key, v)

    def rv(self, key, v):
        if v in self.zero: return (0, Z, Z)
        a = self.amp
        r = lambda tag: (shash(self.seed, tag, key) % (2 * a + 1)) - a
        if v == 0: return rq(1024 + r("rho"))
        if v in (2, 3, 4): return rmul(self.rv(key, 0), rq(self.bulk[v - 2] * 128 + r(v)))
        g1 = radd(self.rsym("cfg:hydro/gamma0"), rq(1, 1), -1)
        e = rdiv(rq(1024 + r("p")), g1); rho = self.rv(key, 0)
        for d in range(3):
            m = self.rv(key, 2 + d)
            e = radd(e, rmul(rq(1, 2), rdiv(rmul(m, m), rho)))
        return e

    def signed(self, r, sg): return r if sg == 1 else rneg(r)
    def times(self, r, f): return rmul(r, f)
    symval = RData.symval
    leaf = SdmData.leaf


from .scheme import radd, rmul, rdiv, rneg


def deno_sdm(R, data, facts, extra=None):
    sv = data.symval()
    if extra: sv.update(extra)
    cls = DenoDR if isinstance(data, RData) else DenoD
    return cls(R.I, facts, data.seed, R.start, leaf=data.leaf("U"), symval=sv)


def newdof(D, R, dof, off=(0, 0, 0), origin=X):
    idx = tuple(unpoly(padd(origin[d], pc(off[d]))) for d in range(R.dim)) + (dof,)
    return D.load("U", idx, len(R.I.events))


def generic(R, m=16):
    F = interior(R.dim, R.gw)
    for d in range(R.dim):
        F = F.add(padd(X[d], pc(-R.gw - m))).add(padd(padd(psym("cfg:mesh/n" + AX[d]), pc(R.gw - 1 - m)), X[d], -1))
    return F


# ---- quadrature on the solution points ---------------------------------------------------------------------------------------
def nodes(D, R): return [D.load("solution_pts_1d", (i,), len(R.I.events)) for i in range(R.N)]
def res(x): return x[0] if isinstance(x, tuple) else x


def weights(xs):
    """weights of the interpolatory quadrature on [0,1]: sum w_i x_i^k = 1/(k+1), k < N (mod p)"""
    n = len(xs)
    A = [[pow(x, k, PR) for x in xs] + [inv(k + 1)] for k in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c]), None)
        if p is None: raise AnalysisBroken("solution points coincide")
        A[c], A[p] = A[p], A[c]
        iv = inv(A[c][c]); A[c] = [a * iv % PR for a in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c]; A[r] = [(a - f * b) % PR for a, b in zip(A[r], A[c])]
    return [A[i][n] for i in range(n)]


def weights_real(xs):
    n = len(xs)
    A = [[x ** k for x in xs] + [Decimal(1) / (k + 1)] for k in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]))
        A[c], A[p] = A[p], A[c]
        A[c] = [a / A[c][c] for a in A[c]]
        for r in range(n):
            if r != c: A[r] = [a - A[r][c] * b for a, b in zip(A[r], A[c])]
    return [A[i][n] for i in range(n)]


def spots(R):
    """a generic cell and, for every face, a cell next to it (the other directions generic): (name, origin, facts)"""
    F = []
    for d in range(R.dim):
        F.append(padd(psym("cfg:mesh/n" + AX[d]), pc(-4 * R.gw - 80)))
    def rest(ds):
        out = list(F)
        for d in ds: out += [padd(X[d], pc(-R.gw - 16)), padd(padd(psym("cfg:mesh/n" + AX[d]), pc(R.gw - 17)), X[d], -1)]
        return Facts(out)
    yield "inside", X, rest(range(R.dim))
    for d in range(R.dim):
        o = [e for e in range(R.dim) if e != d]
        for nm, p in (("min", pc(R.gw)), ("max", padd(psym("cfg:mesh/n" + AX[d]), pc(R.gw - 1)))):
            org = list(X); org[d] = p
            yield "next to " + AX[d] + nm, tuple(org), rest(o)

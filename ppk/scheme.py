"""Contexts (solver family x dimension x implementation x Riemann solver x slope limiter x step parity) of the finite-volume update,
and the relations checked on the denotation of one full time step."""
from .driver import *
from .deno import *

AX = "xyz"
X = tuple(psym(c) for c in "ijk")
HY, MH = "hydro", "mhd"
GW = {HY: 2, MH: 3}
VNAME = {0: "rho", 1: "energy", 2: "momentum_x", 3: "momentum_y", 4: "momentum_z", 5: "Bx", 6: "By", 7: "Bz"}


def nvar(fam, dim): return 8 if fam == MH else dim + 2


def sname(fam, dim): return ("Hydro" if fam == HY else "MHD") + "_Muscl_%dD" % dim


def scls(fam, dim): return "ppkMHD::muscl::Solver%sMuscl<%d>" % ("Hydro" if fam == HY else "MHD", dim)


def build(P, fam, dim, impl=0, riemann=None, slope=1, it=0, floors_off=False, cfg=None, mpi=False):
    c = {("OTHER", "implementationVersion"): impl, ("hydro", "riemann"): riemann or ("hllc" if fam == HY else "hlld"),
         ("hydro", "slope_type"): slope, ("gravity", "static"): False, ("gravity", "point"): False,
         ("run", "noutput"): 0, ("run", "restart_enabled"): False}
    c.update(cfg or {})
    R = solver_run(P, sname(fam, dim), scls(fam, dim), c, opt={"floors_off": floors_off})
    R.n0 = len(R.I.events)
    R.fam, R.dim, R.impl = fam, dim, impl
    R.grav = bool(c[("gravity", "static")])
    R.riemann = c[("hydro", "riemann")]; R.slope = slope; R.it = it
    step(R, iteration=it)
    ks = [k for k, e in enumerate(R.I.events) if k >= R.n0 and e[0] == "launch" and is_fill(e[1])]
    if not ks: raise AnalysisBroken("%s: no boundary-filling kernel in the time step" % sname(fam, dim))
    R.start = R.filled = ks[-1] + 1
    R.gw = GW[fam]
    R.I.given = set()
    if R.grav:
        wr = set(ef[1] for e in R.I.events[R.n0:] if e[0] == "launch" for ef in e[1].effects if ef[0] == "write" or ef[0].startswith("atomic"))
        wr |= set(e[1][0].alloc for e in R.I.events[R.n0:] if e[0] == "deep_copy" and isinstance(e[1][0], View))
        R.I.given = set(R.I.allocs) - wr
    # which physical buffer is read as the old state / holds the new state
    R.old, R.new = ("U", "U2") if it % 2 == 0 else ("U2", "U")
    return R


def is_exchange(L): return "BorderBuf" in L.cls or any("copy_boundar" in h for h in L.hosts)
def is_fill(L): return "MakeBoundaries" in L.cls or is_exchange(L) or any("make_boundar" in h for h in L.hosts)
def is_boundary(L): return is_fill(L) and not is_exchange(L)


def ctxname(R): return "%s impl=%d riemann=%s slope_type=%s step=%s%s" % (sname(R.fam, R.dim), R.impl, R.riemann, R.slope, "even" if R.it % 2 == 0 else "odd", " gravity" if R.grav else "")


GRAV = 20      # pseudo-variable numbers of the components of the gravity field


def is_grav(I, alloc):
    """an array only read during the step: a field given to the solver (the gravity field)"""
    return alloc in getattr(I, "given", ())


def vecof(v):
    """-> (first variable of the vector v belongs to, component) or (None, None) for scalars"""
    for b in (2, 5, GRAV):
        if b <= v < b + 3: return b, v - b
    return None, None


def interior(dim, gw):
    F = []
    for d in range(dim):
        n = psym("cfg:mesh/n" + AX[d])
        F += [padd(X[d], pc(-gw)), padd(padd(n, pc(gw - 1)), X[d], -1), padd(n, pc(-gw))]
    return Facts(F)


def sq(h): return h * h % PR


class Data:
    """symbolic old state around the target cell; leaf values depend only on the offset from it"""
    def __init__(self, dim, fam, seed, perm=None, mirror=None, zinv=(), uniform=False, zero=(), scale=None):
        self.dim, self.fam, self.seed = dim, fam, seed
        self.perm = perm or tuple(range(3)); self.mirror = set(mirror or ())
        self.zinv = set(zinv); self.uniform = uniform; self.zero = set(zero)
        self.scale = scale

    def raw(self, off, v):
        """canonical field value: off tuple of 3 ints, v canonical variable"""
        off = tuple(0 if (self.uniform or d in self.zinv) else o for d, o in enumerate(off))
        if v in self.zero: return 0
        if v == 0: return sq(hsh(self.seed, "rho", off))
        if v == 1:
            g1 = frac(Fraction(1)) if False else (self.sym("cfg:hydro/gamma0") - 1) % PR
            rho = self.raw(off, 0)
            s = 0
            for d in range(3): s += sq(self.raw(off, 2 + d))
            e = s * inv(2 * rho % PR) % PR
            if self.fam == MH:
                for d in range(3):
                    o2 = tuple(o + (1 if q == d else 0) for q, o in enumerate(off))
                    b = (self.raw(off, 5 + d) + self.raw(o2, 5 + d)) * frac(Fraction(1, 2)) % PR
                    e += b * b % PR * frac(Fraction(1, 2))
            p = sq(hsh(self.seed, "p", off))
            return (e + p * inv(g1)) % PR
        return hsh(self.seed, "q%d" % v, off)

    def sym(self, name):
        """positive residues for scalar parameters"""
        if name in SYMPOS: return sq(hsh(self.seed, "S", name))
        return None

    def axis(self, d): return self.perm[d]

    def value(self, off, v):
        """value of the (permuted, mirrored) field seen by the code; off in code axes, v code variable"""
        sg = 1
        o = list(off) + [0] * (3 - len(off))
        b0, d0 = vecof(v)
        for m in self.mirror:
            face = b0 == 5 and d0 == m
            o[m] = (1 - o[m]) if face else -o[m]
            if d0 == m: sg = -sg
        # code axis d corresponds to canonical axis perm[d]
        c = [0, 0, 0]
        for d in range(3): c[self.perm[d]] = o[d]
        if d0 is not None: v = b0 + self.perm[d0]
        r = self.raw(tuple(c), v)
        return r if sg == 1 else (-r) % PR

    def leaf(self, old):
        def f(D, alloc, idx):
            g = is_grav(D.I, alloc)
            if alloc != old and not g: return None
            off = []
            for d in range(self.dim):
                q = padd(topoly(idx[d]), X[d], -1)
                if not q.is_const(): return None
                off.append(int(q.const()))
            v = idx[self.dim]
            if not isinstance(v, int): return None
            r = self.value(off, v + GRAV if g else v)
            if g and self.scale: return r * self.scale(GRAV) % PR
            if self.scale: r = r * self.scale(v) % PR
            return r
        return f

    def symval(self):
        """residues of scalar parameters; mesh symbols follow the axis permutation"""
        s = {}
        for n in SYMPOS: s[n] = self.sym(n)
        for d in range(3):
            c = self.perm[d]
            lo = hsh(self.seed, "lo", c); n = hsh(self.seed, "n", c); h = sq(hsh(self.seed, "h", c))
            s["cfg:mesh/%smin" % AX[d]] = lo
            s["cfg:mesh/%smax" % AX[d]] = (lo + n * h) % PR
            s["cfg:mesh/n" + AX[d]] = n
        return s


SYMPOS = ("cfg:hydro/gamma0", "cfg:hydro/smallr", "cfg:hydro/smallc", "cfg:hydro/cfl", "cfg:run/tEnd")


def deno(R, data, facts=None, seed=None):
    return Deno(R.I, facts if facts is not None else interior(R.dim, R.gw), data.seed if seed is None else seed, R.start,
                leaf=data.leaf(R.old), symval=data.symval())


def newval(D, R, v, off=(0, 0, 0)):
    idx = tuple(unpoly(padd(X[d], pc(off[d]))) for d in range(R.dim)) + (v,)
    return D.load(R.new, idx, len(R.I.events))


def cases(R, run):
    return with_cases(interior(R.dim, R.gw), run)


# ---- real-model data -------------------------------------------------------------------------------------------------------
def rq(num, den=1024):
    f = Fraction(num, den)
    return (frac(f), dec(f), abs(dec(f)))


def radd(a, b, s=1): return ((a[0] + s * b[0]) % PR, a[1] + s * b[1], max(abs(a[1]), abs(b[1]), a[2], b[2]))
def rmul(a, b): return (a[0] * b[0] % PR, a[1] * b[1], abs(a[1] * b[1]))
def rdiv(a, b): return (a[0] * inv(b[0]) % PR, a[1] / b[1], abs(a[1] / b[1]))
def rneg(a): return (-a[0] % PR, -a[1], a[2])


class RData(Data):
    """old state with a real model: residues are images of the rational model values.  `bulk` is a background velocity in units of
    1/8 (selects super/sub-sonic branches), `amp` the variation amplitude."""
    def __init__(self, dim, fam, seed, bulk=(0, 0, 0), amp=256, bfield=256, **k):
        Data.__init__(self, dim, fam, seed, **k)
        self.bulk = bulk; self.amp = amp; self.bf = bfield

    def raw(self, off, v):
        off = tuple(0 if (self.uniform or d in self.zinv) else o for d, o in enumerate(off))
        if v in self.zero: return (0, Z, Z)
        a = self.amp
        r = lambda tag, *e: (shash(self.seed, tag, off) % (2 * a + 1)) - a
        if v == 0: return rq(1024 + r("rho"))
        if v in (2, 3, 4):
            u = rq(self.bulk[v - 2] * 128 + r(v))
            return rmul(self.raw(off, 0), u)
        if v >= GRAV: return rq(r(v))
        if v >= 5: return rq((shash(self.seed, v, off) % (2 * self.bf + 1)) - self.bf + (97, 211, 151)[v - 5] * (self.bf > 0))
        if v == 1:
            g1 = radd(self.rsym("cfg:hydro/gamma0"), rq(1, 1), -1)
            e = rdiv(rq(1024 + r("p")), g1)
            rho = self.raw(off, 0); half = rq(1, 2)
            for d in range(3):
                m = self.raw(off, 2 + d)
                e = radd(e, rmul(half, rdiv(rmul(m, m), rho)))
            if self.fam == MH:
                for d in range(3):
                    o2 = tuple(o + (1 if q == d else 0) for q, o in enumerate(off))
                    b = rmul(half, radd(self.raw(off, 5 + d), self.raw(o2, 5 + d)))
                    e = radd(e, rmul(half, rmul(b, b)))
            return e
        raise AnalysisBroken("variable %r" % v)

    def rsym(self, n):
        return {"cfg:hydro/gamma0": rq(5, 3), "cfg:hydro/smallr": rq(1, 1 << 30), "cfg:hydro/smallc": rq(1, 1 << 15),
                "cfg:hydro/cfl": rq(1, 2), "cfg:run/tEnd": rq(100, 1)}.get(n)

    def value(self, off, v):
        sg = 1
        o = list(off) + [0] * (3 - len(off))
        b0, d0 = vecof(v)
        for m in self.mirror:
            o[m] = (1 - o[m]) if (b0 == 5 and d0 == m) else -o[m]
            if d0 == m: sg = -sg
        c = [0, 0, 0]
        for d in range(3): c[self.perm[d]] = o[d]
        if d0 is not None: v = b0 + self.perm[d0]
        r = self.raw(tuple(c), v)
        return r if sg == 1 else rneg(r)

    def leaf(self, old):
        f0 = Data.leaf(self, old)
        return f0

    def symval(self):
        s = {"<reduced>": rq(997, 1)}
        for n in SYMPOS: s[n] = self.rsym(n)
        for d in range(3):
            c = self.perm[d]
            n = rq(64 + 16 * c, 1); lo = rq(c, 1); h = rq(1, 16 + 3 * c)
            s["cfg:mesh/%smin" % AX[d]] = lo; s["cfg:mesh/n" + AX[d]] = n
            s["cfg:mesh/%smax" % AX[d]] = radd(lo, rmul(n, h))
        return s


def denor(R, data, facts=None):
    return DenoR(R.I, facts if facts is not None else interior(R.dim, R.gw), data.seed, R.start, leaf=data.leaf(R.old), symval=data.symval())

"""Value numbering over truncated power series in an infinitesimal e (modulo e^3), and the governing equations as specification.
A series is a tuple (c0, c1, c2) of (residue, real model, magnitude) triples; signs are those of the first non-zero coefficient."""
from .deno import *
from .deno import DenoR, Deno, Z, dec, TINY
from .scheme import *

ZC = (0, Z, Z)
STRICT = [False]
N = 3


def sget(s, o): return s[o][0]
def cadd(a, b): return ((a[0] + b[0]) % PR, a[1] + b[1], max(a[2], b[2], abs(a[1]), abs(b[1])))
def csub(a, b): return ((a[0] - b[0]) % PR, a[1] - b[1], max(a[2], b[2], abs(a[1]), abs(b[1])))
def cmul(a, b):
    if a[0] == 0 or b[0] == 0: return ZC
    x = a[1] * b[1]
    return (a[0] * b[0] % PR, x, max(abs(x), a[2] * abs(b[1]), b[2] * abs(a[1])))
def ccon(f): return (frac(f), dec(f), abs(dec(f)))


class S(tuple):
    __slots__ = ()
    def __add__(a, b):
        b = lift(b); return S((cadd(a[0], b[0]), cadd(a[1], b[1]), cadd(a[2], b[2])))
    __radd__ = __add__
    def __sub__(a, b):
        b = lift(b); return S((csub(a[0], b[0]), csub(a[1], b[1]), csub(a[2], b[2])))
    def __rsub__(a, b): return lift(b) - a
    def __neg__(a): return S(((-x[0]) % PR, -x[1], x[2]) for x in a)
    def __mul__(a, b):
        b = lift(b)
        c1 = ZC if a[1] is ZC and b[1] is ZC else cadd(cmul(a[0], b[1]), cmul(a[1], b[0]))
        c2 = ZC if a[1] is ZC and b[1] is ZC and a[2] is ZC and b[2] is ZC else cadd(cadd(cmul(a[0], b[2]), cmul(a[1], b[1])), cmul(a[2], b[0]))
        r = cmul(a[0], b[0])
        if a[0][0] == b[0][0] and r[0]: ROOTS[r[0]] = a[0][0] if a[0][1] >= 0 else PR - a[0][0]
        return S((r, c1, c2))
    __rmul__ = __mul__
    def __truediv__(a, b):
        b = lift(b); return a * b.rec()
    def __rtruediv__(a, b): return lift(b) * a.rec()
    def rec(b):
        b0 = b[0]
        if b0[0] == 0: raise Unstable("division by zero")
        i = 1 / b0[1]
        r = (inv(b0[0]), i, max(abs(i), abs(i) * b0[2] / abs(b0[1])))
        if b[1] is ZC and b[2] is ZC: return S((r, ZC, ZC))
        r2 = cmul(r, r); nr2 = (-r2[0] % PR, -r2[1], r2[2])
        c1 = cmul(nr2, b[1])
        c2 = cadd(cmul(nr2, b[2]), cmul(cmul(r2, r), cmul(b[1], b[1])))
        return S((r, c1, c2))
    def sqrt(a):
        if all(x[0] == 0 for x in a): return S((ZC, ZC, ZC))
        a0 = a[0]
        if a0[0] == 0:
            if a[1][0] == 0 and a[2][1] > 0:      # sqrt(c e^2) = sqrt(c) e
                raise Unstable("square root of a small square")
            raise Unstable("square root of an infinitesimal")
        if a0[1] <= 0: raise Unstable("sqrt")
        s = a0[1].sqrt(); r = ROOTS.get(a0[0])
        r = fsqrt(a0[0]) if r is None else r
        if STRICT[0] and r * r % PR != a0[0]: raise Unstable("square root outside the field")
        s0 = (r, s, max(s, a0[2] / s))
        if a[1] is ZC and a[2] is ZC: return S((s0, ZC, ZC))
        # s' = s a1 / (2 a0);  s2 = (a2 s^2/a0 - s1^2) / (2 s) with s^2/a0 = +-1
        h = S((a0, ZC, ZC)).rec()[0]
        half = ccon(Fraction(1, 2))
        t = cmul(cmul(s0, h), half)
        s1 = cmul(t, a[1])
        rs = S((s0, ZC, ZC)).rec()[0]
        s2 = csub(cmul(t, a[2]), cmul(cmul(cmul(s1, s1), rs), half))
        return S((s0, s1, s2))


def scon(f): return S((ccon(f), ZC, ZC))
def lift(x): return x if isinstance(x, S) else scon(x)
def eps(f, o=1):
    c = [ZC, ZC, ZC]; c[o] = ccon(f)
    return S(c)


class DenoS(DenoR):
    def fgt(self, v):
        for r, x, m in v:
            if r == 0: continue
            if abs(x) <= m * TINY: raise Unstable("sign")
            return x > 0
        return False

    def _bval(self, b, env):
        if b.op == "fgt0": return self.fgt(self.val(b.a[0], env))
        if b.op == "feq0": return all(c[0] == 0 for c in self.val(b.a[0], env))
        return Deno._bval(self, b, env)

    def const(self, f): return scon(f)

    def _val(self, n, env):
        op = n.op
        if op == "c": return scon(n.a[0])
        if op == "+": return self.val(n.a[0], env) + self.val(n.a[1], env)
        if op == "-": return self.val(n.a[0], env) - self.val(n.a[1], env)
        if op == "*": return self.val(n.a[0], env) * self.val(n.a[1], env)
        if op == "/": return self.val(n.a[0], env) / self.val(n.a[1], env)
        if op == "sel": return self.val(n.a[1], env) if self.bval(n.a[0], env) else self.val(n.a[2], env)
        if op == "ld":
            idx = tuple(i if isinstance(i, int) else self.sub(i, env) for i in n.a[1])
            return self.load(n.a[0], idx, n.a[2])
        if op == "fn":
            if n.a[0] == "sqrt": return self.val(n.a[1], env).sqrt()
            raise Unstable("function " + n.a[0])
        if op == "loopfn": return self.loopval(n, env)
        if op == "lv": return self.lvval(n, env)
        if op == "i2f":
            r = self.pval(self.sub(n.a[0], env), env); s = self.symreal(n.a[0], env)
            return S(((r, s, abs(s)), ZC, ZC))
        if op == "sym":
            v = self.symval.get(n.a[0])
            if v is not None: return S((v, ZC, ZC))
            return scon(Fraction(1 + shash(self.seed, "sym", n.a[0]), 4096))
        if op == "reduced": return S((self.symval["<reduced>"], ZC, ZC))
        raise Unstable("no model for " + op)

    def _load(self, alloc, idx, e):
        if e is None:
            self.usedcells.add((alloc, idx)); return self.base_leaf(alloc, idx)
        ev = self.I.events[e]
        if ev[0] == "deep_copy":
            if not self.pcval(ev[2]): return self.load(alloc, idx, e)
            src = ev[1][1]
            if not isinstance(src, View):
                if isinstance(src, Node): return self.val(src, self.env({}))
                return self.const(src)
            return self.load(src.alloc, idx, e)
        L = ev[1]
        if not self.pcval(L.pc): return self.load(alloc, idx, e)
        w = self.written(L, e, alloc, idx)
        base = self.val(*w) if w is not None else self.load(alloc, idx, e)
        for eff, env in self.atomics(L, alloc, idx):
            if eff[0] != "atomic_add": raise AnalysisBroken("unsupported atomic %s" % eff[0])
            base = base + self.val(self.I.tofloat(eff[3]), env)
        return base


H = Fraction(1, 2)


class SData(RData):
    """primitive state linear in space: q(x) = q0 + e * sum_d g_d (x_d in cells)"""
    def __init__(self, dim, fam, seed, bulk, grav=False):
        RData.__init__(self, dim, fam, seed, bulk)
        self.grav = [Fraction(shash(seed, "grav", d) % 511 - 255, 256) if grav and d < dim else Fraction(0) for d in range(3)]
        f = lambda *k: Fraction(shash(seed, *k) % 511 - 255, 256)
        self.nq = 8 if fam == MH else 5
        self.q0 = [1 + f("r") / 4, 1 + f("p") / 4] + [Fraction(bulk[d], 8) + f("u", d) / 16 for d in range(3)]
        self.q0 += [Fraction((3, -5, 7)[d], 8) + f("b", d) / 16 for d in range(3)]
        self.g = [[f("g", v, d) if d < dim else Fraction(0) for d in range(3)] for v in range(8)]
        self.h = [Fraction(1, 16 + 3 * c) for c in range(3)]
        if fam == MH:     # divergence-free
            self.g[5 + dim - 1][dim - 1] = -self.h[dim - 1] * sum((self.g[5 + d][d] / self.h[d] for d in range(dim - 1)), Fraction(0))
        else:
            self.q0[5:] = [Fraction(0)] * 3; self.g[5:] = [[Fraction(0)] * 3] * 3
        if fam == HY and dim == 2:
            self.q0[4] = Fraction(0); self.g[4] = [Fraction(0)] * 3
        self.sd = dict(RData.symval(self))
        self.gamma = scon(Fraction(5, 3))

    def prim(self, x): return [scon(self.q0[v]) + eps(sum((self.g[v][d] * x[d] for d in range(3)), Fraction(0))) for v in range(8)]

    def cons(self, q):
        r, p, u, v, w, a, b, c = q
        E = p / (self.gamma - 1) + scon(H) * r * (u * u + v * v + w * w) + scon(H) * (a * a + b * b + c * c)
        return [r, E, r * u, r * v, r * w, a, b, c]

    def value(self, off, v):
        if v >= GRAV: return eps(self.grav[v - GRAV])
        o = list(off) + [0] * (3 - len(off))
        x = [Fraction(t) for t in o]
        if v >= 5 and v - 5 < self.dim: x[v - 5] -= H
        q = self.prim(x)
        return self.cons(q)[v]

    def symval(self): return self.sd

    # ---- the equations
    def qt(self, q):
        """time derivative of the primitive state for the linear gradient (primitive form of Euler / ideal MHD with div B = 0)"""
        D = [[eps(self.g[v][d] / self.h[d]) for d in range(3)] for v in range(8)]
        r, p = q[0], q[1]; U = q[2:5]; B = q[5:8]
        div = D[2][0] + D[3][1] + D[4][2]
        adv = lambda v: U[0] * D[v][0] + U[1] * D[v][1] + U[2] * D[v][2]
        out = [-(adv(0) + r * div), -(adv(1) + self.gamma * p * div)]
        for d in range(3):
            gp = D[1][d]; ten = scon(0)
            for e in range(3):
                gp = gp + B[e] * D[5 + e][d]; ten = ten + B[e] * D[5 + d][e]
            out.append(eps(self.grav[d]) - adv(2 + d) - (gp - ten) / r)
        for d in range(3):
            s = -(adv(5 + d)) - B[d] * div
            for e in range(3): s = s + B[e] * D[2 + d][e]
            out.append(s)
        return out

    def flux(self, q, d):
        r, p = q[0], q[1]; U = q[2:5]; B = q[5:8]
        b2 = B[0] * B[0] + B[1] * B[1] + B[2] * B[2]; ub = U[0] * B[0] + U[1] * B[1] + U[2] * B[2]
        E = self.cons(q)[1]
        pt = p + scon(H) * b2
        f = [r * U[d], (E + pt) * U[d] - B[d] * ub]
        for e in range(3):
            m = r * U[e] * U[d] - B[d] * B[e]
            f.append(m + pt if e == d else m)
        for e in range(3): f.append(B[e] * U[d] - B[d] * U[e])
        return f

    def half(self, x, dt):
        q = self.prim(x); t = self.qt(q)
        return [a + scon(H) * dt * b for a, b in zip(q, t)]

    def expected(self):
        # dt as the code computes it: cfl / <reduced>
        dt = S((self.sd["cfg:hydro/cfl"], ZC, ZC)) / S((self.sd["<reduced>"], ZC, ZC))
        o = (0, 0, 0)
        new = [self.value(o, v) for v in range(8)]
        at = lambda *s: [Fraction(t) for t in s]
        for d in range(self.dim):
            xp, xm = [Fraction(0)] * 3, [Fraction(0)] * 3
            xp[d] = H; xm[d] = -H
            fp, fm = self.flux(self.half(xp, dt), d), self.flux(self.half(xm, dt), d)
            for v in range(8):
                if v >= 5 and v - 5 < self.dim: continue
                new[v] = new[v] - (fp[v] - fm[v]) * dt / self.h[d]
        if any(self.grav):     # momentum gains the time-centred weight, energy the work done by it
            ro, rn = self.value(o, 0), new[0]
            ek = lambda: scon(H) * (new[2] * new[2] + new[3] * new[3] + new[4] * new[4]) / rn
            k0 = ek()
            for d in range(3): new[2 + d] = new[2 + d] + scon(H) * dt * eps(self.grav[d]) * (ro + rn)
            new[1] = new[1] + ek() - k0
        if self.fam == MH:
            for d in range(self.dim):
                for e in range(self.dim):
                    if e == d: continue
                    # dB_d/dt = -d/dx_e (B_d u_e - B_e u_d) at the lower d-face
                    v = []
                    for s in (H, -H):
                        x = [Fraction(0)] * 3
                        x[d] = -H; x[e] = s
                        q = self.half(x, dt)
                        v.append(q[5 + d] * q[2 + e] - q[5 + e] * q[2 + d])
                    new[5 + d] = new[5 + d] - (v[0] - v[1]) * dt / self.h[e]
        return new

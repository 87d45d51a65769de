"""Textbook fluxes, written with jump relations (F* = F + S (U* - U)), in series arithmetic; the oracle for the Riemann solver values.
All solvers use the outer wave speeds of Davis: S_L = min(u) - max(c), S_R = max(u) + max(c)."""
from .series import *
from .deno import HALF as QRES


def Q(q): return [x if isinstance(x, S) else scon(x) for x in q]
def lt(a, b): return a[0][1] < b[0][1]
def smin(*xs): return min(xs, key=lambda x: x[0][1])
def smax(*xs): return max(xs, key=lambda x: x[0][1])
def neg(a): return a[0][1] < 0
def pos(a): return a[0][1] > 0
def sabs(a): return -a if neg(a) else a
def root(a):
    """square root that is known to lie in the field"""
    if a[0][0] and pow(a[0][0], QRES, PR) != 1: raise Unstable("square root outside the field")
    return a.sqrt()


class Book:
    def __init__(self, gamma): self.g = lift(gamma)

    def cons(self, q):
        r, p, u, v, w, a, b, c = q
        return [r, p / (self.g - 1) + r * (u * u + v * v + w * w) * scon(H) + (a * a + b * b + c * c) * scon(H), r * u, r * v, r * w, a, b, c]

    def flux(self, q):
        r, p, u, v, w, a, b, c = q
        pt = p + (a * a + b * b + c * c) * scon(H)
        return [r * u, (self.cons(q)[1] + pt) * u - a * (u * a + v * b + w * c), r * u * u + pt - a * a, r * u * v - a * b, r * u * w - a * c,
                scon(0), b * u - a * v, c * u - a * w]

    def fast(self, q, d=0):
        r, p = q[0], q[1]; bn = q[5 + d]
        if not any(any(t[0] for t in q[5 + e]) for e in range(3)): return (self.g * p / r).sqrt()
        c2 = self.g * p / r; b2 = (q[5] * q[5] + q[6] * q[6] + q[7] * q[7]) / r
        d2 = (c2 + b2) * scon(H)
        return (d2 + (d2 * d2 - c2 * bn * bn / r).sqrt()).sqrt()

    def davis(self, L, R):
        c = smax(self.fast(L), self.fast(R))
        return smin(L[2], R[2]) - c, smax(L[2], R[2]) + c

    def llf(self, L, R):
        s = smax(*[sabs(q[2]) + self.fast(q) for q in (L, R)])
        fl, fr, ul, ur = self.flux(L), self.flux(R), self.cons(L), self.cons(R)
        return [(fl[v] + fr[v] - s * (ur[v] - ul[v])) * scon(H) for v in range(8)]

    def hll(self, L, R):
        sl, sr = self.davis(L, R)
        fl, fr, ul, ur = self.flux(L), self.flux(R), self.cons(L), self.cons(R)
        if not neg(sl): return fl
        if not pos(sr): return fr
        us = [(sr * ur[v] - sl * ul[v] - (fr[v] - fl[v])) / (sr - sl) for v in range(8)]
        return [fl[v] + sl * (us[v] - ul[v]) for v in range(8)]

    def contact_speed(self, L, R, sl, sr):
        pt = lambda q: q[1] + (q[5] * q[5] + q[6] * q[6] + q[7] * q[7]) * scon(H)
        sm = ((sr - R[2]) * R[0] * R[2] - (sl - L[2]) * L[0] * L[2] - pt(R) + pt(L)) / ((sr - R[2]) * R[0] - (sl - L[2]) * L[0])
        ps = pt(L) + L[0] * (sl - L[2]) * (sm - L[2])
        return sm, ps, pt

    def hllc(self, L, R):
        sl, sr = self.davis(L, R)
        sm, ps, pt = self.contact_speed(L, R, sl, sr)
        if pos(sl): return self.flux(L)
        if not pos(sr): return self.flux(R)
        q, s = (L, sl) if pos(sm) else (R, sr)
        u = self.cons(q); f = self.flux(q)
        k = q[0] * (s - q[2]) / (s - sm)
        us = [k, ((s - q[2]) * u[1] - q[1] * q[2] + ps * sm) / (s - sm), k * sm, k * q[3], k * q[4], q[5], q[6], q[7]]
        return [f[v] + s * (us[v] - u[v]) for v in range(8)]

    def hlld(self, L, R):
        """Miyoshi and Kusano (2005)"""
        sl, sr = self.davis(L, R)
        a = L[5]; sg = scon(-1 if neg(a) else 1)
        sm, ps, pt = self.contact_speed(L, R, sl, sr)
        side = []
        for q, s in ((L, sl), (R, sr)):
            r, p, u, v, w, _, b, c = q
            k = r * (s - u); den = k * (s - sm) - a * a
            rs = k / (s - sm)
            vs = v - a * b * (sm - u) / den; ws = w - a * c * (sm - u) / den
            bs = b * (k * (s - u) - a * a) / den; cs = c * (k * (s - u) - a * a) / den
            U = self.cons(q); vb = u * a + v * b + w * c; vbs = sm * a + vs * bs + ws * cs
            es = ((s - u) * U[1] - pt(q) * u + ps * sm + a * (vb - vbs)) / (s - sm)
            side.append((q, s, U, rs, vs, ws, bs, cs, es, vbs))
        (_, _, _, rl, vl, wl, bl, cl, el, vbl), (_, _, _, rr, vr, wr, br, cr, er, vbr) = side
        xl, xr = root(rl), root(rr)
        sal = sm - sabs(a) / xl; sar = sm + sabs(a) / xr
        vd = (xl * vl + xr * vr + (br - bl) * sg) / (xl + xr); wd = (xl * wl + xr * wr + (cr - cl) * sg) / (xl + xr)
        bd = (xl * br + xr * bl + xl * xr * (vr - vl) * sg) / (xl + xr); cd = (xl * cr + xr * cl + xl * xr * (wr - wl) * sg) / (xl + xr)
        vbd = sm * a + vd * bd + wd * cd
        if pos(sl): return self.flux(L)
        if not pos(sr): return self.flux(R)
        i, s, sa, x, sgn = (0, sl, sal, xl, -1) if pos(sm) else (1, sr, sar, xr, 1)
        q, s, U, rs, vs, ws, bs, cs, es, vbs = side[i]
        f = self.flux(q)
        us = [rs, es, rs * sm, rs * vs, rs * ws, a, bs, cs]
        f = [f[v] + s * (us[v] - U[v]) for v in range(8)]
        inner = not pos(sal) if i == 0 else pos(sar)
        if inner:
            ed = es + sg * sgn * x * (vbs - vbd)
            ud = [rs, ed, rs * sm, rs * vd, rs * wd, a, bd, cd]
            f = [f[v] + sa * (ud[v] - us[v]) for v in range(8)]
        return f

    def emf(self, q4):
        """two-dimensional HLLD electric field u B_y - v B_x from the states q4[y][x] around an edge; components in the plane are (u, v), (a, b)"""
        bx = [q4[y][0][5] for y in (0, 1)]; by = [q4[0][x][6] for x in (0, 1)]
        cx = smax(*[self.fast(q, 0) for r in q4 for q in r]); cy = smax(*[self.fast(q, 1) for r in q4 for q in r])
        us = [q[2] for r in q4 for q in r]; vs = [q[3] for r in q4 for q in r]
        sx = (smin(*us) - cx, smax(*us) + cx); sy = (smin(*vs) - cy, smax(*vs) + cy)
        pt = lambda q: q[1] + (q[5] * q[5] + q[6] * q[6] + q[7] * q[7]) * scon(H)
        def star(comp, sp, side):
            num = scon(0); den = scon(0)
            for y in (0, 1):
                for x in (0, 1):
                    q = q4[y][x]; k = side(y, x); m = q[0] * (sp[k] - q[comp])
                    if k == 0: m = -m
                    num = num + m * q[comp] + (pt(q) if k == 0 else -pt(q)); den = den + m
            return num / den
        um = star(2, sx, lambda y, x: x); vm = star(3, sy, lambda y, x: y)
        E = lambda q: q[2] * q[6] - q[3] * q[5]
        kx = lambda y, x: (sx[x] - q4[y][x][2]) / (sx[x] - um)          # compression across the x wave
        ky = lambda y, x: (sy[y] - q4[y][x][3]) / (sy[y] - vm)
        B = lambda y, x: q4[y][x][6] * kx(y, x)
        A = lambda y, x: q4[y][x][5] * ky(y, x)
        r = lambda y, x: q4[y][x][0]
        def alf(get): return smax(*get)
        ax = [alf([t for y in (0, 1) for t in (sabs(q4[y][x][5]) / (r(y, x) * kx(y, x)).sqrt(), sabs(A(y, x)) / (r(y, x) * kx(y, x) * ky(y, x)).sqrt())] + [self.smallc]) for x in (0, 1)]
        ay = [alf([t for x in (0, 1) for t in (sabs(q4[y][x][6]) / (r(y, x) * ky(y, x)).sqrt(), sabs(B(y, x)) / (r(y, x) * kx(y, x) * ky(y, x)).sqrt())] + [self.smallc]) for y in (0, 1)]
        z = scon(0)
        wl, wr = smin(um - ax[0], z), smax(um + ax[1], z)
        wb, wt = smin(vm - ay[0], z), smax(vm + ay[1], z)
        def alongx(y, ex, b): return (wr * ex[0] - wl * ex[1] + wr * wl * (b[1] - b[0])) / (wr - wl)
        def alongy(x, ey, a): return (wt * ey[0] - wb * ey[1] - wt * wb * (a[1] - a[0])) / (wt - wb)
        if pos(sy[0]) or neg(sy[1]):
            y = 0 if pos(sy[0]) else 1
            if pos(sx[0]): return E(q4[y][0])
            if neg(sx[1]): return E(q4[y][1])
            return alongx(y, [um * B(y, x) - q4[y][x][3] * q4[y][x][5] for x in (0, 1)], [q4[y][x][6] for x in (0, 1)])
        if pos(sx[0]) or neg(sx[1]):
            x = 0 if pos(sx[0]) else 1
            return alongy(x, [q4[y][x][2] * q4[y][x][6] - vm * A(y, x) for y in (0, 1)], [q4[y][x][5] for y in (0, 1)])
        e = lambda y, x: um * B(y, x) - vm * A(y, x)
        return ((wr * wt * e(0, 0) - wl * wt * e(0, 1) - wr * wb * e(1, 0) + wl * wb * e(1, 1)) / ((wr - wl) * (wt - wb))
                + wr * wl / (wr - wl) * ((wt * B(1, 1) - wb * B(0, 1)) - (wt * B(1, 0) - wb * B(0, 0))) / (wt - wb)
                - wt * wb / (wt - wb) * ((wr * A(1, 1) - wl * A(1, 0)) - (wr * A(0, 1) - wl * A(0, 0))) / (wr - wl))

    def twoshock(self, L, R, smallc, smallpp, niter=10, tol=Fraction(1, 10**6)):
        """two-shock approximation solved by Newton iteration, sampled at x/t=0 with a linear fan; returns the physical flux of the sampled state"""
        g = self.g; g6 = (g + 1) / (g * 2)
        rl, pl, ul = L[0], L[1], L[2]; rr, pr, ur = R[0], R[1], R[2]
        cl, cr = g * pl * rl, g * pr * rr
        wl, wr = cl.sqrt(), cr.sqrt()
        ps = smax((wr * pl + wl * pr + wl * wr * (ul - ur)) / (wl + wr), scon(0))
        k = 0
        while k < niter:
            a = (cl * (1 + g6 * (ps - pl) / pl)).sqrt(); b = (cr * (1 + g6 * (ps - pr) / pr)).sqrt()
            qa = 2 * a * a * a / (a * a + cl); qb = 2 * b * b * b / (b * b + cr)
            dp = smax(qb * qa / (qb + qa) * ((ul - (ps - pl) / a) - (ur + (ps - pr) / b)), -ps)
            ps = ps + dp; k += 1
            if not sabs(dp / (ps + smallpp))[0][1] > dec(tol): break
        wl = (cl * (1 + g6 * (ps - pl) / pl)).sqrt(); wr = (cr * (1 + g6 * (ps - pr) / pr)).sqrt()
        us = (ul + (pl - ps) / wl + ur - (pr - ps) / wr) * scon(H)
        left = not neg(us)
        o = L if left else R; w = wl if left else wr; sg = scon(1 if left else -1)
        ro, po, uo = o[0], o[1], o[2]
        co = (g * po / ro).sqrt()
        rs = ro / (1 + ro * (po - ps) / (w * w)); cs = (g * ps / rs).sqrt()
        head, tail = co - sg * uo, cs - sg * us
        if not lt(ps, po): head = tail = w / ro - sg * uo
        scr = smax(head - tail, smallc + sabs(head + tail))
        f = (1 + (head + tail) / scr) * scon(H)
        if not lt(f, scon(1)): f = scon(1)
        elif neg(f): f = scon(0)
        q = [f * rs + (1 - f) * ro, f * ps + (1 - f) * po, f * us + (1 - f) * uo]
        if neg(head): q = [ro, po, uo]
        if pos(tail): q = [rs, ps, us]
        return self.flux(q + list(o[3:]))

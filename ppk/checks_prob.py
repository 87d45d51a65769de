"""Test problems: the state a problem starts from is the one its settings describe (closed formulas of the cell or point position)."""
import math, random
from .checks_ic import *
from .deno import DenoR, Unstable, TINY, dec
from decimal import Decimal
from .absint import Node

FNS = {"exp": math.exp, "sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan, "log": math.log, "tanh": math.tanh, "sinh": math.sinh,
       "cosh": math.cosh, "log10": math.log10, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3.), x), "atan2": math.atan2, "pow": math.pow, "fmod": math.fmod, "hypot": math.hypot, "floor": math.floor, "ceil": math.ceil, "erf": math.erf}


class Real(DenoR):
    """value graph over the reals (random interpretation): settings, mesh and position are random reals"""
    def _val(self, n, env):
        if n.op == "fn" and n.a[0] in FNS:
            v = [float(self.val(x, env)[1]) for x in n.a[1:]]
            try: y = FNS[n.a[0]](*v)
            except (ValueError, OverflowError, ZeroDivisionError): raise Unstable("function")
            r = hsh(self.seed, "fn", n.a[0], tuple(self.val(x, env)[0] for x in n.a[1:]))
            return (r, Decimal(y), abs(Decimal(y)))
        if n.op == "fn" and n.a[0] not in ("sqrt",): raise AnalysisBroken("function %s in an initial condition" % n.a[0])
        if n.op in ("opq", "k"):
            h = hsh(self.seed, "opq", n.a[0]); y = Decimal(h % 9973) / 9973
            return (h, y, Decimal(1))
        return DenoR._val(self, n, env)

    def base_leaf(self, alloc, idx): return (0, Decimal(0), Decimal(0))

    def sym(self, name): raise AnalysisBroken(name)


# ---- sampling of settings ---------------------------------------------------------------------------------------------------
RANGE = {"hydro/gamma0": (1.1, 1.9), "mesh/xmin": (-0.6, 0), "mesh/ymin": (-0.6, 0), "mesh/zmin": (-0.6, 0), "mesh/xmax": (0.5, 1.2), "mesh/ymax": (0.5, 1.2), "mesh/zmax": (0.5, 1.2),
         "riemann2d/x": (0, .6), "riemann2d/y": (0, .6), "blast/radius": (.2, .7), "KH/delta": (.03, .3), "implode/vx_inner": (-1, 1), "isentropic_vortex/strength": (1, 4),
         "isentropic_vortex/temperature_ambient": (1, 2), "disk/radius": (.2, .5), "disk/radius_inner": (.05, .3), "disk/contrast_width": (.1, .3), "disk/contrast_density": (2, 9),
         "disk/ref_sound_speed": (.1, .6), "gravity/soften": (.01, .2), "rotor/r0": (.1, .3), "rotor/r1": (.31, .6), "FieldLoop/radius": (.2, .6), "rising_bubble/R": (.2, .6),
         "wedge/front_angle": (.6, 1.3), "wedge/front_x": (-.3, .3), "gravity/x": (-.3, .3), "gravity/y": (-.3, .3), "gravity/z": (-.3, .3)}
CENTER = ("center_x", "center_y", "center_z", "/xc", "/yc", "/zc", "/x0", "/y0", "/z0")
SIGNED = ("/v", "/u_", "/v_", "/w_", "/g", "/Bx", "/By", "/Bz", "/w0", "/u1", "/v1", "/w1", "/u2", "/v2", "/w2", "/amplitude")
INTS = {"mesh/nx": (8, 40), "mesh/ny": (8, 40), "mesh/nz": (8, 40), "KH/mode": (1, 4)}


class Settings:
    def __init__(self, seed): self.seed = seed; self.over = {}
    def rnd(self, name): return random.Random("%s/%s" % (self.seed, name))
    def fl(self, name):
        if name in self.over: return self.over[name]
        if name in RANGE: a, b = RANGE[name]
        elif any(name.endswith(c) for c in CENTER): a, b = 0, .6
        elif any(s in name for s in SIGNED): a, b = -1, 1
        else: a, b = .2, 1.5
        return Fraction(self.rnd(name).randrange(int(a * 4096), int(b * 4096) + 1) * 2 + 1, 8192)
    def i(self, name):
        if name in self.over: return self.over[name]
        a, b = INTS.get(name, (1, 5))
        return self.rnd(name).randint(a, b)


class Sym(dict):
    """symbol -> (residue, real) for the value graph, from the settings"""
    def __init__(self, S, base): dict.__init__(self); self.S = S; self.base = base; self["<>"] = None
    def get(self, k, d=None):
        try: return self[k]
        except KeyError: return d
    def __missing__(self, k):
        if k in self.base: v = self.base[k]
        elif k.startswith("cfg:"):
            n = k[4:]; v = self.S.i(n) if n in INTS else self.S.fl(n)
        else: raise KeyError(k)
        r = (frac(Fraction(v)), dec(Fraction(v)), abs(dec(Fraction(v)))); self[k] = r; return r


# ---- reference: problem -> (label, rho, p, (u,v,w)) at a point ---------------------------------------------------------------
class Ctx:
    """settings, as floats, for the reference formulas"""
    def __init__(self, S, fam, dim, extra): self.S = S; self.fam = fam; self.dim = dim; self.e = extra
    def __call__(self, n): return float(self.S.fl(n))
    def n(self, n): return self.S.i(n)
    def close(self, a, b, m): return close(a, b, m, 3e-6 if "wave" in self.e else 1e-9)  # (eigenvectors of the waves are given to 7 digits)


def r_implode(c, x, y, z):
    q = {a: c("mesh/" + a) for a in ("xmin", "xmax", "ymin", "zmin")}
    s = x + y + (z if c.dim == 3 else 0)
    if c.e["shape"]:
        if c.dim == 2 and c.fam == HY: t = x + y * y; out = .5 < t < 1.5; m = min(abs(t - .5), abs(t - 1.5))
        else: out = .5 < s < 2.5; m = min(abs(s - .5), abs(s - 2.5))
    else:
        e = (q["xmin"] + q["xmax"]) / 2 + q["ymin"] + (q["zmin"] if c.dim == 3 else 0); out = s > e; m = abs(s - e)
    k = "outer" if out else "inner"
    three = c.dim == 3
    u = (c("implode/vx_" + k), c("implode/vy_" + k), c("implode/vz_" + k) if three else 0)
    B = (c("implode/Bx_" + k), c("implode/By_" + k), c("implode/Bz_" + k) if three else 0)
    return k, c("implode/density_" + k), c("implode/pressure_" + k), u, B, m


def r_blast(c, x, y, z):
    r2 = (x - c("blast/center_x")) ** 2 + (y - c("blast/center_y")) ** 2 + ((z - c("blast/center_z")) ** 2 if c.dim == 3 else 0); R = c("blast/radius")
    k = "in" if r2 < R * R else "out"
    return k, c("blast/density_" + k), c("blast/pressure_" + k), (0, 0, 0), (.5, .5, .5), abs(r2 - R * R)


def r_kh(c, x, y, z):
    h = z if c.dim == 3 else y; kh = c.e["kh"]; B = (.5, 0, 0)
    di, do, vi, vo, w0 = (c("KH/" + a) for a in ("d_in", "d_out", "vflow_in", "vflow_out", "w0")); n = c.n("KH/mode"); P = c("KH/pressure")
    if kh == "robertson":
        d = c("KH/delta"); E = lambda t: math.exp(min(t, 700.))
        ramp = 1 / (1 + E(2 * (h - .25) / d)) + 1 / (1 + E(2 * (.75 - h) / d))
        u = vi + ramp * (vo - vi); w = w0 * math.sin(n * math.pi * x)
        if c.dim == 3: return "rob", di + ramp * (do - di), P, (u, u / 2, w * math.sin(n * math.pi * y)), B, 1
        return "rob", di + ramp * (do - di), P, (u, w, 0), B, 1
    if kh == "sine":
        inn = .25 <= h <= .75; w = w0 * math.sin(n * math.pi * x); m = min(abs(h - .25), abs(h - .75))
        return "in" if inn else "out", di if inn else do, P, ((vi if inn else vo), 0, w) if c.dim == 3 else ((vi if inn else vo), w, 0), B, m
    a = "z" if c.dim == 3 else "y"; f = (h - c("mesh/%smin" % a)) / (c("mesh/%smax" % a) - c("mesh/%smin" % a)); inn = .25 <= f <= .75
    A = abs(c("KH/amplitude")) / 2; q = (vi if inn else vo)
    u = (("in", q - A, q + A), ("in", -A, A), ("in", -A, A) if c.dim == 3 else 0)
    return "in" if inn else "out", di if inn else do, P, u, B, min(abs(f - .25), abs(f - .75))


def r_gresho(c, x, y, z):
    r = math.hypot(x, y); rho = c("Gresho/rho0"); p0 = rho / (c("hydro/gamma0") * c("Gresho/Ma") ** 2)
    if r < .2: k, up, p = "core", 5 * r, p0 + 12.5 * r * r
    elif r < .4: k, up, p = "ring", 2 - 5 * r, p0 + 12.5 * r * r + 4 * (1 - 5 * r - math.log(.2) + math.log(r))
    else: k, up, p = "out", 0, p0 - 2 + 4 * math.log(2.)
    return k, rho, p, (-y / r * up, x / r * up, 0), None, min(abs(r - .2), abs(r - .4))


# Lax & Liu 1998 (SIAM J. Sci. Comput. 19, 319), Kurganov & Tadmor 2002: (p, rho, u, v) of the quadrants right-top, left-top, left-bottom, right-bottom
QUAD = [((1, 1, 0, 0), (.4, .5197, -.7259, 0), (.0439, .1072, -.7259, -1.4045), (.15, .2579, 0, -1.4045)),
        ((1, 1, 0, 0), (.4, .5197, -.7259, 0), (1, 1, -.7259, -.7259), (.4, .5197, 0, -.7259)),
        ((1.5, 1.5, 0, 0), (.3, .5323, 1.206, 0), (.029, .138, 1.206, 1.206), (.3, .5323, 0, 1.206)),
        ((1.1, 1.1, 0, 0), (.35, .5065, .8939, 0), (1.1, 1.1, .8939, .8939), (.35, .5065, 0, .8939)),
        ((1, 1, -.75, -.5), (1, 2, -.75, .5), (1, 1, .75, .5), (1, 3, .75, -.5)),
        ((1, 1, .75, -.5), (1, 2, .75, .5), (1, 1, -.75, .5), (1, 3, -.75, -.5)),
        ((1, 1, .1, .1), (.4, .5197, -.6259, .1), (.4, .8, .1, .1), (.4, .5197, .1, -.6259)),
        ((.4, .5197, .1, .1), (1, 1, -.6259, .1), (1, .8, .1, .1), (1, 1, .1, -.6259)),
        ((1, 1, 0, .3), (1, 2, 0, -.3), (.4, 1.039, 0, -.8133), (.4, .5197, 0, -.4259)),
        ((1, 1, 0, .4297), (1, .5, 0, .6076), (.3333, .2281, 0, -.6076), (.3333, .4562, 0, -.4297)),
        ((1, 1, .1, 0), (.4, .5313, .8276, 0), (.4, .8, .1, 0), (.4, .5313, .1, .7276)),
        ((.4, .5313, 0, 0), (1, 1, .7276, 0), (1, .8, 0, 0), (1, 1, 0, .7276)),
        ((1, 1, 0, -.3), (1, 2, 0, .3), (.4, 1.0625, 0, .8145), (.4, .5313, 0, .4276)),
        ((8, 2, 0, -.5606), (8, 1, 0, -1.2172), (2.6667, .4736, 0, 1.2172), (2.6667, .9474, 0, 1.1606)),
        ((1, 1, .1, -.3), (.4, .5197, -.6259, -.3), (.4, .8, .1, -.3), (.4, .5313, .1, .4276)),
        ((.4, .5313, .1, .1), (1, 1.0222, -.6179, .1), (1, .8, .1, .1), (1, 1, .1, .8276)),
        ((1, 1, 0, -.4), (1, 2, 0, -.3), (.4, 1.0625, 0, .2145), (.4, .5197, 0, -1.1259)),
        ((1, 1, 0, 1), (1, 2, 0, -.3), (.4, 1.0625, 0, .2145), (.4, .5197, 0, .2741)),
        ((1, 1, 0, .3), (1, 2, 0, -.3), (.4, 1.0625, 0, .2145), (.4, .5197, 0, -.4259))]


def r_quad(c, x, y, z):
    xt, yt = c("riemann2d/x"), c("riemann2d/y")
    q = (2 if y < yt else 1) if x < xt else (3 if y < yt else 0)
    p, r, u, v = QUAD[c.e["config"]][q]
    return q, r, p, (u, v, 0), None, min(abs(x - xt), abs(y - yt))


def r_vortex(c, x, y, z):
    g = c("hydro/gamma0"); I = "isentropic_vortex/"; b = c(I + "strength"); X = x - c(I + "center_x"); Y = y - c(I + "center_y"); r2 = X * X + Y * Y; Ta = c(I + "temperature_ambient")
    f = b / (2 * math.pi) * math.exp(.5 * (1 - r2)); T = Ta - (g - 1) * b * b / (8 * g * math.pi ** 2) * math.exp(1 - r2)
    rho = c(I + "density_ambient") * (T / Ta) ** (1 / (g - 1))
    return "", rho, rho * T, (c(I + "vx_ambient") - Y * f, c(I + "vy_ambient") + X * f, 0), None, 1


def r_rt(c, x, y, z):
    R = "rayleigh_taylor/"; h, a = (z, "z") if c.dim == 3 else (y, "y"); mid = (c("mesh/%smin" % a) + c("mesh/%smax" % a)) / 2
    k = "d1" if h > mid else "d0"; rho = c(R + k)
    Lx = c("mesh/xmax") - c("mesh/xmin"); Ly = c("mesh/ymax") - c("mesh/ymin")
    m = c(R + "amplitude") * (1 + math.cos(2 * math.pi * x / Lx)) * (1 + math.cos(2 * math.pi * y / Ly)) / 4
    g = (c(R + "gx"), c(R + "gy"), c(R + "gz") if c.dim == 3 else 0)
    p = 1 + rho * (g[0] * x + g[1] * y + g[2] * z)
    c.grav = g
    return k, rho, p, (0, 0, m / rho) if c.dim == 3 else (0, m / rho, 0), None, abs(h - mid)


def r_bubble(c, x, y, z):
    R = "rising_bubble/"; r = math.sqrt((x - c(R + "x0")) ** 2 + (y - c(R + "y0")) ** 2 + ((z - c(R + "z0")) ** 2 if c.dim == 3 else 0))
    k = "din" if r < c(R + "R") else "dout"; rho = c(R + k); g = (c(R + "gx"), c(R + "gy"), c(R + "gz") if c.dim == 3 else 0)
    c.grav = g
    return k, rho, 1 + rho * (g[0] * x + g[1] * y + g[2] * z), (0, 0, 0), None, abs(r - c(R + "R"))


def r_disk(c, x, y, z):
    D = "disk/"; x -= c(D + "xc"); y -= c(D + "yc"); z = z - c(D + "zc") if c.dim == 3 else 0.
    GM = c("gravity/G") * c("gravity/M"); eps = c("gravity/soften"); R = c(D + "radius"); Ri = c(D + "radius_inner")
    r = math.hypot(x, y); rs = math.sqrt(r * r + eps * eps); rp = math.sqrt(r * r + eps * eps + z * z)
    cs = c(D + "ref_sound_speed") / math.sqrt(max(r, Ri) / R)
    w2 = GM / (rs * rs * rp) - 3.5 * (cs / rs) ** 2 if r >= Ri else GM / rs ** 3 - 2.5 * (cs / rs) ** 2
    w = math.sqrt(max(w2, 0)); rho = c(D + "ref_density") * (rs / R) ** -2.5 * math.exp(GM / cs ** 2 * (1 / rp - 1 / rs))
    k = "in"; W = c(D + "contrast_width"); C = c(D + "contrast_density"); az = abs(z)
    if r > R or az > .5 * R:
        if r > R + W or az > .5 * R + W: rho /= C; k = "out"
        else: cr, cz = (r - R) / W, (az - .5 * R) / W; rho *= C ** -max(cr, cz); k = "rim" if cr > cz else "rim+z" if z > 0 else "rim-z"
    if rho < 1e-6: rho = 1e-6
    P = [x - c("gravity/x"), y - c("gravity/y"), (z if c.dim == 3 else 0) - c("gravity/z")]
    d2 = sum(a * a for a in P) + eps * eps
    c.grav = tuple(-GM * a / d2 ** 1.5 for a in P)
    return (k, r >= Ri), rho, cs * cs * rho, (-y * rs / r * w, x * rs / r * w, 0), None, min(abs(r - Ri), abs(r - R), abs(r - R - W), abs(az - .5 * R), abs(az - .5 * R - W), abs(w2))


def r_ot(c, x, y, z):
    g = c("hydro/gamma0"); p = g / (4 * math.pi); B0 = 1 / math.sqrt(4 * math.pi); t = 2 * math.pi
    q = math.cos(2 * t * c("OrszagTang/kt") * (z - c("mesh/zmin")) / (c("mesh/zmax") - c("mesh/zmin"))) if c.dim == 3 else 1
    return "", g * p, p, (-math.sin(y * t), math.sin(x * t), 0), (-B0 * q * math.sin(y * t), B0 * q * math.sin(2 * x * t), 0), 1


def r_rotor(c, x, y, z):
    X = x - (c("mesh/xmin") + c("mesh/xmax")) / 2; Y = y - (c("mesh/ymin") + c("mesh/ymax")) / 2; r = math.hypot(X, Y)
    r0, r1, u0 = c("rotor/r0"), c("rotor/r1"), c("rotor/u0"); f = (r1 - r) / (r1 - r0)
    if r <= r0: k, rho, u = "core", 10., (-u0 * Y / r0, u0 * X / r0, 0)
    elif r <= r1: k, rho, u = "taper", 1 + 9 * f, (-f * u0 * Y / r, f * u0 * X / r, 0)
    else: k, rho, u = "out", 1., (0, 0, 0)
    return k, rho, c("rotor/p0"), u, (c("rotor/b0"), 0, 0), min(abs(r - r0), abs(r - r1))


def r_loop(c, x, y, z):
    r = math.hypot(x, y); R = c("FieldLoop/radius"); v = c("FieldLoop/vflow")
    def A(X, Y, Z): q = math.hypot(X, Y); return (0, 0, c("FieldLoop/amplitude") * (R - q) if q < R else 0)
    c.A = A; c.At = ((0, 0, 0),) * 3
    return ("in" if r < R else "out"), (c("FieldLoop/density_in") if r < R else 1.), 1., (v * 2 / math.sqrt(5), v / math.sqrt(5), v if c.dim == 3 else None), "A", abs(r - R)


# right eigenvectors (rho, momenta, energy, By, Bz) of the linear waves of Athena, for b = (1, sqrt 2, 1/2), rho = 1, p = 1/gamma
WAVE = [((1, -2, 2 * math.sqrt(8) / 6., 1 / 3., 4.5, 2 * math.sqrt(8) / 3., 2 / 3.), 1 / math.sqrt(5), 0), ((0, 0, -1 / 3., math.sqrt(8) / 3., 0, -1 / 3., math.sqrt(8) / 3.), 1, 0),
        ((2, -1, -4 * math.sqrt(2) / 3., -2 / 3., 1.5, -2 * math.sqrt(2) / 3., -1 / 3.), 1 / math.sqrt(5), 0), ((1, 1, 0, 0, .5, 0, 0), 1, 1)]


def r_wave(c, x, y, z):
    rev, nrm, V0 = WAVE[c.e["wave"]]; rev = [a * nrm for a in rev]; a = c("wave/amplitude")
    L = [c("mesh/%smax" % q) - c("mesh/%smin" % q) for q in "xyz"]
    a3 = math.atan(L[0] / L[1]); s3, c3 = math.sin(a3), math.cos(a3); a2 = math.atan(.5 * (L[0] * c3 + L[1] * s3) / L[2]); s2, c2 = math.sin(a2), math.cos(a2)
    k = 2 * math.pi / min(L[0] * c2 * c3, L[1] * c2 * s3, L[2] * s2); b = (1., math.sqrt(2), .5)
    def A(X, Y, Z):
        t = X * c2 * c3 + Y * c2 * s3 + Z * s2; n = -X * s3 + Y * c3
        ay = b[2] * t - a * rev[6] / k * math.cos(k * t); az = -b[1] * t + a * rev[5] / k * math.cos(k * t) + b[0] * n
        return (-ay * s3 - az * s2 * c3, ay * c3 - az * s2 * s3, az * c2)
    c.A = A; c.At = ((0, -.5, -.5), (-.5, 0, -.5), (-.5, -.5, 0))
    sn = math.sin(k * (x * c2 * c3 + y * c2 * s3 + z * s2)); M = (V0 + a * sn * rev[1], a * sn * rev[2], a * sn * rev[3]); rho = 1 + a * sn * rev[0]
    m = (M[0] * c2 * c3 - M[1] * s3 - M[2] * s2 * c3, M[0] * c2 * s3 + M[1] * c3 - M[2] * s2 * s3, M[0] * s2 + M[2] * c2)
    g = c("hydro/gamma0")
    c.E = 1 / g / (g - 1) + .5 * V0 * V0 + .5 * sum(q * q for q in b) + a * sn * rev[4]
    return "", rho, None, tuple(q / rho for q in m), "A", 1


def r_sod(c, x, y, z): return ("l", 1., 1., (0, 0, 0), None, abs(x - .5)) if x < .5 else ("r", .125, .1, (0, 0, 0), None, abs(x - .5))


def r_shu(c, x, y, z):
    if x < -4: return "l", 27 / 7., 31 / 3., (4 * math.sqrt(35) / 9, 0, 0), None, abs(x + 4)
    return "r", 1 + .2 * math.sin(5 * x), 1., (0, 0, 0), None, abs(x + 4)


def r_jet(c, x, y, z):
    J = "jet/"; return "", c(J + "rho_bulk"), c(J + "p_bulk"), (c(J + "u_bulk"), c(J + "v_bulk"), c(J + "w_bulk") if c.dim == 3 else 0), None, 1


def r_wedge(c, x, y, z):
    W = "wedge/"; q = y - math.tan(c(W + "front_angle")) * (x - c(W + "front_x")); k = "1" if q > 0 else "2"
    return k, c(W + "rho" + k), c(W + "p" + k), (c(W + "u" + k), c(W + "v" + k), c(W + "w" + k) if c.dim == 3 else 0), None, abs(q)


REF = {"implode": r_implode, "blast": r_blast, "kelvin_helmholtz": r_kh, "gresho_vortex": r_gresho, "four_quadrant": r_quad, "isentropic_vortex": r_vortex, "rayleigh_taylor": r_rt,
       "rising_bubble": r_bubble, "disk": r_disk, "orszag_tang": r_ot, "rotor": r_rotor, "field_loop": r_loop, "wave": r_wave, "sod": r_sod, "shu_osher": r_shu, "jet": r_jet, "wedge": r_wedge}
LABELS = {"implode": 2, "blast": 2, "gresho_vortex": 3, "four_quadrant": 4, "rayleigh_taylor": 2, "rising_bubble": 2, "disk": (4, 7), "rotor": 3, "field_loop": 2, "sod": 2, "shu_osher": 2, "wedge": 2}


def nlabels(p, dim): n = LABELS.get(p, 1); return n[dim - 2] if isinstance(n, tuple) else n


def close(a, b, m, tol=1e-9): return abs(a - b) <= tol * max(abs(a), abs(b), m)


def fmt(v): return "[%s, %s]" % (fmt(v[1]), fmt(v[2])) if isinstance(v, tuple) else "%.6g" % v


def judge(res, name, c, ref, got, tag, W, res_v):
    """compare one state (floats, conserved) with the reference; B: cell-centred field of the state, or None"""
    lab, rho, p, u, _, m = ref; near = c.close; g = c("hydro/gamma0"); S, Bc = got
    at = "%s (%s)" % (tag, lab) if lab != "" else tag
    res.check(near(S[0], rho, 1e-3), name + ":rho", "%s: %s: density %s, expected %s%s" % (name, at, fmt(S[0]), fmt(rho), W))
    nd = len(S) - 2 if c.fam == HY else 3
    for d in range(nd):
        w = u[d] if d < len(u) else 0; v = S[2 + d] / S[0] if S[0] else 0.
        if w is None: continue
        ok = w[1] - 1e-9 <= v <= w[2] + 1e-9 if isinstance(w, tuple) else near(v, w, 1e-3)
        res.check(ok, name + ":v" + AX[d], "%s: %s: velocity along %s is %s, expected %s%s" % (name, at, AX[d], fmt(v), fmt(w), W))
    if p is None: res.check(near(S[1], c.E, 1.), name + ":E", "%s: %s: energy %s, expected %s%s" % (name, at, fmt(S[1]), fmt(c.E), W)); return
    P = (g - 1) * (S[1] - .5 * sum(S[2 + d] ** 2 for d in range(nd)) / (S[0] or 1) - (.5 * sum(b * b for b in Bc) if Bc else 0))
    res.check(near(P, p, abs(S[1])), name + ":p", "%s: %s: thermal pressure %s, expected %s%s" % (name, at, fmt(P), fmt(p), W))


def setup_of(problem, kh, v):
    c = {("hydro", "cIso"): 0}; e = {"kh": kh}
    if problem == "implode": c[("implode", "shape_region")] = v; e["shape"] = v
    if problem == "four_quadrant": c[("riemann2d", "config_number")] = v; e["config"] = v
    if problem == "wave": c[("wave", "type")] = v; e["wave"] = v
    return c, e


def variants(problem): return {"implode": range(2), "four_quadrant": range(19), "wave": range(4)}.get(problem, (0,))


def vname(problem, v): return {"implode": " shape_region=%d", "four_quadrant": " config_number=%d", "wave": " type=%d"}.get(problem, "") % (() if problem not in ("implode", "four_quadrant", "wave") else (v,))


def trial(seed, problem, R, n):
    """one choice of settings, mesh and cell; returns (Settings, base symbols, cell)"""
    S = Settings(seed); q = random.Random("cell/%s" % seed)
    if problem == "shu_osher": S.over.update({"mesh/xmin": Fraction(-5), "mesh/xmax": Fraction(-3)})
    if problem == "disk":
        for a in "xyz": S.over["disk/%sc" % a] = Fraction(0)
        if R.dim == 3: S.over["mesh/zmin"] = Fraction(-3, 7); S.over["mesh/zmax"] = Fraction(4, 9)
    if problem == "gresho_vortex":
        for a in "xy": S.over["mesh/%smin" % a] = Fraction(-1, 3); S.over["mesh/%smax" % a] = Fraction(3, 7)
    if problem in ("jet", "wedge") and R.dim == 2: S.over.update({"jet/w_bulk": Fraction(0), "wedge/w1": Fraction(0), "wedge/w2": Fraction(0)})  # (no third momentum in 2D)
    if problem == "field_loop": S.over["FieldLoop/amplitude"] = Fraction(q.randrange(300, 3000), 1009)
    cell = [q.randrange(S.i("mesh/n" + a)) for a in "xyz"]
    base = {"ijk"[d]: cell[d] + R.gw for d in range(3)}
    return S, base, cell


def task_prob(fam, dim, problem, kh, v, gravity, tier):
    res = Result(); res.count("contexts")
    ov, extra = setup_of(problem, kh, v)
    R = ic_build("serial", fam, dim, problem, kh, gravity, ov)
    name = iname(fam, dim, problem, kh) + vname(problem, v); W = "; set by " + where_ic(R); gen = generic(R)
    labels = set(); done = 0; N = (24 if problem != "four_quadrant" else 12) if tier == "quick" else 150; k = 0
    while done < N and k < 20 * N:
        k += 1
        S, base, cell = trial("%s:%d" % (problem, k), problem, R, k)
        c = Ctx(S, fam, dim, extra); h = [(c("mesh/%smax" % a) - c("mesh/%smin" % a)) / S.i("mesh/n" + a) for a in "xyz"]
        pos = lambda o=(0, 0, 0): [c("mesh/%smin" % AX[d]) + (cell[d] + .5 + o[d]) * h[d] for d in range(3)]
        ref = REF[problem](c, *pos())
        if ref[5] < 1e-6 or ref[0] in labels and len(labels) < nlabels(problem, dim) and done > N // 2: continue
        try:
            D = Real(R.I, gen, k, 0, symval=Sym(S, base))
            st = lambda o=(0, 0, 0): [float(x[1]) for x in state(D, R, o)]
            s0 = st(); up = [st(tuple(int(q == d) for q in range(3))) for d in range(dim)] if fam == MH else []
            gr = [float(D.load("gravity field", tuple(unpoly(X[d]) for d in range(dim)) + (q,), R.end)[1]) for q in range(dim)] if gravity and hasattr(c, "grav") else None
        except Unstable as ex: continue
        done += 1; labels.add(ref[0]); res.count("states")
        where = "x=(%s)" % ", ".join("%.4g" % q for q in pos()[:dim])
        Bc = None
        if fam == MH:
            face = lambda o, q: REF[problem](c, *pos(o))[4][q]
            for q in range(3):
                f = s0[5 + q]
                if ref[4] == "A":
                    i, j = (q + 1) % 3, (q + 2) % 3
                    def A(n, ax): o = [c.At[n][d] + int(d == ax) for d in range(3)]; return c.A(*pos(o))[n]
                    w = (A(j, i) - A(j, None)) / h[i] - (A(i, j) - A(i, None)) / h[j]
                    # (in two dimensions nothing depends on z)
                else: w = ref[4][q]
                if problem == "implode" and q < dim and face(tuple(-int(d == q) for d in range(3)), q) != w: continue
                res.check(c.close(f, w, 1e-2), name + ":B" + AX[q], "%s: %s: B%s is %s, expected %s%s" % (name, where, AX[q], fmt(f), fmt(w), W))
            Bc = [(s0[5 + d] + up[d][5 + d]) / 2 if d < dim and not (problem == "implode") else s0[5 + d] for d in range(3)]
        judge(res, name, c, ref, (s0, Bc), where, W, None)
        if gr is not None:
            for d in range(dim): res.check(close(gr[d], c.grav[d], 1e-3), name + ":g" + AX[d], "%s: %s: gravity along %s is %s, expected %s%s" % (name, where, AX[d], fmt(gr[d]), fmt(c.grav[d]), W))
    if done < N // 2: raise AnalysisBroken("%s: only %d of %d states could be evaluated" % (name, done, N))
    if len(labels) < nlabels(problem, dim) and not (problem == "implode" and v): raise AnalysisBroken("%s: only the cases %s were reached" % (name, sorted(map(str, labels))))
    return res


def task_prob_sdm(dim, N, problem, kh, v, tier):
    res = Result(); res.count("contexts")
    ov, extra = setup_of(problem, kh, v)
    R = sdm_ic(dim, N, problem, kh, ov)
    from .sdm import ids_of
    name = "Hydro_SDM_%dD problem=%s%s%s" % (dim, problem, (" perturbation=" + kh) if kh else "", vname(problem, v)); W = "; set by " + where_ic(R); gen = generic(R)
    labels = set(); done = 0; T = (16 if problem != "four_quadrant" else 8) if tier == "quick" else 60; k = 0
    while done < T and k < 20 * T:
        k += 1
        S, base, cell = trial("%s:%d" % (problem, k), problem, R, k); c = Ctx(S, HY, dim, extra)
        try:
            D = Real(R.I, gen, k, 0, symval=Sym(S, base))
            xs = [float(D.load("solution_pts_1d", (i,), R.end)[1]) for i in range(N)]
            q = random.Random("dof%d" % k).randrange(R.ndof); ids = ids_of(q, N, dim)
            pos = [c("mesh/%smin" % AX[d]) + (cell[d] + xs[ids[d]]) * (c("mesh/%smax" % AX[d]) - c("mesh/%smin" % AX[d])) / S.i("mesh/n" + AX[d]) for d in range(dim)] + [0.] * (3 - dim)
            ref = REF[problem](c, *pos)
            if ref[5] < 1e-6: continue
            idx = tuple(unpoly(X[d]) for d in range(dim))
            s0 = [float(D.load("U", idx + (w * R.ndof + q,), R.end)[1]) for w in range(R.nv)]
        except Unstable: continue
        done += 1; labels.add(ref[0]); res.count("states")
        judge(res, name, c, ref, (s0, None), "x=(%s)" % ", ".join("%.4g" % a for a in pos[:dim]), W, None)
    if done < T // 2: raise AnalysisBroken("%s: only %d of %d states could be evaluated" % (name, done, T))
    return res


def khs(p, fam, sdm=False): return (("robertson", "rand") + (("sine",) if fam == MH else ())) if p == "kelvin_helmholtz" else ("",)


def prob_tasks(tier):
    t = []
    for fam in (HY, MH):
        for dim in (2, 3):
            for p in probs(fam, dim):
                if p not in REF or p == "wave" and dim == 2: continue
                for kh in khs(p, fam):
                    for v in variants(p): t.append((task_prob, (fam, dim, p, kh, v, p in ("rayleigh_taylor", "rising_bubble", "disk"), tier)))
    for dim in (2, 3):
        for p in SPROB:
            for kh in khs(p, HY):
                for v in variants(p):
                    if p == "four_quadrant" and dim == 3 or p == "four_quadrant" and v % 5 and tier == "quick": continue
                    t.append((task_prob_sdm, (dim, 2 if dim == 3 else 3, p, kh, v, tier)))
    return t

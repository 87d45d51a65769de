"""Riemann solvers taken alone: value numbering of the flux functions on structured pairs of states."""
from .checks_fv import *
from .dom import *
from .series import ccon, DenoS, STRICT, scon, ZC
from . import series
from .riemann_ref import Book

SOLV = {HY: ("approx", "llf", "hll", "hllc"), MH: ("llf", "hll", "hlld")}


def flux_graph(fam, dim, riem):
    R = run_ctx(fam, dim, 0, riem, 1)
    I, st, fr = R.I, R.st, R.fr
    nm = "riemann_mhd" if fam == MH else "riemann_hydro"
    fs = I.P.find(nm)
    want = "MHDState" if fam == MH else "HydroState%dd" % dim
    fs = [f for f in fs if any(want in tname(f, p) for p in f.params)] or fs
    def ok(f):
        if fam == MH: return True
        return count(f) == nvar(fam, dim)
    def count(f):
        t = I.strip(f.types[f.params[0][2]])
        k = I.karr(t) if t["k"] == "rec" and I.is_karray(t["r"]) else None
        return k[1] if k else t.get("n")
    fs = [f for f in fs if ok(f)]
    if len(fs) != 1: raise AnalysisBroken("%s for %d dimensions: %d candidates" % (nm, dim, len(fs)))
    f = fs[0]
    nv = nvar(fam, dim) if fam == HY else 8
    locs = []
    I2 = I
    s2 = State(dict(st.mem), st.pc, set())
    for k, tag in enumerate(("qL", "qR")):
        l = ("rs_" + tag,)
        for v in range(nv): s2.mem[l + (v,)] = mk("sym", "%s.%d" % (tag, v))
        locs.append(l)
    out = [Ref(("rs_%d" % k,)) for k in range(len(f.params) - 3)]
    I.call_repo(s2, fr, f, None, 0, None, argvals=[Ref(locs[0]), Ref(locs[1])] + out + [Ref(R.ploc)])
    fl = out[-1].loc
    res = []
    for v in range(nv):
        n = s2.mem.get(fl + (v,))
        if n is None: raise AnalysisBroken("%s does not set flux component %d" % (nm, v))
        res.append(I.tofloat(n))
    return R, f, res, nv


def tname(f, p):
    t = f.types[p[2]]
    return t.get("s", "")


class Pair:
    """two primitive states as exact rationals, with the physical flux and fast speeds"""
    def __init__(self, fam, qL, qR): self.fam = fam; self.q = (qL, qR)
    g = Fraction(5, 3)

    def U(self, q):
        r, p, u, v, w, a, b, c = q
        return [r, p / (self.g - 1) + r * (u * u + v * v + w * w) / 2 + (a * a + b * b + c * c) / 2, r * u, r * v, r * w, a, b, c]

    def F(self, q):
        r, p, u, v, w, a, b, c = q
        pt = p + (a * a + b * b + c * c) / 2
        ub = u * a + v * b + w * c
        return [r * u, (self.U(q)[1] + pt) * u - a * ub, r * u * u + pt - a * a, r * u * v - a * b, r * u * w - a * c, Fraction(0), b * u - a * v, c * u - a * w]

    def fast(self, q):
        r, p, u, v, w, a, b, c = q
        c2 = self.g * p / r; b2 = (a * a + b * b + c * c) / r
        d2 = (c2 + b2) / 2
        return (dec(d2) + dec(d2 * d2 - c2 * a * a / r).sqrt()).sqrt()


def rnd(seed, *k): return Fraction(shash(seed, *k) % 1023 - 511, 1024)


def state(seed, tag, fam, bulk=0, bn=None):
    q = [1 + rnd(seed, tag, "r") / 2, 1 + rnd(seed, tag, "p") / 2, bulk + rnd(seed, tag, "u") / 2, rnd(seed, tag, "v"), rnd(seed, tag, "w")]
    if fam == MH: q += [rnd(seed, "bn") if bn is None else bn, rnd(seed, tag, "b"), rnd(seed, tag, "c")]
    else: q += [Fraction(0)] * 3
    return q


def evaluate(R, nodes, pair, nv, seed, order):
    sv = dict(RData(R.dim, R.fam, seed).symval())
    for tag, q in zip(("qL", "qR"), pair.q):
        for v in range(nv): sv["%s.%d" % (tag, v)] = ccon(q[v])
    D = DenoR(R.I, Facts([]), seed, R.start, leaf=lambda *a: None, symval=sv)
    out = [D.val(n, D.env({})) for n in nodes]
    return out, D.touched


def evaluate_s(R, nodes, names, seed, strict=True):
    """values in series arithmetic (roots that leave the field discard the trial)"""
    sv = {k: (v if isinstance(v, int) else v) for k, v in RData(R.dim, R.fam, seed).symval().items()}
    sv.update(names)
    STRICT[0] = strict
    D = DenoS(R.I, Facts([]), seed, R.start, leaf=lambda *a: None, symval=sv)
    return [D.val(n, D.env({})) for n in nodes], D.touched


def task_reference(fam, dim, riem, tier):
    """equality with the textbook formulas (jump relations) for random pairs of states in every wave pattern"""
    res = Result(); R, f, nodes, nv = flux_graph(fam, dim, riem)
    who = "%s solver, riemann=%s (%s:%d)" % (sname(fam, dim), riem, f.relfile(), f.line)
    ref = Book(Fraction(5, 3)); res.count("solvers")
    n = 3 if tier == "quick" else 8
    bulks = [Fraction(k, 4) for k in (-16, -6, -3, -2, -1, 0, 1, 2, 3, 6, 16)]
    comp = [v for v in range(nv) if not (fam == MH and v == 5)]
    used = 0
    for b in bulks:
        for base in ("any", "eqp", "weak", "strong"):
            got_n = 0
            for s in range(400 * n):
                if got_n >= n: break
                seed = trial_seeds(tier, 1, 1)[0] * 10 + 31 * s + 7
                L, Rr = state(seed, "L", fam, b), state(seed, "R", fam, b)
                if base == "eqp": Rr[1] = L[1]
                if base == "weak": Rr = [x + (y - x) / 64 for x, y in zip(L, Rr)]
                if base == "strong": Rr[1] = Rr[1] * 12; Rr[0] = Rr[0] * 3
                if fam == MH and s % 2: L[5] = Rr[5] = L[5] / 8
                if fam == HY and dim == 2: L[4] = Rr[4] = Fraction(0)
                qL, qR = [scon(x) for x in L], [scon(x) for x in Rr]
                try:
                    STRICT[0] = True
                    sm = Model(R, seed)
                    exp = ref.twoshock(qL, qR, sm.smallc, sm.smallpp(ref.g)) if riem == "approx" else getattr(ref, riem)(qL, qR)
                    got, t = evaluate_s(R, nodes, sm.names({tag: q for tag, q in (("qL", L), ("qR", Rr))}, nv), seed)
                except Unstable as e: res.count("discarded: %s" % e); continue
                got_n += 1; used += 1
                res.count("pairs of states"); res.count("value_graph_nodes", t)
                for v in comp:
                    res.check(sget0(got[v]) == sget0(exp[v]), "%s:%s:reference:%s" % (sname(fam, dim), riem, VNAME[v]),
                              "%s: flux of %s differs from the %s flux given by the jump relations" % (who, VNAME[v], riem))
    if used < len(bulks): raise AnalysisBroken("%s: too few usable pairs" % who)
    return res


def sget0(x): return x[0][0]


class Model:
    """parameter symbols as exact numbers"""
    def __init__(self, R, seed):
        self.R = R
        self.base = RData(R.dim, R.fam, seed)
        d = DenoS(R.I, Facts([]), seed, R.start, leaf=lambda *a: None, symval=self.base.symval())
        self.D = d
        st = R.st
        self.smallc = self.param("smallc")

    def param(self, name):
        loc = self.R.ploc + ("settings", name)
        n = self.R.st.mem.get(loc)
        if n is None: raise AnalysisBroken("parameter settings.%s vanished" % name)
        return self.D.val(self.R.I.tofloat(n), self.D.env({}))

    def smallpp(self, g): return self.param("smallr") * self.smallc * self.smallc / g

    def names(self, qs, nv):
        out = {}
        for tag, q in qs.items():
            for v in range(nv): out["%s.%d" % (tag, v)] = ccon(q[v])
        return out


def task_emf(emf, dim, tier):
    res = Result(); R = run_ctx(MH, dim, 0, "hlld", 1)
    I, fr = R.I, R.fr
    fs = [f for f in I.P.funcs.values() if f.name == "compute_emf" and "EMF" + "XYZ"[emf] in f.disp]
    if len(fs) != 1: raise AnalysisBroken("compute_emf<EMF%s>: %d candidates" % ("XYZ"[emf], len(fs)))
    f = fs[0]
    # edge states: the cell to the left of / below the edge contributes its right/top corner
    pos_ = {(0, 0): "IRT", (0, 1): "ILT", (1, 0): "IRB", (1, 1): "ILB"}      # (y side, x side)
    s2 = State(dict(R.st.mem), R.st.pc, set())
    l = ("rs_edge",)
    for (y, x), nm in pos_.items():
        k = I.P.enumval(nm)
        for v in range(8): s2.mem[l + (k, v)] = mk("sym", "e%d%d.%d" % (y, x, v))
    args = [Ref(l), Ref(R.ploc)] + [mk("c", Fraction(0)) for _ in f.params[2:]]
    r = I.call_repo(s2, fr, f, None, 0, None, argvals=args)
    node = I.tofloat(r)
    who = "compute_emf<EMF%s> (%s:%d)" % ("XYZ"[emf], f.relfile(), f.line)
    res.count("solvers")
    ax = [(1, 2, 0), (2, 0, 1), (0, 1, 2)][emf]           # in-plane directions, orthogonal one
    ref = Book(Fraction(5, 3)); n = 2 if tier == "quick" else 6
    used = 0
    for bx in (-5, -1, 0, 1, 5):
        for by in (-5, -1, 0, 1, 5):
            done = 0
            for s in range(60 * n):
                if done >= n: break
                seed = trial_seeds(tier, 1, 1)[0] * 10 + 17 * s + 3
                st4 = {}
                for (y, x) in pos_:
                    tag = "e%d%d" % (y, x)
                    q = [1 + rnd(seed, tag, "r") / 2, 1 + rnd(seed, tag, "p") / 2] + [rnd(seed, tag, "u", d) for d in range(3)] + [rnd(seed, tag, "b", d) for d in range(3)]
                    q[2 + ax[0]] += Fraction(bx) * Fraction(2, 3); q[2 + ax[1]] += Fraction(by) * Fraction(2, 3)
                    st4[y, x] = q
                sm = Model(R, seed); ref.smallc = sm.smallc
                loc = {}
                for (y, x), q in st4.items():
                    a = (st4[y, 0][5 + ax[0]] + st4[y, 1][5 + ax[0]]) / 2
                    b = (st4[0, x][5 + ax[1]] + st4[1, x][5 + ax[1]]) / 2
                    loc[y, x] = [scon(t) for t in (q[0], q[1], q[2 + ax[0]], q[2 + ax[1]], q[2 + ax[2]], a, b, q[5 + ax[2]])]
                try:
                    STRICT[0] = False
                    exp = ref.emf([[loc[y, x] for x in (0, 1)] for y in (0, 1)])
                    got, t = evaluate_s(R, [node], sm.names({"e%d%d" % k: q for k, q in st4.items()}, 8), seed, False)
                except Unstable as e: res.count("discarded: %s" % e); continue
                done += 1; used += 1
                res.count("pairs of states"); res.count("value_graph_nodes", t)
                res.check(sget0(got[0]) == sget0(exp), "emf%s" % "XYZ"[emf],
                          "%s: the electric field differs from the two-dimensional HLLD formula" % who)
    if used < 20: raise AnalysisBroken("%s: too few usable states" % who)
    return res


NAMES = VNAME
def task_riemann(fam, dim, riem, tier):
    res = Result(); R, f, nodes, nv = flux_graph(fam, dim, riem)
    who = "%s solver, riemann=%s (%s:%d)" % (sname(fam, dim), riem, f.relfile(), f.line)
    res.count("solvers")
    comp = [v for v in range(nv) if not (fam == MH and v == 5)]
    flat = fam == HY and dim == 2
    n = 4 if tier == "quick" else 12
    def fix(q):
        if flat: q[4] = Fraction(0)
        return q
    def compare(kind, text, mk_, expect, need=1):
        used = 0
        for s in range(40 * n):
            if used >= n: break
            seed = trial_seeds(tier, 1, 1)[0] + 7000 + s
            pr = mk_(seed)
            exp = expect(pr, seed)
            try: got, t = evaluate(R, nodes, pr, nv, seed, None)
            except Unstable as e: res.count("discarded: %s" % e); continue
            if riem == "approx" and not nr(R, pr): continue
            used += 1; res.count("pairs of states"); res.count("value_graph_nodes", t)
            for v in comp:
                res.check(got[v][0] == frac(exp[v]), "%s:%s:%s:%s" % (sname(fam, dim), riem, kind, NAMES[v]), "%s: %s: flux of %s is wrong" % (who, text, NAMES[v]))
        if used < need: raise AnalysisBroken("%s: %s: no usable trial" % (who, kind))
    # a state and itself
    for bulk in (0, 3, -3):
        compare("consistency", "the flux between two equal states is not the physical flux",
                lambda s: Pair(fam, *(2 * [fix(state(s, "L", fam, bulk))])), lambda p, s: p.F(p.q[0]))
    if riem != "llf":
        for b in (6, -6):
            compare("upwind", "all waves travel %s but the flux is not the %s flux" % (("right", "left") if b > 0 else ("left", "right")),
                    lambda s: Pair(fam, fix(state(s, "L", fam, b)), fix(state(s, "R", fam, b))), lambda p, s: p.F(p.q[0 if b > 0 else 1]))
    if riem in ("hllc", "hlld", "approx"):
        for b in (Fraction(1, 3), Fraction(-1, 3)):
            def mkc(s):
                L = state(s, "L", fam, 0); Rr = state(s, "R", fam, 0)
                L[2] = Rr[2] = b + rnd(s, "bu") / 4
                Rr[1] = L[1]
                if fam == MH: Rr[3:] = L[3:]
                return Pair(fam, fix(L), fix(Rr))
            compare("contact", "an isolated contact discontinuity is not resolved exactly", mkc, lambda p, s: p.F(p.q[0 if b > 0 else 1]))
    if riem == "hlld":
        for b in (2, -2, 0):
            for side in (1, -1):
                def mka(s):
                    L = state(s, "L", fam, 0); k = Fraction(3 + s % 7, 5); L[0] = k * k
                    ROOTS[frac(L[0])] = frac(k)
                    L[2] = b * (abs(L[5]) / k + Fraction(1, 50)); Rr = list(L)
                    # rotate the transverse field by a rational angle
                    t = Fraction(1 + s % 5, 7); co = (1 - t * t) / (1 + t * t); si = 2 * t / (1 + t * t)
                    Rr[6] = L[6] * co - L[7] * si; Rr[7] = L[6] * si + L[7] * co
                    sg = side * (1 if L[5] > 0 else -1)
                    for e in (0, 1): Rr[3 + e] = L[3 + e] + sg * (Rr[6 + e] - L[6 + e]) / k
                    return Pair(fam, L, Rr)
                def exa(p, s):
                    L = p.q[0]; k = Fraction(3 + s % 7, 5)
                    speed = L[2] - side * abs(L[5]) / k
                    return p.F(p.q[0 if speed > 0 else 1])
                compare("alfven", "an isolated rotational (Alfven) discontinuity is not resolved exactly", mka, exa)
    if riem in ("llf", "hll"):
        used = 0
        for s in range(8 * n):
            if used >= 3 * n: break
            seed = trial_seeds(tier, 1, 1)[0] + 9000 + s
            pr = Pair(fam, fix(state(seed, "L", fam, rnd(seed, "bulk"))), fix(state(seed, "R", fam, rnd(seed, "bulk"))))
            try: got, t = evaluate(R, nodes, pr, nv, seed, None)
            except Unstable as e: res.count("discarded: %s" % e); continue
            (qL, qR) = pr.q
            FL, FR, UL, UR = pr.F(qL), pr.F(qR), pr.U(qL), pr.U(qR)
            cL, cR = pr.fast(qL), pr.fast(qR)
            used += 1; res.count("pairs of states")
            a0 = None
            act = [v for v in comp if UL[v] != UR[v]]
            if riem == "llf":
                cs = [(((frac(FL[v]) + frac(FR[v])) * frac(Fraction(1, 2)) - got[v][0]) * 2 * inv(frac(UR[v] - UL[v])) % PR) for v in act]
                res.check(len(set(cs)) == 1, "%s:llf:form" % sname(fam, dim), "%s: the flux is not the mean of the fluxes minus one speed times half the jump of the state" % who)
                v = max(act, key=lambda v: abs(UR[v] - UL[v]))
                c = ((dec(FL[v]) + dec(FR[v])) / 2 - got[v][1]) * 2 / dec(UR[v] - UL[v])
                need = max(abs(dec(qL[2])) + cL, abs(dec(qR[2])) + cR)
                res.check(c >= need * (1 - Decimal("1e-12")), "%s:llf:speed" % sname(fam, dim), "%s: the dissipation speed is smaller than the fastest wave of the two states" % who)
            else:
                sol = None
                for v1 in act:
                    for v2 in act:
                        if v2 <= v1: continue
                        # got - FR = a (FL-FR) + b (UR-UL)
                        A = [[FL[v] - FR[v], UR[v] - UL[v]] for v in (v1, v2)]
                        det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
                        if abs(det) < Fraction(1, 100): continue
                        rr = [got[v][0] - frac(FR[v]) for v in (v1, v2)]; rx = [got[v][1] - dec(FR[v]) for v in (v1, v2)]
                        di = inv(frac(det))
                        a = (rr[0] * frac(A[1][1]) - rr[1] * frac(A[0][1])) * di % PR; b = (frac(A[0][0]) * rr[1] - frac(A[1][0]) * rr[0]) * di % PR
                        ax = (rx[0] * dec(A[1][1]) - rx[1] * dec(A[0][1])) / dec(det); bx = (dec(A[0][0]) * rx[1] - dec(A[1][0]) * rx[0]) / dec(det)
                        sol = (a, b, ax, bx); break
                    if sol: break
                if not sol: continue
                a, b, ax, bx = sol
                for v in comp:
                    e = (frac(FR[v]) + a * frac(FL[v] - FR[v]) + b * frac(UR[v] - UL[v])) % PR
                    res.check(e == got[v][0], "%s:hll:form:%s" % (sname(fam, dim), NAMES[v]), "%s: the flux of %s is not of the two-wave form with the wave speeds of the other components" % (who, NAMES[v]))
                tol = Decimal("1e-12")
                if ax > 1 - tol or ax < tol: continue
                SL = bx / ax; SR = -bx / (1 - ax)
                res.check(SL <= min(dec(qL[2]) - cL, dec(qR[2]) - cR) + tol and SR >= max(dec(qL[2]) + cL, dec(qR[2]) + cR) - tol, "%s:hll:speed" % sname(fam, dim),
                          "%s: the outer wave speeds do not bound the waves of the two states" % who)
        if not used: raise AnalysisBroken("%s: no usable trial" % who)
    return res


def nr(R, pr):
    """the two-shock iteration takes sqrt of gamma p rho of each side; keep pairs whose roots lie in the field"""
    for q in pr.q:
        x = frac(pr.g * q[1] * q[0])
        if pow(x, HALF, PR) != 1: return False
    return True


from .deno import HALF


def riemann_tasks(tier):
    return [(task_riemann, (fam, dim, r, tier)) for fam in (HY, MH) for dim in (2, 3) for r in SOLV[fam] if not (fam == MH and dim == 3)] \
        + [(task_reference, (fam, dim, r, tier)) for fam in (HY, MH) for dim in (2, 3) for r in SOLV[fam] if not (fam == MH and dim == 3)] \
        + [(task_emf, (e, 3, tier)) for e in range(3)]

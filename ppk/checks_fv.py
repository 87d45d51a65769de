"""Relations on the denotation of one whole time step of the MUSCL finite-volume solvers."""
import itertools, random
from .scheme import *
from .report import Result
from .mpi import MPI_SRC, MPI
from .deno import ROOTS, Terms, Unstable, PR, Deno, Inconsistent, Undecided
from .series import *

SRC = MUSCL_SRC + ["src/shared/SolverFactory.cpp"]
_P = {}


def prog(config="serial", src=SRC):
    if config.startswith("mpi"): src = src + [x for x in MPI_SRC if x not in src]
    k = (config, tuple(src))
    if k not in _P: _P[k] = load_program(config, src)
    return _P[k]


_RC = {}
def run_ctx(fam, dim, impl, riem, slope, it=0, floors_off=False, cfg=None):
    k = (fam, dim, impl, riem, slope, it, floors_off, tuple(sorted((cfg or {}).items())))
    r = _RC.get(k)
    if riem.endswith("+g"): riem = riem[:-2]; cfg = dict(cfg or {}); cfg[("gravity", "static")] = True
    if r is None:
        if len(_RC) > 6: _RC.clear()
        r = _RC[k] = build(prog(), fam, dim, impl, riem, slope, it, floors_off, cfg)
    return r


RIEM = {HY: ("approx", "llf", "hll", "hllc"), MH: ("llf", "hll", "hlld")}
IMPLS = {(HY, 2): (0, 1), (HY, 3): (0, 1), (MH, 2): (0, 1, 2), (MH, 3): (0, 1, 2)}


def grav_contexts(tier, its=(0,), slopes=(1, 2), riem=("hllc",)):
    """contexts with a static gravity field (hydro only)"""
    if tier != "quick": riem = ("llf", "hll", "hllc")
    return [(HY, d, im, r + "+g", s, it) for d in (2, 3) for im in IMPLS[(HY, d)] for r in riem for s in slopes for it in its]


def contexts(tier, riem=RIEM, slopes=(1, 2), its=(0,), impls=IMPLS):
    out = []
    for (fam, dim), im in impls.items():
        for impl in im:
            for r in riem[fam]:
                for s in slopes:
                    for it in its: out.append((fam, dim, impl, r, s, it))
    return out


def chain(R, v=None):
    """kernels (class, location) that produce the new state"""
    out = []
    for k, e in enumerate(R.I.events):
        if k < R.start or e[0] != "launch": continue
        L = e[1]
        out.append("%s at %s" % (L.cls.split("::")[-1], wherefn(L)))
    return out


def wherefn(L):
    f = L.fn
    return "%s:%d" % (f.relfile(), f.line) if f is not None else str(L.where)


def write_sites(R, v):
    """source locations that write variable v of the new state"""
    s = []
    for k, e in enumerate(R.I.events):
        if k < R.start or e[0] != "launch": continue
        L = e[1]
        for ef in L.effects:
            if ef[0] in ("write",) or ef[0].startswith("atomic"):
                if ef[1] == R.new and ef[2][-1] == v:
                    w = "%s:%s (%s)" % (ef[5].relfile() if hasattr(ef[5], "relfile") else ef[5], ef[6], L.cls.split("::")[-1])
                    if w not in s: s.append(w)
    return s[:4]


def site(R, v): return "; written at " + ", ".join(write_sites(R, v))


def vname(R, v): return VNAME[v]


def prepare(pid, tier): prog()


def trial_seeds(tier, q, t):
    import os
    s0 = int(os.environ.get("VERIF_SEED", "1") or 1) * 1000
    return [s0 + k for k in range(q if tier == "quick" else t)]


BULKS = ((0, 0, 0), (24, 8, -8), (-24, -8, 8), (8, 24, 24), (-8, -24, -24), (0, 0, 0))
AMPS = (200, 256, 256, 256, 256, 800)


def trials(riem, tier, nreal=3, nsign=2):
    """symbolic states to compare two programs on: real-model states (only jointly feasible branch choices) wherever the Riemann
    solver is closed-form, sign-character states for the iterative one.  Yields (constructor of Data, denotation)."""
    out = []
    if riem == "approx":
        s = trial_seeds(tier, 1, 2)[0]
        for b, a in list(zip(BULKS, AMPS))[:2]: out.append((lambda dim, fam, s=s, a=a, b=b, **k: RData(dim, fam, s, b, a, **k), denor))
    if riem == "approx":
        for s in trial_seeds(tier, 1 if nsign < 3 else nsign - 1, 3 * nsign): out.append((lambda dim, fam, s=s, **k: Data(dim, fam, s, **k), deno))
    else:
        for s in trial_seeds(tier, 1, 2):
            for b, a in list(zip(BULKS, AMPS))[:nreal if tier == "quick" else None]:
                out.append((lambda dim, fam, s=s, a=a, b=b, **k: RData(dim, fam, s, b, a, **k), denor))
    return out


def res0(x): return x[0] if isinstance(x, tuple) else x


# ------------------------------------------------------------------------------------------------------ variants
def task_variants(fam, dim, riem, slope, it, tier):
    res = Result()
    base_im = IMPLS[(fam, dim)][0]
    for impl in IMPLS[(fam, dim)][1:]:
        fo = fam == MH and dim == 3 and impl == 2
        A = run_ctx(fam, dim, base_im, riem, slope, it, fo); B = run_ctx(fam, dim, impl, riem, slope, it, fo)
        bad = {}
        nreg = 0
        used = 0
        for mk, dn in trials(riem, tier, 3, 2):
            dat = mk(dim, fam)
            def one(F):
                Da = dn(A, dat, F); Db = dn(B, dat, F)
                r = [(res0(newval(Da, A, v)), res0(newval(Db, B, v))) for v in range(nvar(fam, dim))]
                res.count("value_graph_nodes", Da.touched + Db.touched)
                return r
            try: regs = cases(A, one)
            except Unstable as e: res.count("trials_discarded"); res.count("discarded: %s" % e); continue
            used += 1
            nreg += len(regs)
            for F, r in regs:
                for v, (a, b) in enumerate(r):
                    res.ok()
                    if a != b: bad.setdefault(v, F)
        if not used: raise AnalysisBroken("no usable trial")
        res.count("regions", nreg); res.count("contexts")
        for v, F in bad.items():
            res.violate("%s:%d" % (ctxname(B), v), "%s: updated %s differs from implementation %d%s%s" % (
                ctxname(B), vname(B, v), base_im, " (floors inactive)" if fo else "", site(B, v)))
    return res


def variants_tasks(tier):
    t = []
    for (fam, dim), im in IMPLS.items():
        if len(im) < 2: continue
        for r in RIEM[fam]:
            for s in ((1, 2) if tier == "quick" else (0, 1, 2)):
                if s == 0 and fam == MH: continue
                t.append((task_variants, (fam, dim, r, s, 0, tier)))
        for s in (1, 2):
            t.append((task_variants, (fam, dim, "hllc" if fam == HY else "hlld", s, 1, tier)))
            if fam == HY: t.append((task_variants, (fam, dim, "hllc+g", s, 0, tier)))
    return t


# ------------------------------------------------------------------------------------------------------ conservation
def task_conservation(fam, dim, impl, riem, slope, it, tier):
    res = Result(); R = run_ctx(fam, dim, impl, riem, slope, it)
    res.count("contexts")
    shifts = [{}]
    for d in range(dim):
        for s in (1, -1): shifts.append({"ijk"[d]: s})
    more = [dict(("ijk"[d], o) for d, o in enumerate(off) if o) for off in itertools.product((-2, -1, 0, 1, 2), repeat=dim)]
    for seed in trial_seeds(tier, 2, 5):
        dat = Data(dim, fam, seed)
        for v in range(nvar(fam, dim)):
            def one(F):
                D = deno(R, dat, F)
                T = Terms(D, ("U", "U2"))
                idx = X[:dim] + (v,)
                T.cell(R.new, idx, len(R.I.events))
                leaves = dict(T.leaves); k0 = (R.old, pkey(idx))
                problems = []
                c0 = leaves.pop(k0, 0)
                if c0 != 1: problems.append("the old value of the cell enters the new one with a factor other than one")
                for k, c in leaves.items():
                    if c: problems.append("value of another cell %s%r added directly" % k)
                terms = T.out
                res.count("flux_terms", len(terms))
                if not any(D.val(t[1], t[2]) * t[0] % PR for t in terms): problems.append("no flux term reaches this variable")
                table = {}
                def val(i, s):
                    key = (i, tuple(sorted(s.items())))
                    if key not in table: table[key] = T.value(terms[i], s)
                    return table[key]
                left = list(range(len(terms)))
                for ss in (shifts, more):
                    ch = True
                    while ch:
                        ch = False
                        for a in left:
                            va = val(a, {})
                            if va == 0: continue
                            for b in left:
                                if b == a: continue
                                hit = False
                                for s in ss:
                                    try:
                                        if (va + val(b, s)) % PR == 0: hit = True; break
                                    except (Undecided, AnalysisBroken): pass
                                if hit: break
                            if hit:
                                left.remove(a); left.remove(b); ch = True; break
                    if len([a for a in left if val(a, {})]) > 12: break
                for i in left:
                    t = terms[i]
                    if val(i, {}) == 0: continue
                    ef = t[4]
                    problems.append("term added in %s has no opposite term in a neighbouring cell" % (
                        ("%s:%s" % (ef[5].relfile(), ef[6])) if ef else (wherefn(t[3]) if t[3] is not None else "?")))
                return problems
            for F, problems in cases(R, one):
                res.ok(); res.count("regions")
                for p in problems:
                    res.violate("%s:%s" % (ctxname(R), vname(R, v)), "%s: %s is not updated in flux form: %s%s" % (ctxname(R), vname(R, v), p, site(R, v)))
    return res


def conservation_tasks(tier):
    return [(task_conservation, c + (tier,)) for c in contexts(tier, slopes=(2,) if tier == "quick" else (1, 2), its=(0,) if tier == "quick" else (0, 1)) +
            contexts(tier, riem={HY: ("hllc",), MH: ("hlld",)}, slopes=(1,), its=(1,))]


# ------------------------------------------------------------------------------------------------------ div B
def task_divb(dim, impl, riem, slope, it, tier):
    res = Result(); R = run_ctx(MH, dim, impl, riem, slope, it); res.count("contexts")
    F0 = interior(dim, R.gw)
    for d in range(dim): F0 = F0.add(padd(padd(psym("cfg:mesh/n" + AX[d]), pc(R.gw - 2)), X[d], -1))   # upper faces interior too
    changed = 0
    for seed in trial_seeds(tier, 2, 6):
        dat = Data(dim, MH, seed)
        def one(F):
            D = deno(R, dat, F)
            div = 0; ch = 0
            for d in range(dim):
                off = [0, 0, 0]; off[d] = 1
                up, lo = newval(D, R, 5 + d, off), newval(D, R, 5 + d)
                ou, ol = dat.value(tuple(off), 5 + d), dat.value((0, 0, 0), 5 + d)
                sv = dat.symval()
                h = (sv["cfg:mesh/%smax" % AX[d]] - sv["cfg:mesh/%smin" % AX[d]]) * inv(sv["cfg:mesh/n" + AX[d]]) % PR
                div = (div + (up - lo - ou + ol) * inv(h)) % PR
                ch += (up != ou) + (lo != ol)
            res.count("value_graph_nodes", D.touched)
            return div, ch
        for F, (div, ch) in with_cases(F0, one):
            res.ok(); res.count("regions"); changed += ch
            if div:
                res.violate(ctxname(R), "%s: the update changes the discrete divergence of the face-centred magnetic field%s" % (
                    ctxname(R), "".join(site(R, 5 + d) for d in range(dim))))
    if not changed: raise AnalysisBroken("%s: magnetic field is never updated" % ctxname(R))
    return res


def divb_tasks(tier):
    return [(task_divb, c[1:] + (tier,)) for c in contexts(tier, slopes=(2,) if tier == "quick" else (1, 2), its=(0, 1)) if c[0] == MH]


# ------------------------------------------------------------------------------------------------------ symmetry
def task_axis(fam, dim, impl, riem, slope, it, tier):
    res = Result(); R = run_ctx(fam, dim, impl, riem, slope, it); res.count("contexts")
    nv = nvar(fam, dim)
    perms = [p for p in itertools.permutations(range(dim)) if p != tuple(range(dim))]
    F = generic(R)            # generic interior cell (border cells: see the translation-invariance property)
    used = 0
    for mk, dn in trials(riem, tier, 2 if dim == 3 else 4, 2):
        def vals(pm):
            dat = mk(dim, fam, perm=pm)
            D = dn(R, dat, F)
            r = [res0(newval(D, R, v)) for v in range(nv)]
            res.count("value_graph_nodes", D.touched)
            return r
        try:
            base = vals((0, 1, 2))
            for p in perms:
                pm = tuple(p) + (2,) * (3 - dim)
                d = vals(pm)
                for v in range(nv):
                    w = 2 + pm[v - 2] if 2 <= v < 5 else (5 + pm[v - 5] if v >= 5 else v)
                    res.check(d[v] == base[w], "%s:%s:%s" % (ctxname(R), pm, vname(R, v)),
                              "%s: exchanging axes %s of the data does not exchange the result for %s%s" % (ctxname(R), "".join(AX[q] for q in pm[:dim]), vname(R, v), site(R, v)))
            used += 1
        except Unstable as e: res.count("trials_discarded"); res.count("discarded: %s" % e)
    if not used: raise AnalysisBroken("no usable trial")
    return res


def task_mirror(fam, dim, impl, riem, slope, it, tier):
    res = Result(); R = run_ctx(fam, dim, impl, riem, slope, it); res.count("contexts")
    nv = nvar(fam, dim)
    zero = (4, GRAV + 2) if fam == HY and dim == 2 else ()
    zinv = (2,) if dim == 2 else ()
    F = generic(R)
    used = 0
    for mk0, dn in trials(riem, tier, 3 if dim == 3 else 6, 2):
        real = dn is denor
        mk = (lambda **k: mk0(dim, fam, zero=zero, zinv=zinv, **k)) if real else (lambda **k: mk0(dim, fam, zero=zero, **k))
        try:
            D0 = dn(R, mk(), F)
            base = [newval(D0, R, v) for v in range(nv)]
            for m in range(dim if fam == HY else 3):
                D = dn(R, mk(mirror=(m,)), F)
                for v in range(nv):
                    off = [0, 0, 0]
                    if v == 5 + m and m < dim: off[m] = 1
                    a = newval(D, R, v, off); b = base[v]
                    if real: a, b = a[0], b[0]
                    if v in (2 + m, 5 + m): a = -a % PR
                    res.check(a == b, "%s:mirror%s:%s" % (ctxname(R), AX[m], vname(R, v)),
                              "%s: mirroring the data along %s does not mirror the result for %s%s" % (ctxname(R), AX[m], vname(R, v), site(R, v)))
                res.count("value_graph_nodes", D.touched)
            used += 1
        except Unstable as e: res.count("trials_discarded"); res.count("discarded: %s" % e)
    if not used: raise AnalysisBroken("%s: no usable trial for the mirror relation" % ctxname(R))
    res.count("trials", used)
    return res


def symmetry_tasks(tier):
    t = []
    cs = contexts(tier, slopes=(2,) if tier == "quick" else (1, 2)) + grav_contexts(tier)
    if tier == "quick": cs += contexts(tier, riem={HY: ("hllc",), MH: ("hlld",)}, slopes=(1,))
    for c in cs:
        t.append((task_axis, c + (tier,)))
        t.append((task_mirror, c + (tier,)))
    t.sort(key=lambda x: -(x[1][1] * 10 + (x[1][0] == MH) * 5 + (x[0] is task_mirror) * 50))
    return t


# ------------------------------------------------------------------------------------------------------ 2D vs 3D
def task_dim(fam, riem, slope, im2, im3, tier):
    fo = fam == MH
    A = run_ctx(fam, 2, im2, riem, slope, 0, fo); B = run_ctx(fam, 3, im3, riem, slope, 0, fo)
    res = Result(); res.count("contexts")
    used = 0
    zero = (4, GRAV + 2) if fam == HY else (4, 7)   # MHD: Bz is cell-centred in 2D, face-centred (constrained transport) in 3D
    for mk, dn in trials(riem, tier, 4, 2):
        try:
            da = mk(2, fam, zero=zero, zinv=(2,)); db = mk(3, fam, zero=zero, zinv=(2,))
            Da = dn(A, da, generic(A)); Db = dn(B, db, generic(B))
            for v in range(5 if fam == HY else 8):
                b = res0(newval(Db, B, v))
                if fam == HY and v == 4: a = 0
                else: a = res0(newval(Da, A, v))
                res.check(a == b, "%s:%s:%s" % (ctxname(A), ctxname(B), vname(A, v)),
                          "%s on data independent of z gives a different %s than %s%s" % (ctxname(B), vname(A, v), ctxname(A), site(B, v)))
            res.count("value_graph_nodes", Da.touched + Db.touched)
            used += 1
        except Unstable as e: res.count("trials_discarded"); res.count("discarded: %s" % e)
    if not used: raise AnalysisBroken("no usable trial")
    return res


def generic(R):
    F = interior(R.dim, R.gw)
    for d in range(R.dim):
        F = F.add(padd(X[d], pc(-R.gw - 4))).add(padd(padd(psym("cfg:mesh/n" + AX[d]), pc(R.gw - 5)), X[d], -1))
    return F


def dim_tasks(tier):
    t = []
    for fam in (HY, MH):
        for r in RIEM[fam]:
            for s in (1, 2): t.append((task_dim, (fam, r, s, 0, 0, tier)))
        if fam == HY:
            for s in (1, 2):
                for im in (0, 1): t.append((task_dim, (fam, "hllc+g", s, im, im, tier)))
    return t


# ------------------------------------------------------------------------------------------------------ uniform state
def task_uniform(fam, dim, impl, riem, slope, it, tier):
    res = Result(); R = run_ctx(fam, dim, impl, riem, slope, it); res.count("contexts")
    for seed in trial_seeds(tier, 3, 10):
        dat = Data(dim, fam, seed, uniform=True)
        def one(F):
            D = deno(R, dat, F)
            r = [newval(D, R, v) for v in range(nvar(fam, dim))]
            res.count("value_graph_nodes", D.touched)
            return r
        for F, r in cases(R, one):
            res.count("regions")
            for v, a in enumerate(r):
                res.check(a == dat.value((0, 0, 0), v), "%s:%s" % (ctxname(R), vname(R, v)),
                          "%s: a spatially uniform state is not left unchanged in %s%s" % (ctxname(R), vname(R, v), site(R, v)))
    return res


def uniform_tasks(tier):
    cs = contexts(tier, slopes=(1, 2) if tier == "quick" else (0, 1, 2)) + contexts(tier, riem={HY: ("hllc",), MH: ("hlld",)}, slopes=(1,), its=(1,))
    return [(task_uniform, c + (tier,)) for c in cs if not (c[4] == 0 and c[0] == MH)]


# ------------------------------------------------------------------------------------------------------ translation invariance
def task_translation(fam, dim, impl, riem, slope, it, tier):
    res = Result(); R = run_ctx(fam, dim, impl, riem, slope, it); res.count("contexts")
    nv = nvar(fam, dim)
    for seed in trial_seeds(tier, 1, 3):
        dat = Data(dim, fam, seed)
        ref = None
        for pos in (0, 1):
            sv = dat.symval()
            for d in range(dim): sv["ijk"[d]] = hsh(seed, "pos", pos, d)
            def one(F):
                D = Deno(R.I, F, seed, R.start, leaf=dat.leaf(R.old), symval=sv)
                r = [newval(D, R, v) for v in range(nv)]
                res.count("value_graph_nodes", D.touched)
                return r, set(D.usedcells)
            for F, (r, used) in cases(R, one):
                res.count("regions")
                if ref is None: ref = r
                for v in range(nv):
                    res.check(r[v] == ref[v], "%s:%s" % (ctxname(R), vname(R, v)),
                              "%s: the update of %s is not the same function of the neighbouring cells everywhere (cell class %s)%s" % (
                                  ctxname(R), vname(R, v), where_region(F, R), site(R, v)))
                for alloc, idx in used:
                    if alloc != R.old and not is_grav(R.I, alloc):
                        if alloc == R.new: res.violate("%s:stale:%s" % (ctxname(R), alloc), "%s: the new state depends on stale contents of its own buffer %s%r%s" % (ctxname(R), alloc, idx, site(R, 0)))
                        else: res.violate("%s:stale:%s" % (ctxname(R), alloc), "%s: the new state depends on array %s%r that this step has not filled (left over from an earlier step)" % (ctxname(R), alloc, idx))
                        continue
                    for d in range(dim):
                        q = padd(topoly(idx[d]), X[d], -1)
                        res.ok()
                        if not q.is_const() or abs(q.const()) > R.gw:
                            res.violate("%s:stencil:%s" % (ctxname(R), AX[d]), "%s: reads cell offset %r along %s, outside the ghost width %d" % (ctxname(R), q, AX[d], R.gw))
    return res


def where_region(F, R):
    out = []
    for d in range(R.dim):
        for nm, p in (("low", padd(pc(R.gw), X[d], -1)), ("high", padd(X[d], padd(psym("cfg:mesh/n" + AX[d]), pc(R.gw - 1)), -1))):
            if F.decide_ge0(p): out.append(AX[d] + "-" + nm)
    return "next to the border " + ",".join(out) if out else "interior"


def translation_tasks(tier):
    return [(task_translation, c + (tier,)) for c in contexts(tier, slopes=(2,) if tier == "quick" else (1, 2), its=(0, 1)) +
            contexts(tier, riem={HY: ("hllc",), MH: ("hlld",)}, slopes=(1,)) + grav_contexts(tier, slopes=(2,), its=(0, 1))]


# ------------------------------------------------------------------------------------------------------ unit scaling
def task_scaling(fam, dim, impl, riem, slope, it, tier):
    fo = fam == MH and dim == 3
    res = Result(); R = run_ctx(fam, dim, impl, riem, slope, it, fo); res.count("contexts")
    for seed in trial_seeds(tier, 2, 6):
        q4 = lambda t: pow(hsh(seed, "scale", t), 4, PR)
        q2 = lambda t: pow(hsh(seed, "scale", t), 2, PR)
        A = q4("rho"); sA = pow(hsh(seed, "scale", "rho"), 2, PR); B = q2("vel"); C = q2("len")
        def vs(v): return B * B * inv(C) % PR if v >= GRAV else A if v == 0 else (A * B * B if v == 1 else (A * B if v < 5 else sA * B)) % PR
        d0 = Data(dim, fam, seed); d1 = Data(dim, fam, seed, scale=vs)
        s0, s1 = d0.symval(), d1.symval()
        for d in range(3):
            for w in ("min", "max"): s1["cfg:mesh/%s%s" % (AX[d], w)] = s0["cfg:mesh/%s%s" % (AX[d], w)] * C % PR
        s1["cfg:hydro/smallr"] = s0["cfg:hydro/smallr"] * A % PR
        s1["cfg:hydro/smallc"] = s0["cfg:hydro/smallc"] * B % PR
        T = C * inv(B) % PR
        red = sq(hsh(seed, "reduced"))
        for s, f in ((s0, 1), (s1, T)):
            s["<reduced>"] = red * inv(f) % PR
            s["cfg:run/tEnd"] = sq(hsh(seed, "tEnd")) * f % PR
            s["cfg:run/tCurrent"] = sq(hsh(seed, "tCur")) * f % PR
        F = generic(R)
        D0 = Deno(R.I, F, seed, R.start, leaf=d0.leaf(R.old), symval=s0)
        D1 = Deno(R.I, F, seed, R.start, leaf=d1.leaf(R.old), symval=s1)
        for v in range(nvar(fam, dim)):
            a, b = newval(D0, R, v), newval(D1, R, v)
            res.check(a * vs(v) % PR == b, "%s:%s" % (ctxname(R), vname(R, v)),
                      "%s: the update of %s is not dimensionally consistent (changing the units of mass, length and time changes the result)%s" % (ctxname(R), vname(R, v), site(R, v)))
        res.count("value_graph_nodes", D0.touched + D1.touched)
    return res


def scaling_tasks(tier):
    return [(task_scaling, c + (tier,)) for c in contexts(tier, slopes=(1, 2)) + grav_contexts(tier, slopes=(2,)) if c[3] != "approx"]


# ------------------------------------------------------------------------------------------------------ second-order accuracy
def task_order(fam, dim, impl, riem, slope, it, tier):
    """Truncated power series in the amplitude e of a linear variation of the primitive state around a uniform one.  The specification
    is the Taylor expansion of the Euler / ideal MHD equations in time (through dt^2), exact modulo e^3 for linear data."""
    res = Result(); R = run_ctx(fam, dim, impl, riem, slope, it); res.count("contexts")
    nv = nvar(fam, dim); used = 0
    for bulk in BULKS2[:3] if tier == "quick" else BULKS2:
        done = False
        for seed in range(trial_seeds(tier, 1, 1)[0], trial_seeds(tier, 1, 1)[0] + (12 if riem == "approx" else 2)):
            if done: break
            dat = SData(dim, fam, seed, bulk, R.grav)
            STRICT[0] = riem == "approx"       # the two-shock iteration relies on sqrt(x)^2 = x
            try:
                D = DenoS(R.I, generic(R), seed, R.start, leaf=dat.leaf(R.old), symval=dat.symval())
                got = [newval(D, R, v) for v in range(nv)]
            except Unstable as e: res.count("trials_discarded"); res.count("discarded: %s" % e); continue
            exp = dat.expected()
            used += 1; done = True
            res.count("value_graph_nodes", D.touched)
            for v in range(nv):
                for o in range(3):
                    g, x = sget(got[v], o), sget(exp[v], o)
                    res.check(g == x, "%s:%s:order%d" % (ctxname(R), vname(R, v), o),
                              "%s: on linearly varying data the new %s is not the time expansion of the equations (first wrong at order %d of the variation)%s" % (
                                  ctxname(R), vname(R, v), o, site(R, v)))
                    if g != x: break
    if not used: raise AnalysisBroken("%s: no usable trial" % ctxname(R))
    res.count("trials", used)
    return res


BULKS2 = ((3, 2, -2), (-20, 18, 3), (-1, -3, 20), (14, 3, -13), (-2, -15, 6), (-3, 1, 12), (1, -1, 1), (20, -20, -20), (-6, 5, -9))


def order_tasks(tier):
    return sorted([(task_order, c + (tier,)) for c in contexts(tier, slopes=(1, 2)) + grav_contexts(tier)], key=lambda x: -(x[1][1] * 10 + (x[1][0] == MH) * 5))

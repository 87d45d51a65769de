"""Ghost cells: what the boundary fill (and the MPI halo exchange) leaves in every ghost cell."""
from .checks_fv import *

BCN = {"DIRICHLET": "reflecting", "NEUMANN": "zero-gradient", "PERIODIC": "periodic"}
FACES = [(d, s) for d in range(3) for s in (0, 1)]


def bccfg(P, bcs, dim):
    c = {}
    for d in range(dim):
        for s in (0, 1): c[("mesh", "boundary_type_%s%s" % (AX[d], "min" if s == 0 else "max"))] = P.enumval("BC_" + bcs[2 * d + s])
    return c


def combos(dim, tier):
    T = ("DIRICHLET", "NEUMANN", "PERIODIC")
    out = [(a,) * (2 * dim) for a in T]
    # every ordered pair of types on every pair of faces would be 3^(2 dim); an orthogonal array of strength two covers all pairs
    n = 2 * dim
    for a in range(3):
        for b in range(3):
            out.append(tuple(T[(a + k * b + (k // 3) * (a + b + 1)) % 3] for k in range(n)))
    if tier != "quick":
        rnd = random.Random(7)
        for _ in range(20): out.append(tuple(rnd.choice(T) for _ in range(n)))
    u = []
    for c in out:
        if c not in u: u.append(c)
    return u


def classes(dim, gw, n=None):
    """per direction: ('lo', a) ghost index a; ('in',) symbolic interior index; ('hi', a) ghost n+gw+a"""
    one = [("lo", a) for a in range(gw)] + [("in", 0)] + [("hi", a) for a in range(gw)]
    return itertools.product(one, repeat=dim)


def nsym(d): return psym("cfg:mesh/n" + AX[d])


def cls_index(cl, gw):
    idx = []
    for d, (k, a) in enumerate(cl):
        idx.append(pc(a) if k == "lo" else (X[d] if k == "in" else padd(nsym(d), pc(gw + a))))
    return idx


def expected(fam, dim, bcs, cl, gw, v):
    """(source index, sign) of ghost cell `cl` of variable v for boundary types bcs: mirror image with the normal vector components
    negated, nearest interior cell, or the cell one period away"""
    src = []; sg = 1
    for d, (k, a) in enumerate(cl):
        n = nsym(d)
        i = cls_index(cl, gw)[d]
        if k == "in": src.append(i); continue
        bc = bcs[2 * d + (k == "hi")]
        if bc == "DIRICHLET":
            src.append(padd(pc(2 * gw - 1), i, -1) if k == "lo" else padd(padd(padd(n, n), pc(2 * gw - 1)), i, -1))
            if v == 2 + d or v == 5 + d: sg = -sg
        elif bc == "NEUMANN": src.append(pc(gw) if k == "lo" else padd(n, pc(gw - 1)))
        else: src.append(padd(i, n) if k == "lo" else padd(i, n, -1))
    return src, sg


def domain(dim, gw, cl):
    F = []
    for d in range(dim):
        F.append(padd(nsym(d), pc(-gw)))
        if cl[d][0] == "in": F += [padd(X[d], pc(-gw)), padd(padd(nsym(d), pc(gw - 1)), X[d], -1)]
    return Facts(F)


def task_ghost(fam, dim, it, bcs, tier, faces=None):
    res = Result(); P = prog()
    R = build(P, fam, dim, 0, None, 1, it, False, bccfg(P, bcs, dim))
    gw = R.gw; I = R.I; res.count("contexts")
    name = "%s step=%s boundaries=%s" % (sname(fam, dim), "even" if it % 2 == 0 else "odd", ",".join(bcs))
    # ghost cells are filled in the array that the step reads, before it is read
    bl = [(k, e[1]) for k, e in enumerate(I.events) if k >= R.n0 and e[0] == "launch" and is_boundary(e[1])]
    for k, L in bl:
        a = sorted(set(x[1] for x in L.effects if x[0] == "write"))
        res.check(a == [R.old], name + ":array", "%s: boundary kernel %s fills %s, but the step reads %s" % (name, L.cls, a, R.old))
    where = {}
    for k, L in bl: where.setdefault(L.cls.split("::")[-1], wherefn(L))
    seed = trial_seeds(tier, 1, 1)[0]
    nv = nvar(fam, dim)
    for cl in classes(dim, gw):
        F0 = domain(dim, gw, cl)
        idx = cls_index(cl, gw)
        vs = range(nv)
        def one(F):
            D = Deno(I, F, seed, R.n0)
            out = []
            for v in vs:
                got = D.load(R.old, tuple(unpoly(x) for x in idx) + (v,), R.start)
                src, sg = expected(fam, dim, bcs, cl, gw, v)
                want = hsh(seed, "leaf", R.old, pkey(tuple(unpoly(x) for x in src) + (v,)))
                out.append((got, want if sg == 1 else (-want) % PR))
            return out
        res.count("cell_classes")
        try: regs = with_cases(F0, one)
        except Inconsistent as e:
            res.check(False, name + ":twice", "%s: %s" % (name, e)); continue
        for F, r in regs:
            for v, (a, b) in zip(vs, r):
                if not res.check(a == b, name + ":%s" % "".join(k for k, _ in cl), ""):
                    res.viol.pop()
                    gh = ["%s%s+%d (%s)" % (AX[d], "min" if k == "lo" else "max", n, BCN[bcs[2 * d + (k == "hi")]]) for d, (k, n) in enumerate(cl) if k != "in"]
                    if gh:
                        w = [x for c, x in where.items()]
                        res.violate(name + ":%s" % "".join(k for k, _ in cl), "%s: ghost cell beyond %s holds the wrong %s (boundary kernels at %s)" % (
                            name, " and ".join(gh), VNAME[v], ", ".join(sorted(set(w))[:3])))
                    else: res.violate(name + ":interior", "%s: filling the ghost cells changes %s of an interior cell (boundary kernels at %s)" % (
                        name, VNAME[v], ", ".join(sorted(set(where.values()))[:3])))
    return res


def expected_sdm(dim, N, bcs, cl, gw, q):
    v = q // N ** dim; ids = [(q // N ** d) % N for d in range(dim)]
    src, sg = expected(HY, dim, bcs, cl, gw, v)
    for d, (k, a) in enumerate(cl):
        if k != "in" and bcs[2 * d + (k == "hi")] == "DIRICHLET": ids[d] = N - 1 - ids[d]
    return src, sum(ids[d] * N ** d for d in range(dim)) + N ** dim * v, sg


def task_ghost_sdm(dim, N, rk, viscous, bcs, tier):
    """every boundary fill of a step (one per Runge-Kutta stage)"""
    from .sdm import build_sdm, DenoD, VN
    from .report import AnalysisBroken
    res = Result(); P = prog()
    R = build_sdm(P, dim, N, rk, "hllc", False, False, viscous, bccfg(P, bcs, dim), bc=None)
    gw = R.gw; I = R.I; res.count("contexts")
    name = "Hydro_SDM_%dD_degree%d %s%s boundaries=%s" % (dim, N, rk, " viscous" if viscous else "", ",".join(bcs))
    groups = []
    for k, e in enumerate(I.events):
        if k < R.n0 or e[0] != "launch" or not is_fill(e[1]): continue
        a = sorted(set(x[1] for x in e[1].effects if x[0] == "write"))
        if len(a) != 1: res.check(False, name + ":array", "%s: boundary kernel %s fills %s" % (name, e[1].cls, a)); continue
        if groups and groups[-1][0] == a[0] and groups[-1][2] == k - 1: groups[-1][2] = k
        else: groups.append([a[0], k, k])
    seed = trial_seeds(tier, 1, 1)[0]
    if not groups: raise AnalysisBroken("no boundary fill in the step")
    for g, (arr, k0, k1) in enumerate(groups):
        res.count("fills")
        w = sorted(set(wherefn(I.events[k][1]) for k in range(k0, k1 + 1)))
        for cl in classes(dim, gw):
            F0 = domain(dim, gw, cl); idx = cls_index(cl, gw)
            def one(F):
                D = DenoD(I, F, seed, k0)
                out = []
                for q in range(R.ndof * R.nv):
                    got = D.load(arr, tuple(unpoly(x) for x in idx) + (q,), k1 + 1)
                    src, q2, sg = expected_sdm(dim, N, bcs, cl, gw, q)
                    want = hsh(seed, "leaf", arr, pkey(tuple(unpoly(x) for x in src) + (q2,)))
                    out.append((got, want if sg == 1 else (-want) % PR))
                return out
            res.count("cell_classes")
            try: regs = with_cases(F0, one)
            except Inconsistent as e:
                res.check(False, name + ":twice", "%s: %s" % (name, e)); continue
            for F, r in regs:
                for q, (a, b) in enumerate(r):
                    gh = ["%s%s+%d (%s)" % (AX[d], "min" if k == "lo" else "max", n, BCN[bcs[2 * d + (k == "hi")]]) for d, (k, n) in enumerate(cl) if k != "in"]
                    what = "ghost cell beyond %s holds the wrong" % " and ".join(gh) if gh else "filling the ghost cells changes an interior cell:"
                    res.check(a == b, name + ":%s" % "".join(k for k, _ in cl), "%s: in stage %d %s %s at solution point %d (boundary kernels at %s)" % (
                        name, g + 1, what, VN[q // R.ndof], q % R.ndof, ", ".join(w[:3])))
    return res


def ghost_tasks(tier):
    t = []
    for fam in (HY, MH):
        for dim in (3, 2):
            for n, b in enumerate(combos(dim, tier)):
                for it in ((n % 2,) if tier == "quick" else (0, 1)): t.append((task_ghost, (fam, dim, it, b, tier)))
    t = sorted(t, key=lambda x: -(x[1][1] * 10 + (x[1][0] == MH)))
    for dim, N, rk, visc in ((2, 2, "ssprk3", False), (2, 3, "euler", True), (3, 2, "euler", False), (3, 2, "euler", True)) + (() if tier == "quick" else ((2, 4, "ssprk54", False), (3, 3, "ssprk2", False), (2, 2, "ssprk54", True))):
        for b in combos(dim, "quick"): t.append((task_ghost_sdm, (dim, N, rk, visc, b, tier)))
    return t


def prepare(pid, tier): prog("serial")

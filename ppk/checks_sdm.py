"""Relations on the denotation of one whole time step of the spectral difference solvers."""
import itertools
from .sdm import *
from .checks_fv import prog, trial_seeds
from .report import Result

_RC = {}
def run_sdm(*a, **k):
    key = (a, tuple(sorted((x, repr(y)) for x, y in k.items())))
    r = _RC.get(key)
    if r is None:
        if len(_RC) > 2: _RC.clear()
        r = _RC[key] = build_sdm(prog(), *a, **k)
    return r


def prepare(pid, tier): prog()


TOL54 = Decimal("1e-13")     # the published coefficients of ssprk54 have 15 digits; their sums are 1 to that precision only
def same(R, a, b): return a[0] == b[0] if R.rk != "ssprk54" else abs(a[1] - b[1]) <= TOL54 * (1 + abs(b[1]))


def wsites(R, v=None):
    s = []
    for k, e in enumerate(R.I.events):
        if k < R.start or e[0] != "launch": continue
        for ef in e[1].effects:
            if ef[0] == "write" and ef[1] == "U":
                w = "%s:%s (%s)" % (ef[5].relfile() if hasattr(ef[5], "relfile") else ef[5], ef[6], e[1].cls.split("::")[-1].split("<")[0])
                if w not in s: s.append(w)
    return "; written at " + ", ".join(s[:3])


def atspots(R, dat, one):
    for nm, o, F in spots(R):
        dat.origin = o
        try:
            for x in with_cases(F, one): yield x
        finally: dat.origin = X


# ------------------------------------------------------------------------------------------------------ uniform
def task_uniform(dim, N, rk, riem, opts, tier):
    r = Result(); R = run_sdm(dim, N, rk, riem, *opts); r.count("contexts")
    for seed in trial_seeds(tier, 1, 3):
        dat = SdmRData(dim, N, seed, (3, -2, 1), uniform=True)
        def one(F):
            D = deno_sdm(R, dat, F)
            out = [newdof(D, R, q, origin=dat.origin) for q in range(R.ndof * R.nv)]
            r.count("value_graph_nodes", D.touched)
            return out
        for F, out in (with_cases(interior(dim, R.gw), one) if rk == "euler" else atspots(R, dat, one)):
            r.count("regions")
            for q, a in enumerate(out):
                v = q // R.ndof
                r.check(same(R, a, dat.value((0, 0, 0), q)), "%s:%s" % (ctx_sdm(R), VN[v]), "%s: a spatially uniform state is not left unchanged in %s%s" % (ctx_sdm(R), VN[v], wsites(R)))
    return r


# ------------------------------------------------------------------------------------------------------ conservation
def task_conservation(dim, N, rk, riem, opts, tier):
    r = Result(); R = run_sdm(dim, N, rk, riem, *opts); r.count("contexts")
    S = RK[rk] * (2 if opts[2] else 1)     # gradients reach one cell further
    for seed in trial_seeds(tier, 1, 3):
        for bulk in ((0, 0, 0), (20, -6, 4))[:1 if tier == "quick" and dim == 3 and opts[2] else 2]:
            try:
                # data vary in a block of cells, uniform elsewhere
                win = lambda o: o[0] in (0, 1) and all(x == 0 for x in o[1:])
                dat = SdmRData(dim, N, seed, bulk, 200, window=win)
                D = deno_sdm(R, dat, generic(R))
                xs = nodes(D, R); w = weights([x[0] for x in xs]); wd = weights_real([x[1] for x in xs])
                tot = [0] * R.nv; totr = [Z] * R.nv; mag = [Z] * R.nv; changed = [False] * R.nv
                for off in itertools.product(range(-S, S + 2), *[range(-S, S + 1)] * (dim - 1)):
                    o3 = off + (0,) * (3 - dim)
                    # cells the stencil (a sum of S axis steps) cannot reach are uniform
                    dist = max(0, -off[0], off[0] - 1) + sum(abs(x) for x in off[1:])
                    if dist > S: continue
                    for q in range(R.ndof * R.nv):
                        v = q // R.ndof; ids = ids_of(q % R.ndof, N, dim)
                        wt = 1; wr = Decimal(1)
                        for d in range(dim): wt = wt * w[ids[d]] % PR; wr *= wd[ids[d]]
                        a = newdof(D, R, q, o3); b = dat.value(o3, q)
                        if a[0] != b[0]: changed[v] = True
                        tot[v] = (tot[v] + wt * (a[0] - b[0])) % PR
                        totr[v] += wr * (a[1] - b[1]); mag[v] += abs(wr * b[1])
                r.count("value_graph_nodes", D.touched)
            except Unstable as e:
                r.count("trials_discarded"); continue
            r.count("trials")
            for v in range(R.nv):
                if not changed[v]: raise AnalysisBroken("%s: %s is never updated" % (ctx_sdm(R), VN[v]))
                r.check(tot[v] == 0 if rk != "ssprk54" else abs(totr[v]) <= TOL54 * (1 + mag[v]), "%s:%s" % (ctx_sdm(R), VN[v]), "%s: the integral of %s over the domain changes in a step%s" % (ctx_sdm(R), VN[v], wsites(R)))
    if not r.facts.get("trials"): raise AnalysisBroken("no usable trial")
    return r


# ------------------------------------------------------------------------------------------------------ translation invariance
def task_translation(dim, N, rk, riem, opts, tier):
    """in a periodic domain every cell of every border class is updated by the same function of its neighbours"""
    r = Result(); R = run_sdm(dim, N, rk, riem, *opts); r.count("contexts"); c = ctx_sdm(R)
    seed = trial_seeds(tier, 1, 1)[0]
    for bulk in ((0, 0, 0), (12, -4, 4)):
        ref = None
        dat = SdmRData(dim, N, seed, bulk); dat.periodic = True
        # one node per variable suffices for the later stages: the kernels treat all nodes of a cell in one iteration
        dofs = range(R.ndof * R.nv) if rk == "euler" else [v * R.ndof + (v * 7 + 1) % R.ndof for v in range(R.nv)]
        def one(F):
            D = deno_sdm(R, dat, F)
            out = [res(newdof(D, R, q, origin=dat.origin)) for q in dofs]
            r.count("value_graph_nodes", D.touched)
            return out, set(D.usedcells)
        try: ref = one(generic(R))[0]; regs = with_cases(interior(dim, R.gw), one, 200) if rk == "euler" else list(atspots(R, dat, one))
        except Unstable as e: r.count("trials_discarded"); r.count("discarded: %s" % e); continue
        r.count("trials")
        for F, (out, used) in regs:
            r.count("regions")
            for q, a, b in zip(dofs, out, ref):
                r.check(a == b, "%s:%s" % (c, VN[q // R.ndof]), "%s: the update of %s is not the same function of the neighbouring cells everywhere%s" % (c, VN[q // R.ndof], wsites(R)))
            for alloc, idx in used:
                r.check(alloc == "U", "%s:stale:%s" % (c, alloc), "%s: the new state depends on array %s%r that this step has not filled (left over from an earlier step)" % (c, alloc, idx))
    if not r.facts.get("trials"): raise AnalysisBroken("%s: no usable trial" % c)
    return r


# ------------------------------------------------------------------------------------------------------ symmetry
def task_symmetry(dim, N, rk, riem, opts, tier):
    r = Result(); R = run_sdm(dim, N, rk, riem, *opts); r.count("contexts"); c = ctx_sdm(R)
    F = generic(R); used = 0
    zero = (4,) if dim == 2 else ()
    dofs = range(R.ndof * R.nv) if rk == "euler" else [v * R.ndof + (v * 7 + 1) % R.ndof for v in range(R.nv)]
    for seed in trial_seeds(tier, 1, 2):
        for bulk in ((0, 0, 0), (20, 8, -6), (-20, 16, 18))[:2 if dim == 3 and tier == "quick" else 3]:
            try:
                base = deno_sdm(R, SdmRData(dim, N, seed, bulk, zero=zero), F)
                def b(q): return res(newdof(base, R, q))
                for perm in itertools.permutations(range(dim)):
                    if perm == tuple(range(dim)): continue
                    pm = perm + (2,) * (3 - dim)
                    D = deno_sdm(R, SdmRData(dim, N, seed, bulk, zero=zero, perm=pm), F)
                    for q in dofs:
                        v = q // R.ndof; ids = ids_of(q % R.ndof, N, dim)
                        w = 2 + pm[v - 2] if v >= 2 else v
                        ci = [0, 0, 0]
                        for d in range(3): ci[pm[d]] = ids[d]
                        r.check(res(newdof(D, R, q)) == b(dof_of(ci, w, N, dim)), "%s:perm%s:%s" % (c, pm, VN[v]), "%s: exchanging axes %s of the data does not exchange the result for %s%s" % (c, "".join(AX[x] for x in pm[:dim]), VN[v], wsites(R)))
                    r.count("value_graph_nodes", D.touched)
                for m in range(dim):
                    D = deno_sdm(R, SdmRData(dim, N, seed, bulk, zero=zero, mirror=(m,)), F)
                    for q in dofs:
                        v = q // R.ndof; ids = list(ids_of(q % R.ndof, N, dim)); ids[m] = N - 1 - ids[m]
                        a = b(dof_of(ids, v, N, dim))
                        if v == 2 + m: a = -a % PR
                        r.check(res(newdof(D, R, q)) == a, "%s:mirror%s:%s" % (c, AX[m], VN[v]), "%s: mirroring the data along %s does not mirror the result for %s%s" % (c, AX[m], VN[v], wsites(R)))
                    r.count("value_graph_nodes", D.touched)
                used += 1
            except Unstable as e: r.count("trials_discarded"); r.count("discarded: %s" % e)
    if not used: raise AnalysisBroken("%s: no usable trial" % c)
    return r


# ------------------------------------------------------------------------------------------------------ 2D / 3D
def task_dim(N, rk, riem, opts, tier):
    A = run_sdm(2, N, rk, riem, *opts); B = run_sdm(3, N, rk, riem, *opts)
    r = Result(); r.count("contexts"); used = 0
    for seed in trial_seeds(tier, 1, 2):
        for bulk in ((0, 0, 0), (20, 8, 0)):
            try:
                Da = deno_sdm(A, SdmRData(2, N, seed, bulk, zero=(4,)), generic(A))
                Db = deno_sdm(B, SdmRData(3, N, seed, bulk, zero=(4,), zinv=(2,)), generic(B))
                for q in range(A.ndof * A.nv):
                    v = q // A.ndof; ids = list(ids_of(q % A.ndof, N, 2)); a = res(newdof(Da, A, q))
                    for z in range(N):
                        ids[2] = z
                        r.check(res(newdof(Db, B, dof_of(ids, v, N, 3))) == a, "%s:%s" % (ctx_sdm(B), VN[v]), "%s on data independent of z gives a different %s than %s%s" % (ctx_sdm(B), VN[v], ctx_sdm(A), wsites(B)))
                r.count("value_graph_nodes", Da.touched + Db.touched); used += 1
            except Unstable as e: r.count("trials_discarded")
    if not used: raise AnalysisBroken("no usable trial")
    return r


# ------------------------------------------------------------------------------------------------------ units
def task_scaling(dim, N, rk, riem, opts, tier):
    r = Result(); R = run_sdm(dim, N, rk, riem, *opts); r.count("contexts"); c = ctx_sdm(R)
    used = 0
    for seed in trial_seeds(tier, 2, 4):
        A, B, C = (rq(p ** 4, q ** 4) for p, q in ((3, 2), (5, 3), (4, 7)))     # fourth powers: square roots stay in the field
        def vs(v): return A if v == 0 else (rmul(A, rmul(B, B)) if v == 1 else rmul(A, B))
        bulk = ((0, 0, 0), (12, -6, 4))[seed % 2]
        d0 = SdmRData(dim, N, seed, bulk); d1 = SdmRData(dim, N, seed, bulk, scale=vs)
        s0, s1 = d0.symval(), d1.symval()
        for d in range(3):
            for w in ("min", "max"): s1["cfg:mesh/%s%s" % (AX[d], w)] = rmul(s0["cfg:mesh/%s%s" % (AX[d], w)], C)
        s1["cfg:hydro/smallr"] = rmul(s0["cfg:hydro/smallr"], A)
        s1["cfg:hydro/smallc"] = rmul(s0["cfg:hydro/smallc"], B)
        T = rdiv(C, B)
        s1["<reduced>"] = rdiv(s0["<reduced>"], T); s1["cfg:run/tEnd"] = rmul(s0["cfg:run/tEnd"], T)
        s0["cfg:run/tCurrent"] = rq(5, 1); s1["cfg:run/tCurrent"] = rmul(s0["cfg:run/tCurrent"], T)
        F = generic(R)
        D0 = deno_sdm(R, d0, F, s0); D1 = deno_sdm(R, d1, F, s1)
        dofs = range(R.ndof * R.nv) if rk == "euler" else [v * R.ndof + (v * 7 + 1) % R.ndof for v in range(R.nv)]
        for q in dofs:
            v = q // R.ndof
            try: a, b = newdof(D0, R, q), newdof(D1, R, q)
            except Unstable as e: r.count("trials_discarded"); break
            used += 1
            r.check(rmul(a, vs(v))[0] == b[0], "%s:%s" % (c, VN[v]), "%s: the update of %s is not dimensionally consistent (changing the units of mass, length and time changes the result)%s" % (c, VN[v], wsites(R)))
        r.count("value_graph_nodes", D0.touched + D1.touched)
    if not used: raise AnalysisBroken("%s: no usable trial" % c)
    return r


NOPT = (False, False, False); VISC = (False, False, True)
def ctxs(tier):
    q = [(2, 2, "euler"), (2, 3, "euler"), (2, 2, "ssprk2"), (2, 2, "ssprk3"), (2, 2, "ssprk54"), (2, 4, "euler"), (3, 2, "euler"), (3, 2, "ssprk2"), (3, 3, "euler")]
    if tier != "quick": q += [(2, 5, "euler"), (2, 6, "euler"), (2, 3, "ssprk3"), (2, 4, "ssprk2"), (3, 4, "euler"), (3, 2, "ssprk3"), (2, 3, "ssprk54")]
    return q
def slim(tier): return ctxs(tier) if tier != "quick" else [c for c in ctxs(tier) if c not in ((3, 3, "euler"), (3, 2, "ssprk2"), (2, 2, "ssprk54"))]
CC = [(2, 2, "euler"), (2, 3, "euler"), (2, 2, "ssprk2"), (2, 2, "ssprk3"), (2, 2, "ssprk54"), (2, 4, "euler"), (3, 2, "euler")]
def vctxs(tier): return [(2, 2, "euler"), (2, 3, "euler"), (3, 2, "euler")] + ([(3, 3, "euler"), (2, 2, "ssprk2"), (2, 4, "euler")] if tier != "quick" else [])
def tset(fn, cs, tier, visc=True):
    return [(fn, c + ("hllc", NOPT, tier)) for c in cs] + [(fn, c + ("hllc", VISC, tier)) for c in (vctxs(tier) if visc else ())] \
        + [(fn, c + (rs, NOPT, tier)) for rs in ("hll", "llf", "approx") for c in ([(2, 2, "euler")] if tier == "quick" else [(2, 3, "euler"), (3, 2, "euler")]) if rs != "approx"]
def uni_tasks(tier): return tset(task_uniform, ctxs(tier), tier)
def cons_tasks(tier): return tset(task_conservation, CC if tier == "quick" else ctxs(tier), tier)
def trans_tasks(tier): return tset(task_translation, slim(tier), tier)
def sym_tasks(tier): return tset(task_symmetry, slim(tier), tier)
def dim_tasks(tier): return [(task_dim, c + ("hllc", o, tier)) for c in ((2, "euler"), (3, "euler"), (2, "ssprk2")) for o in (NOPT,)]
def scal_tasks(tier): return tset(task_scaling, slim(tier), tier, False)


# ------------------------------------------------------------------------------------------------------ time step
def load_index(n, alloc, seen):
    if n.id in seen: return None
    seen.add(n.id)
    if n.op == "ld" and n.a[0] == alloc: return n.a[1]
    for x in n.a:
        if isinstance(x, Node):
            r = load_index(x, alloc, seen)
            if r is not None: return r
    return None


def run_method(R, cls, name, vals):
    """final values of the reference arguments of a small functor method"""
    P, I = R.I.P, R.I
    fs = [f for f in P.find(name, cls) if f.cls == cls and len(f.params) == len(vals)]
    if len(fs) != 1: return None
    st = R.st
    args = []
    for k, v in enumerate(vals):
        loc = ("reduceArg", name, k); st.mem[loc] = v; args.append(Ref(loc))
    I.call_repo(st, R.fr, fs[0], None, 0, ("reduceThis",), argvals=args)
    return [st.mem.get(("reduceArg", name, k)) for k in range(len(vals))]


def task_dt(dim, N, rk, opts, tier):
    r = Result(); R = run_sdm(dim, N, rk, "hllc", *opts); r.count("contexts"); c = ctx_sdm(R)
    I = R.I
    reds = [(k, e[1]) for k, e in enumerate(I.events) if k >= R.n0 and e[0] == "launch" and e[1].red is not None]
    if len(reds) != 1:
        r.check(False, c + ":reduce", "%s: the time step is computed from %d reductions over the mesh, expected one" % (c, len(reds))); return r
    ke, L = reds[0]
    where = "%s:%d" % (L.fn.relfile(), L.fn.line)
    if L.reducer is None:
        a, b = mk("sym", "ra"), mk("sym", "rb")
        j = run_method(R, L.cls, "join", [a, b])
        if j is None or not isinstance(j[0], Node): raise AnalysisBroken("%s: reduction without a join method" % c)
        for x, y in ((3, 7), (7, 3), (5, 5)):
            D = DenoR(I, Facts([]), 1, 0, leaf=lambda *z: None, symval={"ra": rq(x, 1), "rb": rq(y, 1)})
            v = D.val(j[0], D.env({}))
            r.check(v[0] == max(x, y), c + ":join", "%s: the reduction of the time step combines the rates %d and %d of two threads to %s instead of the larger one (%s)" % (c, x, y, v[1], where))
        i0 = run_method(R, L.cls, "init", [0])
        v = i0[0] if i0 else None
        if isinstance(v, Node) and v.op == "c": v = v.a[0]
        neg = isinstance(v, Node) and v.op == "neg"
        if neg: v = v.a[0]
        if isinstance(v, Node) and v.op == "sym" and str(v.a[0]).startswith("numeric_limits::"):
            v = {"min": Fraction(1, 10 ** 300), "lowest": -10 ** 300, "max": 10 ** 300, "infinity": 10 ** 300, "epsilon": Fraction(1, 2 ** 52)}.get(v.a[0].split("::")[1], v)
        if neg and not isinstance(v, Node): v = -v
        if not isinstance(v, (int, Fraction)): raise AnalysisBroken("%s: initial value of the reduction %r" % (c, v))
        r.check(v <= Fraction(1, 10 ** 30), c + ":init", "%s: the reduction of the time step starts from %s, which can exceed the rate of every cell (%s)" % (c, v, where))
    else:
        if "Max<" not in L.reducer.ty: r.check(False, c + ":reducer", "%s: the mesh reduction at %s is not a maximum" % (c, where)); return r
    ix = load_index(L.red, "U", set())
    if ix is None: r.check(False, c + ":reads", "%s: the time step does not depend on the state (%s)" % (c, where)); return r
    env = {}
    for d in range(dim):
        p = topoly(ix[d])
        ss = p.syms()
        if len(ss) != 1: raise AnalysisBroken("%s: cell index %r of the time step kernel" % (c, p))
        s = list(ss)[0]; env[s] = padd(X[d], padd(p, psym(s), -1), -1)
    dt_node = R.st.mem.get(R.sloc + ("m_dt",))
    used = 0
    for seed in trial_seeds(tier, 2, 6):
        for bulk in ((0, 0, 0), (24, 8, -8), (-24, -8, 8), (8, 24, 24)):
            dat = SdmRData(dim, N, seed, bulk, 400)
            def one(F):
                D = deno_sdm(R, dat, F, {"redacc": rq(-1 << 40, 1)})
                a = D.val(L.red, D.env(env))
                D2 = deno_sdm(R, dat, F, {"redacc": rq(1 << 40, 1)})
                return a, D2.val(L.red, D2.env(env))
            try: regs = with_cases(interior(dim, R.gw), one)
            except Unstable as e: r.count("trials_discarded"); r.count("discarded: %s" % e); continue
            used += 1
            sv = dat.symval(); g = sv["cfg:hydro/gamma0"][1]
            h = [(sv["cfg:mesh/%smax" % AX[d]][1] - sv["cfg:mesh/%smin" % AX[d]][1]) / sv["cfg:mesh/n" + AX[d]][1] / N for d in range(dim)]
            rate = Decimal(0)
            for q in range(R.ndof):
                W = [dat.value((0, 0, 0), v * R.ndof + q)[1] for v in range(R.nv)]
                u = [m / W[0] for m in W[2:]]
                p = (g - 1) * (W[1] - W[0] * sum(x * x for x in u) / 2)
                cs = (g * p / W[0]).sqrt()
                rate = max(rate, sum((abs(u[d]) + cs) / h[d] for d in range(dim)))
            for F, (a, keep) in regs:
                r.count("regions")
                r.check(keep[1] == Decimal(1 << 40), c + ":combine", "%s: a cell discards the extreme value found in other cells (%s)" % (c, where))
                r.check(abs(a[1] - rate) <= Decimal("1e-18") * rate, c + ":cfl", "%s: the rate of a cell that limits the time step is %.6g x max over its solution points of sum N (|u|+c)/dx (computed at %s)" % (c, a[1] / rate, where))
                for t0, te in ((Z, Decimal(100)), (Decimal(100) - Decimal(1) / 10 ** 6, Decimal(100))):
                    D = deno_sdm(R, dat, F, {"<reduced>": a, "cfg:run/tCurrent": rq(int(t0 * 1000000), 1000000)})
                    m = D.val(dt_node, D.env({}))[1]
                    want = min(sv["cfg:hydro/cfl"][1] / rate, te - t0)
                    r.check(abs(m - want) <= Decimal("1e-12") * want, c + ":dt", "%s: the time step is %.6g x the one the rate %.6g allows at t=%s" % (c, m / want, rate, t0))
    if not used: raise AnalysisBroken("%s: no usable trial" % c)
    # every interior cell is visited and ghost cells contribute nothing
    acc = rq(987, 3)
    n = [psym("cfg:mesh/n" + AX[d]) for d in range(dim)]
    for d in range(dim):
        for nm, pos in (("min", pc(R.gw - 1)), ("max", padd(n[d], pc(R.gw)))):
            e2 = {s: psubst(p, {"ijk"[d]: pos}) for s, p in env.items()}
            F = Facts([q for x in range(dim) for q in (padd(n[x], pc(-R.gw)), X[x], padd(padd(n[x], pc(2 * R.gw - 1)), X[x], -1))])
            def one(F):
                sv = SdmRData(dim, N, 1).symval(); sv["redacc"] = acc
                D = DenoDR(I, F, 1, R.start, leaf=lambda D, a, i: rq(1 + shash(a, pkey(i)), 64) if a == "U" else None, symval=sv)
                return D.val(L.red, D.env(e2))
            for F2, v in with_cases(F, one):
                r.check(v[0] == acc[0], c + ":ghost" + AX[d], "%s: ghost cells beyond %s%s contribute to the time step (%s)" % (c, AX[d], nm, where))
    return r


def dt_sdm_tasks(tier):
    return [(task_dt, (d, n, rk, NOPT, tier)) for d, n, rk in ((2, 2, "euler"), (2, 3, "ssprk3"), (3, 2, "ssprk2"), (3, 3, "euler")) + (() if tier == "quick" else ((2, 4, "ssprk54"), (2, 5, "euler"), (3, 4, "euler")))]


# ------------------------------------------------------------------------------------------------------ viscous terms
class PolyData(SdmRData):
    """uniform density and pressure; the velocity components are polynomials (degree <= deg in each coordinate) of the position,
    measured in cells from the corner of the reference cell"""
    xs = None; deg = 1
    def coef(self, v, e): return rq((shash(self.seed, "poly", v, e) % 41) - 20, 4 ** sum(e))
    def exps(self): return itertools.product(*[range(self.deg + 1)] * self.dim)

    def vel(self, i, off, ids, der=()):
        t = rq(0, 1)
        for e in self.exps():
            c = self.coef(i, e)
            for d in range(self.dim):
                x = radd(self.xs[ids[d]], rq(off[d], 1)); k = e[d]
                for dd in der:
                    if dd == d: c = rmul(c, rq(k, 1)); k -= 1
                for _ in range(max(k, 0)): c = rmul(c, x)
            t = radd(t, c)
        return t

    def rv(self, key, v):
        off, ids = key
        if v == 0: return rq(5, 4)
        if v >= 2: return rmul(rq(5, 4), radd(rq(self.bulk[v - 2], 1), self.vel(v - 2, off, ids)))
        e = rdiv(rq(9000, 1), radd(self.rsym("cfg:hydro/gamma0"), rq(1, 1), -1))
        for d in range(self.dim):
            m = self.rv(key, 2 + d)
            e = radd(e, rmul(rq(1, 2), rdiv(rmul(m, m), rq(5, 4))))
        return e


def task_viscous(dim, N, deg, tier):
    r = Result(); R = run_sdm(dim, N, "euler", "hllc", False, False, True); r.count("contexts"); c = ctx_sdm(R)
    R0 = run_sdm(dim, N, "euler", "hllc", False, False, False)
    used = 0
    for seed in trial_seeds(tier, 1, 3):
        for bulk in ((0, 0, 0), (12, -6, 4)):
            dat = PolyData(dim, N, seed, bulk); dat.deg = deg
            mu = rq(1, 4)
            sv = dat.symval()
            for (nm, o, F), (nm0, o0, F0) in zip(spots(R), spots(R0)):
                if nm != "inside" and (seed != trial_seeds(tier, 1, 3)[0] or any(bulk)): continue
                dat.origin = o; dat.periodic = True
                dat0 = PolyData(dim, N, seed, bulk); dat0.deg = deg; dat0.origin = o0; dat0.periodic = True
                try:
                    D1 = deno_sdm(R, dat, F, sv); D0 = deno_sdm(R0, dat0, F0, sv)
                    dat.xs = [D1.load("solution_pts_1d", (i,), len(R.I.events)) for i in range(N)]
                    dat0.xs = dat.xs
                    dt = D1.val(R.st.mem[R.sloc + ("m_dt",)], D1.env({}))
                    ih = [rdiv(sv["cfg:mesh/n" + AX[d]], radd(sv["cfg:mesh/%smax" % AX[d]], sv["cfg:mesh/%smin" % AX[d]], -1)) for d in range(dim)]
                    def g(i, *der):
                        t = dat.vel(i, (0, 0, 0), ids, der)
                        for d in der: t = rmul(t, ih[d])
                        return t
                    for q in range(R.ndof * R.nv):
                        v = q // R.ndof; ids = ids_of(q % R.ndof, N, dim)
                        if v == 1 and 2 * deg > N: continue
                        diff = radd(newdof(D1, R, q, origin=o), newdof(D0, R0, q, origin=o0), -1)
                        def force(i):
                            t = rq(0, 1)
                            for j in range(dim):
                                t = radd(t, radd(g(i, j, j), g(j, i, j)))
                                t = radd(t, rmul(rq(2, dim), g(j, j, i)), -1)
                            return t
                        if v == 0: want = rq(0, 1)
                        elif v >= 2: want = force(v - 2)
                        else:
                            want = rq(0, 1)
                            div = rq(0, 1)
                            for j in range(dim): div = radd(div, g(j, j))
                            for i in range(dim):
                                ui = radd(rq(bulk[i], 1), g(i))
                                want = radd(want, rmul(ui, force(i)))
                                for j in range(dim):
                                    t = radd(g(i, j), g(j, i))
                                    if i == j: t = radd(t, rmul(rq(2, dim), div), -1)
                                    want = radd(want, rmul(t, g(i, j)))
                        want = rmul(rmul(want, mu), dt)
                        r.check(diff[0] == want[0], "%s:%s" % (c, VN[v]), "%s: the viscous change of %s %s is not dt times the divergence of the viscous stress of the (polynomial) velocity (%.6g instead of %.6g)%s" % (c, VN[v], nm, diff[1], want[1], wsites(R)))
                    used += 1; r.count("value_graph_nodes", D0.touched + D1.touched)
                except Unstable as e: r.count("trials_discarded"); r.count("discarded: %s" % e)
    if not used: raise AnalysisBroken("%s: no usable trial" % c)
    return r


def visc_tasks(tier):
    return [(task_viscous, c + (tier,)) for c in ((2, 2, 1), (2, 3, 1), (3, 2, 1), (2, 3, 2)) + (() if tier == "quick" else ((2, 4, 2), (2, 4, 3), (3, 3, 1), (3, 3, 2)))]


# ------------------------------------------------------------------------------------------------------ order in space and time
from . import series as _se
from .series import S, DenoS, scon, ZC, ccon


class DenoDS(HostArrays, DenoS):
    def __init__(self, I, facts, seed, start=0, leaf=None, cfgbool=None, symval=None):
        DenoS.__init__(self, I, facts, seed, start, leaf, cfgbool, symval)
        self.setup_hosts(I, start)

    def hconst(self, v): return self.const(Fraction(v))

    def _val(self, n, env):
        if n.op == "fn" and n.a[0] in ("cos", "sin") and isinstance(n.a[1], Node) and n.a[1].op == "c":
            r = trig_res(self.seed, n.a[0], n.a[1].a[0])
            if r is not None:
                s, f = trig(n.a[0], n.a[1].a[0])
                return S((ZC if r == 0 else (r, dcos(f) * s, Decimal(1)), ZC, ZC))
        return DenoS._val(self, n, env)


class P4(dict):
    """polynomial in x, y, z, t over truncated series in e"""
    def add(a, b, f=1):
        r = P4(a)
        for m, c in b.items():
            c = c if f == 1 else c * f
            r[m] = r[m] + c if m in r else c
        return r
    def mul(a, b, tmax):
        r = P4()
        for m, c in a.items():
            for n, d in b.items():
                if m[3] + n[3] > tmax: continue
                if all(x is ZC for x in (c[0],)) and all(x is ZC for x in (d[0],)) and c[1] is ZC and d[1] is ZC: continue
                k = tuple(x + y for x, y in zip(m, n)); v = c * d
                r[k] = r[k] + v if k in r else v
        return r
    def diff(a, d): return P4({m[:d] + (m[d] - 1,) + m[d + 1:]: c * Fraction(m[d]) for m, c in a.items() if m[d]})
    def rec(a, tmax):
        m0 = (0, 0, 0, 0)
        c = S((a[m0][0], ZC, ZC)); i = c.rec()
        q = P4({m: x * i for m, x in a.items()})
        q[m0] = S((ZC,) + tuple(q[m0][1:]))
        r = P4({m0: scon(Fraction(1))}).add(q, -1).add(q.mul(q, tmax))
        return P4({m: x * i for m, x in r.items()})
    def scale(a, f): return P4({m: x * f for m, x in a.items()})


class TaylorData(SdmData):
    """primitive variables = constant + e * polynomial (total degree <= D, degree <= dd in each coordinate)"""
    def __init__(self, dim, N, seed, bulk, D, dd):
        SdmData.__init__(self, dim, N, seed)
        self.D, self.dd, self.bulk = D, dd, bulk
        self.rd = SdmRData(dim, N, seed, bulk)
        self.sv = self.rd.symval()
        self.g = S((self.sv["cfg:hydro/gamma0"], ZC, ZC))
        f = lambda *k: Fraction(shash(seed, *k) % 511 - 255, 256)
        self.q0 = [1 + f("r") / 4, 1 + f("p") / 4] + [Fraction(bulk[d], 8) + f("u", d) / 16 for d in range(dim)]
        one = lambda o, v: S((ZC, ccon(v), ZC)) if o else scon(v)
        self.prim = []
        for v in range(dim + 2):
            p = P4({(0, 0, 0, 0): scon(self.q0[v])})
            for m in itertools.product(range(dd + 1), repeat=dim):
                if sum(m) > D: continue
                p = p.add(P4({m + (0,) * (4 - dim): one(1, f("c", v, m) / 4 ** sum(m))}))
            self.prim.append(p)
        self.T = 0
        self.U = self.cons(self.prim, 0)
        self.memo = {}
        self.sdx = [(self.sv["cfg:mesh/%smax" % AX[d]], self.sv["cfg:mesh/%smin" % AX[d]], self.sv["cfg:mesh/n" + AX[d]]) for d in range(dim)]
        self.ih = [S((rdiv(n, radd(a, b, -1)), ZC, ZC)) for a, b, n in self.sdx]

    def symval(self): return dict(self.sv)

    def cons(self, q, t):
        r, p, u = q[0], q[1], q[2:]
        k = P4()
        for x in u: k = k.add(x.mul(x, t))
        E = p.scale(S(self.g - 1).rec()).add(r.mul(k, t), scon(Fraction(1, 2)))
        return [r, E] + [r.mul(x, t) for x in u]

    def flux(self, U, d, t):
        ir = U[0].rec(t)
        u = [m.mul(ir, t) for m in U[2:]]
        k = P4()
        for x, m in zip(u, U[2:]): k = k.add(x.mul(m, t))
        p = U[1].add(k, scon(Fraction(-1, 2))).scale(self.g - 1)
        F = [U[2 + d], U[1].add(p).mul(u[d], t)]
        for e in range(self.dim):
            f = U[2 + e].mul(u[d], t)
            F.append(f.add(p) if e == d else f)
        return F

    def evolve(self, order):
        """Taylor coefficients in time of the solution of the Euler equations"""
        U = [P4(x) for x in self.U]
        for k in range(order):
            R = [P4() for _ in U]
            for d in range(self.dim):
                F = self.flux(U, d, k)
                for v, f in enumerate(F): R[v] = R[v].add(f.diff(d).scale(self.ih[d]))
            for v in range(len(U)):
                U[v] = U[v].add(P4({m[:3] + (k + 1,): c * Fraction(-1, k + 1) for m, c in R[v].items() if m[3] == k}))
        return U

    def at(self, p, pos, dt=None):
        t = scon(Fraction(0))
        pw = lambda x, n: x if n == 1 else x * pw(x, n - 1)
        for m, c in p.items():
            for d in range(3):
                if m[d]: c = c * pw(pos[d], m[d])
            if m[3]: c = c * pw(dt, m[3])
            t = t + c
        return t

    def pos(self, off, ids): return [self.xs[ids[d]] + Fraction(off[d]) for d in range(self.dim)] + [None] * (3 - self.dim)

    def value(self, off, dof):
        N, dim = self.N, self.dim
        o = tuple(list(off) + [0] * (3 - len(off)))
        k = (o, dof)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.at(self.U[dof // N ** dim], self.pos(o, ids_of(dof % N ** dim, N, dim)))
        return r


def task_order(dim, N, rk, riem, D, dd, second, tier):
    r = Result(); R = run_sdm(dim, N, rk, riem, False, False, False); r.count("contexts"); c = ctx_sdm(R)
    p = ORDER[rk]; used = 0
    for seed in trial_seeds(tier, 1, 2):
        for bulk in ((0, 0, 0), (6, -12, 10), (-7, 5, -11)):
            if tier == "quick" and bulk not in (((6, -12, 10),) if rk == "ssprk54" or N > 4 or dim * N > 8 else ((0, 0, 0), (6, -12, 10)) if rk != "euler" else ((0, 0, 0), (6, -12, 10), (-7, 5, -11))): continue
            dat = TaylorData(dim, N, seed, bulk, D, dd)
            try:
                Dn = DenoDS(R.I, generic(R), seed, R.start, leaf=dat.leaf("U"), symval=dat.symval())
                dat.xs = [Dn.load("solution_pts_1d", (i,), len(R.I.events)) for i in range(N)]
                dt = Dn.val(R.st.mem[R.sloc + ("m_dt",)], Dn.env({}))
                U = dat.evolve(p)
                ref = {}
                qs = range(R.ndof * R.nv) if rk == "euler" else [v * R.ndof + n for v in range(R.nv) for n in (0, R.ndof - 2, R.ndof // 2)]
                for q in qs:
                    v = q // R.ndof
                    a = newdof(Dn, R, q); b = dat.at(U[v], dat.pos((0, 0, 0), ids_of(q % R.ndof, N, dim)), dt)
                    for o in (0, 1, 2) if second else (0, 1):
                        x = (_se.csub(a[o], b[o]))
                        mg = abs(b[o][1]) + 1
                        if o == 2 and 2 * D > p:      # terms beyond the order are spatially constant: compare differences between points
                            if v not in ref: ref[v] = x; continue
                            x = _se.csub(x, ref[v])
                        okk = x[0] == 0 if rk != "ssprk54" else abs(x[1]) <= TOL54 * 100 * mg
                        r.check(okk, "%s:%s" % (c, VN[v]), "%s: for polynomial data of total degree %d the step does not reproduce the Taylor expansion of the exact solution to order %d in time (%s, %s terms differ by %.3g of %.3g)%s" % (
                            c, D, p, VN[v], ("zeroth-order", "linear", "quadratic")[o], x[1], b[o][1], wsites(R)))
                used += 1; r.count("value_graph_nodes", Dn.touched)
            except Unstable as e: r.count("trials_discarded"); r.count("discarded: %s" % e)
    if not used: raise AnalysisBroken("%s: no usable trial" % c)
    return r


def order_sdm_tasks(tier):
    t = [(2, 2, "euler", 2, 1, False), (2, 3, "euler", 4, 2, False), (2, 4, "euler", 6, 3, False), (2, 5, "euler", 4, 4, False), (2, 6, "euler", 5, 5, False), (3, 2, "euler", 3, 1, False), (3, 3, "euler", 3, 2, False),
         (2, 2, "ssprk2", 2, 1, False), (2, 3, "ssprk3", 3, 2, False), (2, 3, "ssprk54", 4, 2, False),
         (2, 3, "euler", 1, 1, True), (2, 3, "ssprk2", 1, 1, True), (2, 3, "ssprk3", 2, 1, True), (2, 3, "ssprk54", 2, 1, True)]
    return [(task_order, (d, n, rk, "hllc", D, dd, s, tier)) for d, n, rk, D, dd, s in t]


def general_tasks(tier): return uni_tasks(tier) + trans_tasks(tier) + scal_tasks(tier)
def isotropy_tasks(tier): return sym_tasks(tier) + dim_tasks(tier)

"""Time step selection, clock and step counter: what one call of next_iteration computes before and after the update."""
from .checks_fv import *
from .absint import Interp
from decimal import Decimal

UPD = ("ppkMHD::muscl::SolverHydroMuscl::godunov_unsplit", "ppkMHD::muscl::SolverMHDMuscl::godunov_unsplit")


def find_method(P, cls, name):
    cur = cls
    while cur:
        for f in P.funcs.values():
            if f.cls == cur and f.name == name: return f
        r = P.records.get(cur); bs = [b for b in (r or {}).get("bases", []) if b in P.records and P.records[b]["repo"]]
        cur = bs[0] if bs else None
    return None


def dt_run(fam, dim, it, gravity, config):
    P = prog(config)
    c = {("OTHER", "implementationVersion"): 0, ("hydro", "riemann"): "hllc" if fam == HY else "hlld", ("hydro", "slope_type"): 1,
         ("gravity", "static"): gravity, ("gravity", "point"): False, ("run", "noutput"): 0, ("run", "restart_enabled"): False}
    R = solver_run(P, sname(fam, dim), scls(fam, dim), c)
    R.fam, R.dim, R.impl, R.it, R.slope, R.riemann = fam, dim, 0, it, 1, c[("hydro", "riemann")]
    R.gw = GW[fam]; R.config = config
    I, st = R.I, R.st
    st.mem[R.sloc + ("m_t",)] = mk("sym", "t")
    R.start = len(I.events)
    step(R, iteration=it, method="next_iteration")
    R.old, R.new = ("U", "U2") if it % 2 == 0 else ("U2", "U")
    R.comm = [e[1] for e in I.events[R.start:] if e[0] == "mpi" and e[1]["name"] == "Allreduce"]
    return R


class DtData(RData):
    def symval(self):
        s = RData.symval(self)
        for d, k in enumerate((2, 3, 5)): s["cfg:mpi/m" + AX[d]] = rq(k, 1)
        s.update(self.over)
        return s


def rfloat(x, den=1 << 20): return rq(int(Fraction(x) * den), den)


def ev(R, dat, F, node, extra=None, env=None):
    sv = dat.symval(); sv.update(extra or {})
    D = DenoR(R.I, F, dat.seed, R.start, leaf=dat.leaf(R.old), symval=sv)
    if isinstance(node, (int, Fraction)): return D.const(Fraction(node)), D
    if not isinstance(node, Node): raise AnalysisBroken("time step value %r" % (node,))
    return D.val(node, D.env(env or {})), D


def expected_rate(R, dat):
    """the CFL rate of the target cell in the real model, from the governing equations: sum over directions of (|u|+c)/h"""
    dim = R.dim
    g = dat.rsym("cfg:hydro/gamma0")[1]
    U = [dat.value((0, 0, 0), v)[1] if not (R.fam == HY and v == 4 and dim == 2) else Z for v in range(8 if R.fam == MH else 5)]
    rho = U[0]; u = [U[2 + d] / rho for d in range(3)]
    e = U[1] - rho * sum(x * x for x in u) / 2
    b = [Z] * 3
    if R.fam == MH:
        for d in range(3):
            if d < dim:
                o = [0, 0, 0]; o[d] = 1
                b[d] = (U[5 + d] + dat.value(tuple(o), 5 + d)[1]) / 2
            else: b[d] = U[5 + d]
        e -= sum(x * x for x in b) / 2
    p = (g - 1) * e
    sv = dat.symval()
    h = [(sv["cfg:mesh/%smax" % AX[d]][1] - sv["cfg:mesh/%smin" % AX[d]][1]) / sv["cfg:mesh/n" + AX[d]][1] / (sv["cfg:mpi/m" + AX[d]][1] if R.config == "mpi" else 1)
         for d in range(dim)]
    if R.fam == HY:
        c = [(g * p / rho).sqrt()] * 3
    else:
        a2 = g * p / rho; b2 = sum(x * x for x in b) / rho
        c = [((a2 + b2 + ((a2 + b2) ** 2 - 4 * a2 * b[d] * b[d] / rho).sqrt()) / 2).sqrt() for d in range(3)]
    return [abs(u[d]) + c[d] for d in range(dim)], h, p


def close(a, b, tol=Decimal("1e-18")): return abs(a - b) <= tol * max(abs(a), abs(b), Decimal(1) / 10 ** 6)


class MData(DtData):
    """2D MHD: the magnetic component along z is cell centred"""
    over = {}
    def grav(self, d): return rq((shash(self.seed, "g", d) % 64 - 32) * (4 if self.seed % 2 else 1), 8)

    def leaf(self, old):
        f = DtData.leaf(self, old)
        return lambda D, alloc, idx: self.grav(idx[-1]) if alloc.startswith("gravity") else f(D, alloc, idx)

    def raw(self, off, v):
        if v == 1 and self.fam == MH:
            e = RData.raw(self, off, 1)
            if self.dim == 2:
                half = rq(1, 2); B = self.raw(off, 7)
                o2 = tuple(o + (1 if q == 2 else 0) for q, o in enumerate(off))
                b = rmul(half, radd(B, self.raw(o2, 7)))
                e = radd(radd(e, rmul(half, rmul(b, b)), -1), rmul(half, rmul(B, B)))
            return e
        return RData.raw(self, off, v)


def task_dt(fam, dim, it, gravity, config, tier):
    res = Result(); R = dt_run(fam, dim, it, gravity, config); res.count("contexts")
    name = "%s step=%s%s%s" % (sname(fam, dim), "even" if it % 2 == 0 else "odd", " gravity" if gravity else "", " MPI" if config == "mpi" else "")
    I, st = R.I, R.st
    reds = [(k, e[1]) for k, e in enumerate(I.events) if k >= R.start and e[0] == "launch" and e[1].red is not None]
    if len(reds) != 1:
        res.check(False, name + ":reduce", "%s: the time step is computed from %d reductions over the mesh, expected one" % (name, len(reds))); return res
    ke, L = reds[0]
    where = wherefn(L)
    bs = [k for k, e in enumerate(I.events) if k >= R.start and e[0] == "launch" and is_fill(e[1])]
    R.late = max(bs) + 1                       # the update: after the ghost cells are filled
    R.start = max([k + 1 for k in bs if k < ke] + [R.start])
    post = {k: st.mem.get(R.sloc + (k,)) for k in ("m_dt", "m_t", "m_iteration")}
    # -- order of operations
    res.check(post["m_iteration"] == it + 1, name + ":count", "%s: the iteration counter goes from %r to %r in one step" % (name, it, post["m_iteration"]))
    for k, e in enumerate(I.events):
        if R.start <= k < ke and e[0] == "launch" and any(x[1] == R.new and x[0] in ("write", "atomic_add") for x in e[1].effects):
            res.check(False, name + ":order", "%s: kernel %s modifies the new state before the time step is known (%s)" % (name, e[1].cls, where))
    # -- reduction operator
    rt = L.reducer.ty if L.reducer is not None else ""
    kind = "max" if "Max<" in rt else ("min" if "Min<" in rt else None)
    if kind is None:
        res.check(False, name + ":reducer", "%s: the mesh reduction at %s is not a maximum or minimum (%s)" % (name, where, rt or "sum")); return res
    big = rq(1 << 40, 1)
    low = rneg(big) if kind == "max" else big
    # -- ghost cells do not contribute
    lo = [padd(topoly(i[0]) if not isinstance(i[0], str) else psym(i[0]), Poly({})) for i in L.iters]
    if L.splits or len(L.iters) != dim: raise AnalysisBroken("time step kernel at %s: unsupported index decoding" % where)
    its = [s for s, _, _ in L.iters]
    X_ = {s: X[d] for d, s in enumerate(its)}
    def node(acc, dat, F, extra):
        return ev(R, dat, F, L.red, dict(extra, redacc=acc), X_)[0]
    dom = []
    n = [psym("cfg:mesh/n" + AX[d]) for d in range(dim)]
    for d in range(dim):
        lo_, hi_ = topoly(L.iters[d][1]), topoly(L.iters[d][2])
        F = Facts([padd(n[d], pc(-GW[fam]))])
        F = F if config != "mpi" else F.add(*[padd(psym("cfg:mpi/m" + c), pc(-1)) for c in "xyz"[:dim]]) if False else F
        res.check(F.decide_ge0(padd(pc(GW[fam]), lo_, -1)) is True and F.decide_ge0(padd(hi_, padd(n[d], pc(GW[fam])), -1)) is True,
                  name + ":range" + AX[d], "%s: the time step kernel at %s does not visit every interior cell along %s" % (name, where, AX[d]))
        dom.append((lo_, hi_))
    # interior rate
    seeds = trial_seeds(tier, 2, 6)
    fields = ("rho",)
    for s in seeds:
        for bulk in BULKS[:4]:
            for big_t in (0, 1):
                dat = MData(dim, fam, s, bulk, 400)
                dat.over = {"t": rq(0 if not big_t else 99, 1)}
                try:
                    def one(F):
                        a = node(low, dat, F, {})
                        hi2 = node(rmul(big, rq(-1 if kind == "min" else 1, 1)), dat, F, {})
                        return a, hi2
                    regs = with_cases(interior(dim, GW[fam]), one)
                except Unstable as e:
                    res.count("trials_discarded"); res.count("discarded: %s" % e); continue
                res.count("trials")
                vel, h, p = expected_rate(R, dat)
                if gravity:
                    dx = min(h); uu = sum(vel)
                    gg = sum(abs(dat.grav(d)[1]) for d in range(dim))
                for F, (a, keep) in regs:
                    res.ok(2)
                    if keep[0] != (big[0] if kind == "max" else rneg(big)[0]):
                        res.violate(name + ":combine", "%s: a cell discards the extreme value found in other cells (%s)" % (name, where))
                    # time step that follows from this cell alone
                    m, _ = ev(R, dat, F, R.comm[0]["value"] if config == "mpi" and R.comm else post["m_dt"], {"<reduced>": a})
                    dtl = m[1]
                    cfl = dat.rsym("cfg:hydro/cfl")[1]
                    t0 = dat.over["t"][1]; te = dat.rsym("cfg:run/tEnd")[1]
                    if gravity:
                        # largest dt with  g dt^2/(2 dx) + u dt/dx <= cfl
                        k = gg * dx * cfl / (uu * uu)
                        k = max(k, Decimal("1e-4"))
                        want = cfl * dx / uu * ((1 + 2 * k).sqrt() - 1) / k
                    else: want = cfl / sum(v / hh for v, hh in zip(vel, h))
                    if config != "mpi" and t0 + want > te: want = te - t0
                    ok = close(dtl, want)
                    res.check(ok, name + ":cfl", "%s: the time step allowed by a cell is %s x the CFL time step of that cell (rate computed at %s)" % (
                        name, "%.6g" % (dtl / want) if want else dtl, where))
                    # clamp to the end time, after the global reduction
                    if config == "mpi":
                        for gdt in (rq(1, 16), rq(7, 8), rq(3, 1)):
                            x, _ = ev(R, dat, F, post["m_dt"], {"allreduced%d" % R.comm[0]["n"]: gdt, "<reduced>": rq(12345, 7)})
                            w = min(gdt[1], te - t0)
                            res.check(close(x[1], w), name + ":clamp", "%s: with a global minimum of %s at t=%s the step uses dt=%s instead of %s" % (name, gdt[1], t0, x[1], w))
    # ghost cells: no contribution whatever their contents
    acc = rq(987, 3)
    def sym(F):
        sv = MData(dim, fam, 1).symval(); sv.update(t=rq(1, 3), redacc=acc)
        D = DenoR(R.I, F, 1, R.start, leaf=lambda D, a, i: rq(1 + shash(a, pkey(i)), 64), symval=sv)
        return D.val(L.red, D.env(X_))
    for d in range(dim):
        for side in (0, 1):
            F = Facts([p for q in range(dim) for p in (padd(X[q], dom[q][0], -1), padd(padd(dom[q][1], pc(-1)), X[q], -1), padd(n[q], pc(-GW[fam])))])
            F = F.add(padd(pc(GW[fam] - 1), X[d], -1)) if side == 0 else F.add(padd(X[d], padd(n[d], pc(GW[fam])), -1))
            if F.empty(): res.ok(); continue
            try: vals = with_cases(F, sym)
            except Unstable: vals = [(F, (None,))]
            for _, v in vals:
                res.check(v[0] == acc[0], name + ":ghost%s%d" % (AX[d], side), "%s: ghost cells beyond the %s %s face contribute to the time step (%s)" % (
                    name, "upper" if side else "lower", AX[d], where))
    # -- the update and the clock use this step
    for s in seeds[:1]:
        dat = MData(dim, fam, s, (0, 0, 0), 100); dat.over = {"t": rq(5, 2)}; dat.over.update({"allreduced%d" % c["n"]: rq(11, 64) for c in R.comm})
        F = interior(dim, GW[fam])
        a, _ = ev(R, dat, F, post["m_dt"])
        c, _ = ev(R, dat, F, post["m_t"])
        res.check(c[0] == (a[0] + dat.over["t"][0]) % PR, name + ":clock", "%s: the time after the step is not the time before plus the time step" % name)
        # two rates that give the same (clamped) step must give the same update, and likewise two end times that do not clamp
        if config == "mpi": continue
        D0 = None
        for tag, (r1, e1), (r2, e2) in (("clamped", (rq(1, 64), rq(10, 4)), (rq(1, 8), rq(10, 4))), ("unclamped", (rq(64, 1), rq(1000, 4)), (rq(64, 1), rq(2000, 4)))):
            got = []
            for r_, e_ in ((r1, e1), (r2, e2)):
                dat.over = {"t": rq(39, 16), "<reduced>": r_, "cfg:run/tEnd": e_}
                D = DenoR(I, generic(R), dat.seed, R.late, leaf=dat.leaf(R.old), symval=dat.symval())
                got.append([newval(D, R, v)[0] for v in (0, 1, 2)])
                res.count("value_graph_nodes", D.touched)
            res.check(got[0] == got[1], name + ":use" + tag, "%s: the update does not advance by the time step that is added to the clock (%s)%s" % (name, tag, site(R, 0)))
    if config == "mpi":
        res.check(len(R.comm) == 1 and all(several(c) is True for c in R.comm[0]["pc"]), name + ":allreduce", "%s: %d all-reduce calls set the time step, expected exactly one on every rank" % (name, len(R.comm)))
        for c in R.comm:
            w = " ".join(c["stack"][:3])
            res.check(c["count"] == 1, name + ":allreduce:n", "%s: all-reduce of %r elements (%s)" % (name, c["count"], w))
            res.check(c["op"] == "min", name + ":allreduce:op", "%s: the all-reduce does not take the minimum over ranks but '%s' (%s)" % (name, c["op"], w))
            res.check(c["type"] == "double", name + ":allreduce:type", "%s: the time step, a double, is reduced as MPI type '%s' (%s)" % (name, c["type"], w))
    # -- stopping condition
    return res


def task_finished(config):
    res = Result()
    for fam, dim in ((HY, 2), (MH, 3)):
        P = prog(config)
        c = {("OTHER", "implementationVersion"): 0, ("hydro", "riemann"): "hll", ("hydro", "slope_type"): 1, ("run", "noutput"): 0, ("run", "restart_enabled"): False,
             ("gravity", "static"): False, ("gravity", "point"): False}
        R = solver_run(P, sname(fam, dim), scls(fam, dim), c)
        I, st = R.I, R.st
        st.mem[R.sloc + ("m_t",)] = mk("sym", "t"); st.mem[R.sloc + ("m_iteration",)] = psym("iter")
        f = find_method(P, scls(fam, dim), "finished")
        if f is None: raise AnalysisBroken("finished() vanished")
        v = I.call_repo(st, R.fr, f, None, 0, R.sloc)
        b = I.tobool(v)
        for past in (0, 1):
            for more in (0, 1):
                F = Facts([padd(psym("cfg:run/nstepmax"), psym("iter"), -1).__class__({})])
                it, mx = psym("iter"), psym("cfg:run/nstepmax")
                F = Facts([padd(it, mx, -1)]) if more else Facts([padd(padd(mx, it, -1), pc(-1))])
                sv = {"t": rq(3, 1) if past else rq(2, 1), "cfg:run/tEnd": rq(3, 1)}
                D = DenoR(I, F, 1, len(I.events), leaf=lambda *a: None, symval=sv)
                try: got = b if isinstance(b, bool) else D.bval(b, D.env({}))
                except Undecided as u: raise AnalysisBroken("finished() depends on %r" % (u.atom,))
                res.check(got == bool(past or more), "finished:%s:%d%d" % (sname(fam, dim), past, more),
                          "%s: finished() at %s is %s with the end time %sreached and the step limit %sreached" % (
                              sname(fam, dim), f.where(), got, "" if past else "not ", "" if more else "not "))
    return res


def dt_tasks(tier):
    t = []
    for config in ("serial", "mpi"):
        for fam in (HY, MH):
            for dim in (2, 3):
                for it in ((0, 1) if tier == "quick" else (0, 1, 2, 3, 7)):
                    for g in ((False, True) if fam == HY else (False,)):
                        t.append((task_dt, (fam, dim, it, g, config, tier)))
        t.append((task_finished, (config,)))
    from .checks_sdm import dt_sdm_tasks
    return t + dt_sdm_tasks(tier)


def prepare(pid, tier):
    prog("serial"); prog("mpi")

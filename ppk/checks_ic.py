"""Initial conditions: every cell gets a physical state that depends only on where the cell is in the global domain."""
from .checks_mem import *
from .checks_mpi import GData, proc_of

VEL = {"kelvin_helmholtz": ("KH/vflow_in", "KH/vflow_out", "KH/w0", "KH/amplitude"), "gresho_vortex": ("Gresho/u", "Gresho/v", "Gresho/w"),
       "implode": tuple("implode/%s_%s" % (a, b) for a in ("vx", "vy", "vz", "Bx", "By", "Bz") for b in ("inner", "outer")),
       "isentropic_vortex": ("isentropic_vortex/vx_ambient", "isentropic_vortex/vy_ambient"), "rotor": ("rotor/u0", "rotor/b0"),
       "field_loop": ("FieldLoop/vflow", "FieldLoop/amp", "FieldLoop/amplitude"), "rayleigh_taylor": ("rayleigh_taylor/amplitude",)}
KHV = ("robertson", "sine", "rand", "none")
# random perturbations differ from process to process by construction; vector potentials are evaluated on the mesh
NOT_POINTWISE = {"field_loop", "wave"}


def ic_build(config, fam, dim, problem, kh, gravity=False, more={}):
    c = {("OTHER", "implementationVersion"): 0, ("hydro", "slope_type"): 1, ("gravity", "static"): gravity, ("gravity", "point"): False,
         ("run", "noutput"): 0, ("run", "restart_enabled"): False, ("hydro", "problem"): problem}
    if problem == "kelvin_helmholtz":
        c.update({("KH", "perturbation_rand"): kh == "rand", ("KH", "perturbation_sine"): kh == "sine", ("KH", "perturbation_sine_robertson"): kh == "robertson"})
    c.update(more)
    R = solver_run(prog(config), sname(fam, dim), scls(fam, dim), c)
    R.fam, R.dim, R.gw = fam, dim, GW[fam]
    ks = [k for k, e in enumerate(R.I.events) if e[0] == "launch" and is_fill(e[1])]
    if not ks: raise AnalysisBroken("%s: no boundary-filling kernel after the initial condition" % sname(fam, dim))
    R.end = ks[0]; R.old = "U"; R.start = 0
    return R


def iname(fam, dim, problem, kh): return "%s problem=%s%s" % (sname(fam, dim), problem, (" perturbation=" + kh) if problem == "kelvin_helmholtz" else "")


class IDeno(Deno):
    """freshly allocated arrays hold zeros"""
    def base_leaf(self, alloc, idx):
        self.zeros = getattr(self, "zeros", set()); self.zeros.add(alloc)
        return 0


def state(D, R, off=(0, 0, 0)):
    idx = tuple(unpoly(padd(X[d], pc(off[d]))) for d in range(R.dim))
    return [D.load("U", idx + (v,), R.end) for v in range(nvar(R.fam, R.dim))]


def where_ic(R):
    s = []
    for e in R.I.events[:R.end]:
        if e[0] == "launch" and any(x[0] == "write" and x[1] == "U" for x in e[1].effects):
            w = "%s at %s" % (e[1].cls.split("::")[-1], wherefn(e[1]))
            if w not in s: s.append(w)
    return ", ".join(s) or "no kernel"


def mesh(seed, dim, **over):
    """residues of mesh parameters and of the index of the target cell"""
    s = Data(dim, HY, seed).symval()
    for d in range(3): s["ijk"[d]] = hsh(seed, "cell", d)
    return s


def nojump(m, s, tag):
    for d in "xyz": m["cfg:implode/B%s_inner" % d] = m["cfg:implode/B%s_outer" % d] = hsh(s, tag, d)
    return m


def pressure(D, R, S, up):
    """thermal pressure over gamma-1 from the conserved variables"""
    e = S[1]
    nd = 3 if (R.fam == MH or R.dim == 3) else 2
    for d in range(nd): e -= S[2 + d] * S[2 + d] % PR * inv(2 * S[0] % PR)
    if R.fam == MH:
        for d in range(3):
            b = (S[5 + d] + up[d][5 + d]) * frac(Fraction(1, 2)) % PR if d < R.dim else S[5 + d]
            e -= b * b % PR * frac(Fraction(1, 2))
    return e % PR


def task_ic(fam, dim, problem, kh, gravity, tier):
    res = Result(); res.count("contexts")
    R = ic_build("serial", fam, dim, problem, kh, gravity)
    name = iname(fam, dim, problem, kh); W = "; set by " + where_ic(R)
    gen = generic(R)
    for s in trial_seeds(tier, 3, 10):
        # every cell gets density and energy
        D = IDeno(R.I, gen, s, 0, symval=mesh(s, dim))
        S = state(D, R)
        for v in (0, 1):
            res.check(S[v] != 0, name + ":assigned", "%s: the initial condition leaves %s of interior cells unset (zero)%s" % (name, VNAME[v], W))
        if 0 in S[:2]: return res
        if kh == "rand": continue
        # a mesh three times finer has a cell centre at the same place
        if problem not in NOT_POINTWISE:
            m2 = mesh(s, dim)
            for d in range(dim):
                m2["cfg:mesh/n" + AX[d]] = 3 * m2["cfg:mesh/n" + AX[d]] % PR; m2["ijk"[d]] = (3 * m2["ijk"[d]] + 1 - 2 * R.gw) % PR
            D2 = IDeno(R.I, gen, s, 0, symval=m2); S2 = state(D2, R)
            for v in ((0, 2, 3, 4) if fam == MH else range(nvar(fam, dim))):
                res.check(S[v] == S2[v], name + ":centre", "%s: the initial %s of a cell is not the one of its centre: cells of a mesh and of a refined mesh with the same centre differ%s" % (name, VNAME[v], W))
        # velocity and field parameters do not change the thermal pressure
        if problem in VEL:
            # (a jump of the implode field is not divergence-free, so its cell-centred energy is not defined: no jump here)
            m1 = nojump(mesh(s, dim), s, "B"); m2 = mesh(s, dim)
            for n in VEL[problem]: m2["cfg:" + n] = hsh(s, "other", n)
            m2 = nojump(m2, s, "B'")
            D = IDeno(R.I, gen, s, 0, symval=m1); S = state(D, R)
            up = [state(D, R, tuple(int(q == d) for q in range(3))) for d in range(dim)] if fam == MH else []
            D2 = IDeno(R.I, gen, s, 0, symval=m2); S2 = state(D2, R)
            up2 = [state(D2, R, tuple(int(q == d) for q in range(3))) for d in range(dim)] if fam == MH else []
            if S2[0] == S[0]:
                res.check(pressure(D, R, S, up) == pressure(D2, R, S2, up2), name + ":energy",
                          "%s: the initial energy is not internal + kinetic%s energy: the thermal pressure changes with the velocity or field parameters%s" % (name, " + magnetic" if fam == MH else "", W))
            else: res.check(False, name + ":density", "%s: the initial density changes with velocity or field parameters%s" % (name, W))
        if fam == MH:
            m2 = nojump(mesh(s, dim), s, "B")
            D2 = IDeno(R.I, gen, s, 0, symval=m2); S2 = state(D2, R); div = 0
            for d in range(dim):
                h = R.st.mem[R.ploc + ("d" + AX[d],)]
                div += (state(D2, R, tuple(int(q == d) for q in range(3)))[5 + d] - S2[5 + d]) * inv(D2.val(h, D2.env({})))
            res.check(div % PR == 0, name + ":divB", "%s: the initial magnetic field is not divergence-free on the mesh%s" % (name, W))
        res.count("value_graph_nodes", D.touched)
    return res


def task_ic_region(fam, dim, problem, kh, tier):
    """the initial value does not depend on the position relative to the borders of the index space"""
    res = Result(); res.count("contexts")
    R = ic_build("serial", fam, dim, problem, kh)
    name = iname(fam, dim, problem, kh)
    for s in trial_seeds(tier, 1, 3):
        def one(F):
            D = IDeno(R.I, F, s, 0, symval=mesh(s, dim)); return state(D, R)
        regs = with_cases(interior(dim, R.gw), one)
        ref = one(generic(R))
        res.count("regions", len(regs))
        for F, S in regs:
            for v, (a, b) in enumerate(zip(S, ref)):
                res.check(a == b, name + ":region", "%s: the initial %s next to a border is set by another formula than inside; set by %s" % (name, VNAME[v], where_ic(R)))
    return res


def task_ic_mpi(fam, dim, problem, kh, tier):
    res = Result(); res.count("contexts")
    RS = ic_build("serial", fam, dim, problem, kh); RM = ic_build("mpi", fam, dim, problem, kh)
    name = iname(fam, dim, problem, kh)
    for s in trial_seeds(tier, 2, 6):
        a = mesh(s, dim); b = dict(a)
        for d in range(dim):
            m = hsh(s, "m", d); p = hsh(s, "p", d); n = a["cfg:mesh/n" + AX[d]] * inv(m) % PR
            b["cfg:mpi/m" + AX[d]] = m; b["pos:" + AX[d]] = p; b["cfg:mesh/n" + AX[d]] = n
            b["ijk"[d]] = (a["ijk"[d]] - p * n) % PR
        SS = state(IDeno(RS.I, generic(RS), s, 0, symval=a), RS); SM = state(IDeno(RM.I, generic(RM), s, 0, symval=b), RM)
        for v, (x, y) in enumerate(zip(SS, SM)):
            res.check(x == y, name + ":mpi", "%s: the initial %s of a cell depends on the process that owns it: a distributed run differs from a single-process run; set by %s" % (name, VNAME[v], where_ic(RM)))
    return res


def task_ic_copy(fam, dim, tier):
    """after construction both state arrays hold the initial state and its boundary fill"""
    res = Result(); res.count("contexts")
    c = {("OTHER", "implementationVersion"): 0, ("hydro", "slope_type"): 1, ("gravity", "static"): False, ("gravity", "point"): False, ("run", "noutput"): 0,
         ("run", "restart_enabled"): False, ("hydro", "problem"): "implode" if fam == HY else "orszag_tang"}
    R = solver_run(prog("serial"), sname(fam, dim), scls(fam, dim), c); R.fam, R.dim, R.gw = fam, dim, GW[fam]
    n = len(R.I.events)
    for s in trial_seeds(tier, 1, 2):
        for k in range(-1, dim):
            D = IDeno(R.I, generic(R), s, 0, symval=mesh(s, dim))
            idx = tuple(unpoly(X[d]) if d != k else 0 for d in range(dim))
            if k >= 0: D = IDeno(R.I, Facts([p for p in interior(dim, R.gw).ps if not (set(p.syms()) & {"ijk"[k]})]).add(padd(psym("cfg:mesh/n" + AX[k]), pc(-2 * R.gw))), s, 0, symval=mesh(s, dim), )
            def one(F):
                D = IDeno(R.I, F, s, 0, symval=mesh(s, dim))
                return [(D.load("U", idx + (v,), n), D.load("U2", idx + (v,), n)) for v in range(nvar(fam, dim))]
            for F, r in with_cases(D.facts, one):
                for v, (a, b) in enumerate(r):
                    res.check(a == b, sname(fam, dim) + ":copy", "%s: after construction the two state arrays differ in %s" % (sname(fam, dim), VNAME[v]))
    return res


def sdm_ic(dim, N, problem, kh, more={}):
    from .sdm import sdm_cls
    c = {("run", "noutput"): 0, ("run", "restart_enabled"): False, ("hydro", "problem"): problem, ("hydro", "mu"): 0, ("hydro", "kappa"): 0,
         ("gravity", "static"): False, ("gravity", "point"): False, ("sdm", "forward_euler"): True,
         ("isentropic_vortex", "use_tEnd"): False}
    if problem == "kelvin_helmholtz":
        c.update({("KH", "perturbation_rand"): kh == "rand", ("KH", "perturbation_sine"): kh == "sine", ("KH", "perturbation_sine_robertson"): kh == "robertson"})
    c.update(more)
    R = solver_run(prog("serial"), "Hydro_SDM_%dD_degree%d" % (dim, N), sdm_cls(dim, N), c)
    R.fam, R.dim, R.N = HY, dim, N
    R.gw = R.st.mem.get(R.ploc + ("ghostWidth",)); R.nv = dim + 2; R.ndof = N ** dim
    ks = [k for k, e in enumerate(R.I.events) if e[0] == "launch" and is_fill(e[1])]
    R.end = ks[0] if ks else len(R.I.events)
    R.old = "U"; R.start = 0
    return R


def sdm_state(D, R):
    idx = tuple(unpoly(X[d]) for d in range(R.dim))
    return [[D.load("U", idx + (v * R.ndof + q,), R.end) for v in range(R.nv)] for q in range(R.ndof)]


SVEL = dict(VEL, jet=("jet/ujet",))
MUSCL_TOO = ("implode", "blast", "four_quadrant", "kelvin_helmholtz", "gresho_vortex", "isentropic_vortex")


def task_ic_sdm(dim, N, problem, kh, tier):
    """initial conditions at the solution points of the spectral difference solvers"""
    from .sdm import DenoD, ids_of
    class ID(DenoD):
        def base_leaf(self, alloc, idx): return 0
    res = Result(); res.count("contexts")
    R = sdm_ic(dim, N, problem, kh); RM = None
    name = "Hydro_SDM_%dD problem=%s%s" % (dim, problem, (" perturbation=" + kh) if kh else "")
    if problem in MUSCL_TOO and kh != "rand" and problem in probs(HY, dim): RM = ic_build("serial", HY, dim, problem, kh)
    W = "; set by " + where_ic(R); gen = generic(R); half = frac(Fraction(1, 2))
    for s in trial_seeds(tier, 2, 6):
        D = ID(R.I, gen, s, 0, symval=mesh(s, dim)); S = sdm_state(D, R)
        xs = [D.load("solution_pts_1d", (i,), R.end) for i in range(N)]
        for q in range(R.ndof):
            for v in (0, 1):
                res.check(S[q][v] != 0, name + ":assigned", "%s: the initial condition leaves %s at solution point %d unset (zero)%s" % (name, VNAME[v], q, W))
        if any(0 in x[:2] for x in S): return res
        if kh == "rand": continue
        for q in range(1, R.ndof):
            m2 = mesh(s, dim); ids = ids_of(q, N, dim)
            for d in range(dim): m2["ijk"[d]] = (m2["ijk"[d]] + xs[ids[d]] - xs[0]) % PR
            S2 = sdm_state(ID(R.I, gen, s, 0, symval=m2), R)
            for v in range(R.nv): res.check(S[q][v] == S2[0][v], name + ":point", "%s: the initial %s at a solution point is not a function of its coordinates: points %d and 0 use different formulas%s" % (name, VNAME[v], q, W))
        if RM is not None:
            for q in (0, R.ndof - 1):
                m2 = mesh(s, dim); ids = ids_of(q, N, dim)
                for d in range(dim): m2["ijk"[d]] = (m2["ijk"[d]] + RM.gw - R.gw + xs[ids[d]] - half) % PR
                S2 = state(IDeno(RM.I, generic(RM), s, 0, symval=m2), RM)
                for v in range(R.nv): res.check(S[q][v] == S2[v], name + ":muscl", "%s: the initial %s at a point differs from the one of %s%s and %s" % (name, VNAME[v], sname(HY, dim), W, where_ic(RM)))
        if problem in SVEL:
            m2 = mesh(s, dim)
            for n in SVEL[problem]: m2["cfg:" + n] = hsh(s, "other", n)
            D2 = ID(R.I, gen, s, 0, symval=m2); S2 = sdm_state(D2, R)
            for q in range(R.ndof):
                res.check(S[q][0] == S2[q][0] and pressure(D, R, S[q], []) == pressure(D2, R, S2[q], []), name + ":energy",
                          "%s: the initial energy is not internal + kinetic energy: density or thermal pressure change with the velocity parameters%s" % (name, W))
        def one(F): return sdm_state(ID(R.I, F, s, 0, symval=mesh(s, dim)), R)
        regs = with_cases(interior(dim, R.gw), one); res.count("regions", len(regs))
        for F, S2 in regs:
            res.check(S2 == S, name + ":region", "%s: the initial state next to a border is set by another formula than inside%s" % (name, W))
        res.count("value_graph_nodes", D.touched)
    return res


def sdm_ic_tasks(tier):
    t = []
    for dim in (2, 3):
        for p in SPROB:
            for kh in (KHV if p == "kelvin_helmholtz" else ("",)):
                for N in ((2, 3) if dim == 2 else (2,)) if tier == "quick" else ((1, 2, 3, 4, 5, 6) if dim == 2 else (2, 3, 4)):
                    t.append((task_ic_sdm, (dim, N, p, kh, tier)))
    return t


def ic_tasks(tier):
    t = []
    for fam in (HY, MH):
        for dim in (2, 3):
            for p in probs(fam, dim):
                for kh in (KHV if p == "kelvin_helmholtz" else ("",)):
                    t.append((task_ic, (fam, dim, p, kh, False, tier)))
                    if fam == HY and p in ("rayleigh_taylor", "rising_bubble", "disk"): t.append((task_ic, (fam, dim, p, kh, True, tier)))
                    if kh in ("", "robertson", "sine"):
                        t.append((task_ic_mpi, (fam, dim, p, kh, tier)))
                        t.append((task_ic_region, (fam, dim, p, kh, tier)))
            t.append((task_ic_copy, (fam, dim, tier)))
    return t + sdm_ic_tasks(tier)

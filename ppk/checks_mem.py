"""Kernels are free of data races and stay inside their arrays: every pair of accesses of two different iterations, and every array index,
is decided with affine entailment for all grid sizes."""
from .checks_fv import *
from .affine import infeasible, dnf

HPROB = {2: ("implode", "blast", "kelvin_helmholtz", "gresho_vortex", "four_quadrant", "isentropic_vortex", "rayleigh_taylor", "rising_bubble", "disk", "<other>"),
         3: ("implode", "blast", "kelvin_helmholtz", "gresho_vortex", "rayleigh_taylor", "rising_bubble", "disk", "<other>")}
MPROB = ("blast", "implode", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave", "<other>")


def probs(fam, dim): return HPROB[dim] if fam == HY else MPROB


def mesh_facts(I, gw):
    """what is assumed of every run: at least as many cells per direction as ghost layers"""
    return [padd(psym("cfg:mesh/n" + AX[d]), pc(-gw)) for d in range(3)]


def iter_facts(I, L, ren=lambda p: p, weak=False):
    """alternatives (the upper bound may be chosen by a configuration-dependent selection) of the facts on the iteration variables"""
    base = []
    sp = {s: (qn, rn, b) for s, qn, rn, b in L.splits}
    for s, qn, rn, b in L.splits:
        base += lower(I, sp, rn, pc(0), ren) + upper(I, sp, rn, topoly(b), ren)
    alts = [base]
    for s, lo, hi in L.iters:
        out = []
        if weak and isinstance(hi, Sel): alts = [a + lower(I, sp, s, pc(0), ren) if lo == 0 else a for a in alts]; continue
        for gl, l in sel_pieces(lo):
            for g, h in sel_pieces(hi):
                gg = tuple(gl) + tuple(g)
                cs = upper(I, sp, s, topoly(h), ren) + lower(I, sp, s, topoly(l), ren)
                for c in conj(gg):
                    for a in alts: out.append(a + cs + c)
        alts = out
    return alts


def lower(I, sp, s, l, ren):
    p = ren(I.norm(psym(s)))
    if s in sp and l.is_const() and l.const() == 0: return lower(I, sp, sp[s][0], pc(0), ren) + [p]
    return [padd(p, l, -1)]


def upper(I, sp, s, h, ren):
    out = []
    if s in sp:
        c = I.exact_div(h, sp[s][2])
        if c is not None: out = upper(I, sp, sp[s][0], c, ren)
    return out + [padd(padd(h, pc(-1)), ren(I.norm(psym(s))), -1)]


def conj(gs):
    out = [[]]
    for g in gs: out = [c + d for c in out for d in dnf(g, True)]
    return out


def subst_guard(ds, ren): return [[ren(p) for p in d] for d in ds]


class Kern:
    """accesses of one launch with their fact alternatives"""
    def __init__(self, I, L, gw):
        self.I = I; self.L = L
        self.mesh = mesh_facts(I, gw)
        for d in conj(tuple(b for b in L.pc)): self.pcs = d; break
        else: self.pcs = None
        self.its = [s for s, _, _ in L.iters]
        self.free = set(self.its)
        for s, q, r, b in L.splits: self.free |= {q, r}
        self.real = [s for s in self.free if not any(s == x[0] for x in L.splits)]
        self.ren = {s: psym("'" + s) for s in self.free}
        self.acc = {}
        for ef in L.effects:
            k = ef[0]
            if k not in ("read", "write") and not k.startswith("atomic"): continue
            self.acc.setdefault(ef[1], {}).setdefault((("atomic" if k.startswith("atomic") else k), ef[2], tuple(b.id if hasattr(b, "id") else b for b in ef[4])), ef)
        self.it1 = iter_facts(I, L)
        self.it2 = iter_facts(I, L, self.rename)
        self.w1 = iter_facts(I, L, weak=True); self.w2 = iter_facts(I, L, self.rename, True)
        self.gm = {}

    def norm(self, p): return self.I.norm(topoly(p))

    def rename(self, p):
        return psubst(p, {s: v for s, v in self.ren.items() if s in p.syms()})

    def guards(self, ef):
        r = self.gm.get(id(ef))
        if r is None:
            hp = set(b.id for b in self.L.pc if hasattr(b, "id"))
            r = self.gm[id(ef)] = [[self.norm(p) for p in c] for c in conj(tuple(b for b in ef[4] if not (hasattr(b, "id") and b.id in hp)))]
        return r

    def base(self): return self.mesh + (self.pcs or [])


def used(idx, out):
    for i in idx:
        if isinstance(i, Sel): raise AnalysisBroken("undistributed index %r" % (i,))
        if isinstance(i, Poly): out |= set(i.syms())
    return out


def bounds(K, res, name):
    bad = []
    n = 0
    for alloc, effs in K.acc.items():
        a = K.I.allocs.get(alloc)
        if alloc == "null":
            for ef in effs.values():
                n += 1
                if any(not Facts(K.base() + it + g).empty() for it in K.it1 for g in K.guards(ef)): bad.append((ef, "an unallocated array", "any", ef[2]))
            continue
        if a is None or a.ext is None: raise AnalysisBroken("%s: extents of array %s are unknown (kernel %s)" % (K.L.where, alloc, K.L.cls))
        seen = {}
        for (kind, idx, gk), ef in effs.items():
            if len(idx) != len(a.ext): bad.append((ef, alloc, "index count", idx)); continue
            for d, i in enumerate(idx):
                n += 1
                k = (d, i if isinstance(i, int) else i.key(), gk)
                if k in seen: continue
                seen[k] = True
                p = K.norm(i); up = padd(padd(topoly(a.ext[d]), pc(-1)), p, -1)
                ok = True
                for it in K.it1:
                    for g in K.guards(ef):
                        for q in (p, up):
                            if q.is_const():
                                if q.const() >= 0: continue
                            elif ok and Facts(K.base() + it + g).nonneg(q): continue
                            elif Facts(K.base() + it + g).empty(): continue
                            ok = False
                if not ok: bad.append((ef, alloc, d, idx))
    for ef in K.L.effects:
        if ef[0] == "oob_local":
            n += 1; bad.append((ef, ef[1], "local array", ef[2]))
    return n, bad


def indep(i, j, K):
    """index expressions that can never be equal"""
    if isinstance(i, int) and isinstance(j, int): return i != j
    return False


def races(K):
    """(number of pairs, conflicting pairs)"""
    n = 0; bad = []
    real = K.real
    for alloc, effs in K.acc.items():
        if not any(k[0] != "read" for k in effs): continue
        items = list(effs.items())
        done = set()
        for (k1, i1, g1), e1 in items:
            if k1 == "read": continue
            for (k2, i2, g2), e2 in items:
                if k1 == "atomic" and k2 == "atomic": continue
                if len(i1) != len(i2) or any(indep(a, b, K) for a, b in zip(i1, i2)): continue
                pk = (k1, str(i1), g1, k2, str(i2), g2)
                if (k2, str(i2), g2, k1, str(i1), g1) in done or pk in done: continue
                done.add(pk); n += 1
                if i1 == i2 and set(real) <= used_real(K, i1) and separable(K, i1): continue
                if conflict(K, i1, e1, i2, e2): bad.append((alloc, e1, e2))
    return n, bad


def used_real(K, idx):
    s = set()
    for i in idx:
        if isinstance(i, (int,)): continue
        s |= set(K.norm(i).syms())
    return s


def separable(K, idx):
    """each iteration variable is one index up to an offset: equal indices mean equal iterations"""
    got = set()
    for i in idx:
        if isinstance(i, int): continue
        p = K.norm(i)
        v = [m for m in p.t if any(s in K.free for s in m)]
        if len(v) == 1 and len(v[0]) == 1 and p.t[v[0]] in (1, -1): got.add(v[0][0])
    return set(K.real) <= got


def proj(K, gs):
    """only the conditions on iteration variables, without repetition"""
    return list({frozenset(p.key() for p in c): c for c in ([p for p in c if p.syms() & K.free] for c in gs)}.values())


def conflict(K, i1, e1, i2, e2):
    """can two different iterations make these two accesses to one element?"""
    p1 = proj(K, K.guards(e1)); p2 = proj(K, K.guards(e2))
    if len(K.w1) < len(K.it1) and not conflict1(K, i1, p1, i2, p2, K.w1, K.w2): return False
    if not conflict1(K, i1, p1, i2, p2, K.it1, K.it2): return False
    return conflict1(K, i1, K.guards(e1), i2, K.guards(e2), K.it1, K.it2)


def conflict1(K, i1, gs1, i2, gs2, its1, its2):
    eqs = [padd(K.norm(a), K.rename(K.norm(b)), -1) for a, b in zip(i1, i2)]
    sub = {}; left = []
    while eqs:
        d = psubst(eqs.pop(0), sub)
        if d.is_const():
            if d.const() != 0: return False
            continue
        v = next((m[0] for m in sorted(d.t, reverse=True) if len(m) == 1 and d.t[m] in (1, -1) and m[0].lstrip("'") in K.free), None)
        if v is None or any(v in m for m in d.t if len(m) > 1): left += [d, padd(Poly({}), d, -1)]; continue
        c = d.t[(v,)]
        r = padd(d, psym(v), -c)
        r = padd(Poly({}), r, -1) if c == 1 else r
        sub = {k: psubst(x, {v: r}) for k, x in sub.items()}; sub[v] = r
        eqs = [psubst(x, {v: r}) for x in eqs]; left = [psubst(x, {v: r}) for x in left]
    S = lambda ps: [psubst(p, sub) for p in ps]
    diffs = [psubst(padd(psym(s), psym("'" + s), -1), sub) for s in K.real]
    diffs = [d for d in diffs if not (d.is_const() and d.const() == 0)]
    if not diffs: return False
    base = S(K.base()) + left
    for it1 in its1:
        for g1 in gs1:
            F1 = base + S(it1 + g1)
            for it2 in its2:
                for g2 in gs2:
                    F = F1 + S(it2) + S([K.rename(p) for p in g2])
                    if contradiction(F): continue
                    for d in diffs:
                        for q in (padd(d, pc(-1)), padd(padd(Poly({}), d, -1), pc(-1))):
                            if not contradiction(F + [q]): return True
    return False


_CM = {}
def contradiction(F):
    """no integer point satisfies the facts (independent groups of facts are decided separately)"""
    groups = []
    for p in dict((p.key(), p) for p in F).values():
        if p.is_const():
            if p.const() < 0: return True
            continue
        ms = set(m for m in p.t if m); ps = [p]; rest = []
        for gm, gp in groups:
            if gm & ms: ms |= gm; ps += gp
            else: rest.append((gm, gp))
        groups = rest + [(ms, ps)]
    for ms, ps in groups:
        k = frozenset(p.key() for p in ps)
        r = _CM.get(k)
        if r is None: r = _CM[k] = infeasible(ps)
        if r: return True
    return False


_DONE = {}
def shape(L, I):
    return (L.cls, tuple((a, repr(b), repr(c)) for a, b, c in L.iters), tuple(b.id if hasattr(b, "id") else b for b in L.pc), len(L.effects))


def launches(R):
    return [e[1] for e in R.I.events if e[0] == "launch"]


def analyse(res, R, name, what, gw, frm=0):
    I = R.I; seen = set(); nk = 0
    for e in I.events[frm:]:
        if e[0] == "hostview" and what == "bounds": host_bound(res, I, e, gw, name)
        if e[0] != "launch": continue
        L = e[1]; k = shape(L, I)
        # kernels that swap the two state arrays are analysed once per array pair
        if k + tuple(sorted(set(ef[1] for ef in L.effects if isinstance(ef[1], str)))) in seen: continue
        seen.add(k + tuple(sorted(set(ef[1] for ef in L.effects if isinstance(ef[1], str)))))
        K = Kern(I, L, gw)
        if K.pcs is None: continue
        nk += 1
        cls = L.cls.split("::")[-1]
        if what == "bounds":
            n, bad = bounds(K, res, name)
            res.ok(n - len(bad)); res.count("array_accesses", n)
            for ef, alloc, d, idx in bad:
                res.obl += 1
                w = "%s:%s" % (ef[5].relfile(), ef[6])
                res.violate("%s:%s:%s" % (L.cls, alloc, w), "%s: kernel %s at %s can access %s%s outside the array (index %s of an array of %s)" % (
                    name, cls, w, alloc, fmt(idx), AX[d] if isinstance(d, int) and d < 3 else d, fmt(I.allocs[alloc].ext) if alloc in I.allocs else "fixed size"))
        else:
            n, bad = races(K)
            res.ok(n - len(bad)); res.count("access_pairs", n)
            for alloc, e1, e2 in bad:
                res.obl += 1
                res.violate("%s:%s:%s" % (L.cls, alloc, e1[6]), "%s: two iterations of kernel %s access the same element of %s without synchronisation: %s %s%s at %s:%s and %s %s%s at %s:%s" % (
                    name, cls, alloc, e1[0], alloc, fmt(e1[2]), e1[5].relfile(), e1[6], e2[0], alloc, fmt(e2[2]), e2[5].relfile(), e2[6]))
    res.count("kernels", nk)


def host_bound(res, I, e, gw, name):
    _, kind, alloc, idx, val, pcs, where = e[:7]
    a = I.allocs.get(alloc)
    if a is None or a.ext is None: raise AnalysisBroken("%s: host access to array %s of unknown size" % (where, alloc))
    ok = True
    for c in conj(pcs):
        F = Facts(mesh_facts(I, gw) + [I.norm(p) for p in c])
        for i, x in zip(idx, a.ext):
            for q in (I.norm(topoly(i)), padd(padd(topoly(x), pc(-1)), I.norm(topoly(i)), -1)):
                if not F.nonneg(q): ok = F.empty() and ok
    res.check(ok, "host:%s:%s" % (alloc, where), "%s: host code at %s can access %s%s outside the array" % (name, where, alloc, fmt(idx)))


def fmt(idx): return "(" + ",".join(str(i) if isinstance(i, int) else pstr(i) for i in idx) + ")"


def pstr(p):
    out = []
    for m, c in sorted(topoly(p).t.items(), key=str):
        s = "*".join(x.replace("cfg:mesh/", "") for x in m)
        out.append(str(c) if not s else (s if c == 1 else "%s*%s" % (c, s)))
    return "+".join(out).replace("+-", "-") or "0"


def task_step(what, config, fam, dim, impl, riem, slope, it, cfg, tier):
    res = Result()
    R = build(prog(config), fam, dim, impl, riem, slope, it, False, dict(cfg))
    res.count("contexts")
    # one further step: the roles of the two state arrays are exchanged
    analyse(res, R, ctxname(R) + (" mpi" if config == "mpi" else ""), what, GW[fam], R.n0)
    return res


def task_init(what, config, fam, dim, problem, gravity, tier):
    res = Result()
    c = {("OTHER", "implementationVersion"): 0, ("hydro", "slope_type"): 1, ("gravity", "static"): gravity, ("gravity", "point"): False,
         ("run", "noutput"): 0, ("run", "restart_enabled"): False, ("hydro", "problem"): problem}
    R = solver_run(prog(config), sname(fam, dim), scls(fam, dim), c)
    res.count("contexts")
    analyse(res, R, "%s problem=%s%s%s" % (sname(fam, dim), problem, " gravity" if gravity else "", " mpi" if config == "mpi" else ""), what, GW[fam])
    return res


SPROB = ("sod", "implode", "blast", "four_quadrant", "kelvin_helmholtz", "gresho_vortex", "wedge", "jet", "isentropic_vortex", "shu_osher")


def task_sdm(what, dim, N, rk, limiter, positivity, viscous, bc, problem, tier):
    """construction and one step of a spectral difference solver"""
    from .sdm import build_sdm, ctx_sdm
    res = Result()
    R = build_sdm(prog("serial"), dim, N, rk, "hllc", limiter, positivity, viscous, problem=problem, bc=bc)
    res.count("contexts")
    analyse(res, R, ctx_sdm(R) + " problem=" + problem, what, R.gw)
    return res


def sdm_mem_tasks(what, tier):
    t = []
    F, T = False, True
    for dim in (2, 3):
        for p in SPROB: t.append((task_sdm, (what, dim, 2, "euler", F, F, F, None, p, tier)))
        if dim == 2: t.append((task_sdm, (what, dim, 1, "euler", F, F, F, None, "implode", tier)))
        for N in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
            if dim == 3 and N > (2 if tier == "quick" else 4): continue
            for l, q, v in ((F, F, F), (T, F, F), (F, T, F), (F, F, T)):
                if tier == "quick" and N > 3 and (l or q or v): continue
                t.append((task_sdm, (what, dim, N, "euler", l, q, v, None, "implode", tier)))
        for rk in ("ssprk2", "ssprk3", "ssprk54"): t.append((task_sdm, (what, dim, 2, rk, F, F, F, None, "implode", tier)))
    return t


def mem_tasks(what, tier):
    t = []
    for (fam, dim), im in IMPLS.items():
        for impl in im:
            for it in (0, 1) if tier != "quick" else (impl % 2,):
                for s in (0, 1, 2, 3) if tier != "quick" else ((1, 2) if impl == 0 else (1,)):
                    for r in RIEM[fam] if tier != "quick" else RIEM[fam][-1:]:
                        t.append((task_step, (what, "serial", fam, dim, impl, r, s, it, (), tier)))
            if fam == HY: t.append((task_step, (what, "serial", fam, dim, impl, "hllc", 1, impl % 2, ((("gravity", "static"), True),), tier)))
        t.append((task_step, (what, "mpi", fam, dim, 0, None, 1, 0, (), tier)))
        for p in probs(fam, dim):
            for config in ("serial", "mpi"):
                g = fam == HY and p in ("rayleigh_taylor", "rising_bubble")
                t.append((task_init, (what, config, fam, dim, p, g, tier)))
                if fam == HY and (tier != "quick" or g or p == "disk"): t.append((task_init, (what, config, fam, dim, p, not g, tier)))
    t.sort(key=lambda x: -(x[0] is task_step) * (x[1][3] * 10 + (x[1][2] == MH) * 5))
    return t + sdm_mem_tasks(what, tier)


def race_tasks(tier): return mem_tasks("races", tier)
def bounds_tasks(tier): return mem_tasks("bounds", tier)


def prepare(pid, tier): prog("mpi"); prog("serial")


def sdmb_tasks(tier): return sdm_mem_tasks("bounds", tier)
def sdmr_tasks(tier): return sdm_mem_tasks("races", tier)

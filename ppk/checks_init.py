"""Definite initialisation: no value read from an unwritten local or member reaches a kernel store, reduction, guard or branch."""
from .checks_fv import *
from .dom import *


def uninit_reads(R):
    """(opaque name, location of the store it reaches)"""
    seen = {}
    def walk(n):
        if isinstance(n, tuple):
            r = ()
            for y in n: r = r or walk(y)
            return r
        if not isinstance(n, Node): return ()
        if n.id in seen: return seen[n.id]
        seen[n.id] = ()
        r = ()
        if n.op in ("opq", "bopq") and "uninit" in str(n.a[0]): r = (n.a[0],)
        else:
            for x in n.a:
                r = walk(x)
                if r: break
        seen[n.id] = r
        return r
    out = []; nst = 0
    for e in R.I.events:
        if e[0] != "launch": continue
        L = e[1]
        for b in L.pc:
            if walk(b): out.append((walk(b), L, None))
        for ef in L.effects:
            nst += 1
            for part in (ef[3], ef[4], ef[2]):
                r = walk(part)
                if r: out.append((r, L, ef)); break
    return out, nst


def task_uninit(fam, dim, impl, riem, slope, it):
    res = Result(); R = run_ctx(fam, dim, impl, riem, slope, it)
    bad, n = uninit_reads(R)
    res.count("kernel_stores", n); res.count("contexts")
    res.ok(n - len(bad))
    for r, L, ef in bad:
        w = "%s:%s" % (ef[5].relfile(), ef[6]) if ef else wherefn(L)
        res.obl += 1
        res.violate("%s impl=%d riemann=%s slope_type=%s" % (sname(fam, dim), impl, riem, slope),
                    "%s: an uninitialised value (%s) reaches the store at %s in kernel %s" % (ctxname(R), r[0], w, L.cls))
    return res


def task_uninit_sdm(dim, N, rk, riem, l, q, v, problem):
    from .sdm import build_sdm, ctx_sdm
    res = Result(); R = build_sdm(prog(), dim, N, rk, riem, l, q, v, problem=problem, bc=None)
    bad, n = uninit_reads(R)
    res.count("kernel_stores", n); res.count("contexts")
    res.ok(n - len(bad))
    for r, L, ef in bad:
        w = "%s:%s" % (ef[5].relfile(), ef[6]) if ef else wherefn(L)
        res.obl += 1
        res.violate("%s problem=%s" % (ctx_sdm(R), problem), "%s: an uninitialised value (%s) reaches the store at %s in kernel %s" % (ctx_sdm(R), r[0], w, L.cls))
    return res


def sdm_uninit_tasks(tier):
    from .checks_mem import SPROB
    t = []
    F, T = False, True
    for dim in (2, 3):
        for p in SPROB: t.append((task_uninit_sdm, (dim, 2, "euler", "hllc", F, F, F, p)))
        for rk in ("ssprk2", "ssprk3", "ssprk54"): t.append((task_uninit_sdm, (dim, 2, rk, "hllc", F, F, F, "implode")))
        for r in ("approx", "llf", "hll"): t.append((task_uninit_sdm, (dim, 2, "euler", r, F, F, F, "implode")))
        for N in (1, 2, 3, 4, 5, 6) if dim == 2 else (2, 3, 4):
            if tier == "quick" and N ** dim > 16: continue
            for l, q, v in ((F, F, F), (T, F, F), (F, T, F), (F, F, T)): t.append((task_uninit_sdm, (dim, N, "euler", "hllc", l, q, v, "implode")))
    return t


def uninit_tasks(tier):
    t = []
    for (fam, dim), im in IMPLS.items():
        for impl in im:
            for r in ("approx", "llf", "hll", "hllc", "hlld", "<unknown>"):
                for s in (0, 1, 2, 3) if (tier != "quick" or impl == 0) else (1, 2):
                    t.append((task_uninit, (fam, dim, impl, r, s, 0)))
    t.sort(key=lambda x: -(x[1][1] * 10 + (x[1][0] == MH) * 5))
    return t + sdm_uninit_tasks(tier)

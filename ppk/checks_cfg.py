"""Settings: what the parameter file says is what every part of the program uses."""
from .checks_fv import *
from .driver import *
from .absint import Interp, State
import json, os

GSRC = ["src/utils/config/ConfigMap.cpp", "src/utils/config/inih/INIReader.cpp"]
SOLVERS = {"Hydro_Muscl_2D": ("muscl::SolverHydroMuscl<2>", 2, 4, 2, False), "Hydro_Muscl_3D": ("muscl::SolverHydroMuscl<3>", 3, 5, 2, False),
           "MHD_Muscl_2D": ("muscl::SolverMHDMuscl<2>", 2, 8, 3, True), "MHD_Muscl_3D": ("muscl::SolverMHDMuscl<3>", 3, 8, 3, True)}
for _d, _ns in ((2, (1, 2, 3, 4, 5, 6)), (3, (2, 3, 4))):
    for _n in _ns: SOLVERS["Hydro_SDM_%dD_degree%d" % (_d, _n)] = ("sdm::SolverHydroSDM<%d, %d>" % (_d, _n), _d, _d + 2, None, False)


def setup_only(P, solver, cfg, config):
    """HydroParams::setup alone"""
    I = Interp(P); install_hooks(I); I.cfg = dict(cfg); I.cfg[("run", "solver_name")] = solver
    st = State(); fr = root_frame(I)
    if config == "mpi":
        from .mpi import MPI
        I.mpi = MPI(I)
    hp = "ppkMHD::HydroParams"; loc = ("params",)
    if hp not in P.records: raise AnalysisBroken("record HydroParams vanished")
    new_object(I, st, fr, hp, [], loc)
    f = P.find("setup", hp)
    if len(f) != 1: raise AnalysisBroken("HydroParams::setup vanished")
    st.mem[("dyncls", loc)] = hp
    I.call_repo(st, fr, f[0], None, 0, loc, argvals=[Ref(("opq", "configMap"))])
    return I, st, {l[1:]: v for l, v in st.mem.items() if l[0] == "params"}, fr


def canon_cfg(s):
    if s.startswith("cfg:"): return s.lower()
    return s


class CDeno(Deno):
    """names of settings are case insensitive"""
    def canon(self, s): return Deno.canon(self, canon_cfg(s))


def mesh_syms(P, seed):
    """all cfg symbols get values keyed by their lower-case name"""
    class S(dict):
        def get(self, k, d=None):
            if isinstance(k, str) and k.startswith("cfg:"): return hsh(seed, "cfg", k.lower())
            return d
    return S(_=0)


def num(I, v, seed):
    """value number of an integer, real or boolean value"""
    D = Deno(I, Facts([]), seed, len(I.events), symval=mesh_syms(None, seed), cfgbool=lambda n: bool(hsh(seed, "b", str(n).lower()) & 1))
    e = D.env({})
    if isinstance(v, bool): return ("b", v)
    if isinstance(v, (int, Fraction)): return frac(Fraction(v))
    if isinstance(v, Poly): return D.pval(I.norm(v))
    if isinstance(v, Sel): return num(I, v.a if D.bval(v.c, e) else v.b, seed)
    if isinstance(v, Node):
        if v.op in ("ge0", "eq0", "and", "or", "not", "bopq", "fgt0", "feq0"): return ("b", D.bval(v, e))
        if v.op == "i2f": return D.pval(I.norm(v.a[0]))
        return D.val(v, e)
    return ("raw", repr(v))


def same(I, a, b):
    return all(num(I, a, s) == num(I, b, s) for s in (11, 12, 13))


def fs(n): return mk("sym", "cfg:" + n)
def isy(n): return psym("cfg:" + n)


def expected_fields(gw, config):
    E = {}
    for d, a in enumerate("xyz"):
        E[("n" + a,)] = isy("mesh/n" + a); E[(a + "min",)] = fs("mesh/%smin" % a); E[(a + "max",)] = fs("mesh/%smax" % a)
        lo, hi = "ijk"[d] + "min", "ijk"[d] + "max"
        n = isy("mesh/n" + a)
        E[(lo,)] = 0; E[(hi,)] = padd(n, pc(2 * gw - 1)); E[("ijk"[d] + "size",)] = padd(n, pc(2 * gw))
        for s in ("min", "max"): E[("boundary_type_%s%s" % (a, s),)] = isy("mesh/boundary_type_%s%s" % (a, s))
        E[("d" + a,)] = ("cell", a)
    E[("nStepmax",)] = isy("run/nstepmax"); E[("tEnd",)] = fs("run/tend"); E[("nOutput",)] = isy("run/noutput"); E[("nlog",)] = isy("run/nlog")
    for k in ("gamma0", "cfl", "slope_type", "smallc", "smallr", "cp", "mu", "kappa"): E[("settings", k)] = fs("hydro/" + k)
    E[("settings", "iorder")] = isy("hydro/iorder"); E[("niter_riemann",)] = isy("hydro/niter_riemann")
    for k in ("smallp", "smallpp", "gamma6"): E[("settings", k)] = ("derived", k)
    if config == "mpi":
        for a in "xyz": E[("m" + a,)] = isy("mpi/m" + a)
    return E


def want(I, e, seed, config):
    if not (isinstance(e, tuple) and e and e[0] in ("cell", "derived")): return num(I, e, seed)
    c = lambda n: hsh(seed, "cfg", "cfg:" + n)
    if e[0] == "cell":
        a = e[1]; n = c("mesh/n" + a) * (c("mpi/m" + a) if config == "mpi" else 1) % PR
        return (c("mesh/%smax" % a) - c("mesh/%smin" % a)) * inv(n) % PR
    g, cc, r = c("hydro/gamma0"), c("hydro/smallc"), c("hydro/smallr")
    if e[1] == "smallp": return cc * cc * inv(g) % PR
    if e[1] == "smallpp": return r * cc * cc * inv(g) % PR
    return (g + 1) * inv(2 * g % PR) % PR


def task_fields(solver, config):
    res = Result(); P = prog(config)
    cls, dim, nbvar, gw, mhd = SOLVERS[solver]
    sel = {}
    for riem in ("approx", "llf", "hll", "hllc", "hlld", "bogus"):
        cfg = {("hydro", "riemann"): riem}
        if gw is None: cfg[("hydro", "mu")] = 0
        I, st, m, fr = setup_only(P, solver, cfg, config)
        sel[riem] = m.get(("riemannSolverType",))
    ok = ("llf", "hll", "hlld") if mhd else ("approx", "llf", "hll", "hllc")
    dflt = "hlld" if mhd else "approx"
    for riem in sel:
        if riem in ok: good = isinstance(sel[riem], int) and all(sel[riem] != sel[o] for o in ok if o != riem)
        else: good = sel[riem] == sel[dflt]
        res.check(good, "riemann:%s:%s" % (solver, riem), "%s (%s): hydro/riemann=%s selects %s" % (solver, config, riem,
                  "the same Riemann solver as another name (%r)" % (sel,) if riem in ok else "solver type %r instead of the fallback %s" % (sel[riem], dflt)))
    for mu in ((0, 1) if gw is None else (None,)):
        cfg = {("hydro", "riemann"): "llf"}
        if mu is not None: cfg[("hydro", "mu")] = mu
        I, st, m, fr = setup_only(P, solver, cfg, config)
        g = gw if gw is not None else (2 if mu else 1)
        E = expected_fields(g, config)
        if mu is not None: E[("settings", "mu")] = mu
        for k, e in sorted(E.items()):
            v = m.get(k)
            good = v is not None and all(num(I, v, s) == want(I, e, s, config) for s in (11, 12, 13))
            res.check(good, "field:%s:%s" % (solver, ".".join(k)), "%s (%s): HydroParams::%s is %s after setup, expected %s" % (solver, config, ".".join(k), short_(v), short_(e)))
        for k, w in ((("dimType",), dim), (("nbvar",), nbvar), (("ghostWidth",), g), (("mhdEnabled",), mhd)):
            v = m.get(k)
            res.check(v == w or (k == ("mhdEnabled",) and bool(v) == w and isinstance(v, (bool, int))), "shape:%s:%s" % (solver, k[0]), "%s (%s): HydroParams::%s is %r after setup, expected %r" % (solver, config, k[0], v, w))
    for iv, w in ((0, 0), (1, 1), (2, 2), (3, 0), (-1, 0)):
        cfg = {("hydro", "riemann"): "llf", ("OTHER", "implementationVersion"): iv}
        if gw is None: cfg[("hydro", "mu")] = 0
        I, st, m, fr = setup_only(P, solver, cfg, config)
        res.check(m.get(("implementationVersion",)) == w, "impl:" + solver, "%s (%s): OTHER/implementationVersion=%d gives variant %r, expected %r" % (solver, config, iv, m.get(("implementationVersion",)), w))
    for no, w in ((0, False), (-1, True), (7, True)):
        cfg = {("hydro", "riemann"): "llf", ("run", "noutput"): no}
        if gw is None: cfg[("hydro", "mu")] = 0
        I, st, m, fr = setup_only(P, solver, cfg, config)
        v = m.get(("enableOutput",))
        res.check(isinstance(v, (bool, int)) and bool(v) == w, "output:" + solver, "%s (%s): with run/nOutput=%d output is %s" % (solver, config, no, "enabled" if v else "disabled"))
    res.count("setups", 14)
    return res


SDM_CFG = {("sdm", "forward_euler"): True, ("sdm", "ssprk2"): False, ("sdm", "ssprk3"): False, ("sdm", "ssprk54"): False, ("sdm", "limiter_enabled"): False,
           ("sdm", "positivity_enabled"): False, ("hydro", "mu"): 0, ("hydro", "kappa"): 0, ("hydro", "problem"): "implode", ("run", "noutput"): 0}


def short_(v):
    s = repr(v)
    return s if len(s) < 120 else s[:117] + "..."


# ---- defaults --------------------------------------------------------------------------------------------------------------
def literal(I, v):
    """printable canonical form of a default value"""
    if isinstance(v, bool): return str(v).lower()
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, Node):
        r = repr(v)
        if v.op == "c": return "%.12g" % float(v.a[0])
        return show(v, 12)
    return repr(v)


class Nd:
    """builds value-graph nodes from the formulas of spec/defaults.json"""
    def __init__(s, v): s.v = v
    def __add__(s, o): return Nd(mk("+", s.v, nd(o)))
    def __radd__(s, o): return Nd(mk("+", nd(o), s.v))
    def __sub__(s, o): return Nd(mk("-", s.v, nd(o)))
    def __rsub__(s, o): return Nd(mk("-", nd(o), s.v))
    def __mul__(s, o): return Nd(mk("*", s.v, nd(o)))
    def __rmul__(s, o): return Nd(mk("*", nd(o), s.v))
    def __truediv__(s, o): return Nd(mk("/", s.v, nd(o)))
    def __rtruediv__(s, o): return Nd(mk("/", nd(o), s.v))


class NdSym:
    def __getitem__(s, k): return Nd(fs(k[4:]))


class NdFn:
    def __getitem__(s, k): return Nd(mk("fn", k[0], *[nd(x) for x in k[1:]]))


def nd(o): return o.v if isinstance(o, Nd) else fconst(Fraction(repr(o)))


def is_default(I, d, w):
    """does default value d equal the table entry w (a literal or a formula over other settings)?"""
    if literal(I, d) == w: return True
    if not isinstance(d, (Node, Poly, int)) or isinstance(d, bool) or w in ("true", "false") or w.startswith('"'): return False
    v = nd(eval(w, {"__builtins__": {}}, {"sym": NdSym(), "fn": NdFn()}))
    return same(I, d, v)


def load_defaults():
    return json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "defaults.json")))


PROBLEMS_FV = {2: ("blast", "implode", "four_quadrant", "kelvin_helmholtz", "gresho", "gresho_vortex", "rayleigh_taylor", "rising_bubble", "disk", "isentropic_vortex", "wedge", "jet"),
               3: ("blast", "implode", "kelvin_helmholtz", "gresho_vortex", "rayleigh_taylor", "rising_bubble", "disk")}
PROBLEMS_MH = {2: ("blast", "implode", "OrszagTang", "orszag_tang", "rotor", "field_loop", "kelvin_helmholtz", "wave"),
               3: ("blast", "implode", "OrszagTang", "orszag_tang", "rotor", "field_loop", "kelvin_helmholtz", "rayleigh_taylor")}


PROBLEMS_SDM = {2: ("sod", "implode", "blast", "four_quadrant", "kelvin-helmholtz", "kelvin_helmholtz", "gresho_vortex", "wedge", "jet", "isentropic_vortex", "shu_osher"),
                3: ("implode", "blast", "kelvin_helmholtz", "gresho_vortex", "isentropic_vortex")}


def default_reads(config, solver, problem):
    """every setting read while the solver is built: key -> list of (kind, default, where)"""
    cls, dim, nbvar, gw, mhd = SOLVERS[solver]
    P = prog(config)
    c = {("hydro", "riemann"): "llf", ("OTHER", "implementationVersion"): 0, ("run", "noutput"): 0, ("hydro", "problem"): problem}
    if gw is None: c.update(SDM_CFG); c[("hydro", "problem")] = problem
    R = solver_run(P, solver, "ppkMHD::" + cls, c)
    return R


def task_defaults(config, solver, problem):
    res = Result(); R = default_reads(config, solver, problem); I = R.I
    T = load_defaults()
    for (sec, name), uses in sorted(I.cfg_used.items()):
        key = ("%s/%s" % (sec, name)).lower()
        for kind, d, where in uses:
            if d is None: continue
            w = T.get(key)
            if w is None: res.count("settings_without_table_entry"); continue
            res.check(any(is_default(I, d, x) for x in w), "default:" + key, "%s: setting %s defaults to %s, expected %s" % (where, key, literal(I, d), " or ".join(w)))
    res.count("contexts")
    return res


# ---- solver table ----------------------------------------------------------------------------------------------------------
def task_factory(config):
    res = Result(); P = prog(config)
    I = Interp(P); install_hooks(I); st = State(); fr = root_frame(I)
    fc = "ppkMHD::SolverFactory"; loc = ("factory",)
    if fc not in P.records: raise AnalysisBroken("record SolverFactory vanished")
    new_object(I, st, fr, fc, [], loc)
    tab = {}
    for l, v in st.mem.items():
        if l[0] == "factory" and isinstance(l[-1], tuple) and l[-1][0] == "key" and isinstance(v, FRef): tab[l[-1][1]] = v
    names = [s for s in SOLVERS if config == "serial" or "SDM" not in s]
    for s in names:
        cls = "ppkMHD::" + SOLVERS[s][0]
        v = tab.get(s)
        if not res.check(v is not None, "factory:" + s, "%s: solver name %s is not registered" % (config, s)): continue
        f = P.funcs.get(v.fid)
        if f is None: raise AnalysisBroken("creation function of %s not found" % s)
        made = created_class(P, f)
        res.check(made == {cls}, "factory:" + s, "%s: solver name %s creates %s, expected %s (%s:%d)" % (config, s, sorted(made) or "nothing", cls, f.relfile(), f.line))
    for s in tab:
        res.check(s in SOLVERS, "factory:" + str(s), "solver name %s is registered but is not a documented solver" % s)
    res.count("registered_solvers", len(tab))
    return res


def created_class(P, f):
    """classes constructed with new in f"""
    out = set()
    def walk(x):
        if isinstance(x, list):
            if x and x[0] == "new": newc(x)
            for y in x: walk(y)
    def newc(x):
        def c2(y):
            if isinstance(y, list):
                if y and y[0] == "ctor":
                    g = P.funcs.get(y[2])
                    if g is not None and g.cls: out.add(g.cls)
                for z in y: c2(z)
        c2(x)
    walk(f.body)
    return out


# ---- getters ---------------------------------------------------------------------------------------------------------------
def task_getters(config):
    res = Result(); P = prog(config, GSRC)
    def call(cls, meth, text, default, parsed=None, ok=True):
        I = Interp(P); st = State(); fr = root_frame(I)
        I.hooks["INIReader::getString"] = lambda *a: text
        def conv(I_, st_, fr_, args, line, this):
            v = [I_.ev(st_, fr_, a) for a in args]
            st_.mem[v[1].loc] = 1004 if ok else 1000; st_.log.add(v[1].loc)
            if len(v) > 2: base.append(v[2])
            return parsed
        for n in ("strtof", "strtod", "strtol", "strtoll", "std::strtof", "std::strtod", "std::strtol"): I.hooks[n] = conv
        f = P.find(meth, cls)
        if len(f) != 1: raise AnalysisBroken("%s::%s vanished" % (cls, meth))
        return I.call_repo(st, fr, f[0], None, 0, ("cm",), argvals=["sec", "key", default]), f[0], I
    base = []
    for s, w in [(x, True) for x in ("1", "yes", "true", "on")] + [(x, False) for x in ("0", "no", "false", "off")] + [(x, None) for x in ("", "maybe")]:
        for d in (True, False):
            v, f, I = call("ConfigMap", "getBool", s, d)
            e = d if w is None else w
            res.check(isinstance(v, (bool, int)) and bool(v) == e, "getBool", "%s:%d: ConfigMap::getBool returns %r for the text '%s' with default %s" % (f.relfile(), f.line, v, s, d))
    for ok in (True, False):
        v, f, I = call("ConfigMap", "getFloat", 1000, mk("sym", "default"), mk("sym", "parsed"), ok)
        e = mk("sym", "parsed" if ok else "default")
        res.check(v is e or (isinstance(v, Node) and same(I, v, e)), "getFloat", "%s:%d: ConfigMap::getFloat returns %s for %s text" % (f.relfile(), f.line, short_(v), "numeric" if ok else "missing or non-numeric"))
        v, f, I = call("INIReader", "getInteger", 1000, psym("default"), psym("parsed"), ok)
        e = psym("parsed" if ok else "default")
        res.check(v == e, "getInteger", "%s:%d: INIReader::getInteger returns %s for %s text" % (f.relfile(), f.line, short_(v), "numeric" if ok else "missing or non-numeric"))
    res.check(all(b == 0 for b in base) and base, "getInteger:base", "integer settings are parsed in base %r, expected decimal or 0x hexadecimal" % (base,))
    res.count("getters", 3)
    return res


# ---- solver fields ---------------------------------------------------------------------------------------------------------
def task_solver(config, solver):
    """settings the solver object keeps itself"""
    res = Result(); cls, dim, nbvar, gw, mhd = SOLVERS[solver]
    P = prog(config)
    c = {("hydro", "riemann"): "llf", ("OTHER", "implementationVersion"): 0, ("run", "restart_enabled"): False}
    if gw is None: c.update(SDM_CFG)
    R = solver_run(P, solver, "ppkMHD::" + cls, c); I = R.I
    sf = lambda n: R.st.mem.get(R.sloc + (n,))
    for n, e in (("m_tEnd", fs("run/tend")), ("m_t", fs("run/tcurrent")), ("m_static_gravity_enabled", mk("bopq", "cfg:gravity/static")), ("m_point_gravity_enabled", mk("bopq", "cfg:gravity/point")),
                 ("m_iteration", 0), ("m_times_saved", 0)):
        v = sf(n)
        if n == "m_static_gravity_enabled" and gw is None: continue
        res.check(v is not None and same(I, v, e), "solver:%s:%s" % (solver, n), "%s (%s): %s is %s after construction, expected %s" % (solver, config, n, short_(v), short_(e)))
    g = sf("m_gravity_enabled")
    e = bor(mk("bopq", "cfg:gravity/static"), mk("bopq", "cfg:gravity/point"))
    res.check(g is not None and all(same_bool(I, g, e, s) for s in range(8)), "solver:%s:gravity" % solver, "%s (%s): gravity is enabled when %s, expected when gravity/static or gravity/point is set" % (solver, config, short_(g)))
    res.count("contexts")
    return res


def same_bool(I, a, b, s): return num(I, a, s) == num(I, b, s)


def cfg_tasks(tier):
    T = []
    for config in ("serial", "mpi"):
        prog(config); prog(config, GSRC)
        names = [s for s in SOLVERS if config == "serial" or "SDM" not in s]
        for s in names: T.append((task_fields, (s, config)))
        T.append((task_factory, (config,))); T.append((task_getters, (config,)))
        for s in names:
            if "degree" in s and s[-1] not in "23": continue
            T.append((task_solver, (config, s)))
    for fam, tab in ((HY, PROBLEMS_FV), (MH, PROBLEMS_MH)):
        for dim in (2, 3):
            for p in tab[dim]: T.append((task_defaults, ("serial", sname(fam, dim), p)))
            T.append((task_defaults, ("mpi", sname(fam, dim), "blast")))
    for dim in (2, 3):
        for p in PROBLEMS_SDM[dim]: T.append((task_defaults, ("serial", "Hydro_SDM_%dD_degree2" % dim, p)))
    return T

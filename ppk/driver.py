"""Builds abstract program states: parameter setup, solver construction, one time step, from the real entry points."""
from .dom import *
from .ir import load_program, AnalysisBroken
from .absint import Interp, State, Frame, UNSET

MUSCL_SRC = ["src/shared/HydroParams.cpp", "src/shared/SolverBase.cpp", "src/muscl/SolverHydroMuscl.cpp", "src/muscl/SolverMHDMuscl.cpp",
             "src/shared/utils.cpp"]


class Run:
    """one abstract run: interpreter + state + solver object"""
    pass


def cfg_hook(kind):
    def h(I, st, fr, args, line, this):
        vals = [I.ev(st, fr, a) for a in args]
        sec, name = vals[0], vals[1]
        dflt = vals[2] if len(vals) > 2 else None
        if not isinstance(sec, str) or not isinstance(name, str):
            return I.opq_value(("cfg", repr(sec), repr(name)), {"k": kind})
        key = (sec, name)
        I.cfg_used.setdefault(key, []).append((kind, dflt, I.where(fr, line)))
        if key in I.cfg:
            v = I.cfg[key]
            if kind == "float": v = I.tofloat(v)
            return v
        nm = "cfg:%s/%s" % key
        if kind == "int": return psym(nm)
        if kind == "float": return mk("sym", nm)
        if kind == "bool": return mk("bopq", nm)
        return Opq(("cfg", sec, name))
    return h


def install_hooks(I):
    for cls in ("ConfigMap", "INIReader"):
        I.hooks[cls + "::getInteger"] = cfg_hook("int")
        I.hooks[cls + "::getFloat"] = cfg_hook("float")
        I.hooks[cls + "::getReal"] = cfg_hook("float")
        I.hooks[cls + "::getBool"] = cfg_hook("bool")
        I.hooks[cls + "::getBoolean"] = cfg_hook("bool")
        I.hooks[cls + "::getString"] = cfg_hook("string")


def root_frame(I):
    class F: pass
    f = F()
    f.types = []; f.disp = "<root>"; f.name = "<root>"; f.id = "<root>"; f.line = 0; f.cls = None; f.params = []; f.relfile = lambda: "<analysis>"
    fr = Frame(f, None, 0, None)
    return fr


def new_object(I, st, fr, cls, args, loc):
    """construct in-repo class object; args are values"""
    cs = [f for f in I.P.funcs.values() if f.kind == "ctor" and f.cls == cls and not f.copy and len(f.params) == len(args)]
    if not cs:
        if not args:
            t = I.P.typebyname.get(cls)
            I.default_fields(st, fr, loc, t); st.mem[("dyncls", loc)] = cls
            return
        raise AnalysisBroken("constructor of %s with %d arguments vanished" % (cls, len(args)))
    I.run_ctor(st, fr, loc, cs[0], None, 0, None, argvals=args)


def solver_run(P, solver_name, cls, cfg, opt=None, nonneg=None, max_unroll=4000, pre=None):
    I = Interp(P, **(opt or {}))
    I.max_unroll = max_unroll
    install_hooks(I)
    if pre: pre(I)
    I.cfg = dict(cfg)
    I.cfg[("run", "solver_name")] = solver_name
    st = State(); fr = root_frame(I)
    if P.config.startswith("mpi"):
        from .mpi import MPI
        I.mpi = MPI(I)
    ploc = ("params",)
    hp = "ppkMHD::HydroParams"
    if hp not in P.records: raise AnalysisBroken("record HydroParams vanished")
    new_object(I, st, fr, hp, [], ploc)
    setup = P.find("setup", hp)
    if len(setup) != 1: raise AnalysisBroken("HydroParams::setup vanished")
    st.mem[("dyncls", ploc)] = hp
    cm = Ref(("opq", "configMap"))
    I.call_repo(st, fr, setup[0], None, 0, ploc, argvals=[cm])
    R = Run(); R.I = I; R.st = st; R.fr = fr; R.ploc = ploc; R.cm = cm
    sloc = ("solver",)
    new_object(I, st, fr, cls, [Ref(ploc), cm], sloc)
    R.sloc = sloc; R.ctor_events = list(I.events)
    R.cls = cls
    return R


def step(R, iteration=None, method="next_iteration_impl"):
    """interpret one virtual step; returns list of events"""
    I, st, fr = R.I, R.st, R.fr
    cls = R.cls
    cur = cls; f = None
    while cur and f is None:
        c = I.P.find(method, cur)
        c = [x for x in c if x.cls == cur]
        f = c[0] if c else None
        r = I.rec(cur); bs = [b for b in (r or {}).get("bases", []) if I.rec(b) and I.rec(b)["repo"]]
        cur = bs[0] if bs else None
    if f is None: raise AnalysisBroken("%s::%s vanished" % (cls, method))
    if iteration is not None: st.mem[R.sloc + ("m_iteration",)] = iteration
    n0 = len(I.events)
    I.call_repo(st, fr, f, None, 0, R.sloc)
    return I.events[n0:]

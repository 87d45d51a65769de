"""Collective operations: every process of a distributed run performs the same ones, in the same order, with the same arguments.

A collective call is reached by all processes or by none when no condition it depends on (guards, loop conditions, carried loop values) contains a value that differs between
processes.  Values are followed to their sources: the rank and what is derived from it, array contents, clocks differ; settings, the process grid, results of all-process reductions
and broadcasts, contents of a shared file do not."""
from .checks_h5 import *
from .checks_out import out_run
from .checks_cfg import SOLVERS
from .ir import load_program
from .absint import Interp, State
from . import checks_out as CO
from .driver import *
from .mpi import Uni

COLL_H5 = {"Fcreate", "Fopen", "Fclose", "Dcreate2", "Dcreate1", "Dopen2", "Dopen1", "Dclose", "Dwrite", "Dread", "Acreate2", "Acreate1", "Awrite"}
def site1(d):
    for w in d["stack"]:
        if "mpiUtils" not in w: return w
    return d["where"]


def check_events(R, res, what, n0=0, uniform=(), events=None):
    I = R.I; U = Uni(I, uniform); stack = []; dims = {}; private = None; h5 = getattr(I, "h5", None)
    for e in (events if events is not None else I.events)[n0:]:
        if e[0] == "loop": stack.append(e[1][0]); continue
        if e[0] == "endloop":
            if stack: stack.pop()
            continue
        if e[0] == "mpi" and (e[1].get("kind") == "collective" or e[1]["name"] in ("Cart_create",)):
            d = e[1]; pc = d["pc"]; name = "MPI_" + d["name"]; w = site1(d)
            args = [d.get(k) for k in ("count", "root", "dims", "periods", "comm")]
        elif e[0] == "h5" and e[1] == "Screate_simple": dims[repr(e[2][0])] = e[2][1]; continue
        elif e[0] == "h5" and e[1] in COLL_H5:
            pc = e[3]; name = "H5" + e[1]; w = e[4]; d = e[2]; args = list(d)
            if e[1] in ("Fcreate", "Fopen"):
                pl, fl = h5.facc[repr(d[0])]
                private = None if repr(pl) in h5.mpio else d[0]      # a file opened by each process for itself
                if private is not None:
                    own = any(U(c) for c in pc) or U(d[1])
                    res.check(e[1] == "Fopen" or own, "share:%s:%s" % (name, w), "%s: every process creates the same file for itself (%s)" % (what, w))
            if private is not None:
                if e[1] == "Fclose": private = None
                continue
            if e[1] in ("Dwrite", "Dread"):
                if repr(d[4]) not in h5.coll: continue               # independent transfer
                args = [d[0], d[1], d[4]]
            if e[1].startswith(("Dcreate", "Acreate")): args += dims.get(repr(d[3]), []) or []
        else: continue
        res.count("collective calls"); key = "%s:%s" % (name, w)
        bad = frozenset()
        if any(U.several(c) is False for c in pc): continue       # a run on one process
        for c in pc: bad |= U(c)
        res.check(not bad, "cond:" + key, "%s: %s is called by some processes only: its condition depends on %s (%s)" % (what, name, ", ".join(sorted(bad)), w))
        bad = frozenset()
        for l in stack:
            bad |= U.loop(l)
        res.check(not bad, "loop:" + key, "%s: %s is called a different number of times by different processes: the loop depends on %s (%s)" % (what, name, ", ".join(sorted(bad)), w))
        bad = U(tuple(args))
        res.check(not bad, "args:" + key, "%s: processes call %s with different arguments: they depend on %s (%s)" % (what, name, ", ".join(sorted(bad)), w))
        if e[0] == "mpi" and d["name"] == "Bcast" and isinstance(d["buf"], (Sel, Lib, Opq, Node)): U.same[id(d["buf"])] = d["buf"]      # text the root has sent to all
        if e[0] == "mpi" and d["name"] in ("Allreduce", "Reduce", "Bcast"):
            res.check(d["type"] != "?" and d.get("op", "") != "?", "type:" + key, "%s: processes call %s with different types or operations (%s)" % (what, name, w))
    return U


def state_uniform(R, res, what, U, fields=("m_t", "m_dt", "m_iteration", "m_times_saved")):
    for f in fields:
        v = R.st.mem.get(R.sloc + (f,))
        if v is None: continue
        bad = U(v)
        res.check(not bad, "state:" + f, "%s: %s differs between processes after a step: it depends on %s" % (what, f, ", ".join(sorted(bad))))


INI = ("t", "saved", "it")


def task_step(solver, cfg, name, config="mpi"):
    res = Result()
    R = out_run(config, solver, cfg)
    what = "%s %s" % (solver, name)
    check_events(R, res, what + ", construction", uniform=INI)
    for it in (0, 1):
        st = R.st; n0 = len(R.I.events)
        st.mem[R.sloc + ("m_t",)] = mk("sym", "t"); st.mem[R.sloc + ("m_times_saved",)] = psym("saved")
        step(R, iteration=it, method="next_iteration")
        U = check_events(R, res, what, n0, INI)
        for e in R.I.events[n0:]:
            if e[0] == "save":
                bad = U(tuple(e[2])); res.check(not bad, "save", "%s: the solution is saved by some processes only: the condition depends on %s (%s)" % (what, ", ".join(sorted(bad)), e[3]))
        state_uniform(R, res, what, U)
        res.count("contexts")
    n0 = len(R.I.events)
    st = R.st; st.mem[R.sloc + ("m_t",)] = mk("sym", "t")
    f = [g for g in R.I.P.find("finished", "ppkMHD::SolverBase")]
    if f:
        v = R.I.call_repo(st, R.fr, f[0], None, 0, R.sloc)
        bad = Uni(R.I, INI)(v)
        res.check(not bad, "finished", "%s: processes decide differently when the run is finished: the decision depends on %s" % (what, ", ".join(sorted(bad))))
    return res


def task_io(kind, solver, cfg, name):
    res = Result(); what = "%s %s %s" % (solver, kind, name)
    if kind == "vtk":
        R = io_run("mpi", solver, cfg); check_events(R, res, what, uniform=INI)
    elif kind == "hdf5":
        R = h5_save("mpi", solver, cfg); check_events(R, res, what, uniform=INI)
    else:
        R = h5_load("mpi", solver, cfg); U = check_events(R, res, what, uniform=INI); state_uniform(R, res, what, U)
    res.count("contexts")
    return res


def task_driver():
    """the driver: all processes save, advance and finish together"""
    res = Result(); P = load_program("mpi", MAIN_SRC)
    I = Interp(P, streams=2); install_hooks(I); st = State(); fr = root_frame(I)
    I.cfg = {}
    from .mpi import MPI
    I.mpi = MPI(I)
    def mark(name, ret=None):
        def h(I, st, fr, args, line, this):
            for a in args:
                try: I.ev(st, fr, a)
                except AnalysisBroken: pass
            I.events.append((name, (), st.pc, I.where(fr, line)))
            return ret() if ret else None
        return h
    sloc = ("thesolver",)
    st.mem[("dyncls", sloc)] = "ppkMHD::SolverBase"
    st.mem[sloc + ("m_times_saved",)] = psym("saved"); st.mem[sloc + ("m_t",)] = mk("sym", "t")
    I.hooks["ppkMHD::SolverFactory::create"] = mark("the creation of the solver", lambda: Ref(sloc))
    I.hooks["ppkMHD::SolverFactory::Instance"] = lambda *a: Ref(("factory",))
    I.hooks["ppkMHD::SolverBase::finished"] = mark("the test for the end of the run", lambda: mk("bopq", "cfg:finished"))
    I.hooks["ppkMHD::SolverBase::next_iteration"] = mark("a time step")
    I.hooks["ppkMHD::SolverBase::save_solution"] = mark("the output of the solution")
    def setup(I, st, fr, args, line, this):
        st.mem[I.lv(st, fr, this) + ("nOutput",)] = psym("cfg:run/noutput")
        I.events.append(("the reading of the parameters", (), st.pc, I.where(fr, line))); return None
    I.hooks["HydroParams::setup"] = I.hooks["ppkMHD::HydroParams::setup"] = setup
    for n in ("ppkMHD::io::writeXdmfForHdf5Wrapper", "ppkMHD::print_solver_monitoring_info", "print_solver_monitoring_info"): I.hooks[n] = mark("")
    I.hooks["broadcast_parameters"] = mark("the distribution of the parameter file", lambda: Opq("configMap"))
    f = [g for g in P.funcs.values() if g.name == "main" and not g.cls]
    if len(f) != 1: raise AnalysisBroken("main vanished")
    I.call_repo(st, fr, f[0], None, 0, None, argvals=[psym("argc"), Ref(("argv", "[]"))])
    class Rn: pass
    R = Rn(); R.I = I; R.st = st
    U = check_events(R, res, "main", uniform=INI); stack = []; seen = set()
    for e in I.events:
        if e[0] == "loop": stack.append(e[1][0])
        elif e[0] == "endloop": stack.pop()
        elif e[0].startswith(("the ", "a ")):
            bad = frozenset(); seen.add(e[0])
            for c in e[2]: bad |= U(c)
            for l in stack: bad |= U.loop(l)
            res.check(not bad, "main:" + e[0], "main: %s is not reached by all processes: it depends on %s (%s)" % (e[0], ", ".join(sorted(bad)), e[3]))
            res.count("collective phases")
    res.check(len(seen) == 6, "main:phases", "main: of the phases only %s are reached" % ", ".join(sorted(seen)))
    return res


def task_params():
    """distribution of the parameter file"""
    res = Result(); P = load_program("mpi", PAR_SRC)
    I = Interp(P, streams=2, heapviews=True); st = State(); fr = root_frame(I)
    from .mpi import MPI
    I.mpi = MPI(I)
    f = [g for g in P.funcs.values() if g.name == "broadcast_parameters"]
    if len(f) != 1: raise AnalysisBroken("broadcast_parameters vanished")
    I.call_repo(st, fr, f[0], None, 0, None, argvals=["file"])
    class Rn: pass
    R = Rn(); R.I = I; R.st = st
    check_events(R, res, "broadcast_parameters")
    return res


MAIN_SRC = ["src/main.cpp", "src/shared/SolverBase.cpp"]
PAR_SRC = ["src/utils/config/ConfigMap.cpp"]


def coll_tasks(tier):
    T = [(task_driver, ()), (task_params, ())]
    for s, c, n in (("Hydro_Muscl_2D", {}, "blast"), ("Hydro_Muscl_3D", {}, "blast"), ("MHD_Muscl_2D", {}, "blast"), ("MHD_Muscl_3D", {}, "blast"),
                    ("Hydro_Muscl_2D", {("hydro", "problem"): "wedge"}, "wedge"), ("Hydro_Muscl_2D", {("hydro", "problem"): "jet"}, "jet"), ("Hydro_Muscl_3D", {("hydro", "problem"): "jet"}, "jet"),
                    ("Hydro_Muscl_2D", {("hydro", "problem"): "rayleigh_taylor", ("gravity", "static"): True}, "gravity"), ("MHD_Muscl_3D", {("OTHER", "implementationVersion"): 1}, "variant 1"),
                    ("Hydro_Muscl_3D", {("OTHER", "implementationVersion"): 1}, "variant 1")):
        for nout in (8, -1): T.append((task_step, (s, c | {("run", "noutput"): nout}, "%s nOutput=%d" % (n, nout))))
    T.append((task_step, ("Hydro_SDM_2D_degree2", {("run", "noutput"): 8}, "step", "mpisdm")))
    if tier == "thorough":
        T.append((task_step, ("Hydro_SDM_3D_degree2", {("run", "noutput"): 8}, "step", "mpisdm")))
        for rk in ("ssprk2", "ssprk3", "ssprk54"):
            T.append((task_step, ("Hydro_SDM_2D_degree3", {("run", "noutput"): 8, ("sdm", "forward_euler"): False, ("sdm", rk): True}, rk, "mpisdm")))
    for s in ("Hydro_Muscl_2D", "Hydro_Muscl_3D", "MHD_Muscl_2D", "MHD_Muscl_3D"):
        for a in (False, True): T.append((task_io, ("vtk", s, {("output", "outputVtkAscii"): a}, "ascii" if a else "appended")))
        for v in (False, True):
            for g, ag in ((False, False), (True, False), (False, True)):
                T.append((task_io, ("hdf5", s, {("output", "hdf5_verbose"): v, ("output", "ghostIncluded"): g, ("output", "allghostIncluded"): ag}, "verbose=%d ghosts=%d%d" % (v, g, ag))))
        T.append((task_io, ("hdf5", s, {("output", "hdf5_verbose"): True, ("output", "reassembleInFile"): False}, "pieces")))
        for v in (False, True):
            for u in (False, True):
                T.append((task_io, ("restart", s, {("run", "hdf5_verbose"): v, ("output", "hdf5_verbose"): v, ("run", "restart_upscale"): u}, "verbose=%d upscale=%d" % (v, u))))
    return T


def prepare(pid, tier):
    prog("mpi"); prog("mpisdm"); ioprog("mpi"); h5prog("mpi"); load_program("mpi", MAIN_SRC); load_program("mpi", PAR_SRC)

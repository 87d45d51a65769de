"""Output and restart protocol: what is saved, when, and how a run continues from a file."""
from .checks_fv import *
from .driver import *
from .checks_dt import find_method
from .checks_cfg import SOLVERS, SDM_CFG, short_
from .absint import Interp, State
from .ir import load_program

SAVE = ("ppkMHD::io::IO_ReadWriteBase::save_data", "ppkMHD::io::IO_ReadWrite::save_data", "ppkMHD::io::IO_ReadWrite_SDM::save_data")
LOAD = ("ppkMHD::io::IO_ReadWriteBase::load_data", "ppkMHD::io::IO_ReadWrite::load_data")


def out_hooks(I):
    def save(I, st, fr, args, line, this):
        v = [I.val(st, fr, a, line) for a in args]
        I.events.append(("save", tuple(v), st.pc, I.where(fr, line), fr.fn)); return None
    def load(I, st, fr, args, line, this):
        a = I.val(st, fr, args[0], line)
        for k, v in ((2, psym("file.step")), (3, mk("sym", "file.time"))):
            l = I.lv(st, fr, args[k]); I.store(st, l, v, fr, line)
        if isinstance(a, View): I.kill_view(st, a.alloc)
        I.events.append(("load", (a,), st.pc, I.where(fr, line))); return None
    for n in SAVE: I.hooks[n] = save
    for n in LOAD: I.hooks[n] = load


def out_run(config, solver, cfg):
    import ppk.driver as drv
    cls, dim, nbvar, gw, mhd = SOLVERS[solver]
    P = prog(config)
    c = {("hydro", "riemann"): "hlld" if mhd else "hllc", ("OTHER", "implementationVersion"): 0, ("hydro", "slope_type"): 1, ("gravity", "static"): False, ("gravity", "point"): False,
         ("run", "restart_enabled"): False, ("hydro", "problem"): "blast"}
    if gw is None: c.update(SDM_CFG); c[("sdm", "forward_euler")] = True
    c.update(cfg)
    old = drv.install_hooks
    def ih(I): old(I); out_hooks(I)
    drv.install_hooks = ih
    try: R = solver_run(P, solver, "ppkMHD::" + cls, c)
    finally: drv.install_hooks = old
    R.solver, R.dim, R.config = solver, dim, config
    R.sdm = gw is None
    return R


def truth(I, b, sv, bools=()):
    D = DenoR(I, Facts([]), 1, len(I.events), leaf=lambda *a: None, symval=sv, cfgbool=lambda n: dict(bools).get(n))
    return b if isinstance(b, bool) else D.bval(b, D.env({}))


def conj(pc):
    b = True
    for x in pc: b = band(b, x)
    return b


# (time, end time, outputs so far): one output interval is tEnd / nOutput
def should(t, saved, tend, nout):
    if nout < 0: return True
    iv = Fraction(tend) / nout
    return t - (saved - 1) * iv > iv or t == tend


TIMES = [Fraction(k, 4) for k in range(0, 41)]


def nm(R, it): return "%s%s step=%s" % (R.solver, " MPI" if R.config == "mpi" else "", "even" if it % 2 == 0 else "odd")


def writes(e, allocs):
    if e[0] == "launch": return [ef for ef in e[1].effects if (ef[0] == "write" or ef[0].startswith("atomic")) and ef[1] in allocs]
    if e[0] in ("deep_copy",) and isinstance(e[1][0], View) and e[1][0].alloc in allocs: return [e]
    return []


def task_save(config, solver, it):
    """one iteration of the loop, with output enabled"""
    res = Result()
    for nout in (8, -1, 0):
        R = out_run(config, solver, {("run", "noutput"): nout}); I, st = R.I, R.st
        n = nm(R, it) + " nOutput=%d" % nout
        cur = "U" if R.sdm or it % 2 == 0 else "U2"
        st.mem[R.sloc + ("m_t",)] = mk("sym", "t"); st.mem[R.sloc + ("m_times_saved",)] = psym("saved")
        n0 = len(I.events)
        step(R, iteration=it, method="next_iteration")
        ev = [(k, e) for k, e in enumerate(I.events) if k >= n0]
        saves = [(k, e) for k, e in ev if e[0] == "save"]
        res.count("contexts")
        ts = st.mem.get(R.sloc + ("m_times_saved",))
        if nout == 0:
            on = [e for k, e in saves if truth0(I, conj(e[2]))]
            res.check(not on, "none:" + nm(R, it), "%s: the solution is saved although output is disabled (%s)" % (n, saves[0][1][3] if saves else ""))
            continue
        if not res.check(len(saves) == 1, "one:" + nm(R, it), "%s: %d save sites are reached in one iteration, expected one" % (n, len(saves))): continue
        k, e = saves[0]
        v = e[1]; w = e[3]
        a = v[0]
        res.check(isinstance(a, View) and a.alloc == cur, "array:" + nm(R, it), "%s: the saved array is %r, the current state is %s (%s)" % (n, getattr(a, "alloc", a), cur, w))
        h = v[1]
        res.check(isinstance(h, View) and isinstance(a, View) and same_ext(I, h, a), "host:" + nm(R, it), "%s: the host buffer %r does not have the shape of the saved array (%s)" % (n, h, w))
        res.check(v[2] == psym("saved"), "number:" + nm(R, it), "%s: output number %s is written, expected the number of outputs so far (%s)" % (n, short_(v[2]), w))
        res.check(v[3] is mk("sym", "t"), "time:" + nm(R, it), "%s: the output is labelled with time %s, expected the time of the saved state (%s)" % (n, short_(v[3]), w))
        before = [x for q, x in ev if q < k and writes(x, {cur})]
        res.check(not before, "before:" + nm(R, it), "%s: the state is modified before it is saved (%s)" % (n, wherefn(before[0][1]) if before and before[0][0] == "launch" else ""))
        g = conj(e[2])
        bad = []
        for t in TIMES:
            for saved in range(0, 12):
                sv = {"t": rq(t.numerator, t.denominator), "cfg:run/tEnd": rq(8, 1), "cfg:run/tend": rq(8, 1), "saved": rq(saved, 1), "cfg:hydro/cfl": rq(1, 2)}
                got = truth(I, g, sv)
                res.ok()
                want = should(t, saved, 8, nout)
                if got != want: bad.append((t, saved, got))
                # the counter follows
                c = unsel(I, ts, sv)
                if c is not None and c != (psym("saved") if not got else padd(psym("saved"), pc(1))): bad.append((t, saved, "counter %r" % (c,)))
        if bad:
            res.violate("when:" + nm(R, it), "%s: with end time 8 and an output every %s, at time %s after %d outputs the solution is %s (%s)" % (
                n, "step" if nout < 0 else "1", bad[0][0], bad[0][1], {True: "saved", False: "not saved"}.get(bad[0][2], "accounted wrongly: " + str(bad[0][2])), w))
        # the same on every process
        if config == "mpi":
            res.check(not ranky(conj(e[2])), "rank:" + nm(R, it), "%s: whether the solution is saved depends on the process (%s)" % (n, w))
    return res


def same_ext(I, a, b):
    x, y = a.ext, b.ext
    return x is not None and y is not None and len(x) == len(y) and all(padd(topoly(I.norm(topoly(p))), topoly(I.norm(topoly(q))), -1) == pc(0) for p, q in zip(x, y))


def truth0(I, b):
    if isinstance(b, bool): return b
    try: return truth(I, b, {"t": rq(1, 1), "cfg:run/tEnd": rq(8, 1), "cfg:run/tend": rq(8, 1)})
    except Undecided: return True


def unsel(I, v, sv):
    while isinstance(v, Sel): v = v.a if truth(I, v.c, sv) else v.b
    if isinstance(v, int): v = pc(v)
    return v


def ranky(b):
    seen = set()
    def walk(n):
        if isinstance(n, (tuple, list)): return any(walk(y) for y in n)
        if isinstance(n, str): return n == "rank" or n.startswith(("nbr:", "pos:"))
        if isinstance(n, Poly): return any(walk(s) for s in n.syms())
        if isinstance(n, Sel): return walk(n.c) or walk(n.a) or walk(n.b)
        if not isinstance(n, Node) or n.id in seen: return False
        seen.add(n.id)
        return any(walk(x) for x in n.a)
    return walk(b)


def task_savecall(config, solver, it):
    """save_solution called directly (initial and final output)"""
    res = Result(); R = out_run(config, solver, {("run", "noutput"): 8}); I, st = R.I, R.st
    n = nm(R, it); cur = "U" if R.sdm or it % 2 == 0 else "U2"
    st.mem[R.sloc + ("m_t",)] = mk("sym", "t"); st.mem[R.sloc + ("m_times_saved",)] = psym("saved")
    n0 = len(I.events)
    step(R, iteration=it, method="save_solution")
    saves = [e for e in I.events[n0:] if e[0] == "save"]
    res.count("contexts")
    if not res.check(len(saves) == 1 and not saves[0][2], "direct:" + n, "%s: save_solution writes %d outputs" % (n, len(saves))): return res
    v, w = saves[0][1], saves[0][3]
    res.check(isinstance(v[0], View) and v[0].alloc == cur and v[2] == psym("saved") and v[3] is mk("sym", "t"), "direct:" + n,
              "%s: save_solution writes array %r as output %s at time %s, expected %s, the number of outputs so far and the current time (%s)" % (n, getattr(v[0], "alloc", v[0]), short_(v[2]), short_(v[3]), cur, w))
    res.check(st.mem.get(R.sloc + ("m_times_saved",)) == padd(psym("saved"), pc(1)), "count:" + n, "%s: the output counter goes from saved to %r (%s)" % (n, st.mem.get(R.sloc + ("m_times_saved",)), w))
    return res


def task_restart(config, solver, problem, gravity):
    """construction of a restarted solver and its first step"""
    res = Result()
    for reset in (False, True):
        R = out_run(config, solver, {("run", "noutput"): 8, ("run", "restart_enabled"): True, ("run", "restart_reset_totaltime"): reset, ("hydro", "problem"): problem, ("gravity", "static"): gravity})
        I, st = R.I, R.st
        n = "%s%s problem=%s%s restarted" % (solver, " MPI" if config == "mpi" else "", problem, " gravity" if gravity else "")
        res.count("contexts")
        loads = [(k, e) for k, e in enumerate(I.events) if e[0] == "load"]
        if not res.check(len(loads) == 1 and not loads[0][1][2], "load:" + n, "%s: the restart file is read %d times" % (n, len(loads))): continue
        k, e = loads[0]; w = e[3]
        res.check(isinstance(e[1][0], View) and e[1][0].alloc == "U", "array:" + n, "%s: the file is loaded into %r, the first step starts from U (%s)" % (n, e[1][0], w))
        late = [x for q, x in enumerate(I.events) if q > k and x[0] == "launch" and not is_fill(x[1]) and writes(x, {"U"})] + \
               [x for q, x in enumerate(I.events) if q > k and x[0] == "deep_copy" and writes(x, {"U"})]
        res.check(not late, "kept:" + n, "%s: the loaded state is overwritten during initialisation (%s)" % (n, wherefn(late[0][1]) if late and late[0][0] == "launch" else w))
        g = st.mem.get(R.sloc + ("m_t",)); want = Z0 if reset else mk("sym", "file.time")
        res.check(same_num(I, g, want), "time:" + n, "%s: the run starts at time %s, expected %s" % (n, short_(g), "0" if reset else "the time in the file"))
        g = st.mem.get(R.sloc + ("m_times_saved",))
        res.check(g == psym("file.step"), "number:" + n, "%s: outputs are numbered from %s, expected from the number in the file" % (n, short_(g)))
        res.check(st.mem.get(R.sloc + ("m_iteration",)) == 0, "iteration:" + n, "%s: the iteration counter starts at %r" % (n, st.mem.get(R.sloc + ("m_iteration",))))
        # the first step reads nothing that was never set
        n0 = len(I.events); have = {"U"}
        for x in I.events[:n0]:
            if x[0] == "launch": have |= {ef[1] for ef in x[1].effects if ef[0] == "write"}
            if x[0] == "deep_copy" and isinstance(x[1][0], View): have.add(x[1][0].alloc)
        step(R, iteration=0)
        for x in I.events[n0:]:
            if x[0] == "launch":
                rd = {ef[1] for ef in x[1].effects if ef[0] == "read"}
                wr = {ef[1] for ef in x[1].effects if ef[0] == "write" or ef[0].startswith("atomic")}
                if not truth0(I, conj(x[1].pc)): continue
                for a in sorted(rd - have - wr):
                    if a.startswith(("borderBuf", "mirror:")): continue
                    res.check(False, "unset:" + n, "%s: the first step reads array %s, which a restarted run never sets (%s at %s)" % (n, a, x[1].cls.split("::")[-1], wherefn(x[1])))
                have |= wr
            if x[0] == "deep_copy" and isinstance(x[1][0], View): have.add(x[1][0].alloc)
        res.ok()
    return res


Z0 = 0
def same_num(I, a, b):
    if a is None: return False
    from .checks_cfg import num
    if isinstance(a, Node) and a.op == "const" and False: return True
    return all(num(I, a, s) == num(I, b, s) for s in (3, 4))


def task_main(config):
    """the driver: initial output, loop until finished, final output"""
    res = Result(); P = load_program(config, ["src/main.cpp", "src/shared/SolverBase.cpp"])
    I = Interp(P); install_hooks(I); st = State(); fr = root_frame(I)
    I.cfg = {}
    if config == "mpi":
        from .mpi import MPI
        I.mpi = MPI(I)
    seq = []
    def mark(name, ret=None):
        def h(I, st, fr, args, line, this):
            for a in args:
                try: I.ev(st, fr, a)
                except AnalysisBroken: pass
            I.events.append((name, (), st.pc, I.where(fr, line)))
            return ret() if ret else None
        return h
    sloc = ("thesolver",)
    st.mem[("dyncls", sloc)] = "ppkMHD::SolverBase"
    st.mem[sloc + ("m_times_saved",)] = psym("saved"); st.mem[sloc + ("m_t",)] = mk("sym", "t")
    I.hooks["ppkMHD::SolverFactory::create"] = mark("create", lambda: Ref(sloc))
    I.hooks["ppkMHD::SolverFactory::Instance"] = lambda *a: Ref(("factory",))
    cnt = [0]
    def fin(I, st, fr, args, line, this):
        I.events.append(("finished", (), st.pc, I.where(fr, line))); return mk("bopq", "is finished")
    I.hooks["ppkMHD::SolverBase::finished"] = fin
    I.hooks["ppkMHD::SolverBase::next_iteration"] = mark("advance")
    I.hooks["ppkMHD::SolverBase::save_solution"] = mark("save")
    def setup(I, st, fr, args, line, this):
        st.mem[I.lv(st, fr, this) + ("nOutput",)] = psym("noutput")
        I.events.append(("setup", (), st.pc, I.where(fr, line))); return None
    I.hooks["HydroParams::setup"] = I.hooks["ppkMHD::HydroParams::setup"] = setup
    I.hooks["ppkMHD::io::writeXdmfForHdf5Wrapper"] = mark("xdmf")
    I.hooks["ppkMHD::print_solver_monitoring_info"] = mark("monitor"); I.hooks["print_solver_monitoring_info"] = mark("monitor")
    f = [g for g in P.funcs.values() if g.name == "main" and not g.cls]
    if len(f) != 1: raise AnalysisBroken("main vanished")
    I.call_repo(st, fr, f[0], None, 0, None, argvals=[psym("argc"), Ref(("argv", "[]"))])
    ev = [e for e in I.events if e[0] in ("setup", "create", "save", "finished", "advance", "loop", "endloop", "xdmf", "exit")]
    names = [e[0] for e in ev]
    # the loop that advances
    depth = 0; cur = None; pos = {}
    order = []
    for e in ev:
        if e[0] == "loop": depth += 1; order.append(("loop", e))
        elif e[0] == "endloop": depth -= 1; order.append(("endloop", e))
        else: order.append((e[0] + ("@loop" if depth else ""), e))
    on = [x for x, _ in order]
    w = f[0].relfile() + ":%d" % f[0].line
    res.check(on.count("advance@loop") == 1 and on.count("advance") == 0, "main:advance", "%s: the time loop advances the solver %d times per pass (and %d times outside it)" % (w, on.count("advance@loop"), on.count("advance")))
    i_setup = on.index("setup") if "setup" in on else -1; i_create = on.index("create") if "create" in on else -1
    i_loop = on.index("advance@loop") if "advance@loop" in on else -1
    res.check(0 <= i_setup < i_create < i_loop, "main:setup", "%s: parameters, solver and time loop come in the order %s" % (w, on))
    outn = psym("params.nOutput")
    sv = [i for i, x in enumerate(on) if x == "save"]
    res.check("save@loop" not in on, "main:saveloop", "%s: the driver saves the solution in every pass of the time loop" % w)
    res.check(len([i for i in sv if i_create < i < i_loop]) == 1, "main:first", "%s: the initial state is saved %d times before the time loop, expected once" % (w, len([i for i in sv if i_create < i < i_loop])))
    res.check(len([i for i in sv if i > i_loop]) == 1, "main:last", "%s: the final state is saved %d times after the time loop, expected once" % (w, len([i for i in sv if i > i_loop])))
    for i in sv:
        b = conj(order[i][1][2])
        vals = {v: guard_at(I, b, v) for v in (-1, 0, 1, 5)}
        res.check(vals == {-1: True, 0: False, 1: True, 5: True}, "main:guard", "%s: output happens for run/nOutput in %s (guard %r)" % (order[i][1][3], sorted(k for k in vals if vals[k]), b))
    # stopping: the loop continues exactly while finished() is false
    adv = order[i_loop][1] if i_loop >= 0 else None
    if adv is not None:
        b = conj(adv[2])
        res.check(tbool(I, b, {"is finished": False}) is True and tbool(I, b, {"is finished": True}) is False, "main:loop", "%s: the time loop runs under %r, expected while the solver is not finished" % (adv[3], b))
    res.count("driver_events", len(ev))
    return res


def guard_at(I, b, v):
    """truth of b when the number of outputs is v"""
    if isinstance(b, bool): return b
    syms = set()
    def walk(n):
        if isinstance(n, Poly): syms.update(n.syms())
        elif isinstance(n, Node):
            for x in n.a: walk(x)
        elif isinstance(n, (tuple, list)):
            for x in n: walk(x)
    walk(b)
    F = Facts([])
    for s in syms:
        if "noutput" in s.lower(): F = F.add(padd(psym(s), pc(-v))).add(padd(pc(v), psym(s), -1))
    D = DenoR(I, F, 1, len(I.events), leaf=lambda *a: None, symval={})
    try: return D.bval(b, D.env({}))
    except Undecided: return None


def tbool(I, b, val):
    if isinstance(b, bool): return b
    D = DenoR(I, Facts([]), 1, len(I.events), leaf=lambda *a: None, symval={}, cfgbool=lambda n: val.get(n))
    return D.bval(b, D.env({}))


def out_tasks(tier):
    T = []
    for config in ("serial", "mpi"):
        for s in SOLVERS:
            sdm = "SDM" in s
            if sdm and (config == "mpi" or s[-1] not in ("2" if tier == "quick" else "234")): continue
            for it in ((0, 1) if not sdm else (0, 1)):
                T.append((task_save, (config, s, it))); T.append((task_savecall, (config, s, it)))
            if not sdm:
                T.append((task_restart, (config, s, "blast", False)))
                if "Hydro" in s:
                    for p in ("rayleigh_taylor", "rising_bubble", "disk"): T.append((task_restart, (config, s, p, True)))
        T.append((task_main, (config,)))
    return T


def prepare(pid, tier):
    for c in ("serial", "mpi"):
        prog(c); load_program(c, ["src/main.cpp", "src/shared/SolverBase.cpp"])

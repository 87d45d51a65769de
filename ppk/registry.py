"""Property id -> deciding analysis."""
import time
from . import report
from .ir import AnalysisBroken

TB = ["clang 18 front end (parsing, overload resolution, template instantiation)", "tool/extract.cpp (AST to typed IR)",
      "ppk/absint.py (abstract interpreter)", "ppk/affine.py (Fourier-Motzkin entailment)"]
GVN = TB + ["ppk/deno.py (value numbering by random interpretation in GF(2305843009213682039))"]
A_FV = ["Kokkos data-parallel semantics: a launch executes its functor once per index of its range, launches are ordered",
        "real arithmetic: floating-point rounding is not modelled",
        "grids with at least 2*ghostWidth+1 cells per direction for regions where index relations matter",
        "array cells of distinct allocations do not alias (Kokkos views created by the constructor)"]
A_REAL = ["branch outcomes are those of jointly feasible states: comparisons are resolved with an interval-free real model attached to the random residues, "
          "so branches no sampled state selects are compared only in the thorough tier"]


class Reg:
    def __init__(self, mod, fn, level, expl, assume, trusted, minimum):
        self.mod = mod; self.fn = fn; self.level = level; self.expl = expl; self.assume = assume; self.trusted = trusted; self.minimum = minimum


R = {}
def reg(pid, mod, fn, level, expl, assume, trusted, minimum): R[pid] = Reg(mod, fn, level, expl, assume, trusted, minimum)


CTX = ("For every context (solver family, dimension, implementation variant, Riemann solver, slope limiter, step parity) the whole time step is "
       "abstractly interpreted from the source at symbolic grid size and symbolic cell index; ")
reg("C03", "checks_fv", "conservation_tasks", "other", CTX + "the new value of each conserved variable is decomposed additively and every flux term must have "
    "an equal and opposite term in a neighbouring cell (value numbering of the terms under index translation), the old value entering with factor one.",
    A_FV, GVN, 300)
reg("C04", "checks_fv", "divb_tasks", "other", CTX + "the discrete divergence of the updated face-centred field is value-numbered and must have the number of the old divergence.",
    A_FV, GVN, 40)
reg("C08", "checks_fv", "symmetry_tasks", "other", CTX + "the denotations on axis-permuted and mirrored symbolic data must be the permuted/mirrored denotations (value numbering).",
    A_FV + A_REAL, GVN, 1000)
reg("C09", "checks_fv", "variants_tasks", "other", CTX + "the denotations of the implementation variants must have the same value number for every variable and border class.",
    A_FV + A_REAL, GVN, 300)
reg("C10", "checks_fv", "dim_tasks", "other", CTX + "the 3D denotation on data independent of z must have the value number of the 2D denotation.",
    A_FV + A_REAL, GVN, 150)
reg("C11", "checks_fv", "uniform_tasks", "other", CTX + "on spatially uniform symbolic data every updated variable must have the value number of the old one.",
    A_FV, GVN, 300)
reg("C20", "checks_fv", "scaling_tasks", "other", CTX + "the denotation on data rescaled by symbolic units must be the rescaled denotation.", A_FV, GVN, 100)
reg("C21", "checks_fv", "translation_tasks", "other", CTX + "the denotation must not depend on the cell position in any border class, must only use cells within the ghost width, "
    "and must not read array contents left over from an earlier step.", A_FV, GVN, 1000)
reg("C25", "checks_fv", "order_tasks", "other", CTX + "its denotation on a uniform state plus an infinitesimal linear variation, as a power series modulo the third power of the "
    "variation, must be the exact time expansion of the governing equations.", A_FV + A_REAL, GVN, 1000)
reg("C26", "checks_riemann", "riemann_tasks", "other", "Every Riemann solver and the edge electric field are abstractly interpreted on two (four) symbolic states; their value graphs must take the value of "
    "the textbook formulas written with jump relations in every wave pattern, and satisfy consistency, upwinding, contact/Alfven resolution and wave speed bounds.", A_REAL + ["floors inactive"], GVN, 3000)
reg("C22", "checks_init", "uninit_tasks", "proof", CTX + "every local, member and out-parameter starts as the value 'uninitialised'; no store, guard, index or reduction of any kernel may depend on it.",
    A_FV[:1] + ["the iterative Riemann solver is summarised as a function of the values it reads"], TB, 20000)

reg("C05", "checks_bc", "ghost_tasks", "other", "For every boundary combination, dimension, family and step parity the boundary fill of a single-process run is abstractly interpreted with the step; the value every "
    "kind of ghost cell (face, edge, corner; by layer) holds when the update starts must be the value of the cell (and sign) the boundary type prescribes.", A_FV + ["at least 2*ghostWidth cells per direction"], GVN, 10000)
reg("C06", "checks_mpi", "halo_tasks", "other", "The MPI build is abstractly interpreted on a symbolic process of a symbolic process grid; receives are resolved on the matching send of the neighbouring process "
    "(order, tag, count, type, shape) and the value of every kind of ghost cell must be the one of the global mesh, for every class of process; the step and cell sizes are value-numbered against the single-process run.",
    A_FV + ["MPI delivers messages between two processes with one tag in order", "the number of processes is mx*my*mz", "every process has the same local mesh size"],
    GVN + ["ppk/mpi.py (library model of the MPI calls used)"], 20000)
reg("C12", "checks_dt", "dt_tasks", "other", "The reduction kernel and its caller are abstractly interpreted; the returned step is compared by value number with the CFL formula of the family, the reduction domain, joiner, identity, "
    "clamping to the end time and the all-process reduction are obligations.", A_FV, GVN + ["ppk/mpi.py"], 500)

A_MEM = A_FV[:1] + ["every direction has at least as many cells as ghost layers", "distinct allocations do not alias",
    "element indices of local C arrays that are not constants are not bounded"]
reg("C01", "checks_mem", "race_tasks", "proof", "For every kernel of initialisation, boundary fill, halo copy, time step and update, every pair of accesses to one array of which one writes (two atomics excepted) is an obligation: affine "
    "entailment (Fourier-Motzkin over iteration variables, guards, symbolic grid sizes) must exclude that two different iterations touch the same element.", A_MEM, TB, 10000)
reg("C02", "checks_mem", "bounds_tasks", "proof", "For every array access of every kernel (and host access) of initialisation, boundary fill, halo copy, time step and update, each index must lie within the allocated extent: affine entailment "
    "from iteration ranges and guards, for symbolic grid sizes; accesses to unallocated arrays are violations.", A_MEM, TB, 60000)

reg("C23", "checks_ic", "ic_tasks", "other", "Construction of every solver is abstractly interpreted for every problem; the initial state of a symbolic cell is value-numbered and must be set, agree with that of a three times finer mesh "
    "at the same centre, of every process layout and of every border class, keep its thermal pressure under changes of velocity and field parameters, and have zero discrete divergence.", A_FV, GVN, 1000)


SCTX = ("For every context (dimension, order, Runge-Kutta method, Riemann solver, viscosity) the constructor (geometry, Lagrange matrices) and one whole step of the spectral difference solver are abstractly interpreted at "
        "symbolic grid size and cell index; node coordinates are trigonometric field elements with their algebraic relations; ")
A_SDM = A_FV[:2] + ["limiter and positivity options off", "node coordinates satisfy exactly the algebraic relations of the cosines they are (rounding not modelled)"]
A_PROB = ["real arithmetic: floating-point rounding is not modelled (agreement to 9 digits)", "random interpretation: settings, mesh, position are sampled; every branch of the closed formulas is reached",
          "exp, sin, ... of the C++ library are the mathematical functions", "a random number generator returns values in its documented range"]
reg("C24", "checks_prob", "prob_tasks", "other", "Construction of every solver is abstractly interpreted for every problem and problem variant; the value graph of the initial state (and gravity field) of a symbolic cell is evaluated over the reals under sampled "
    "settings, mesh and cell, and must agree with the closed formula of the problem at the cell centre (solution point; curl of the vector potential for fields).", A_PROB, TB + ["ppk/checks_prob.py (closed formulas, from the literature the source cites)"], 1000)

reg("C27", "checks_sdm", "cons_tasks", "other", SCTX + "the quadrature of the change over all cells the stencil reaches must have value number zero on data that vary in a block of cells.", A_SDM + A_REAL, GVN, 80)
reg("C28", "checks_sdm", "order_sdm_tasks", "other", SCTX + "its denotation on a uniform state plus an infinitesimal polynomial variation, as a power series, must be the Taylor expansion of the Euler equations.", A_SDM + A_REAL, GVN, 300)
reg("C29", "checks_sdm", "isotropy_tasks", "other", SCTX + "denotations on permuted and mirrored data must be the permuted and mirrored denotations; 3D on z-independent data the 2D one.", A_SDM + A_REAL, GVN, 2000)
reg("C30", "checks_sdm", "visc_tasks", "other", SCTX + "the denotation with viscosity minus the one without must be dt times the divergence of the Newtonian stress of the polynomial velocity, inside and next to each border.", A_SDM + A_REAL, GVN, 500)
reg("C31", "checks_sdm", "general_tasks", "other", SCTX + "denotations on uniform data, of different cell classes, and on rescaled data are compared by value number; a leaf other than the old state is a violation.", A_SDM + A_REAL, GVN, 8000)


reg("C13", "checks_out", "out_tasks", "other", "Construction (fresh and restarted), one step and the driver are abstractly interpreted; the calls of the file writer and reader are events with evaluated arguments: their number, guard, "
    "order, array and labels are obligations, as is that every array the first step after a restart reads has been set.", A_FV, GVN, 10000)
reg("C14", "checks_io", "io_tasks", "other", "Construction and save_solution are abstractly interpreted; stream operations are events with abstract contents and loop structure. The resulting abstract document is instantiated for mesh sizes, process grids, ranks "
    "and output numbers and parsed: extents, names, offsets, sizes, cell order, pieces and file names are obligations; cell values are symbolic array elements.", A_FV[:1] + ["std streams write what they are given in order; file system calls succeed", "sizeof(double)=8, little-endian host"], TB[:3] + ["ppk/strm.py (stream model)", "python xml parser"], 3000)
reg("C32", "checks_h5", "h5_tasks", "other", "Construction, save_solution and the restart branch of the constructor are abstractly interpreted; HDF5 calls, buffer accesses and their loops are events. The events are instantiated for mesh sizes and process grids: hyperslab "
    "selections become element maps, and reader after writer must map every saved cell (symbolic value) to itself; bounds, sizes, types, names, attributes and writes of one element by several processes are obligations.",
    A_FV[:1] + ["HDF5 transfers the selected elements in row-major order and delivers attributes unchanged; file system calls succeed", "host arrays have LayoutRight (as in the builds analysed)"], TB[:3] + ["ppk/h5.py (HDF5 model)"], 100000)
reg("C07", "checks_coll", "coll_tasks", "other", "Construction, one step, output, restart, the driver and the distribution of the parameter file are abstractly interpreted in the MPI build on a symbolic process; every collective call "
    "(MPI and parallel HDF5) is an obligation: no value in its guards, in the conditions of the loops around it, or in its matching arguments may have a source that differs between processes (uniformity dataflow).",
    ["settings are the same on all processes", "the rest of the program does not exit on some processes only", "C06 covers point-to-point messages", "a file read by all processes has one content"],
    TB[:3] + ["ppk/mpi.py, ppk/h5.py (library models)"], 2000)
reg("C15", "checks_cfg", "cfg_tasks", "other", "HydroParams::setup, the solver factory, the problem parameters and the getters are abstractly interpreted with a symbolic parameter file; every field and every default value is compared by value number "
    "with the documented one.", A_FV[:1] + ["inih delivers the text of each setting"], GVN, 3000)


def run(pid, tier):
    t0 = time.time()
    r = R.get(pid)
    if r is None: print("unknown property " + pid); return 2
    import importlib
    m = importlib.import_module("ppk." + r.mod)
    try:
        if hasattr(m, "prepare"): m.prepare(pid, tier)
        tasks = getattr(m, r.fn)(tier)
    except AnalysisBroken as e:
        res = report.Result(); res.broken.append(str(e))
        return report.finish(pid, r.level, tier, t0, res, r.expl, r.assume, r.trusted, r.minimum)
    res = report.run_tasks(tasks)
    return report.finish(pid, r.level, tier, t0, res, r.expl, r.assume, r.trusted, r.minimum)

def P(id, title, statement, over, qtext, why, files, mech, technique, level, note):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, "technique": technique, "level": level, "note": note}


M = "src/muscl/"; S = "src/shared/"
MUSCL = [M + x for x in ("HydroRunFunctors2D.h", "HydroRunFunctors3D.h", "MHDRunFunctors2D.h", "MHDRunFunctors3D.h", "HydroBaseFunctor2D.h",
                         "HydroBaseFunctor3D.h", "MHDBaseFunctor2D.h", "MHDBaseFunctor3D.h", "SolverHydroMuscl.h", "SolverMHDMuscl.h")]
RS = [S + "RiemannSolvers.h", S + "RiemannSolvers_MHD.h"]
GV = "abstract interpretation of the sources to value graphs, compared by global value numbering (random interpretation)"
GN = ("Decided on the symbolic denotation of the whole step for every grid size and cell at once; value numbers are taken in a 61-bit field, so a wrong 'equal' "
      "has negligible probability; the branch combinations reached are those selected by the sampled sign/real models.")
NOT_RUN = "The stable tests exercise the SDM library and utilities; no test runs the MUSCL finite-volume solvers at all, and a run would sample one grid and one flow."

SD = "src/sdm/"
SDM = [SD + x for x in ("SolverHydroSDM.h", "SDM_Interpolate_Functors.h", "SDM_Flux_Functors.h", "SDM_Run_Functors.h", "SDM_Geometry.h", "SDMBaseFunctor.h", "sdm_shared.h", "SDM_Boundaries_Functors.h")]
SVI = [SD + x for x in ("SDM_Interpolate_viscous_Functors.h", "SDM_Viscous_Flux_Functors.h")]
NOT_SDM = "The tests of the spectral difference library compare printed interpolation tables; no test checks a time step of a solver, and a run would sample one flow, grid, order and border."
SDQ = "every flow state, grid size, dimension, polynomial order, Runge-Kutta method and Riemann solver instantiated (limiter and positivity options off)"

PROPS = [
P("C03", "Finite-volume update conserves mass, momentum and energy",
  "One time step of every finite-volume solver changes each conserved cell quantity only by fluxes that are taken from one cell exactly as they are given to the "
  "neighbouring cell, so totals over a closed or periodic domain do not change. The old value enters the new one with weight exactly one.",
  ["inputs", "configurations"], "every flow state, every grid size, every cell incl. those next to the border, every implementation variant, Riemann solver and slope limiter, both step parities",
  NOT_RUN, MUSCL + RS, [("per-face fluxes added and subtracted", M + "HydroRunFunctors2D.h UpdateFunctor2D"), ("CT flux update", M + "MHDBaseFunctor3D.h")],
  "additive flux matching on value graphs (" + GV + ")", "other", GN),
P("C04", "Magnetic field update preserves the discrete divergence",
  "One time step of every MHD solver leaves the discrete divergence of the face-centred magnetic field of each interior cell exactly as it was (up to rounding).",
  ["inputs", "configurations"], "every flow state, grid size, interior cell, implementation variant, Riemann solver, limiter and step parity", NOT_RUN,
  [M + "MHDRunFunctors2D.h", M + "MHDRunFunctors3D.h", M + "SolverMHDMuscl.h"], [("edge electric field shared by the adjacent faces", M + "MHDRunFunctors3D.h UpdateEmfFunctor3D")],
  GV, "other", GN),
P("C08", "The update has no preferred axis and no preferred direction",
  "Exchanging coordinate axes, or mirroring one axis, of the state and mesh exchanges or mirrors the result of the step accordingly, for every variable including face-centred fields.",
  ["inputs", "configurations"], "every flow state, cell, axis permutation and mirror, implementation variant, Riemann solver and limiter", NOT_RUN, MUSCL + RS,
  [("per-direction branches of reconstruction, fluxes and update", M + "HydroRunFunctors3D.h")], "equivariance of value graphs (" + GV + ")", "other", GN),
P("C09", "Implementation variants of a solver compute the same step",
  "All selectable implementation variants of a finite-volume solver produce the same new state from the same old state, whatever the memory/performance trade-off they make.",
  ["inputs", "configurations"], "every flow state, grid size, cell incl. border classes, Riemann solver and limiter (3D MHD variant 2: as long as no positivity floor is active)", NOT_RUN, MUSCL,
  [("selection of the variant", M + "SolverHydroMuscl.h godunov_unsplit_impl"), ("", M + "SolverMHDMuscl.h")], "translation validation between variants (" + GV + ")", "other", GN),
P("C10", "3D solvers reduce to the 2D solvers on z-independent data",
  "On data that do not depend on z (and, for MHD, have no z velocity and no z field) a 3D solver performs exactly the update of the corresponding 2D solver and leaves z components at zero.",
  ["inputs", "configurations"], "every such flow state, every cell, Riemann solver and limiter", NOT_RUN, MUSCL + RS, [("2D/3D twins of each kernel", M + "HydroRunFunctors3D.h")],
  "cross-dimension value graph comparison (" + GV + ")", "other", GN),
P("C11", "A uniform state is a fixed point of the update",
  "If density, pressure, velocity and magnetic field are the same in all cells a step reads, the step leaves the cell unchanged, for every solver and option.",
  ["inputs", "configurations"], "every uniform state, grid size, cell class, implementation variant, Riemann solver, limiter", NOT_RUN, MUSCL + RS,
  [("flux consistency of each Riemann solver", S + "RiemannSolvers.h")], GV, "other", GN),
P("C13", "Output happens at the announced times and a restart continues the run",
  "A run writes its initial state, one snapshot each time the multiples of run/tEnd / run/nOutput are passed (every step for -1, none for 0) and its final state; each snapshot is taken on every process alike, before the update, from the array that "
  "holds the current solution, with the number and time it belongs to. A run restarted from a snapshot continues from that state, time (unless run/restart_upscale or the documented reset is asked for) and output number, with everything its first "
  "step reads set as in a run that was not interrupted; the driver advances the solver exactly while it is not finished.", ["histories", "configurations"],
  "solvers, step parities, output counters, problems, serial and MPI builds", "No test runs a solver with output or restart enabled.",
  ["src/main.cpp", S + "SolverBase.cpp", S + "SolverBase.h", M + "SolverHydroMuscl.cpp", M + "SolverHydroMuscl.h", M + "SolverMHDMuscl.cpp", SD + "SolverHydroSDM.h"],
  [("when to save", S + "SolverBase.cpp should_save_solution"), ("what is saved", M + "SolverHydroMuscl.h next_iteration_impl"), ("restart", M + "SolverHydroMuscl.cpp init_restart"), ("driver", "src/main.cpp")],
  "abstract interpretation of construction, driver and step; dataflow of the arrays handed to the writer and read by the first step; decision table of the save predicate", "other",
  "The content of the files is C14. Restart of spectral difference solvers is not offered by the program (they have no restart branch)."),
P("C14", "Output files describe the mesh and hold the state",
  "A VTK image file written by a Godunov (MUSCL) solver is well formed and self-consistent: its extents are the cells it holds, origin and spacing those of the mesh, its arrays carry the names of the stored variables in order, offsets and block sizes "
  "locate the data, and each array holds the value of that variable in every interior cell exactly once, x fastest, as it is in the array of the current solution. In an MPI run each process writes its own part at its place in the global mesh and one "
  "header covers the global mesh and lists the file of every process with exactly the extent that file holds. Different outputs and processes use different files, below the output directory.", ["inputs", "configurations", "histories"],
  "solvers, step parities, ASCII and binary format, process grids, any mesh and state", "No test reads an output file back.",
  ["src/utils/io/IO_VTK.cpp", "src/utils/io/IO_VTK.h", "src/utils/io/IO_ReadWrite.cpp", "src/utils/io/IO_common.cpp", S + "SolverBase.cpp"],
  [("image files", "src/utils/io/IO_VTK.cpp save_VTK_3D"), ("parallel header", "src/utils/io/IO_VTK.cpp write_pvti_header")],
  "abstract interpretation of the output code with a stream model; the produced document is evaluated for meshes and process grids and compared with the mesh and state it must describe", "other",
  "The abstract document (symbolic mesh size, rank and state) is compared for a family of mesh sizes, process grids, ranks and output numbers, not all; cell values stay symbolic. XDMF wrappers, parallel netCDF and the unstructured files of the spectral difference solvers are not covered."),
P("C32", "An HDF5 snapshot holds the state, and restarting from it restores it",
  "An HDF5 snapshot of a Godunov (MUSCL) solver has one data set per stored variable, of the size of the global mesh (with outer ghost cells, with all ghost cells, or stacked by process, as requested), in which every element is written and holds "
  "the value of that variable in the cell of the current solution at that place; no two processes write different values to one element. It carries the output number and time of the state. Reading it back gives every process exactly the saved "
  "value of each of its interior cells, output number and time, also on another process grid; with run/restart_upscale each cell gets the value of the half-resolution cell it lies in, and face-centred magnetic fields are interpolated so that they "
  "stay divergence free. No transfer goes beyond its buffer or data space.", ["inputs", "configurations", "schedules", "histories"],
  "solvers, step parities, ghost and assembly options, process grids of the writing and the reading run, any mesh and state", "No test writes or reads a snapshot.",
  ["src/utils/io/IO_HDF5.h", "src/utils/io/IO_ReadWrite.cpp", S + "SolverBase.cpp"],
  [("snapshot", "src/utils/io/IO_HDF5.h Save_HDF5_mpi"), ("reading", "src/utils/io/IO_HDF5.h Load_HDF5_mpi"), ("refinement", "src/utils/io/IO_HDF5.h copy_buffer")],
  "abstract interpretation of writer and reader with a model of the HDF5 calls; their composition, instantiated for meshes and process grids with symbolic cell values, must be the identity (or the refinement)", "other",
  "Instantiated for a family of mesh sizes, process grids and ranks, not all; cell values stay symbolic. Restart from a file written with reassembleInFile=false, which the reader does not offer, is excluded; so are XDMF wrappers."),
P("C15", "Settings mean what the parameter file says, in every part of the program",
  "Every field of the run parameters, in the serial and MPI builds and for every solver name, is the setting documented for it (mesh, box, cell sizes, times, CFL, gamma, floors, boundary types, Riemann solver, slope type, output options) or its "
  "documented default; a setting read in several places has one default; a solver name creates the solver of that family, dimension and order; unknown names and variants fall back to the documented ones; boolean, real and integer texts are read as "
  "documented, missing or malformed ones give the default.", ["inputs", "configurations"],
  "all solver names, all test problems, any values of the settings", "Tests read a handful of settings with one value each.",
  [S + "HydroParams.cpp", S + "HydroParams.h", S + "SolverFactory.cpp", S + "SolverFactory.h", S + "SolverBase.cpp", "src/utils/config/ConfigMap.cpp", "src/utils/config/inih/INIReader.cpp", S + "problems/BlastParams.h", S + "problems/ImplodeParams.h", S + "problems/JetParams.h",
   S + "problems/WedgeParams.h", S + "problems/IsentropicVortexParams.h", S + "problems/KHParams.h"],
  [("parameters", S + "HydroParams.cpp setup"), ("solver table", S + "SolverFactory.cpp SolverFactory"), ("reading", "src/utils/config/ConfigMap.cpp getBool")],
  "abstract interpretation of the set-up code with a symbolic parameter file; value numbers of every field and default against tables", "other",
  "The text format of the parameter file (inih) is not analysed. Defaults are compared with spec/defaults.json, formulas by value."),
P("C20", "The update is dimensionally consistent",
  "Changing the units of mass, length and time of the state, mesh, time step and floors changes the result of a step only by the same change of units.",
  ["inputs", "configurations"], "every flow state, choice of units, cell, implementation variant, limiter and closed-form Riemann solver", NOT_RUN, MUSCL + RS,
  [("flux and update formulas", M + "HydroRunFunctors2D.h")], "dimension analysis by value numbering under a symbolic unit change", "other", GN),
P("C21", "Every interior cell is updated by the same local formula",
  "The new state of an interior cell is one fixed function of the old state of cells within the ghost width around it, whatever its position and next to whichever border it lies, "
  "and never of values left over from an earlier step or of unfilled temporary storage.",
  ["inputs", "configurations", "histories"], "every grid size, every border class of cells, every implementation variant, Riemann solver, limiter and step parity", NOT_RUN, MUSCL,
  [("index guards of every kernel", M + "HydroRunFunctors3D.h"), ("temporary arrays", M + "SolverMHDMuscl.h")], "stencil and stale-data dataflow analysis on value graphs", "other", GN),
P("C22", "No uninitialised value reaches the state, whatever is configured",
  "For every accepted parameter file no value that was never written can influence the new state, the time step or any branch of the update, of the finite-volume and of the spectral difference solvers.",
  ["inputs", "configurations"], "every solver, implementation variant, Riemann solver name incl. unknown ones, slope type", "Tests cannot observe an uninitialised read that happens to be harmless; and " + NOT_RUN,
  MUSCL + RS + [S + "HydroParams.cpp"], [("defaults and dispatch", S + "HydroParams.cpp"), ("Riemann dispatch", S + "RiemannSolvers_MHD.h riemann_mhd")],
  "definite-initialisation dataflow (taint) analysis", "proof", "Every kernel store of every context is an obligation; sound up to the modelled Kokkos semantics."),
P("C25", "Second-order accuracy of the step on smooth flow",
  "On smoothly (linearly) varying states one step reproduces the time expansion of the Euler or ideal MHD equations through second order in time: reconstruction, half-step predictor, fluxes "
  "and update use consistent cell sizes, time steps and source terms (incl. static gravity in the hydrodynamics solvers) for every direction and variable.",
  ["inputs", "configurations"], "every background state, every gradient (divergence-free for MHD), unequal cell sizes, implementation variant, Riemann solver and limiter", NOT_RUN, MUSCL + RS,
  [("half-step predictor", M + "HydroBaseFunctor3D.h trace_unsplit_3d_along_dir"), ("", M + "MHDBaseFunctor3D.h trace_unsplit_mhd_3d_simpler")],
  "value numbering of the step over truncated power series against the Taylor expansion of the equations", "other", GN),
P("C26", "Riemann solvers return the flux they are named after",
  "Each Riemann solver returns the flux of the scheme of its name (local Lax-Friedrichs, HLL, HLLC, HLLD, two-shock; two-dimensional HLLD for the electric field) for every pair of states: the physical flux for equal states, "
  "the upwind flux for supersonic flow, exact contact/Alfven waves where the scheme resolves them, and the jump relations across every wave, with outer speeds that bound the waves of both states.",
  ["inputs"], "every pair of states (four states around an edge for the electric field), every wave pattern, while no positivity floor is active", NOT_RUN, RS + [S + "mhd_utils.h"],
  [("flux formulas and sampling", S + "RiemannSolvers.h riemann_hllc"), ("", S + "RiemannSolvers_MHD.h riemann_hlld"), ("", S + "RiemannSolvers_MHD.h mag_riemann2d_hlld")],
  "value numbering of the solver's value graph against jump-relation formulas", "other", GN),
P("C05", "Ghost cells hold the values of the configured boundary condition",
  "When a step of a single-process run (finite volume, or spectral difference with every solution point of the ghost cell) reads its old state, every ghost cell of every face, edge and corner holds the value its boundary type prescribes: the nearest interior cell (Neumann), the mirrored cell with the "
  "normal velocity and normal field reversed (Dirichlet), or the cell at the opposite end of the domain (periodic).",
  ["inputs", "configurations"], "every grid of at least twice the ghost width, every combination of boundary types, ghost layer, edge and corner, variable, dimension, family, step parity", NOT_RUN,
  ["src/shared/BoundariesFunctors.h", "src/shared/SolverBase.h", "src/shared/SolverBase.cpp"], [("per-face boundary kernels", "src/shared/BoundariesFunctors.h MakeBoundariesFunctor3D"), ("order of the faces", "src/shared/SolverBase.cpp make_boundaries_serial")],
  GV, "other", "Decided for every cell class at symbolic grid size; mixed boundary combinations: each pair of adjacent faces is covered, all combinations in the thorough tier."),
P("C06", "A distributed run sees the global mesh",
  "In an MPI run the halo exchange completes (every receive has its send, in the same order, of the same size) and leaves in every ghost cell of every process the value that cell has on the global mesh "
  "(neighbour data, or the boundary condition at the border of the global domain); given that, each process computes for its cells what a single-process run computes, whatever the process grid.",
  ["inputs", "configurations", "schedules"], "every process grid, every process, boundary combination, ghost cell, variable, dimension, family, variant and step parity", "No test runs the MUSCL solvers under MPI; a run samples one process grid. " + NOT_RUN,
  ["src/shared/SolverBase.cpp", "src/shared/SolverBase.h", "src/shared/mpiBorderUtils.h", "src/shared/HydroParams.cpp", "src/utils/mpiUtils/MpiComm.cpp", "src/utils/mpiUtils/MpiCommCart.cpp"],
  [("transfer per direction", "src/shared/SolverBase.cpp transfert_boundaries_3d"), ("copy to and from message buffers", "src/shared/mpiBorderUtils.h"), ("process grid and neighbours", "src/shared/HydroParams.cpp setup_mpi")],
  "abstract interpretation with a symbolic process grid: message matching, and value numbering of ghost cells across processes", "other", "All process classes per direction (alone, first, last, inner, two processes) in rotation over the boundary combinations; symbolic process and mesh sizes."),
P("C07", "All processes perform the same collective operations",
  "In an MPI run every process reaches the same collective operations (barriers, all-process reductions, broadcasts, reductions to one process, creation of the process grid, collective operations on a shared HDF5 file) in the same order with matching "
  "arguments, through start-up, distribution of the parameter file, time steps, output, restart and shutdown, so a run never hangs in one; time, time step, step number and output number are the same on all processes after every step, so all agree "
  "on when to save and when to stop.",
  ["inputs", "configurations", "schedules", "histories"], "every process grid, solver family, output and restart option, step parity, any state", "No test runs a solver on several processes; a hang needs particular data, options or a process position.",
  ["src/main.cpp", "src/shared/SolverBase.cpp", "src/shared/HydroParams.cpp", "src/utils/config/ConfigMap.cpp", "src/utils/mpiUtils/MpiComm.cpp", "src/utils/io/IO_HDF5.h", "src/utils/io/IO_VTK.cpp"],
  [("all-process time step", "src/shared/SolverBase.cpp compute_dt"), ("collective output", "src/utils/io/IO_HDF5.h Save_HDF5_mpi"), ("parameter file", "src/utils/config/ConfigMap.cpp broadcast_parameters")],
  "uniformity dataflow: sources of every guard, loop condition and matching argument of every collective call, in abstractly interpreted runs of a symbolic process", "other",
  "Guards are judged by the sources of their values, whatever the values. Exits of single processes on errors, and parallel netCDF output (not built here), are not covered."),
P("C12", "The time step obeys the CFL condition of the whole domain",
  "The time step of the finite-volume and spectral difference solvers is the Courant number divided by the largest, over every interior cell of every process, of the summed per-direction signal speed over cell size; all processes use the same value, and the last step ends exactly at the end time.",
  ["inputs", "configurations"], "every flow state, mesh, number of processes, variant, family, step parity", NOT_RUN,
  [M + x for x in ("HydroRunFunctors2D.h", "HydroRunFunctors3D.h", "MHDRunFunctors2D.h", "MHDRunFunctors3D.h")] + ["src/shared/SolverBase.cpp"],
  [("reduction", M + "HydroRunFunctors2D.h ComputeDtFunctor2D"), ("all-process reduction and clamping", "src/shared/SolverBase.cpp compute_dt")],
  "abstract interpretation of the reduction, compared with the CFL formula by value numbering", "other", "The formula, the domain, the joiner and identity of the reduction, and which array is reduced, are decided for every cell."),
P("C01", "Kernels are free of data races",
  "No two iterations of a parallel kernel of a finite-volume or spectral difference run (initial condition, boundary fill, halo copies, time step, update) access the same array element unless both only read or both are atomic, "
  "so the result does not depend on the number of threads, the schedule or the Kokkos back end.",
  ["schedules", "inputs", "configurations"], "every pair of iterations of every kernel, every grid size, problem, implementation variant, dimension, family, with and without MPI", "Races show up only under particular schedules; " + NOT_RUN, MUSCL +
  ["src/shared/BoundariesFunctors.h", "src/shared/mpiBorderUtils.h", M + "MHDInitFunctors3D.h", M + "HydroInitFunctors3D.h"], [("flux accumulation with atomics", M + "MHDRunFunctors2D.h ComputeFluxesAndUpdateFunctor2D_MHD"),
  ("in-place boundary fill", "src/shared/BoundariesFunctors.h")], "affine dependence analysis of all access pairs of each kernel (Fourier-Motzkin)", "proof",
  "All kernels reached from construction and one step (both step parities between the contexts)."),
P("C02", "Kernels stay inside their arrays",
  "Every array access of a finite-volume or spectral difference run (incl. limiter, positivity and viscous kernels) lies inside an allocated array, for every grid size and configuration the parameter file can select.",
  ["inputs", "configurations"], "every access of every kernel, every grid size, problem, implementation variant, dimension, family, with and without MPI, with and without gravity", NOT_RUN, MUSCL +
  ["src/shared/BoundariesFunctors.h", "src/shared/mpiBorderUtils.h", M + "MHDInitFunctors3D.h", M + "HydroInitFunctors3D.h"], [("index guards", M + "HydroRunFunctors3D.h"), ("allocation per variant", M + "SolverHydroMuscl.h")],
  "affine bounds analysis of all array accesses (Fourier-Motzkin)", "proof", "All kernels reached from construction and one step."),
P("C23", "Initial conditions set a consistent state in every cell",
  "Each problem's initial condition gives every interior cell (solution point, in the spectral difference solvers, which set the same function as the finite-volume ones) a density and a total energy, as a function of the position of its centre in the global domain only (so independent of mesh size, borders and of which "
  "process owns it; random perturbations and vector potentials excepted); total energy is internal plus kinetic plus magnetic energy, i.e. the thermal pressure does not depend on velocity or field parameters; the "
  "initial magnetic field is divergence-free on the mesh; after construction both state arrays hold that state.",
  ["inputs", "configurations"], "every problem, parameter value, mesh size, process grid and cell", NOT_RUN,
  [M + x for x in ("HydroInitFunctors2D.h", "HydroInitFunctors3D.h", "MHDInitFunctors2D.h", "MHDInitFunctors3D.h", "SolverHydroMuscl.h", "SolverMHDMuscl.h")],
  [("problem selection", M + "SolverHydroMuscl.h init"), ("energy", M + "HydroInitFunctors2D.h InitImplodeFunctor2D"), ("vector potential", M + "MHDInitFunctors2D.h InitFieldLoopFunctor2D_MHD")],
  "abstract interpretation of construction; relational value numbering over refined meshes, process grids and parameters", "other",
  "A jump of the user-given normal field of the MHD implode problem is excluded. Not-a-number-free and positive values are not decided, only that density and energy are set."),
P("C24", "Test problems set the state their settings describe",
  "Each test problem starts from the density, velocity, thermal pressure, magnetic field and gravity field of its published definition, evaluated at the centre of each cell (at each solution point, in the spectral difference solvers) with the "
  "values the parameter file gives: implode (both shapes), blast, Kelvin-Helmholtz (each perturbation), Gresho vortex, the 19 four-quadrant configurations, isentropic vortex, Rayleigh-Taylor, rising bubble, accretion disk (centred at the origin), "
  "Orszag-Tang, rotor, field loop, linear waves, Sod, Shu-Osher, jet and wedge; random perturbations stay within half the requested amplitude.",
  ["inputs", "configurations"], "every problem and variant of it, every value of its settings, every mesh and cell, finite-volume hydro and MHD and spectral difference solvers, 2D and 3D", "Tests start few of these problems and compare no cell with its definition. " + NOT_RUN,
  [M + x for x in ("HydroInitFunctors2D.h", "HydroInitFunctors3D.h", "MHDInitFunctors2D.h", "MHDInitFunctors3D.h")] + [SD.rstrip("/") + "/HydroInitFunctors.h", "src/shared/problems/initRiemannConfig2d.h"],
  [("quadrants", "src/shared/problems/initRiemannConfig2d.h getRiemannConfig2d"), ("disk", M + "HydroInitFunctors2D.h InitDiskFunctor2D"), ("rotor", M + "MHDInitFunctors2D.h InitRotorFunctor2D_MHD"), ("settings", "src/shared/problems/KHParams.h")],
  "abstract interpretation of construction; random interpretation over the reals of the initial-state value graph against closed formulas", "other",
  "A jump of the normal field of the MHD implode problem, the energy of linear waves for gamma other than 5/3 (eigenvectors are tabulated), vertical velocity of the 2D field loop, and disks off the origin (gravity is taken relative to the disk centre) are excluded; vector potentials are sampled as the source does (half-cell shifts)."),
P("C27", "The spectral difference step conserves mass, momentum and energy",
  "One time step of every spectral difference solver leaves the integral of each conserved variable over a periodic domain unchanged (quadrature on the solution points of each cell), with and without viscous terms, "
  "also for discontinuous data.", ["inputs", "configurations"], SDQ, NOT_SDM, SDM + SVI + [S + "RiemannSolvers.h"],
  [("one flux per cell border", SD + "SDM_Flux_Functors.h ComputeFluxAtFluxPoints_Functor"), ("derivative at solution points", SD + "SDM_Interpolate_Functors.h")],
  "value numbering of the quadrature of the update (" + GV + ")", "other", GN + " ssprk54 coefficients have 15 digits and are compared to that precision."),
P("C28", "Space and time accuracy of the spectral difference step",
  "With N solution points per direction the flux divergence of every spectral difference solver is exact through polynomial degree N-1 of the perturbation of a uniform state (N-th order in space), and k-stage Runge-Kutta "
  "methods reproduce the time expansion of the Euler equations to the order of their name (Euler 1, ssprk2 2, ssprk3 3, ssprk54 4).",
  ["inputs", "configurations"], SDQ + "; unequal cell sizes; linear and quadratic terms of the perturbation", NOT_SDM, SDM,
  [("Lagrange interpolation and derivative matrices", SD + "SDM_Geometry.h init_lagrange_1d"), ("stages", SD + "SolverHydroSDM.h time_int_ssprk54")],
  "value numbering of the step over truncated power series against the Taylor expansion of the equations", "other", GN),
P("C29", "The spectral difference step has no preferred axis or direction",
  "Exchanging coordinate axes or mirroring one axis of the data and mesh exchanges or mirrors the result of a spectral difference step at the corresponding solution points, with and without viscous terms; without them, "
  "the 3D solvers perform on data independent of z the step of the 2D solvers.", ["inputs", "configurations"], SDQ + "; every axis permutation and mirror", NOT_SDM, SDM + SVI,
  [("per-direction branches", SD + "SDM_Interpolate_Functors.h"), ("averages at cell borders", SD + "SDM_Interpolate_viscous_Functors.h Average_component_at_cell_borders_Functor")],
  "equivariance of value graphs (" + GV + ")", "other", GN + " In 3D with several stages only in the thorough tier."),
P("C30", "Viscous terms are the divergence of the Newtonian stress",
  "With viscosity mu > 0 a spectral difference step changes momentum by dt times the divergence of the stress tensor mu (grad v + grad v^T - 2/dim div v), total energy by dt times the divergence of stress times velocity, and "
  "density not at all; it does so exactly for polynomial velocity fields the order can represent, in every cell incl. those at a border, and independently of earlier steps.",
  ["inputs", "configurations", "histories"], "every polynomial velocity, density, pressure, viscosity, unequal cell sizes, dimension and order", NOT_SDM + " No test enables viscosity.", SVI + SDM + [S + "EulerEquations.h", S + "HydroParams.cpp"],
  [("velocity gradients", SD + "SolverHydroSDM.h compute_velocity_gradients"), ("viscous flux", S + "EulerEquations.h flux_visc_x"), ("", SD + "SolverHydroSDM.h compute_viscous_fluxes_divergence_per_dir")],
  "value numbering of the difference of two denotations (mu and mu=0) against the stress divergence", "other", GN),
P("C31", "The spectral difference step is local, homogeneous and unit-free",
  "A spectral difference step leaves a uniform flow unchanged in every cell; applies in every cell of a periodic domain, at whichever border, the same function of the neighbouring cells and of nothing else (no left-over data "
  "of earlier steps or stages); and commutes with a change of the units of mass, length and time.", ["inputs", "configurations", "histories"], SDQ + "; every border class of cells", NOT_SDM, SDM + SVI,
  [("Runge-Kutta buffers", SD + "SolverHydroSDM.h time_int_ssprk3"), ("boundary fill per stage", SD + "SolverHydroSDM.h make_boundaries_sdm_serial")],
  "relational value numbering and stale-data dataflow on value graphs", "other", GN),
]
NA = []

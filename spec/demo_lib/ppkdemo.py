"""Runs the built ppkMHD binary in a scratch directory and reads its .vti results."""
import os, re, struct, subprocess, tempfile, shutil, glob, math

REPO = os.getcwd()
EXE = os.path.join(REPO, "_build/openmp/src/ppkMHD")
EXE_MPI = os.path.join(REPO, "_build/mpi/src/ppkMHD")


def ini(d):
    return "".join("[%s]\n%s\n" % (s, "".join("%s=%s\n" % kv for kv in kv_.items())) for s, kv_ in d.items())


def base(solver, problem, n, steps, **kw):
    d = {"run": {"solver_name": solver, "tend": 100.0, "nstepmax": steps, "noutput": -1},
         "mesh": {"nx": n[0], "ny": n[1], "nz": n[2] if len(n) > 2 else 1, "xmax": 1.0, "ymax": 1.0, "zmax": 1.0},
         "hydro": {"gamma0": 1.666, "cfl": 0.8, "niter_riemann": 10, "iorder": 2, "slope_type": 2, "problem": problem, "riemann": "hlld" if "MHD" in solver else "hllc",
                   "smallr": 1e-8, "smallc": 1e-8},
         "output": {"outputprefix": "out", "outputvtkascii": "false"}, "other": {"implementationversion": 0}}
    for x in "xyz":
        for m in ("min", "max"): d["mesh"]["boundary_type_%s%s" % (x, m)] = 3
    for k, v in kw.items():
        s, n_ = k.split("__"); d.setdefault(s, {})[n_] = v
    return d


def read_vti(p):
    b = open(p, "rb").read()
    i = b.index(b"<AppendedData"); i = b.index(b"_", i) + 1
    head = b[:i].decode("latin1")
    out = {}
    for nm, off in re.findall(r'<DataArray[^>]*Name="([^"]+)"[^>]*offset="(\d+)"', head):
        q = i + int(off); n = struct.unpack_from("<Q", b, q)[0]
        out[nm] = struct.unpack_from("<%dd" % (n // 8), b, q + 8)
    return out


class Run: pass


def run(d, exe=None, pre=None, threads=2, timeout=120, files=None):
    t = tempfile.mkdtemp(prefix="ppkdemo")
    try:
        open(os.path.join(t, "p.ini"), "w").write(ini(d))
        for n, b in (files or {}).items(): open(os.path.join(t, n), "wb").write(b)
        env = dict(os.environ, OMP_NUM_THREADS=str(threads), OMP_PROC_BIND="false")
        r = subprocess.run((pre or []) + [exe or EXE, "./p.ini"], cwd=t, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        R = Run(); R.out = r.stdout; R.rc = r.returncode
        R.states = [read_vti(f) for f in sorted(glob.glob(t + "/out_*.vti") + glob.glob(t + "/out_*.vtu"))]
        R.files = {os.path.basename(f): open(f, "rb").read() for f in glob.glob(t + "/out*")}
        R.dts = [float(x) for x in re.findall(r"dt=\s*([-0-9.eE+naif]+)", r.stdout)]
        return R
    finally: shutil.rmtree(t, ignore_errors=True)


def diff(a, b): return max(abs(x - y) if x == x and y == y else float("inf") for x, y in zip(a, b))


MPI = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np"]

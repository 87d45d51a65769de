"""MPI library model: the MPI_* calls the program makes become events (communication is decided from these, not from the wrapper classes)."""
from .dom import *
from .ir import AnalysisBroken

MPI_SRC = ["src/utils/mpiUtils/MpiComm.cpp", "src/utils/mpiUtils/MpiCommCart.cpp"]
AX = "xyz"


def gname(v):
    """name of the predefined handle behind an MPI macro (ompi_mpi_double -> double)"""
    if isinstance(v, Ref):
        l = v.loc
        for x in reversed(l if isinstance(l, tuple) else (l,)):
            if isinstance(x, str) and x.startswith("ompi_"):
                for p in ("ompi_mpi_op_", "ompi_mpi_comm_", "ompi_mpi_"):
                    if x.startswith(p): return x[len(p):]
    if isinstance(v, Sel): return "?"
    return "?"


class MPI:
    def __init__(self, I):
        self.I = I; self.dims = None; self.log = []; self.anyrank = False; self.coords = {AXN: (psym("rank"), k) for k, AXN in enumerate(("pos:x", "pos:y", "pos:z"))}
        for n in dir(self):
            if n.startswith("do_"): I.hooks["MPI_" + n[3:]] = self.wrap(n[3:], getattr(self, n))
        I.hooks["ErrorPolling::pollForFailures"] = I.hooks["hydroSimu::ErrorPolling::pollForFailures"] = lambda *a: 0

    def wrap(self, name, fn):
        def h(I, st, fr, args, line, this):
            v = [I.ev(st, fr, a) for a in args]
            w = []; f = fr
            while f is not None:
                if hasattr(f.fn, "file"): w.append("%s:%d" % (f.fn.relfile(), f.line))
                f = f.caller
            d = fn(st, v)
            if isinstance(d, Node): return d
            if d is not None:
                d.update(name=name, where=I.where(fr, line), pc=st.pc, stack=w)
                I.events.append(("mpi", d))
            return 0
        return h

    def put(self, st, r, v):
        if not isinstance(r, Ref): raise AnalysisBroken("MPI output argument %r" % (r,))
        st.mem[r.loc] = v; st.log.add(r.loc)

    def elem(self, r, k):
        l = r.loc
        if l and l[-1] == "[]": return l[:-1] + (k,)
        if l and isinstance(l[-1], int) and not isinstance(l[-1], bool): return l[:-1] + (l[-1] + k,)
        return l + (k,)

    def get(self, st, r, k):
        v = st.mem.get(self.elem(r, k))
        if v is None: v = st.mem.get(r.loc + (k,))
        if v is None: raise AnalysisBroken("MPI array argument %r" % (r,))
        return v

    def do_Initialized(self, st, v): self.put(st, v[0], 1)
    def do_Comm_rank(self, st, v): self.put(st, v[1], psym("rank"))
    def do_Comm_size(self, st, v): self.put(st, v[1], psym("nprocs"))

    def do_Cart_create(self, st, v):
        n = v[1]
        self.dims = [self.get(st, v[2], k) for k in range(n)]
        per = [self.get(st, v[3], k) for k in range(n)]
        self.put(st, v[5], Opq("cartesian communicator"))
        return {"dims": self.dims, "periods": per}

    def do_Cart_coords(self, st, v):
        if self.anyrank and v[1] != psym("rank") and isinstance(v[1], (int, Poly)):
            for k in range(v[2]):
                n = "pos:%s@%r" % (AX[k], v[1]); self.coords[n] = (topoly(v[1]), k)
                l = self.elem(v[3], k); st.mem[l] = psym(n); st.log.add(l)
            return
        if v[1] != psym("rank") and getattr(v[1], "key", None) is None: raise AnalysisBroken("MPI_Cart_coords of rank %r" % (v[1],))
        for k in range(v[2]):
            l = self.elem(v[3], k); st.mem[l] = psym("pos:" + AX[k]); st.log.add(l)

    def do_Cart_rank(self, st, v):
        off = []
        for k in range(len(self.dims)):
            d = padd(topoly(self.get(st, v[1], k)), psym("pos:" + AX[k]), -1)
            if not d.is_const(): raise AnalysisBroken("MPI_Cart_rank of coordinates %r" % (d,))
            off.append(int(d.const()))
        self.put(st, v[2], psym("nbr:" + ",".join(map(str, off))))

    def do_Cart_shift(self, st, v):
        d, disp = v[1], v[2]
        if not isinstance(d, int) or not isinstance(disp, int): raise AnalysisBroken("MPI_Cart_shift with unknown direction")
        for r, s in ((v[3], -disp), (v[4], disp)):
            off = [0] * len(self.dims); off[d] = s
            self.put(st, r, psym("nbr:" + ",".join(map(str, off))))

    def do_Barrier(self, st, v): return {"kind": "collective"}

    def do_Allreduce(self, st, v):
        src = v[0]
        if not isinstance(src, Ref) and isinstance(v[1], Ref): src = v[1]      # MPI_IN_PLACE
        val = st.mem.get(src.loc) if isinstance(src, Ref) else src
        n = sum(1 for e in self.I.events if e[0] == "mpi" and e[1]["name"] == "Allreduce") + 1
        if isinstance(v[1], Ref): self.put(st, v[1], mk("sym", "allreduced%d" % n))
        return {"kind": "collective", "value": val, "count": v[2], "type": gname(v[3]), "op": gname(v[4]), "n": n}

    def do_Reduce(self, st, v):
        src = v[0]
        val = st.mem.get(src.loc) if isinstance(src, Ref) else src
        if isinstance(v[1], Ref): self.put(st, v[1], mk("sym", "reduced on root%d" % len(self.I.events)))
        return {"kind": "collective", "value": val, "count": v[2], "type": gname(v[3]), "op": gname(v[4]), "root": v[5]}

    def do_Wtime(self, st, v): return mk("sym", "wtime%d" % len(self.I.events))

    def do_Bcast(self, st, v):
        if isinstance(v[0], Ref):         # every process continues with the value of the root
            o = st.mem.get(v[0].loc)
            if isinstance(o, (Poly, Sel, Node)) and Uni(self.I)(o):
                f = gname(v[2]) in ("double", "float"); n = "bcast%d" % len(self.I.events)
                self.put(st, v[0], mk("sym", n) if f else psym(n))
        return {"kind": "collective", "count": v[1], "type": gname(v[2]), "root": v[3], "buf": v[0]}

    def peer(self, p):
        """offset of a partner process; None when it is not a neighbour in the virtual topology"""
        if isinstance(p, Poly) and len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0].startswith("nbr:"): return tuple(int(x) for x in m[0][4:].split(","))
        return None

    def do_Sendrecv(self, st, v):
        return {"kind": "p2p", "send": v[0], "scount": v[1], "stype": gname(v[2]), "dest": self.peer(v[3]), "stag": v[4],
                "recv": v[5], "rcount": v[6], "rtype": gname(v[7]), "src": self.peer(v[8]), "rtag": v[9]}


SAFE = ("g:H5", "g:ompi", "cfg:", "file.", "attr:", "allreduced", "bcast", "h5:", "params.", "nprocs", "argc")
DIFF = ("rank", "pos:", "nbr:", "wtime", "clock")


def several(c):
    """outcome of a test of the number of processes when there are several"""
    if isinstance(c, bool): return c
    op = getattr(c, "op", None)
    if op == "not": r = several(c.a[0]); return None if r is None else not r
    if op not in ("ge0", "eq0") or not isinstance(c.a[0], Poly): return None
    p = c.a[0]; k = b = 0
    for m, q in p.t.items():
        if m == (): b = q
        elif m == ("nprocs",): k = q
        else: return None
    v = 2 * k + b
    if op == "ge0": return True if k >= 0 and v >= 0 else False if k <= 0 and v < 0 else None
    return False if k and v * k > 0 else None


class Uni:
    """sources of a value that differ between processes"""
    def __init__(self, I, uniform=()): self.I = I; self.u = set(uniform); self.busy = set(); self.memo = {}; self.unknown = set(); self.same = {}

    def sym(self, n):
        if n in self.u or n.startswith(SAFE): return frozenset()
        if n.startswith(DIFF): return frozenset([n.split("@")[0]])
        I = self.I
        if n in I.divs:
            a, b = I.divs[n]; return self(a) | self(b)
        if n.startswith("loop") and "." in n:
            lid = n.split(".")[0]
            if lid in getattr(I, "loopdef", {}): return self.loop(lid)
        if n.startswith(("ext:", "ret:")): return frozenset([n])
        self.unknown.add(n)
        return frozenset([n])

    def loop(self, lid):
        if lid in self.busy: return frozenset()
        self.busy.add(lid)
        try:
            cond, init, nxt, brk = self.I.loopdef[lid]
            s = self(cond)
            for v in list(init) + list(nxt): s |= self(v)
            return s
        finally: self.busy.discard(lid)

    def __call__(self, v):
        if v is None or isinstance(v, (bool, int, float, str, Fraction)): return frozenset()
        if id(v) in self.same: return frozenset()
        k = id(v)
        if k in self.memo and not self.busy: return self.memo[k][1]
        r = self.calc(v)
        if not self.busy: self.memo[k] = (v, r)
        return r

    def calc(self, v):
        s = frozenset()
        if isinstance(v, Poly):
            for m in v.t:
                for x in m: s |= self.sym(x)
            return s
        if isinstance(v, Sel):
            k = self.several(v.c)
            return self(v.c) | self(v.a) | self(v.b) if k is None else self(v.a if k else v.b)
        if isinstance(v, (View, Ref)): return s
        if isinstance(v, Lib):
            for a in v.args: s |= self(a)
            return s
        if isinstance(v, (tuple, list)):
            for a in v: s |= self(a)
            return s
        if isinstance(v, Opq):
            k = v.key
            if isinstance(k, tuple) and k and k[0] == "cfg": return s
            return frozenset(["%s" % (k,)]) if self.opq(k) else s
        op = getattr(v, "op", None)
        if op is None: return s
        if op == "sym": return self.sym(v.a[0])
        if op == "reduced": return frozenset(["the result of a reduction over the cells of the process"])
        if op in ("ld", "eload", "uninit"): return frozenset(["the contents of array %s" % v.a[0]])
        if op in ("bopq", "opq"):
            n = v.a[0]
            if isinstance(n, str) and n.startswith("cfg:"): return s
            if isinstance(n, tuple) and n and n[0] == "cfg": return s
            return frozenset([str(n)])
        if op == "sel":
            k = self.several(v.a[0])
            if k is not None: return self(v.a[1] if k else v.a[2])
        for a in v.a: s |= self(a)
        return s

    def several(self, c): return several(c)

    def opq(self, k):
        t = repr(k)
        return any(x in t for x in ("MPI_Wtime", "rank", "clock", "time("))

"""HDF5 library model: the H5* calls the program makes become ordered events, with the values of their arguments."""
from .dom import *
from .ir import AnalysisBroken

OUT = {"Fcreate", "Fopen", "Screate_simple", "Screate", "Sselect_hyperslab", "Dcreate2", "Dopen2", "Dwrite", "Dread", "Acreate2", "Aopen", "Aopen_name", "Awrite", "Aread", "Fclose", "Dclose", "Sclose", "Aclose", "Pset_chunk"}


class H5:
    def __init__(self, I, P):
        self.I = I; self.n = 0; self.attr = {}; self.mpio = set(); self.coll = set(); self.facc = {}
        names = set()
        for f in ("Fcreate Fopen Fclose Fflush Screate_simple Screate Sclose Scopy Sselect_hyperslab Sselect_all Dcreate2 Dcreate1 Dopen2 Dopen1 Dclose Dwrite Dread Dget_type Dget_space Acreate2 Acreate1 Aopen Aopen_name Awrite Aread Aclose Aexists "
                  "Pcreate Pclose Pset_chunk Pset_shuffle Pset_deflate Pset_fapl_mpio Pset_dxpl_mpio Tcopy Tset_size Tclose Tget_class Tequal Gopen2 Gopen1 Gclose open check_version").split():
            I.hooks["H5" + f] = self.wrap(f)

    def handle(self, k): self.n += 1; return psym("h5:%s%d" % (k, self.n))

    def vec(self, st, r, n):
        if not isinstance(r, Ref): return None
        l = r.loc[:-1] if r.loc and r.loc[-1] in ("[]", 0) else r.loc
        out = [st.mem.get(l + (k,)) for k in range(n)]
        if any(x is None for x in out): raise AnalysisBroken("array argument of an HDF5 call")
        return out

    def wrap(self, name):
        def h(I, st, fr, args, line, this):
            v = [I.ev(st, fr, a) for a in args]; r = 0; d = None
            def ldp(x): return st.mem.get(x.loc) if isinstance(x, Ref) else x
            if name in ("Fcreate", "Fopen"): r = self.handle("file"); d = (r, v[0]); self.facc[repr(r)] = (v[3] if name == "Fcreate" else v[2], v[1])
            elif name == "Pset_fapl_mpio": self.mpio.add(repr(v[0]))
            elif name == "Pset_dxpl_mpio": (self.coll.add if v[1] == 1 else self.coll.discard)(repr(v[0]))
            elif name == "Screate_simple":
                n = v[0]; r = self.handle("space"); d = (r, self.vec(st, v[1], n))
            elif name == "Screate": r = self.handle("space"); d = (r, [])
            elif name == "Sselect_hyperslab":
                d = (v[0], v[1], [self.vec(st, x, self.rankof(v[0])) for x in v[2:6]])
            elif name in ("Dcreate2", "Dopen2", "Dcreate1", "Dopen1"): 
                r = self.handle("set"); d = (r, v[0], v[1], v[3] if name.startswith("Dcreate") else None, v[5] if name == "Dcreate2" else None)
            elif name in ("Dwrite", "Dread"): d = tuple(v)
            elif name == "Acreate2" or name == "Acreate1": r = self.handle("attr"); self.attr[repr(r)] = v[1]; d = (r, v[0], v[1], v[2])
            elif name in ("Aopen", "Aopen_name"): r = self.handle("attr"); self.attr[repr(r)] = v[1]; d = (r, v[0], v[1])
            elif name == "Awrite": d = (self.attr.get(repr(v[0])), v[1], ldp(v[2]))
            elif name == "Aread":
                a = self.attr.get(repr(v[0])); d = (a, v[1])
                if isinstance(v[2], Ref):
                    o = st.mem.get(v[2].loc)
                    st.mem[v[2].loc] = mk("sym", "attr:%s" % a) if "NATIVE_DOUBLE" in tname(v[1]) or "NATIVE_FLOAT" in tname(v[1]) else psym("attr:%s" % a); st.log.add(v[2].loc)
            elif name in ("Fclose", "Dclose"): d = (v[0],)
            elif name == "Pset_chunk": d = (v[0], self.vec(st, v[2], v[1]))
            elif name == "Pcreate": r = self.handle("plist")
            elif name in ("Gopen2", "Gopen1"): r = self.handle("group")
            elif name in ("Tcopy", "Dget_type"): r = psym("h5:type") if name == "Tcopy" else psym("h5:typeof")
            elif name == "Tget_class": r = psym("h5:class")
            if name == "Screate_simple": self.rk = getattr(self, "rk", {}); self.rk[repr(r)] = v[0]
            if d is not None: I.events.append(("h5", name, d, st.pc, I.where(fr, line)))
            return r
        return h

    def rankof(self, s):
        n = getattr(self, "rk", {}).get(repr(s))
        if n is None:
            if isinstance(s, Sel): n = self.rankof(s.a)
            else: raise AnalysisBroken("hyperslab of an unknown data space")
        return n


def tname(v):
    if isinstance(v, Ref):
        for x in reversed(v.loc):
            if isinstance(x, str) and x.startswith("H5"): return x
    return repr(v)

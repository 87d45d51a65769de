"""Output files: their description (extents, names, offsets, pieces) matches the data they hold, and the data is the state."""
import re, itertools
import xml.etree.ElementTree as ET
from .checks_fv import *
from .driver import *
from .checks_cfg import SOLVERS
from .ir import load_program
from . import ir

IOSRC = MUSCL_SRC + ["src/shared/SolverFactory.cpp", "src/utils/io/IO_ReadWrite.cpp", "src/utils/io/IO_VTK.cpp", "src/utils/io/IO_common.cpp"]
NAMES = ["rho", "energy", "rho_vx", "rho_vy", "rho_vz", "bx", "by", "bz"]
_P = {}


def ioprog(config):
    if config not in _P:
        src = IOSRC + (["src/utils/mpiUtils/MpiComm.cpp", "src/utils/mpiUtils/MpiCommCart.cpp"] if config == "mpi" else [])
        _P[config] = load_program(config, src)
    return _P[config]


def io_run(config, solver, cfg, it=0):
    cls, dim, nbvar, gw, mhd = SOLVERS[solver]
    c = {("hydro", "riemann"): "hlld" if mhd else "hllc", ("OTHER", "implementationVersion"): 0, ("hydro", "slope_type"): 1, ("gravity", "static"): False, ("gravity", "point"): False,
         ("run", "restart_enabled"): False, ("hydro", "problem"): "blast", ("run", "noutput"): 10, ("output", "vtk_enabled"): True, ("output", "hdf5_enabled"): False,
         ("output", "outputVtkAscii"): False, ("output", "outputDir"): "Dir", ("output", "outputPrefix"): "Pre"}
    c.update(cfg)
    R = solver_run(ioprog(config), solver, "ppkMHD::" + cls, c, opt={"streams": 2})
    R.solver, R.dim, R.config, R.gw, R.nb, R.mhd = solver, dim, config, gw, nbvar, mhd
    if config == "mpi": R.I.mpi.anyrank = True
    step(R, iteration=it, method="init_io")
    R.st.mem[R.sloc + ("m_t",)] = mk("sym", "t"); R.st.mem[R.sloc + ("m_times_saved",)] = psym("saved")
    R.n0 = len(R.I.events)
    step(R, iteration=it, method="save_solution")
    return R


class Env:
    """values of the integer symbols; loops are unrolled with them"""
    def __init__(self, I, syms): self.I = I; self.s = dict(syms); self.bools = {}

    def sym(self, n):
        if n in self.s: return self.s[n]
        if n in self.I.divs:
            a, b = self.I.divs[n]; a = self.p(a); b = self.p(b)
            if not b: raise AnalysisBroken("division by zero in the output code")
            return a // b if a * b >= 0 else -(-a // b)
        m = getattr(self.I, "mpi", None)
        if m is not None and n in m.coords:
            r, k = m.coords[n]; r = self.p(r)
            d = [self.p(topoly(x)) for x in m.dims]
            q = []
            for x in reversed(d): q.insert(0, r % x); r //= x
            return q[k]
        raise AnalysisBroken("the output depends on %s" % n)

    def p(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, (int, Fraction)): return v
        if isinstance(v, Sel): return self.p(v.a if self.b(v.c) else v.b)
        if isinstance(v, Poly):
            v = self.I.norm(v); t = 0
            for m, c in v.t.items():
                for x in m: c = c * self.sym(x)
                t += c
            return int(t) if isinstance(t, Fraction) and t.denominator == 1 else t
        raise AnalysisBroken("integer value %r in the output code" % (v,))

    def b(self, c):
        if isinstance(c, bool): return c
        if isinstance(c, (int, Poly)): return self.p(c) != 0
        if isinstance(c, Sel): return self.b(c.a if self.b(c.c) else c.b)
        o = c.op
        if o == "ge0": return self.p(c.a[0]) >= 0
        if o == "eq0": return self.p(c.a[0]) == 0
        if o == "not": return not self.b(c.a[0])
        if o == "and": return all(self.b(x) for x in c.a)
        if o == "or": return any(self.b(x) for x in c.a)
        raise AnalysisBroken("the output depends on the condition %r" % (c,))

    def val(self, v):
        """integer, or a real value: ("cell", array, index) / Node"""
        if isinstance(v, Sel): return self.val(v.a if self.b(v.c) else v.b)
        if isinstance(v, (int, Fraction, Poly)): return self.p(v)
        if isinstance(v, Node) and v.op == "ld":
            return ("cell", v.a[0], tuple(self.p(x) for x in v.a[1]))
        if isinstance(v, Node) and v.op == "i2f": return Fraction(self.p(v.a[0]))
        if isinstance(v, Node) and v.op == "c": return v.a[0]
        return v


def replay(I, events, env, emit):
    """run the ordered events for one choice of the integer symbols"""
    k = 0; n = len(events)
    while k < n:
        e = events[k]
        if e[0] == "loop":
            lid = e[1][0]; d = 1; j = k + 1
            while True:
                if events[j][0] == "loop": d += 1
                elif events[j][0] == "endloop":
                    d -= 1
                    if d == 0: break
                j += 1
            body = events[k + 1:j]; k = j + 1
            if not all(env.b(c) for c in e[2]): continue
            if not hasattr(I, "loopdef") or lid not in I.loopdef: raise AnalysisBroken("loop %s of the output code" % (e[1],))
            cond, init, nxt, brk = I.loopdef[lid]
            if not any(x[0] in ("out", "hostview", "h5", "loop", "store") for x in body): continue
            if brk: raise AnalysisBroken("%s: output loop left by break" % (e[1][1],))
            def cv(v):
                try: return env.p(v)
                except AnalysisBroken: return None
            st = [cv(v) if isinstance(v, (int, Poly, Sel)) else None for v in init]
            cnt = 0
            while True:
                for q, v in enumerate(st):
                    if v is not None: env.s["%s.%d" % (lid, q)] = v
                    else: env.s.pop("%s.%d" % (lid, q), None)
                if not env.b(cond): break
                replay(I, body, env, emit)
                st = [cv(v) if isinstance(v, (int, Poly, Sel)) else None for v in nxt]
                cnt += 1
                if cnt > 4000: raise AnalysisBroken("output loop does not end")
            for q, v in enumerate(st):
                if v is not None: env.s["%s.out%d" % (lid, q)] = v
            continue
        k += 1
        if e[0] in ("out", "deep_copy", "hostview", "h5", "mpi", "launch"):
            if e[0] == "out":
                if all(env.b(c) for c in e[2]): emit(e, env)
            else: emit(e, env)


def files(R, env):
    """files written: name -> list of ("t", text) / ("n", number) / ("v", value) / ("raw", value, bytes)"""
    out = {}; cur = {}; order = []
    host = {}
    def own(v):
        return ("cell", "copy of " + host[v[1]], v[2]) if isinstance(v, tuple) and v and v[0] == "cell" and v[1] in host else v
    def em(e, env):
        if e[0] == "deep_copy" and len(e[1]) > 1 and isinstance(e[1][0], View) and isinstance(e[1][1], View) and all(env.b(c) for c in e[2]): host[e[1][0].alloc] = e[1][1].alloc
        if e[0] != "out": return
        root, op = e[1][0], e[1][1]; rest = e[1][2:]
        if op == "open":
            n = name_of(rest[0], env); cur[root] = out.setdefault(n, []); out[n].clear(); order.append(n); return
        if op == "close": cur.pop(root, None); return
        if root not in cur: raise AnalysisBroken("output to a file that is not open")
        f = cur[root]; w = e[3]
        if op == "text": f.append(("t", rest[0], w))
        elif op == "val": f.append(("v", own(text_of(rest[0], rest[1], env)), w))
        else: f.append(("raw", own(env.val(rest[0])), env.p(rest[1]), w))
    replay(R.I, R.I.events[R.n0:], env, em)
    return out


def fmtnum(v, fmt):
    f = dict(fmt); s = str(v)
    w = f.get("width") or 0; fill = f.get("fill", " "); fill = chr(fill) if isinstance(fill, int) else fill
    if w: s = s.rjust(w, fill) if not f.get("left") else s.ljust(w, fill)
    return s


def text_of(v, fmt, env):
    if isinstance(v, Sel): return text_of(v.a if env.b(v.c) else v.b, fmt, env)
    if isinstance(v, str): return fmtnum(v, fmt)
    if isinstance(v, Lib) and v.ty == "to_string": return str(env.p(v.args[0]))
    if isinstance(v, Lib) and v.ty == "fmt": return text_of(v.args[0], v.args[1], env)
    if isinstance(v, Lib) and v.ty == "cat": return name_of(v, env)
    if isinstance(v, (int, Poly)): return fmtnum(env.p(v), fmt)
    if isinstance(v, Fraction): return Fraction(v)
    return env.val(v)


def name_of(v, env):
    if isinstance(v, Sel): return name_of(v.a if env.b(v.c) else v.b, env)
    if isinstance(v, str): return v
    if isinstance(v, Lib) and v.ty in ("cat", "string"): return "".join(name_of(x, env) for x in v.args)
    if isinstance(v, (Lib, int, Poly)):
        t = text_of(v, (), env)
        if isinstance(t, str): return t
    raise AnalysisBroken("name built from %r" % (v,))


class Doc:
    """text of a file with numbered placeholders for computed values and raw data"""
    def __init__(self, items):
        self.tok = []; t = []; self.first = {}
        for it in items:
            if it[0] == "t": t.append(it[1]); continue
            if it[0] == "v" and isinstance(it[1], str): t.append(it[1]); continue
            t.append("@%d@" % len(self.tok)); self.tok.append(it)
        self.text = "".join(t)
        self.where = items[0][-1] if items else ""

    def words(self, s):
        """white-space separated words, placeholders resolved: int/Fraction/str/value"""
        out = []
        for w in (s or "").split():
            out.append(self.word(w))
        return out

    def word(self, w):
        m = re.fullmatch(r"@(\d+)@", w)
        if m: return self.tok[int(m.group(1))]
        if re.fullmatch(r"-?\d+", w): return int(w)
        if re.fullmatch(r"-?\d+\.\d*", w): return Fraction(w)
        return w


def val_of(x): return x[1] if isinstance(x, tuple) else x


def sizes(dim, tier):
    s2 = [(3, 2, 1), (1, 4, 1), (4, 1, 1)]; s3 = [(3, 2, 4), (1, 3, 2), (2, 1, 1)]
    return (s2 if dim == 2 else s3)[:2 if tier == "quick" else 3]


def envs(R, tier):
    out = []
    grids = [(1, 1, 1)] if R.config != "mpi" else [(2, 3, 1), (1, 1, 1)] if R.dim == 2 else [(2, 1, 3), (1, 2, 1)]
    for n in sizes(R.dim, tier):
        for g in grids:
            np = g[0] * g[1] * (g[2] if R.dim == 3 else 1)
            for r in sorted({0, np - 1, np // 2}):
                for s in (0, 34) if n != sizes(R.dim, tier)[0] else (0, 34, 100034, 10000000):
                    out.append((n, g, np, r, s))
    return out


def mkenv(R, n, g, np, r, s):
    e = {"saved": s, "rank": r, "nprocs": np}
    for a, k in zip("xyz", range(3)):
        e["cfg:mesh/n" + a] = n[k]; e["cfg:mpi/m" + a] = g[k]; e["cfg:mesh/m" + a] = g[k]
    return Env(R.I, e)


def pos_of(R, g, r):
    d = g[:R.dim]; q = []
    for x in reversed(d): q.insert(0, r % x); r //= x
    return q


def same_real(R, a, b, seed=7):
    from .checks_cfg import num
    def norm(x):
        if isinstance(x, tuple): x = x[1]
        return x
    a, b = norm(a), norm(b)
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)): return a == b
    if isinstance(a, Node) and isinstance(b, Node) and a is b: return True
    if not all(isinstance(x, (Node, int, Fraction, Poly)) for x in (a, b)): return False
    return num(R.I, a, seed) == num(R.I, b, seed)


def check_image(res, R, doc, n, lo, key, w, what, cellbase, arr):
    """one image-data file: lo = first cell of the piece, n = cells per direction"""
    I, st = R.I, R.st; dim, gw, nb = R.dim, R.gw, R.nb
    cells = n[0] * n[1] * (n[2] if dim == 3 else 1)
    try: root = ET.fromstring(doc.text.strip())
    except ET.ParseError as ex:
        res.violate("xml:" + key, "%s: the file is not well-formed (%s)" % (what, ex)); return
    at = root.attrib
    if not res.check(root.tag == "VTKFile" and at.get("type") == "ImageData", "type:" + key, "%s: file type %r" % (what, at.get("type"))): return
    res.check(at.get("byte_order") == "LittleEndian", "order:" + key, "%s: byte order %r" % (what, at.get("byte_order")))
    img = root.find("ImageData"); pcs = img.findall("Piece") if img is not None else []
    if not res.check(img is not None and len(pcs) == 1, "struct:" + key, "%s: no image data with one piece" % what): return
    ext = []
    for d in range(3): ext += [lo[d], lo[d] + n[d]] if d < dim else [0, 0]
    for el, an in ((img, "WholeExtent"), (pcs[0], "Extent")):
        g = [val_of(x) for x in doc.words(el.get(an))]
        res.check(g == ext, "extent:" + key, "%s: %s is %s, the file holds the cells of extent %s" % (what, an, show(g), show(ext)))
    for an, f in (("Origin", "%smin"), ("Spacing", "d%s")):
        g = doc.words(img.get(an))
        ok = len(g) == 3 and all(same_real(R, g[d], st.mem[R.ploc + (f % "xyz"[d],)]) for d in range(dim))
        res.check(ok, an + ":" + key, "%s: %s is (%s), expected (%s)" % (what, an, ", ".join(short2(x) for x in g), ", ".join(f % a for a in "xyz"[:dim])))
    das = pcs[0].findall("CellData/DataArray")
    res.check([doc.word(a.get("Name", "")) for a in das] == NAMES[:nb], "names:" + key, "%s: the data arrays are named %s, the stored variables are %s" % (what, [a.get("Name") for a in das], NAMES[:nb]))
    res.check(all(a.get("type") == "Float64" for a in das), "float:" + key, "%s: data arrays of type %s hold 8-byte reals" % (what, sorted({a.get("type") for a in das})))
    res.check(all(a.get("NumberOfComponents", "1") == "1" for a in das), "comp:" + key, "%s: data arrays with several components" % what)
    want = []
    rz = range(n[2]) if dim == 3 else [0]
    for iv in range(nb):
        want.append([tuple(gw + x for x in (c[::-1] if dim == 3 else c[::-1][:2])) + (iv,) for c in itertools.product(rz, range(n[1]), range(n[0]))])
    got = []
    app = root.find("AppendedData")
    toks = [doc.tok[int(k)] for k in re.findall(r"@(\d+)@", app.text or "")] if app is not None else []
    if app is not None:
        res.check(app.get("encoding") == "raw" and re.match(r"\s*_(@|$)", app.text or "") and at.get("header_type") == "UInt64", "appended:" + key, "%s: appended data (encoding %r, header type %r) does not start with an underscore and 8-byte sizes" % (what, app.get("encoding"), at.get("header_type")))
        res.check(not re.sub(r"@\d+@|\s|_", "", app.text or ""), "stray:" + key, "%s: text between the raw data" % what)
    # byte position of every raw token
    posn = {}; p = 0
    for t in toks: posn[p] = t; p += t[2] if t[0] == "raw" else 10 ** 9
    bad = None
    for iv, a in enumerate(das):
        fm = a.get("format")
        if fm == "ascii":
            ws = doc.words(a.text); got.append([val_of(x) for x in ws]); wh = [x[-1] for x in ws if isinstance(x, tuple)]
        elif fm == "appended":
            off = val_of(doc.word(a.get("offset", "")))
            ow = doc.word(a.get("offset", "")); ow = ow[-1] if isinstance(ow, tuple) else doc.where
            h = posn.get(off)
            if not res.check(h is not None and h[2] == 8 and not isinstance(h[1], (tuple, Node)), "offset:" + key, "%s: offset %s of array %d is not where a data block starts (%s)" % (what, off, iv, ow)): got.append(None); continue
            res.check(h[1] == 8 * cells, "size:" + key, "%s: the size of data block %d is announced as %s bytes, expected %d (%s)" % (what, iv, h[1], 8 * cells, h[-1]))
            q = off + 8; l = []; wh = []
            while q < off + 8 + 8 * cells and q in posn: l.append(posn[q][1] if posn[q][2] == 8 else "%s bytes" % posn[q][2]); wh.append(posn[q][-1]); q += posn[q][2]
            got.append(l)
        else: res.violate("format:" + key, "%s: format %r" % (what, fm)); got.append(None); continue
        w0 = wh[0] if wh else doc.where
        g = [x[2] if isinstance(x, tuple) and x[0] == "cell" else x for x in got[-1]]
        arrs = {x[1] for x in got[-1] if isinstance(x, tuple) and x[0] == "cell"}
        if not res.check(g == want[iv] if iv < len(want) else False, "data:" + key, "%s: array %d holds %s; expected the %d interior cells of variable %d, x fastest: %s (%s)" % (what, iv, show(g), cells, iv, show(want[iv] if iv < len(want) else []), w0)): break
        res.check(arrs <= arr, "array:" + key, "%s: array %d is read from %s, which is not a copy of the current state (%s)" % (what, iv, sorted(arrs), w0))
    if app is not None and all(got):
        res.check(p == nb * (8 + 8 * cells), "length:" + key, "%s: %d bytes of appended data, expected %d" % (what, p, nb * (8 + 8 * cells)))


def show(l):
    s = ", ".join(str(x) if not isinstance(x, Node) else short2(x) for x in l[:9]); return "[%s%s]" % (s, ", ..." if len(l) > 9 else "")


def short2(x):
    if isinstance(x, tuple): x = x[1]
    s = repr(x); return s if len(s) < 80 else s[:77] + "..."


def task_vtk(config, solver, ascii_, it, tier):
    res = Result()
    R = io_run(config, solver, {("output", "outputVtkAscii"): ascii_}, it); R.it = it
    arr = {"copy of " + ("U" if it % 2 == 0 else "U2")}
    key = "%s%s" % (solver, " MPI" if config == "mpi" else "")
    names = {}
    for n, g, np, r, s in envs(R, tier):
        env = mkenv(R, n, g, np, r, s)
        F = files(R, env)
        p = pos_of(R, g, r) + [0]
        lo = [p[d] * n[d] for d in range(3)] if R.dim == 3 else [p[0] * n[0], p[1] * n[1], 0]
        what = "%s %s, %s cells%s" % (key, "ascii VTK" if ascii_ else "VTK", "x".join(map(str, n[:R.dim])), " per process, process %d of %d" % (r, np) if config == "mpi" else "")
        vti = [f for f in F if f.endswith(".vti")]; rest = [f for f in F if not f.endswith(".vti")]
        if not res.check(len(vti) == 1, "files:" + key, "%s: files written: %s" % (what, sorted(F))): continue
        res.check(vti[0].startswith("Dir/Pre"), "path:" + key, "%s: file %s, expected output directory 'Dir' and prefix 'Pre'" % (what, vti[0]))
        o = names.setdefault(vti[0], (r, s)); res.check(o == (r, s), "unique:" + key, "%s: %s is written by process %d for output %d and by process %d for output %d" % (what, vti[0], r, s, o[0], o[1]))
        doc = Doc(F[vti[0]]); res.count("files"); res.count("tokens", len(F[vti[0]]))
        check_image(res, R, doc, n, lo, key, None, what, None, arr)
        if config != "mpi": res.check(not rest, "extra:" + key, "%s: unexpected files %s" % (what, rest)); continue
        if not res.check(len(rest) == (1 if r == 0 else 0) and all(f.endswith(".pvti") for f in rest), "header:" + key, "%s: header files %s" % (what, rest)): continue
        if r == 0: check_header(res, R, Doc(F[rest[0]]), n, g, np, s, key, what, tier)
    return res


def check_header(res, R, doc, n, g, np, s, key, what, tier):
    I, st, dim = R.I, R.st, R.dim
    what += ", parallel header"
    try: root = ET.fromstring(doc.text.strip())
    except ET.ParseError as ex:
        res.violate("pxml:" + key, "%s: the file is not well-formed (%s)" % (what, ex)); return
    img = root.find("PImageData")
    if not res.check(root.get("type") == "PImageData" and img is not None, "ptype:" + key, "%s: not a parallel image data file" % what): return
    res.check(root.get("byte_order") == "LittleEndian" and root.get("header_type") == "UInt64", "porder:" + key, "%s: byte order %r, header type %r differ from the pieces" % (what, root.get("byte_order"), root.get("header_type")))
    ext = []
    for d in range(3): ext += [0, n[d] * g[d]] if d < dim else [0, 0]
    e = [val_of(x) for x in doc.words(img.get("WholeExtent"))]
    res.check(e == ext, "pwhole:" + key, "%s: WholeExtent %s, the global mesh has extent %s" % (what, show(e), show(ext)))
    for an, f in (("Origin", "%smin"), ("Spacing", "d%s")):
        q = doc.words(img.get(an))
        res.check(len(q) == 3 and all(same_real(R, q[d], st.mem[R.ploc + (f % "xyz"[d],)]) for d in range(dim)), "p" + an + ":" + key, "%s: %s is (%s)" % (what, an, ", ".join(short2(x) for x in q)))
    da = img.findall("PCellData/PDataArray")
    res.check([doc.word(a.get("Name", "")) for a in da] == NAMES[:R.nb] and all(a.get("type") == "Float64" for a in da), "pnames:" + key, "%s: arrays %s differ from those of the pieces" % (what, [(a.get("Name"), a.get("type")) for a in da]))
    pcs = img.findall("Piece")
    res.check(len(pcs) == np, "pcount:" + key, "%s: %d pieces for %d processes" % (what, len(pcs), np))
    seen = set()
    for r in range(np):
        F = [f for f in files(R, mkenv(R, n, g, np, r, s)) if f.endswith(".vti")]
        src = F[0].split("/")[-1] if F else "?"
        hit = [pc for pc in pcs if pc.get("Source") == src]
        if not res.check(len(hit) == 1, "psource:" + key, "%s: file %s of process %d is listed %d times" % (what, src, r, len(hit))): continue
        p = pos_of(R, g, r); ex = []
        for d in range(3): ex += [p[d] * n[d], (p[d] + 1) * n[d]] if d < dim else [0, 0]
        q = [val_of(x) for x in doc.words(hit[0].get("Extent"))]
        ws = [x[-1] for x in doc.words(hit[0].get("Extent")) if isinstance(x, tuple)]
        res.check(q == ex, "pextent:" + key, "%s: process %d holds the extent %s, its piece is announced with %s (%s)" % (what, r, show(ex), show(q), ws[0] if ws else doc.where))


def vtk_tasks(tier):
    T = []
    for config in ("serial", "mpi"):
        for s in [x for x in SOLVERS if "Muscl" in x]:
            for a in (False, True):
                for it in ((0, 1) if not a else (0,)):
                    T.append((task_vtk, (config, s, a, it, tier)))
    return T


def io_tasks(tier): return vtk_tasks(tier)

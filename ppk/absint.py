"""Abstract interpreter over the typed IR: builds gated value graphs, affine index sets and guarded effect summaries.
No code of /repo is ever executed: loops with statically known trip counts are unrolled, every other loop is summarised,
branches on unknown conditions are joined with gating (sel) values."""
from fractions import Fraction
import sys
from .dom import *
from . import stl, strm
from .ir import AnalysisBroken

sys.setrecursionlimit(20000)

MATH1 = {"sqrt", "exp", "log", "sin", "cos", "tan", "atan", "acos", "asin", "cosh", "sinh", "tanh", "cbrt", "floor", "ceil", "round", "isnan", "isinf", "isfinite", "log10", "erf", "sqrtf"}
IGNORED_LIB = ("std::cout", "std::cerr")


class Outcome:
    __slots__ = ("st", "rets", "brks", "conts")
    def __init__(self, st): self.st = st; self.rets = []; self.brks = []; self.conts = []


class State:
    __slots__ = ("mem", "log", "pc", "dead")
    def __init__(self, mem=None, pc=(), log=None):
        self.mem = {} if mem is None else mem
        self.log = set() if log is None else log
        self.pc = pc
        self.dead = False

    def fork(self, cond):
        s = State(dict(self.mem), self.pc + tuple(conj_of(cond)), set())
        return s


class Frame:
    __slots__ = ("fn", "vars", "this", "types", "depth", "closure", "line", "caller")
    def __init__(self, fn, this, depth, caller):
        self.fn = fn; self.vars = {}; self.this = this; self.types = fn.types; self.depth = depth; self.closure = None; self.line = fn.line; self.caller = caller


def callers(fr):
    """names of the functions on the call path to a kernel launch"""
    out = set()
    while fr is not None: out.add(fr.fn.name); fr = fr.caller
    return out


class Launch:
    def __init__(self, **k): self.__dict__.update(k)


UNSET = object()
F2I = {}        # integer symbol -> real-valued node it truncates


def isfloor(n):
    """value that is a (product with a) positivity floor parameter"""
    if n.op == "sym": return n.a[0] in ("cfg:hydro/smallr", "cfg:hydro/smallc")
    if n.op == "*": return isfloor(n.a[0]) or isfloor(n.a[1])
    if n.op == "/": return isfloor(n.a[0])
    return False


class Interp:
    def __init__(self, prog, **opt):
        self.P = prog
        self.events = []            # host-level event stream
        self.effects = None         # when inside a kernel: list of effects
        self.nfresh = 0
        self.ranges = {}            # sym -> (lo Poly, hi Poly) inclusive
        self.divs = {}              # sym -> (a, b): floor quotients
        self.subst = {}             # sym -> Poly (index decompositions)
        self.splittable = set()
        self.opt = opt
        self.hooks = {}             # qualified name -> callable(interp, st, fr, args, line, node)
        self.heapviews = {}; self.heapalloc = set()
        self.cfg = dict(opt.get("cfg", {}))
        self.cfg_used = {}
        self.allocs = {}
        self.kernel = None
        self.stack = []
        self.leafcache = {}
        self.warn = []
        self.max_unroll = opt.get("max_unroll", 4000)
        self.covered = {}           # function id -> count of interpretations
        self.trace_calls = opt.get("trace_calls", False)
        self.floors_off = opt.get("floors_off", False); self.floor_sites = set()
        self.opaque_fns = set(opt.get("opaque_fns", ()))
        self.sites = 0
        self.facts = []             # global boolean facts

    # ------------------------------------------------------------------ helpers
    def fresh(self, base):
        self.nfresh += 1
        return "%s#%d" % (base, self.nfresh)

    def where(self, fr, line=None):
        return "%s:%d (%s)" % (fr.fn.relfile(), line or fr.line, fr.fn.disp.split("(")[0])

    def norm(self, p):
        if isinstance(p, Poly) and self.subst:
            for _ in range(12):
                q = psubst(p, self.subst)
                if q == p: return p
                p = q
        return p

    def broken(self, fr, line, msg):
        raise AnalysisBroken("%s: %s" % (self.where(fr, line), msg))

    def ty(self, fr, tid):
        return fr.types[tid] if tid is not None and tid >= 0 else {"k": "other", "s": "?"}

    def strip(self, t):
        while t["k"] in ("ref",): t = t["_tu"][t["el"]]
        return t

    def rec(self, name): return self.P.records.get(name)

    @staticmethod
    def is_karray(rn):
        return rn.startswith("Kokkos::Array<") or rn.startswith("std::array<")

    def karr(self, t):
        """(element type, n) of a Kokkos::Array / std::array type"""
        r = self.P.records.get(t["r"])
        if r is None or "targs" not in r: return None
        n = int("".join(ch for ch in r["targs"][1] if ch.isdigit() or ch == "-") or 0)
        en = r["targs"][0]
        et = self.P.typebyname.get(en)
        if et is None:
            k = {"double": ("float"), "float": "float", "int": "int", "bool": "bool"}.get(en, "other")
            et = {"s": en, "k": k, "_tu": t["_tu"], "c": 0}
        return et, n

    def leaves(self, t):
        """list of (subpath, leaf type) of aggregate type t"""
        key = t["s"]
        c = self.leafcache.get(key)
        if c is not None: return c
        k = t["k"]
        out = []
        if k == "arr":
            et = t["_tu"][t["el"]]
            sub = self.leaves(et)
            for i in range(t["n"]):
                for p, lt in sub: out.append(((i,) + p, lt))
        elif k == "rec":
            if self.is_karray(t["r"]):
                et, n = self.karr(t)
                sub = self.leaves(et)
                for i in range(n):
                    for p, lt in sub: out.append(((i,) + p, lt))
            else:
                r = self.rec(t["r"])
                if r is not None and r["repo"] and not r["lambda"]:
                    for f in self.allfields(t["r"]):
                        ft = f["t"]
                        for p, lt in self.leaves(ft): out.append(((f["n"],) + p, lt))
                else:
                    out.append(((), t))
        else:
            out.append(((), t))
        self.leafcache[key] = out
        return out

    def allfields(self, rn):
        r = self.rec(rn)
        out = []
        if r is None: return out
        for b in r.get("bases", []): out += self.allfields(b)
        for n, vid, tid, init, line in r.get("fields", []):
            out.append({"n": n, "t": r["_types"][tid], "init": init, "line": line, "types": r["_types"]})
        return out

    def is_agg(self, t):
        if t["k"] == "arr": return True
        if t["k"] == "rec":
            if self.is_karray(t["r"]): return True
            r = self.rec(t["r"])
            return bool(r and r["repo"] and not r["lambda"])
        return False

    # ------------------------------------------------------------------ memory
    def new_root(self, base="t"):
        self.nfresh += 1
        return (base + "@%d" % self.nfresh,)

    def load(self, st, loc, t, fr, line):
        """scalar/leaf load"""
        if isinstance(loc, Sel):
            return self.vsel(loc.c, self.load(st, loc.a, t, fr, line), self.load(st, loc.b, t, fr, line))
        if loc and loc[0] == "view":
            return self.load_view(st, loc, fr, line)
        v = st.mem.get(loc, UNSET)
        if v is not UNSET:
            if isinstance(v, Poly): v = self.unp(self.norm(v))
            return v
        # dynamic index in path?
        for n, c in enumerate(loc):
            if isinstance(c, (Poly, Sel)):
                return self.load_dyn(st, loc, n, t, fr, line)
        if loc and loc[0] == "opq":
            return self.opq_value(("fld",) + loc[1:], t)
        if loc and isinstance(loc[0], str) and loc[0].startswith("sym:"):
            return self.sym_leaf(st, loc, t)
        return self.opq_value(("uninit",) + tuple(str(x) for x in loc), t)

    def unp(self, p): return unpoly(p) if isinstance(p, Poly) else p

    def sym_leaf(self, st, loc, t):
        nm = ".".join([loc[0][4:]] + [str(x) for x in loc[1:]])
        v = self.typed_sym(nm, t)
        return v

    def typed_sym(self, nm, t):
        k = t["k"]
        if k in ("int", "enum"): return psym(nm)
        if k == "bool": return mk("bopq", nm)
        if k == "float": return mk("sym", nm)
        if k == "rec" and t["r"].startswith("Kokkos::View<"):
            return View(nm, nm, None, None, "symbolic")
        return Opq(("sym", nm))

    def opq_value(self, key, t):
        k = t["k"] if t else "other"
        if k in ("int", "enum"): return psym("o%r" % (key,))
        if k == "bool": return mk("bopq", repr(key))
        if k == "float": return mk("opq", repr(key))
        return Opq(key)

    def load_dyn(self, st, loc, n, t, fr, line):
        idx = loc[n]
        pre = loc[:n]; post = loc[n + 1:]
        if isinstance(idx, Sel):
            return self.vsel(idx.c, self.load(st, pre + (idx.a,) + post, t, fr, line), self.load(st, pre + (idx.b,) + post, t, fr, line))
        # enumerate concrete indices present
        cand = sorted({l[n] for l in st.mem if len(l) > n and l[:n] == pre and isinstance(l[n], int)})
        if not cand: return self.opq_value(("dyn",) + tuple(map(repr, loc)), t)
        v = self.load(st, pre + (cand[-1],) + post, t, fr, line)
        for c in reversed(cand[:-1]):
            v = self.vsel(beq0(padd(idx, pc(-c))), self.load(st, pre + (c,) + post, t, fr, line), v)
        return v

    def store(self, st, loc, v, fr, line, how="set"):
        if isinstance(loc, Sel):
            for g, l in sel_pieces(loc):
                c = True
                for x in g: c = band(c, x)
                old = self.load(st, l, None if False else {"k": "other", "s": "?"}, fr, line) if not (l and l[0] == "view") else None
                if l and l[0] == "view":
                    self.store_view(st, l, v, fr, line, how, extra=g)
                else:
                    st.mem[l] = self.vsel(c, v, st.mem.get(l, old)); st.log.add(l)
            return
        if loc and loc[0] == "view":
            self.store_view(st, loc, v, fr, line, how)
            return
        for n, c in enumerate(loc):
            if isinstance(c, (Poly, Sel)):
                self.store_dyn(st, loc, n, v, fr, line); return
        st.mem[loc] = v; st.log.add(loc)

    def store_dyn(self, st, loc, n, v, fr, line):
        idx = loc[n]; pre = loc[:n]; post = loc[n + 1:]
        if isinstance(idx, Sel):
            for g, i in sel_pieces(idx):
                c = True
                for x in g: c = band(c, x)
                if isinstance(i, int):
                    l = pre + (i,) + post
                    st.mem[l] = self.vsel(c, v, st.mem.get(l, Opq(("uninit", str(l))))); st.log.add(l)
                else:
                    self.store_dyn(st, pre + (i,) + post, n, v, fr, line)
            return
        cand = sorted({l[n] for l in st.mem if len(l) > n and l[:n] == pre and isinstance(l[n], int)})
        for c in cand:
            l = pre + (c,) + post
            st.mem[l] = self.vsel(beq0(padd(idx, pc(-c))), v, st.mem.get(l, v)); st.log.add(l)
        if not cand:
            st.mem[loc] = v; st.log.add(loc)

    def copy_obj(self, st, dst, src, t, fr, line):
        t = self.strip(t)
        for p, lt in self.leaves(t):
            v = self.load(st, src + p, lt, fr, line)
            self.store(st, dst + p, v, fr, line)

    def vsel(self, c, a, b):
        if c is True: return a
        if c is False: return b
        if a is b or (type(a) is type(b) and a == b): return a
        if isinstance(c, Node) and c.op == "not": return self.vsel(c.a[0], b, a)
        fa = isinstance(a, Node) and a.op not in ("ge0", "eq0", "and", "or", "not", "bopq", "fgt0", "feq0")
        fb = isinstance(b, Node) and b.op not in ("ge0", "eq0", "and", "or", "not", "bopq", "fgt0", "feq0")
        if fa or fb:
            a = self.tofloat(a); b = self.tofloat(b)
            return fsel(c, a, b)
        ba = isinstance(a, (bool,)) or isinstance(a, Node)
        bb = isinstance(b, (bool,)) or isinstance(b, Node)
        if ba and bb:
            return bor(band(c, a), band(bnot(c), b))
        if isinstance(a, Sel) and a.c is c: a = a.a
        if isinstance(b, Sel) and b.c is c: b = b.b
        if a == b: return a
        return Sel(c, a, b)

    # ------------------------------------------------------------------ views
    def load_view(self, st, loc, fr, line):
        _, alloc, idx = loc
        idx = tuple(self.unp(self.norm(i)) if isinstance(i, Poly) else i for i in idx)
        return self._view_pieces(st, alloc, idx, lambda ii, g: self._load_view1(st, alloc, ii, g, fr, line))

    def _view_pieces(self, st, alloc, idx, f):
        """distribute Sel indices"""
        for n, i in enumerate(idx):
            if isinstance(i, Sel):
                a = self._view_pieces_g(st, alloc, idx[:n] + (i.a,) + idx[n + 1:], (i.c,), f)
                b = self._view_pieces_g(st, alloc, idx[:n] + (i.b,) + idx[n + 1:], (bnot(i.c),), f)
                return self.vsel(i.c, a, b)
        return f(idx, ())

    def _view_pieces_g(self, st, alloc, idx, g, f):
        if any(c is False for c in g): return ZERO
        for n, i in enumerate(idx):
            if isinstance(i, Sel):
                a = self._view_pieces_g(st, alloc, idx[:n] + (i.a,) + idx[n + 1:], g + (i.c,), f)
                b = self._view_pieces_g(st, alloc, idx[:n] + (i.b,) + idx[n + 1:], g + (bnot(i.c),), f)
                return self.vsel(i.c, a, b)
        return f(idx, g)

    def _load_view1(self, st, alloc, idx, g, fr, line):
        self.record(st, "read", alloc, idx, None, g, fr, line)
        key = ("view", alloc, idx)
        v = st.mem.get(key, UNSET)
        if v is not UNSET: return v
        ep = self.epoch()
        a = self.allocs.get(alloc)
        if a is not None and a.elt in ("int", "bool"): return psym("ld%r" % ((alloc, idx, ep),))
        return mk("ld", alloc, idx, ep)

    def epoch(self): return len(self.events)

    def record(self, st, kind, alloc, idx, val, g, fr, line):
        if self.effects is None:
            self.events.append(("hostview", kind, alloc, idx, val, st.pc + tuple(g), self.where(fr, line)))
            return
        self.effects.append((kind, alloc, idx, val, st.pc + tuple(g), fr.fn, line))

    def store_view(self, st, loc, v, fr, line, how="set", extra=()):
        _, alloc, idx = loc
        idx = tuple(self.unp(self.norm(i)) if isinstance(i, Poly) else i for i in idx)
        if isinstance(v, (int, Poly, Fraction, bool)) and not (alloc in self.allocs and self.allocs[alloc].elt == "int"): v = self.tofloat(v)
        def f(ii, g):
            self.record(st, "write" if how == "set" else how, alloc, ii, v, tuple(extra) + g, fr, line)
            if how == "set":
                key = ("view", alloc, ii)
                c = True
                for x in tuple(extra) + g: c = band(c, x)
                if c is True:
                    st.mem[key] = v
                else:
                    old = st.mem.get(key, UNSET)
                    if old is UNSET: old = mk("ld", alloc, ii, self.epoch())
                    st.mem[key] = self.vsel(c, v, old)
                st.log.add(key)
            return ZERO
        self._view_pieces(st, alloc, idx, f)

    # ------------------------------------------------------------------ conversions
    def tofloat(self, v):
        if isinstance(v, Node):
            if v.op in ("ge0", "eq0", "and", "or", "not", "bopq", "fgt0", "feq0"): return fsel(v, ONE, ZERO)
            return v
        if isinstance(v, bool): return ONE if v else ZERO
        if isinstance(v, (int, Fraction)): return fconst(v)
        if isinstance(v, Poly):
            p = self.norm(v)
            if p.is_const(): return fconst(p.const())
            return mk("i2f", p)
        if isinstance(v, Sel): return fsel(v.c, self.tofloat(v.a), self.tofloat(v.b))
        if isinstance(v, Opq): return mk("opq", repr(v.key))
        if v is None: return mk("opq", "none")
        return mk("opq", repr(v))

    def tobool(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, Node):
            if v.op in ("ge0", "eq0", "and", "or", "not", "bopq", "fgt0", "feq0"): return v
            return bnot(self.feq0(v))
        if isinstance(v, Poly): return bnot(beq0(self.norm(v)))
        if isinstance(v, Sel): 
            return self.vsel(v.c, self.tobool(v.a), self.tobool(v.b))
        if isinstance(v, Ref): return True
        if isinstance(v, Opq):
            if v.key == "null": return False
            return mk("bopq", repr(v.key))
        if isinstance(v, str): return True
        if v is None: return False
        return mk("bopq", repr(v))

    def toint(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, (int, Poly)): return v
        if isinstance(v, Sel): return self.vsel(v.c, self.toint(v.a), self.toint(v.b))
        if isinstance(v, Fraction): return v
        if isinstance(v, Node):
            if v.op in ("ge0", "eq0", "and", "or", "not", "bopq", "fgt0", "feq0"): return Sel(v, 1, 0)
            if v.op == "c" : return int(v.a[0])
            if v.op == "i2f": return v.a[0]
            return self.f2i(v)
        if isinstance(v, Opq): return psym("o%r" % (v.key,))
        return psym("o%r" % (v,))

    def feq0(self, x):
        if x.op == "c": return x.a[0] == 0
        return mk("feq0", x)

    def fcmp(self, op, a, b):
        if op == ">": return fgt0(fsub(a, b))
        if op == "<": return fgt0(fsub(b, a))
        if op == ">=": return bnot(fgt0(fsub(b, a)))
        if op == "<=": return bnot(fgt0(fsub(a, b)))
        if op == "==": return self.feq0(fsub(a, b))
        return bnot(self.feq0(fsub(a, b)))

    def icmp(self, op, a, b):
        if isinstance(a, Sel): return self.vsel(a.c, self.icmp(op, a.a, b), self.icmp(op, a.b, b))
        if isinstance(b, Sel): return self.vsel(b.c, self.icmp(op, a, b.a), self.icmp(op, a, b.b))
        d = self.norm(padd(topoly(a), topoly(b), -1))
        if op == ">": return self.iknow(bge0(padd(d, pc(-1))))
        if op == ">=": return self.iknow(bge0(d))
        if op == "<": return self.iknow(bge0(padd(pc(-1), d, -1)))
        if op == "<=": return self.iknow(bge0(padd(Poly({}), d, -1)))
        if op == "==": return self.iknow(beq0(d))
        return bnot(self.iknow(beq0(d)))

    def iknow(self, b):
        """decide an integer atom with the static range facts"""
        if isinstance(b, bool): return b
        f = self.opt.get("decide")
        if f:
            r = f(b)
            if r is not None: return r
        return b

    # ------------------------------------------------------------------ integer arithmetic
    def iop(self, op, a, b, fr, line):
        if isinstance(a, Sel): return self.vsel(a.c, self.iop(op, a.a, b, fr, line), self.iop(op, a.b, b, fr, line))
        if isinstance(b, Sel): return self.vsel(b.c, self.iop(op, a, b.a, fr, line), self.iop(op, a, b.b, fr, line))
        if isinstance(a, int) and isinstance(b, int):
            a = int(a); b = int(b)
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if op == "/":
                if b == 0: return psym("div0")
                return int(Fraction(a, b)) if a * b >= 0 else -int(Fraction(-a, b))
            if op == "%":
                if b == 0: return psym("div0")
                qd = int(Fraction(a, b)) if a * b >= 0 else -int(Fraction(-a, b))
                return a - b * qd
            if op == "<<": return a << b
            if op == ">>": return a >> b
            if op == "&": return a & b
            if op == "|": return a | b
            if op == "^": return a ^ b
        a = topoly(a); b = topoly(b)
        if op == "+": return unpoly(self.norm(padd(a, b)))
        if op == "-": return unpoly(self.norm(padd(a, b, -1)))
        if op == "*": return unpoly(self.norm(pmul(a, b)))
        if op in "/%":
            q, r = self.idivmod(self.norm(a), self.norm(b))
            return unpoly(q if op == "/" else r)
        if op == "&" and b.is_const() and b.const() == 1:
            q, r = self.idivmod(self.norm(a), pc(2)); return unpoly(r)
        return psym("o%r" % ((op, a, b),))

    def idivmod(self, a, b):
        # exact divisible part
        if b.t:
            quo, rem = self.polydiv(a, b)
            rt = rem.t
            if not rt: return quo, Poly({})
            if self.in_range(rem, b): return quo, rem
            if len(rt) == 1:
                (m, c), = rt.items()
                if len(m) == 1 and c == 1 and m[0] in self.splittable:
                    s = m[0]
                    qs = self.fresh("q_" + s.split("#")[0]); rs = self.fresh("r_" + s.split("#")[0])
                    lo, hi = self.ranges.get(s, (None, None))
                    self.ranges[rs] = (pc(0), padd(b, pc(-1)))
                    hq = None
                    if hi is not None:
                        n = padd(hi, pc(1))
                        dq = self.exact_div(n, b)
                        hq = padd(dq, pc(-1)) if dq is not None else None
                    self.ranges[qs] = (pc(0), hq)
                    self.splittable.discard(s); self.splittable.add(qs); self.splittable.add(rs)
                    self.subst[s] = padd(pmul(psym(qs), b), psym(rs))
                    if self.kernel is not None: self.kernel.setdefault("splits", []).append((s, qs, rs, b))
                    return padd(quo, psym(qs)), psym(rs)
        qs = psym("o%r" % (("div", a, b),))
        self.divs["o%r" % (("div", a, b),)] = (a, b)
        return qs, padd(a, pmul(qs, b), -1)

    @staticmethod
    def polydiv(a, b):
        lm = max(b.t, key=lambda m: (len(m), m)); lc = b.t[lm]
        q = Poly({})
        for _ in range(60):
            hit = None
            for m, c in a.t.items():
                mm = list(m); ok = True
                for s in lm:
                    if s in mm: mm.remove(s)
                    else: ok = False; break
                if ok and Fraction(c, lc).denominator == 1: hit = Poly({tuple(mm): int(Fraction(c, lc))}); break
            if hit is None: return q, a
            q = padd(q, hit); a = padd(a, pmul(hit, b), -1)
        return Poly({}), a

    def exact_div(self, n, b):
        q, r = self.polydiv(self.norm(n), b)
        return q if not r.t else None

    def in_range(self, rem, b):
        """0 <= rem < b from range facts, all-nonnegative coefficients"""
        up = Poly({})
        for m, c in rem.t.items():
            if c < 0: return False
            x = pc(c)
            for s in m:
                if s in self.ranges and self.ranges[s][1] is not None: x = pmul(x, self.ranges[s][1])
                else: x = pmul(x, psym(s))
            up = padd(up, x)
        for s in rem.syms():
            if s not in self.ranges and not self.opt.get("nonneg", lambda s: False)(s): return False
        d = padd(padd(b, pc(-1)), up, -1)      # b-1-up >= 0 ?
        if d.is_const(): return d.const() >= 0
        f = self.opt.get("nonnegpoly")
        return bool(f and f(d))

    # ------------------------------------------------------------------ expressions
    def ev(self, st, fr, e):
        """rvalue"""
        if e is None: return None
        return getattr(self, "e_" + e[0])(st, fr, e)

    def lv(self, st, fr, e):
        """lvalue -> location"""
        m = getattr(self, "l_" + e[0], None)
        if m: return m(st, fr, e)
        v = self.ev(st, fr, e)
        if isinstance(v, Ref): return v.loc
        # rvalue object: materialise
        return self.materialise(st, v)

    def materialise(self, st, v):
        r = self.new_root("tmp")
        st.mem[r] = v; st.log.add(r)
        return r

    def e_int(self, st, fr, e): return e[2]
    def e_bool(self, st, fr, e): return bool(e[2])
    def e_enum(self, st, fr, e): return e[2]
    def e_str(self, st, fr, e): return e[2]
    def e_null(self, st, fr, e): return Opq("null")
    def e_typeid(self, st, fr, e): return Opq(("typeid", self.ty(fr, e[2])["s"]))

    def e_float(self, st, fr, e):
        txt = e[3].rstrip("fFlL") if e[3] else ""
        try: return fconst(Fraction(txt))
        except (ValueError, ZeroDivisionError): pass
        try: return fconst(Fraction(e[2]))
        except ValueError: return mk("opq", e[2])

    def e_this(self, st, fr, e):
        return fr.this if isinstance(fr.this, (Ref, Opq)) else Ref(fr.this)

    def e_vinit(self, st, fr, e):
        t = self.ty(fr, e[2])
        if t["k"] == "float": return ZERO
        if t["k"] == "bool": return False
        if t["k"] in ("int", "enum"): return 0
        if self.is_agg(t):
            r = self.new_root("vi")
            for p, lt in self.leaves(t):
                st.mem[r + p] = self.zero(lt)
            return Ref(r)
        return self.zero(t)

    def zero(self, t):
        k = t["k"]
        if k == "float": return ZERO
        if k == "bool": return False
        if k in ("int", "enum"): return 0
        if k == "ptr": return Opq("null")
        if k == "rec" and t["r"].startswith("Kokkos::View<"): return View("null", "", None, None, "")
        return Opq(("zero", t["s"]))

    def e_definit(self, st, fr, e): return self.ev(st, fr, e[2])
    def e_temp(self, st, fr, e):
        v = self.ev(st, fr, e[3])
        return v
    def l_temp(self, st, fr, e):
        v = self.ev(st, fr, e[3])
        if isinstance(v, Ref) and self.is_agg(self.ty(fr, e[2])): return v.loc
        return self.materialise(st, v)

    def var_loc(self, st, fr, vid, name):
        l = fr.vars.get(vid)
        if l is not None: return l
        if fr.closure is not None:
            l = fr.closure.get(vid)
            if l is not None: return l
        return ("opq", "var", name)

    def l_ref(self, st, fr, e): return self.var_loc(st, fr, e[2], e[3])
    def e_ref(self, st, fr, e):
        loc = self.var_loc(st, fr, e[2], e[3]); t = self.strip(self.ty(fr, e[4]))
        if isinstance(loc, tuple) and self.is_agg(t): return Ref(loc)
        return self.load(st, loc, t, fr, e[1])

    def l_gref(self, st, fr, e):
        loc = ("g", e[2])
        if loc not in st.mem: self.init_global(st, fr, e)
        return loc
    def init_global(self, st, fr, e):
        g = self.P.globals.get(e[2])
        t = self.strip(self.ty(fr, e[3]))
        loc = ("g", e[2])
        if e[4] is not None:
            st.mem[loc] = e[4]; return
        if g is not None and g["init"] is not None and (t.get("c") or t["k"] == "arr" or self.opt.get("init_globals", True)):
            f2 = Frame(fr.fn, None, fr.depth + 1, fr); f2.types = g["_types"]
            log = set(st.log); self.init_into(st, f2, loc, g["init"], t)
            st.log -= {l for l in st.log - log if l[0] == "g"}   # (initialisation of a global is not an effect of the code that first uses it)
            return
        if self.is_agg(t): return
        st.mem[loc] = self.typed_sym("g:" + e[2], t)
    def e_gref(self, st, fr, e):
        if e[4] is not None: return e[4]
        loc = self.l_gref(st, fr, e); t = self.strip(self.ty(fr, e[3]))
        if self.is_agg(t): return Ref(loc)
        return self.load(st, loc, t, fr, e[1])

    def e_fref(self, st, fr, e): return FRef(e[2], e[3])

    def base_loc(self, st, fr, base, arrow):
        if arrow:
            v = self.ev(st, fr, base)
            return self.deref(v)
        if base[0] in ("call", "mcall", "ocall", "ctor", "cond", "temp"):
            v = self.ev(st, fr, base)
            return self.deref(v) if isinstance(v, (Ref, Sel, Opq)) else self.materialise(st, v)
        return self.lv(st, fr, base)

    def deref(self, v):
        if isinstance(v, Ref): return v.loc
        if isinstance(v, Sel): return Sel(v.c, self.deref(v.a), self.deref(v.b))
        if isinstance(v, Opq): return ("opq", v.key)
        return ("opq", repr(v))

    def ext(self, loc, c):
        if isinstance(loc, Sel): return Sel(loc.c, self.ext(loc.a, c), self.ext(loc.b, c))
        return loc + (c,)

    def l_mem(self, st, fr, e):
        loc = self.base_loc(st, fr, e[2], e[3])
        if isinstance(loc, tuple):
            b = st.mem.get(loc)
            if isinstance(b, Lib) and b.ty == "kpair": loc = b.args[0]
        # reference members: stored as Ref value
        loc = self.ext(loc, e[4])
        t = self.ty(fr, e[5])
        if t["k"] == "ref":
            v = st.mem.get(loc)
            if isinstance(v, Ref): return v.loc
        return loc
    def e_mem(self, st, fr, e):
        loc = self.l_mem(st, fr, e); t = self.strip(self.ty(fr, e[5]))
        if self.is_agg(t) and not isinstance(loc, Sel): return Ref(loc)
        if isinstance(loc, Sel) and self.is_agg(t): return Sel(loc.c, Ref(loc.a), Ref(loc.b))
        return self.load(st, loc, t, fr, e[1])
    def e_mfref(self, st, fr, e): return Opq(("mfref", e[4]))

    def l_sub(self, st, fr, e):
        b = self.ev(st, fr, e[3]); i = self.toint(self.ev(st, fr, e[4]))
        return self.ptradd_loc(b, i, sub=True)
    def ptradd_loc(self, b, i, sub=False):
        if isinstance(b, Sel): return Sel(b.c, self.ptradd_loc(b.a, i), self.ptradd_loc(b.b, i))
        if isinstance(b, Ref):
            loc = b.loc
            if loc and loc[-1] == "[]":           # decayed array base
                if self.heapviews and loc[:-1] in self.heapviews: return ("view", self.heapviews[loc[:-1]], (i,))
                return loc[:-1] + (i,)
            if loc and loc[0] == "view" and len(loc) == 3 and loc[1] in self.heapalloc: return ("view", loc[1], (unpoly(padd(topoly(loc[2][0]), topoly(i))),))
            if i == 0 and not isinstance(i, bool): return loc
            if loc and isinstance(loc[-1], (int, Poly)) and not isinstance(loc[-1], bool):
                return loc[:-1] + (unpoly(padd(topoly(loc[-1]), topoly(i))) if not isinstance(i, Sel) else i,)
            return loc + (i,)
        if isinstance(b, Opq): return ("opq", b.key, i if isinstance(i, int) else repr(i))
        return ("opq", repr(b), i if isinstance(i, int) else repr(i))
    def ptradd_ref(self, b, i): return Ref(self.ptradd_loc(b, i, sub=True))
    def e_sub(self, st, fr, e):
        loc = self.l_sub(st, fr, e); t = self.ty(fr, e[2])
        if self.is_agg(t): return Ref(loc)
        self.array_check(st, fr, e, loc)
        return self.load(st, loc, t, fr, e[1])
    def array_check(self, st, fr, e, loc): pass

    def e_cast(self, st, fr, e):
        k = e[2]; t = self.ty(fr, e[3])
        if k == "LValueToRValue":
            if e[4][0] == "un": return self.rv_of_lv(st, fr, e[4], t)
            v = self.ev(st, fr, e[4])
            if t["k"] in ("float", "int", "bool", "enum"): v = self.unref(st, v, t, fr, e[1])
            return v
        if k in ("ArrayToPointerDecay",):
            if e[4][0] == "str": return e[4][2]
            v = self.ev(st, fr, e[4])
            if isinstance(v, Ref): return Ref(v.loc + ("[]",))
            return v
        if k in ("FunctionToPointerDecay", "BuiltinFnToFnPtr", "NullToPointer"):
            return self.ev(st, fr, e[4]) if k != "NullToPointer" else Opq("null")
        v = self.ev(st, fr, e[4])
        if k in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "ToVoid", "UserDefinedConversion", "Dynamic", "LValueBitCast"): return v
        if k in ("IntegralToFloating", ): return self.tofloat(v)
        if k == "FloatingCast": return v
        if k in ("FloatingToIntegral",):
            v = self.tofloat(v)
            return self.f2i(v)
        if k in ("IntegralCast", "BooleanToSignedIntegral"): 
            return self.toint(v) if not isinstance(v, Opq) else v
        if k in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "MemberPointerToBoolean"): return self.tobool(v)
        return v

    def f2i(self, v):
        if v.op == "c": return int(v.a[0])
        if v.op == "i2f": return v.a[0]
        if v.op == "sel": return self.vsel(v.a[0], self.f2i(v.a[1]), self.f2i(v.a[2]))
        w = self.pushsel(v)
        if w is not None and w.op in ("sel", "c"): return self.f2i(w)
        F2I["f2i(%d)" % v.id] = v
        return psym("f2i(%d)" % v.id)

    def unref(self, st, v, t, fr, line):
        if isinstance(v, Ref): return self.load(st, v.loc, t, fr, line)
        if isinstance(v, Sel) and isinstance(v.a, (Ref, Sel)) and any(isinstance(x, Ref) for _, x in sel_pieces(v)):
            return self.vsel(v.c, self.unref(st, v.a, t, fr, line), self.unref(st, v.b, t, fr, line))
        return v

    def pushsel(self, v, d=4):
        """distribute arithmetic over selections when every branch folds to a constant"""
        if v.op == "c": return v
        if v.op == "sel":
            a = self.pushsel(v.a[1], d); b = self.pushsel(v.a[2], d)
            return fsel(v.a[0], a, b) if a is not None and b is not None else None
        if v.op in ("+", "-", "*", "/") and d > 0:
            a = self.pushsel(v.a[0], d - 1); b = self.pushsel(v.a[1], d - 1)
            if a is None or b is None: return None
            f = {"+": fadd, "-": fsub, "*": fmul, "/": fdiv}[v.op]
            def comb(x, y):
                if x.op == "sel": return fsel(x.a[0], comb(x.a[1], y), comb(x.a[2], y))
                if y.op == "sel": return fsel(y.a[0], comb(x, y.a[1]), comb(x, y.a[2]))
                return f(x, y)
            return comb(a, b)
        return None

    def rv_of_lv(self, st, fr, e, t):
        loc = self.lv(st, fr, e)
        if self.is_agg(t): return Ref(loc)
        return self.load(st, loc, t, fr, e[1])

    def e_un(self, st, fr, e):
        op = e[2]; t = self.ty(fr, e[3])
        if op == "&":
            sub = e[4]
            if sub[0] == "fref": return FRef(sub[2], sub[3])
            loc = self.lv(st, fr, sub)
            if isinstance(loc, Sel): return self._selref(loc)
            return Ref(loc)
        if op == "*":
            loc = self.l_un(st, fr, e)
            if self.is_agg(self.strip(t)): return Ref(loc)
            return self.load(st, loc, t, fr, e[1])
        if op in ("++", "--", "p++", "p--"):
            loc = self.lv(st, fr, e[4])
            old = self.load(st, loc, t, fr, e[1])
            d = 1 if "+" in op else -1
            if isinstance(old, Ref): new = Ref(self.ptradd_loc(old, d))
            elif isinstance(old, Node) and t["k"] == "float": new = fadd(old, fconst(d))
            else: new = self.iop("+", self.toint(old), d, fr, e[1])
            self.store(st, loc, new, fr, e[1])
            if op.startswith("p"): return old
            return new
        v = self.ev(st, fr, e[4])
        if op == "!": return bnot(self.tobool(v))
        if op == "+": return v
        if op == "-":
            if isinstance(v, Node) and t["k"] == "float": return fneg(self.tofloat(v))
            if t["k"] == "float": return fneg(self.tofloat(v))
            return self.iop("-", 0, self.toint(v), fr, e[1])
        if op == "~":
            v = self.toint(v)
            return ~v if isinstance(v, int) else psym("o%r" % (("~", v),))
        return Opq(("un", op, v))
    def _selref(self, loc):
        if isinstance(loc, Sel): return Sel(loc.c, self._selref(loc.a), self._selref(loc.b))
        return Ref(loc)
    def l_un(self, st, fr, e):
        op = e[2]
        if op == "*":
            v = self.ev(st, fr, e[4])
            l = self.deref(v)
            if isinstance(l, tuple) and l and l[-1] == "[]": l = l[:-1] + (0,)
            return l
        if op in ("++", "--"):
            self.e_un(st, fr, e); return self.lv(st, fr, e[4])
        v = self.e_un(st, fr, e)
        return self.materialise(st, v)

    def e_bin(self, st, fr, e):
        op = e[2]; t = self.ty(fr, e[3])
        if op == "&&":
            a = self.tobool(self.ev(st, fr, e[4]))
            if a is False: return False
            b = self.with_cond(st, fr, a, e[5])
            return band(a, b)
        if op == "||":
            a = self.tobool(self.ev(st, fr, e[4]))
            if a is True: return True
            b = self.with_cond(st, fr, bnot(a), e[5])
            return bor(a, b)
        if op == ",":
            self.ev(st, fr, e[4]); return self.ev(st, fr, e[5])
        a = self.ev(st, fr, e[4]); b = self.ev(st, fr, e[5])
        return self.binop(op, a, b, t, fr, e[1])

    def with_cond(self, st, fr, cond, e):
        """evaluate e (as bool) under an extra path condition, merging side effects"""
        if cond is True: return self.tobool(self.ev(st, fr, e))
        s = st.fork(cond)
        v = self.tobool(self.ev(s, fr, e))
        if s.log: self.merge_into(st, cond, s, None)
        return v

    def binop(self, op, a, b, t, fr, line):
        if op in ("==", "!=", "<", ">", "<=", ">="): return self.compare(op, a, b, fr, line)
        if t["k"] == "float":
            a = self.tofloat(a); b = self.tofloat(b)
            if op == "+": return fadd(a, b)
            if op == "-": return fsub(a, b)
            if op == "*": return fmul(a, b)
            if op == "/": return fdiv(a, b)
        if t["k"] == "ptr":
            if isinstance(a, Ref) and op in "+-":
                i = self.toint(b); 
                if op == "-": i = self.iop("-", 0, i, fr, line)
                return Ref(self.ptradd_loc(a, i))
            return Opq(("ptr", op, a, b))
        if t["k"] in ("int", "enum", "bool"):
            if isinstance(a, Opq) or isinstance(b, Opq) or isinstance(a, Ref) or isinstance(b, Ref):
                return psym("o%r" % ((op, a, b),))
            if t["k"] == "bool" or (isinstance(a, bool) and isinstance(b, bool)):
                x, y = self.tobool(a), self.tobool(b)
                if op == "&": return band(x, y)
                if op == "|": return bor(x, y)
            return self.iop(op, self.toint(a), self.toint(b), fr, line)
        return Opq((op, a, b))

    def compare(self, op, a, b, fr, line):
        if isinstance(a, Sel) and not isinstance(a.a, (int, Poly)):
            return self.vsel(a.c, self.compare(op, a.a, b, fr, line), self.compare(op, a.b, b, fr, line))
        isf = lambda v: isinstance(v, Node) and v.op not in ("ge0", "eq0", "and", "or", "not", "bopq", "fgt0", "feq0")
        if isf(a) or isf(b): return self.fcmp(op, self.tofloat(a), self.tofloat(b))
        if isinstance(a, (bool, Node)) or isinstance(b, (bool, Node)):
            if isinstance(a, (bool, Node)) and isinstance(b, (bool, Node)) or isinstance(a, Opq) or isinstance(b, Opq):
                x, y = self.tobool(a), self.tobool(b)
                eq = bor(band(x, y), band(bnot(x), bnot(y)))
                if op == "==": return eq
                if op == "!=": return bnot(eq)
            return self.icmp(op, self.toint(a), self.toint(b))
        num = (int, Poly, Sel, Fraction)
        if isinstance(a, num) and isinstance(b, num): return self.icmp(op, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if op in ("==", "!="):
            if isinstance(a, (Ref, Opq, FRef, View)) and isinstance(b, (Ref, Opq, FRef, View)):
                if a == b: return op == "=="
                if isinstance(a, Ref) and isinstance(b, Opq) and b.key == "null": return op == "!="
                if isinstance(b, Ref) and isinstance(a, Opq) and a.key == "null": return op == "!="
                x, y = sorted([repr(a), repr(b)])
                r = mk("bopq", "==(%s,%s)" % (x, y))
                return r if op == "==" else bnot(r)
            x, y = sorted([repr(a), repr(b)])
            r = mk("bopq", "==(%s,%s)" % (x, y))
            return r if op == "==" else bnot(r)
        return mk("bopq", "%s(%r,%r)" % (op, a, b))

    def e_asg(self, st, fr, e):
        loc = self.do_asg(st, fr, e)
        t = self.strip(self.ty(fr, e[3]))
        if isinstance(loc, Sel): return self._selref(loc)
        if self.is_agg(t): return Ref(loc)
        if loc and loc[0] == "view": return Ref(loc)
        return self.load(st, loc, t, fr, e[1])
    def l_asg(self, st, fr, e): return self.do_asg(st, fr, e)
    def do_asg(self, st, fr, e):
        op = e[2]; t = self.strip(self.ty(fr, e[3])); line = e[1]
        if op == "=":
            if self.is_agg(t):
                src = self.ev(st, fr, e[5]); loc = self.lv(st, fr, e[4])
                if isinstance(src, Ref): self.copy_obj(st, loc, src.loc, t, fr, line)
                return loc
            v = self.ev(st, fr, e[5])
            loc = self.lv(st, fr, e[4])
            if isinstance(v, Ref) and v.loc and v.loc[0] == "view" and t["k"] != "ptr": v = self.load(st, v.loc, t, fr, line)
            if t["k"] == "float": v = self.tofloat(v)
            self.store(st, loc, v, fr, line)
            return loc
        loc = self.lv(st, fr, e[4])
        lt = self.strip(self.ty(fr, e[6])) if len(e) > 6 else t
        old = self.load(st, loc, lt, fr, line)
        rhs = self.ev(st, fr, e[5])
        if isinstance(rhs, Ref) and rhs.loc and rhs.loc[0] == "view": rhs = self.load(st, rhs.loc, t, fr, line)
        # rhs evaluation might have changed loc; reload not needed for sane code
        v = self.binop(op[:-1], old, rhs, t, fr, line)
        if lt["k"] in ("int",) and t["k"] == "float": v = self.f2i(self.tofloat(v))
        self.store(st, loc, v, fr, line)
        return loc

    def e_cond(self, st, fr, e):
        c = self.tobool(self.ev(st, fr, e[4]))
        if c is True: return self.ev(st, fr, e[5])
        if c is False: return self.ev(st, fr, e[6])
        k = self.implied(st, c)
        if k is True: return self.ev(st, fr, e[5])
        if k is False: return self.ev(st, fr, e[6])
        s1 = st.fork(c); a = self.ev(s1, fr, e[5])
        s2 = st.fork(bnot(c)); b = self.ev(s2, fr, e[6])
        self.merge_into(st, c, s1, s2)
        t = self.strip(self.ty(fr, e[2]))
        if t["k"] == "float": a = self.tofloat(a); b = self.tofloat(b)
        return self.vsel(c, a, b)
    def l_cond(self, st, fr, e):
        c = self.tobool(self.ev(st, fr, e[4]))
        if c is True: return self.lv(st, fr, e[5])
        if c is False: return self.lv(st, fr, e[6])
        a = self.lv(st, fr, e[5]); b = self.lv(st, fr, e[6])
        return a if a == b else Sel(c, a, b)

    def implied(self, st, c):
        if isinstance(c, bool): return c
        if c in st.pc: return True
        n = bnot(c)
        if n in st.pc: return False
        f = self.opt.get("implied")
        if f: return f(self, st, c)
        return None

    def e_arrcopy(self, st, fr, e):
        v = self.ev(st, fr, e[3])
        r = self.new_root("ac"); t = self.ty(fr, e[2])
        if isinstance(v, Ref): self.copy_obj(st, r, v.loc, t, fr, e[1])
        return Ref(r)

    def e_ilist(self, st, fr, e):
        t = self.strip(self.ty(fr, e[2]))
        if self.is_agg(t):
            r = self.new_root("il")
            self.init_into(st, fr, r, e, t)
            return Ref(r)
        if t["k"] in ("int", "float", "bool", "enum", "ptr") and len(e[3]) == 1: return self.ev(st, fr, e[3][0])
        if t["k"] in ("int", "float", "bool", "enum", "ptr") and not e[3]: return self.zero(t)
        return Lib("ilist", [self.frz(st, fr, x) for x in e[3]])

    def frz(self, st, fr, x):
        v = self.ev(st, fr, x)
        return v



    def e_new(self, st, fr, e):
        t = self.ty(fr, e[2])
        r = self.new_root("heap:" + t["s"].split("<")[0])
        if e[3] is not None:
            n = self.ev(st, fr, e[3])
            self.host_event("new[]", st, fr, e[1], (t["s"], n, r))
            if self.opt.get("heapviews") and t["k"] == "float":
                self.heapviews[r] = a = "heap%d" % len(self.heapviews); self.heapalloc.add(a)
            return Ref(r + ("[]",))
        if e[4] is not None: self.init_into(st, fr, r, e[4], t)
        self.host_event("new", st, fr, e[1], (t["s"], r))
        st.mem[("dyncls", r)] = t.get("r")
        return Ref(r)

    def e_delete(self, st, fr, e):
        v = self.ev(st, fr, e[2])
        self.host_event("delete", st, fr, e[1], (v,))
        return None

    def e_throw(self, st, fr, e):
        v = self.ev(st, fr, e[2]) if e[2] else None
        self.host_event("throw", st, fr, e[1], (v,))
        st.dead = True
        return None

    def e_lambda(self, st, fr, e):
        caps = {}; this = None
        root = self.new_root("clos")
        for c in e[4]:
            if c[0] == "this":
                this = fr.this
                if c[1] == 1 and fr.fn.cls:
                    t = self.P.typebyname.get(fr.fn.cls)
                    if t is not None and isinstance(fr.this, (tuple,)) :
                        self.copy_obj(st, root + ("*this",), fr.this, t, fr, e[1]); this = root + ("*this",)
            elif c[0] == "v":
                vid, name, byref, tid, init = c[1:6]
                if init is not None:
                    l = root + (name,); self.init_into(st, fr, l, init, self.strip(self.ty(fr, tid))); caps[vid] = l; continue
                loc = self.var_loc(st, fr, vid, name)
                if byref: caps[vid] = loc
                else:
                    l = root + (name,); self.copy_obj(st, l, loc, self.strip(self.ty(fr, tid)), fr, e[1]); caps[vid] = l
        if this is None and fr.closure is not None: this = fr.this
        return Clos(e[2], e[3], caps, this)

    def e_opq(self, st, fr, e):
        vs = [self.ev(st, fr, x) for x in e[4]]
        if e[2] in ("CXXRewrittenBinaryOperator", "GenericSelectionExpr") and vs: return vs[-1]
        t = self.ty(fr, e[3])
        return self.opq_value(("opq", e[2], tuple(map(repr, vs))), t)
    def l_opq(self, st, fr, e):
        vs = [self.ev(st, fr, x) for x in e[4]]
        return ("opq", e[2], tuple(map(repr, vs)))

    def e_ictor(self, st, fr, e): return Opq(("ictor", e[3]))

    # ------------------------------------------------------------------ construction
    def init_into(self, st, fr, loc, e, t):
        """initialise object at loc of type t from initialiser expression e"""
        t = self.strip(t)
        if e is None:
            if self.is_agg(t) and t["k"] == "rec" and not self.is_karray(t["r"]): pass
            return
        if e[0] in ("temp", "definit"):
            return self.init_into(st, fr, loc, e[3] if e[0] == "temp" else e[2], t)
        if self.is_agg(t):
            if e[0] == "ilist":
                self.init_list(st, fr, loc, e, t); return
            if e[0] == "ctor":
                self.construct(st, fr, loc, e, t); return
            if e[0] == "vinit":
                for p, lt in self.leaves(t): st.mem[loc + p] = self.zero(lt); st.log.add(loc + p)
                return
            v = self.ev(st, fr, e)
            if isinstance(v, Sel):
                for g, x in sel_pieces(v):
                    pass
                tmp = self.obj_of_sel(st, v, t, fr, e[1])
                self.copy_obj(st, loc, tmp, t, fr, e[1]); return
            if isinstance(v, Ref): self.copy_obj(st, loc, v.loc, t, fr, e[1])
            else:
                for p, lt in self.leaves(t): 
                    st.mem[loc + p] = self.opq_value((repr(v),) + p, lt); st.log.add(loc + p)
            return
        v = self.ev(st, fr, e)
        if t["k"] == "float": v = self.tofloat(v) if not (isinstance(v, Ref) and v.loc and v.loc[0] == "view") else self.load(st, v.loc, t, fr, e[1])
        st.mem[loc] = v; st.log.add(loc)

    def obj_of_sel(self, st, v, t, fr, line):
        r = self.new_root("selobj")
        for p, lt in self.leaves(t):
            st.mem[r + p] = self._selload(st, v, p, lt, fr, line)
        return r
    def _selload(self, st, v, p, lt, fr, line):
        if isinstance(v, Sel): return self.vsel(v.c, self._selload(st, v.a, p, lt, fr, line), self._selload(st, v.b, p, lt, fr, line))
        if isinstance(v, Ref): return self.load(st, v.loc + p, lt, fr, line)
        return self.opq_value((repr(v),) + p, lt)

    def init_list(self, st, fr, loc, e, t):
        items = e[3]
        if t["k"] == "arr":
            et = t["_tu"][t["el"]]
            for i in range(t["n"]):
                if i < len(items): self.init_into(st, fr, loc + (i,), items[i], et)
                else:
                    for p, lt in self.leaves(et): st.mem[loc + (i,) + p] = self.zero(lt); st.log.add(loc + (i,) + p)
            return
        if self.is_karray(t["r"]):
            et, n = self.karr(t)
            # Kokkos::Array aggregate: inner init list for m_internal_implementation_private_member_data
            if len(items) == 1 and items[0] and items[0][0] == "ilist": items = items[0][3]
            for i in range(n):
                if i < len(items): self.init_into(st, fr, loc + (i,), items[i], et)
                else:
                    for p, lt in self.leaves(et): st.mem[loc + (i,) + p] = self.zero(lt); st.log.add(loc + (i,) + p)
            return
        r = self.rec(t["r"])
        fs = r.get("fields", [])
        items = list(items)
        bases = r.get("bases", [])
        for b in bases:
            if items:
                x = items.pop(0)
                bt = self.P.typebyname.get(b)
                if bt: self.init_into(st, fr, loc, x, bt)
        for k, f in enumerate(fs):
            if k < len(items): self.init_into(st, fr, loc + (f[0],), items[k], r["_types"][f[2]])

    def e_ctor(self, st, fr, e):
        t = self.strip(self.ty(fr, e[4]))
        if self.is_agg(t):
            r = self.new_root("obj")
            self.construct(st, fr, r, e, t)
            return Ref(r)
        return self.lib_construct(st, fr, e, t)

    def construct(self, st, fr, loc, e, t):
        fid, qn, args, copy, lst, impl = e[2], e[3], e[5], e[6], e[7], e[8]
        line = e[1]
        if t["k"] == "arr":
            et = t["_tu"][t["el"]]
            for i in range(t["n"]): self.construct(st, fr, loc + (i,), e, et)
            return
        f = self.P.funcs.get(fid)
        if copy and (impl or f is None) or self.is_karray(t["r"]):
            if args:
                v = self.ev(st, fr, args[0])
                if isinstance(v, Sel): v = Ref(self.obj_of_sel(st, v, t, fr, line))
                if isinstance(v, Ref): self.copy_obj(st, loc, v.loc, t, fr, line); return
                for p, lt in self.leaves(t): st.mem[loc + p] = self.opq_value((repr(v),) + p, lt); st.log.add(loc + p)
            elif e[9] if len(e) > 9 else 0:
                for p, lt in self.leaves(t): st.mem[loc + p] = self.zero(lt); st.log.add(loc + p)
            return
        if len(e) > 9 and e[9]:
            for p, lt in self.leaves(t): st.mem[loc + p] = self.zero(lt); st.log.add(loc + p)
        if f is None:
            if args and not impl:
                vs = [self.ev(st, fr, a) for a in args]
                self.warn.append("constructor without body: " + qn)
            self.default_fields(st, fr, loc, t)
            return
        self.run_ctor(st, fr, loc, f, args, line, t)

    def default_fields(self, st, fr, loc, t):
        for f in self.allfields(t["r"]):
            ft = f["t"]
            if f["init"] is not None:
                f2 = Frame(fr.fn, loc, fr.depth + 1, fr); f2.types = f["types"]
                self.init_into(st, f2, loc + (f["n"],), f["init"], ft)
            elif ft["k"] == "rec" and not self.is_agg(ft):
                st.mem[loc + (f["n"],)] = self.default_lib(ft)
            elif ft["k"] == "rec" and self.is_agg(ft) and not self.is_karray(ft["r"]):
                self.default_fields(st, fr, loc + (f["n"],), ft)

    def default_lib(self, t):
        s = t["r"]
        if s.startswith("Kokkos::View<"): return View("null", "", None, None, "")
        if s.startswith("std::basic_string<") or "basic_string<char" in s[:40]: return ""
        return Lib(s, [])

    def run_ctor(self, st, fr, loc, f, args, line, t=None, argvals=None):
        nf = self.enter(st, fr, f, args, line, loc, argvals)
        st.mem[("dyncls", loc)] = f.cls
        seen = set()
        for it in f.inits:
            kind, name, ln, ie = it
            if kind == "f":
                fld = next((x for x in self.allfields(f.cls) if x["n"] == name), None)
                ft = fld["t"] if fld else {"k": "other", "s": "?"}
                if ft["k"] == "ref":
                    l = self.lv(st, nf, ie) if ie[0] != "temp" else self.l_temp(st, nf, ie)
                    st.mem[loc + (name,)] = Ref(l); st.log.add(loc + (name,))
                elif ie is not None and ie[0] == "definit":
                    f2 = Frame(fr.fn, loc, nf.depth, nf); f2.types = fld["types"]; f2.vars = nf.vars
                    # default member initialisers are expressed in the TU of the constructor
                    f2.types = f.types
                    self.init_into(st, f2, loc + (name,), ie[2], ft)
                else:
                    self.init_into(st, nf, loc + (name,), ie, ft)
                seen.add(name)
            elif kind == "b":
                bt = self.P.typebyname.get(name)
                if bt is not None and bt["k"] == "rec" and self.is_agg(bt): self.init_into(st, nf, loc, ie, bt)
                elif bt is None:
                    r = self.rec(name)
                    if r and r["repo"] and ie and ie[0] == "ctor":
                        bf = self.P.funcs.get(ie[2])
                        if bf: self.run_ctor(st, nf, loc, bf, ie[5], ln)
                st.mem[("dyncls", loc)] = f.cls
            else:
                if ie and ie[0] == "ctor":
                    bf = self.P.funcs.get(ie[2])
                    if bf: self.run_ctor(st, nf, loc, bf, ie[5], ln)
        for fl in self.rec(f.cls).get("fields", []):
            ft = self.rec(f.cls)["_types"][fl[2]]
            if fl[0] not in seen and ft["k"] == "rec" and not self.is_agg(ft): st.mem.setdefault(loc + (fl[0],), self.default_lib(ft))
        self.run_body(st, nf, f)

    def lib_construct(self, st, fr, e, t):
        """constructor of a library class"""
        rn = t.get("r", "")
        if rn.startswith(("Kokkos::Max<", "Kokkos::Min<", "Kokkos::Sum<", "Kokkos::Prod<")) and not e[6] and len(e[5]) >= 1:
            return Lib(rn, [self._selref(self.lv(st, fr, e[5][0]))])
        args = [self.ev(st, fr, a) for a in e[5]]
        args = [self.rv(st, a, fr, e[1]) for a in args]
        line = e[1]
        if e[6] and args: return args[0]
        if rn.startswith("Kokkos::View<"):
            return self.make_view(st, fr, t, args, line)
        if rn.startswith("std::"):
            if strm.on(self) and strm.is_cls(rn): return strm.new(self, st, rn, args, fr, line)
            r = stl.construct(self, st, fr, rn, args, line)
            if r is not NotImplemented: return r
        if "basic_string" in rn[:40] and rn.startswith(("std::basic_string<", "std::__cxx11::basic_string<", "basic_string<", "std::basic_string_view<")):
            if not args: return ""
            if isinstance(args[0], str): return args[0]
            return Opq(("string", args[0])) if not isinstance(args[0], Opq) else args[0]
        return Lib(rn, args)

    def rv(self, st, v, fr, line):
        return v

    def make_view(self, st, fr, t, args, line):
        r = self.P.records.get(t["r"], {})
        targ = r.get("targs", ["double*"])[0]
        elt = targ.replace("const ", "").split("*")[0].split("[")[0].strip()
        ndyn = targ.count("*")
        import re
        stat = [int(x) for x in re.findall(r"\[(\d+)\]", targ)]
        if not args: return View("null", "", None, None, "")
        if isinstance(args[0], View): return args[0]
        if args and isinstance(args[0], str):
            ext = [self.toint(a) for a in args[1:1 + ndyn]]
            label = args[0]
        else:
            label = repr(args[0]); ext = [self.toint(a) for a in args[1:1 + ndyn]]
        while len(ext) < ndyn: ext.append(0)
        return self.new_alloc(label, tuple(ext) + tuple(stat), ndyn + len(stat), self.where(fr, line), elt)

    def new_alloc(self, label, ext, rank, where, elt="double"):
        base = label or "view"
        name = base; k = 1
        while name in self.allocs:
            k += 1; name = "%s'%d" % (base, k)
        v = View(name, label, tuple(ext), rank, where, elt)
        self.allocs[name] = v
        return v

    # ------------------------------------------------------------------ calls
    def e_call(self, st, fr, e):
        fid, qn, callee, args, tid = e[2], e[3], e[4], e[5], e[6]
        line = e[1]
        targs = e[7] if len(e) > 7 else []
        if fid is None:
            v = self.ev(st, fr, callee)
            if isinstance(v, FRef): fid, qn = v.fid, v.name
            elif isinstance(v, Clos): return self.call_closure(st, fr, v, args, line)
            else:
                vs = [self.ev(st, fr, a) for a in args]
                return self.opq_value(("icall", repr(v), tuple(map(repr, vs))), self.ty(fr, tid))
        return self.call_fn(st, fr, fid, qn, args, line, self.ty(fr, tid), targs)

    def call_fn(self, st, fr, fid, qn, args, line, rt, targs=(), this=None):
        h = self.hooks.get(qn)
        if h is not None:
            r = h(self, st, fr, args, line, this)
            if r is not NotImplemented: return r
        f = self.P.funcs.get(fid)
        if f is not None and qn not in self.opaque_fns:
            return self.call_repo(st, fr, f, args, line, this)
        return self.intrinsic(st, fr, qn, args, line, rt, targs, this)

    def l_call(self, st, fr, e):
        v = self.e_call(st, fr, e)
        return self.as_loc(st, v)
    def l_mcall(self, st, fr, e):
        v = self.e_mcall(st, fr, e)
        return self.as_loc(st, v)
    def as_loc(self, st, v):
        if isinstance(v, Ref): return v.loc
        if isinstance(v, Sel) and isinstance(v.a, (Ref, Sel)): return self.deref(v)
        if isinstance(v, Opq): return ("opq", v.key)
        return self.materialise(st, v)

    def enter(self, st, fr, f, args, line, this, argvals=None):
        if fr is not None and fr.depth > 120: raise AnalysisBroken("call depth exceeded at " + f.disp)
        nf = Frame(f, this, (fr.depth + 1) if fr else 0, fr)
        self.covered[f.id] = self.covered.get(f.id, 0) + 1
        if fr is not None: fr.line = line
        for k, (pn, vid, tid) in enumerate(f.params):
            t = f.types[tid]
            if argvals is not None:
                v = argvals[k] if k < len(argvals) else None
                root = (f.name + "." + pn + "@" + self.fresh("p"),)
                if t["k"] == "ref":
                    if isinstance(v, Ref): nf.vars[vid] = v.loc
                    else: st.mem[root] = v; nf.vars[vid] = root
                elif self.is_agg(t) and isinstance(v, Ref):
                    self.copy_obj(st, root, v.loc, t, fr or nf, line); nf.vars[vid] = root
                else: st.mem[root] = v; nf.vars[vid] = root
                continue
            a = args[k] if k < len(args) else None
            if t["k"] == "ref":
                if a is None: nf.vars[vid] = ("opq", "arg", pn); continue
                loc = self.lv(st, fr, a)
                nf.vars[vid] = loc
            else:
                root = (f.name + "." + pn + "@" + self.fresh("p"),)
                if a is not None: self.init_into(st, fr, root, a, t)
                nf.vars[vid] = root
        return nf

    def call_repo(self, st, fr, f, args, line, this=None, argvals=None):
        nf = self.enter(st, fr, f, args, line, this, argvals)
        if self.trace_calls and self.effects is None:
            self.events.append(("enter", f.disp, st.pc, self.where(fr, line) if fr else ""))
        r = self.run_body(st, nf, f)
        if self.trace_calls and self.effects is None:
            self.events.append(("leave", f.disp, st.pc, ""))
        return r

    def run_body(self, st, nf, f):
        rt = f.types[f.ret] if f.ret is not None and f.ret >= 0 else None
        out = self.ex(st, nf, f.body)
        # merge returns
        cur = out.st
        val = None
        rets = out.rets
        if not rets:
            if cur is None:
                st.dead = True; return None
            self.adopt(st, cur)
            return None
        # fold: process from last to first: state = sel(cond_k, ret_k, rest)
        acc = cur; have = cur is not None
        for cond, v, s in reversed(rets):
            if acc is None: acc = s; val = v
            else:
                val = self.merge_val(cond, v, val, rt) if val is not None or v is not None else None
                acc = self.merge_states(cond, s, acc, st)
        self.adopt(st, acc)
        return val

    def merge_val(self, c, a, b, rt):
        if b is None: return a
        if a is None: return b
        if rt is not None and rt["k"] == "float":
            a = self.tofloat(a) if not isinstance(a, Ref) else a
            b = self.tofloat(b) if not isinstance(b, Ref) else b
        return self.vsel(c, a, b)

    def adopt(self, st, s):
        if s is st: return
        st.mem = s.mem; st.log |= s.log
        # path condition of the caller is kept

    def merge_states(self, cond, s1, s2, base):
        """new state = cond ? s1 : s2 (both descend from base.mem)"""
        m = dict(s2.mem)
        for l in s1.log | s2.log:
            a = s1.mem.get(l, UNSET); b = s2.mem.get(l, UNSET)
            if a is b: continue
            m[l] = self.merge_cell(cond, l, a, b)
            if m[l] is UNSET: del m[l]
        r = State(m, base.pc, s1.log | s2.log)
        return r

    def merge_cell(self, cond, l, a, b):
        if a is UNSET or b is UNSET:
            if l[0] == "view":
                o = mk("ld", l[1], l[2], self.epoch())
                if a is UNSET: a = o
                else: b = o
            elif l[0] == "dyncls" or l[0] == "g":
                return b if a is UNSET else a
            elif isinstance(l[0], str) and (l[0].startswith("sym:") or l[0] == "opq"):
                x = b if a is UNSET else a
                k = "float" if isinstance(x, Node) and x.op not in ("ge0", "eq0", "and", "or", "not", "bopq", "fgt0", "feq0") else "bool" if isinstance(x, (bool, Node)) else "int" if isinstance(x, (int, Poly)) else "other"
                o = self.sym_leaf(None, l, {"k": k, "s": k, "r": ""}) if l[0].startswith("sym:") else self.opq_value(("fld",) + l[1:], {"k": k, "s": k})
                if a is UNSET: a = o
                else: b = o
            else:
                return b if a is UNSET else a    # local only alive in one branch (or uninitialised in the other)
        if isinstance(a, Opq) and isinstance(a.key, tuple) and a.key and a.key[0] == "uninit": return b
        return self.vsel(cond, a, b)

    def merge_into(self, st, cond, s1, s2):
        """merge forked states back into st: s1 under cond, s2 (or st unchanged) otherwise"""
        if s2 is None: s2 = State(st.mem, st.pc, set())
        m = self.merge_states(cond, s1, s2, st)
        st.mem = m.mem; st.log |= m.log

    def call_closure(self, st, fr, c, args, line, argvals=None, callee=None):
        f = callee or self.P.funcs.get(c.fid)
        if f is None: self.broken(fr, line, "lambda without body")
        nf = self.enter(st, fr, f, args, line, c.this, argvals)
        nf.closure = c.caps
        return self.run_body(st, nf, f)

    def e_mcall(self, st, fr, e):
        fid, qn, obj, arrow, args, virt, tid = e[2], e[3], e[4], e[5], e[6], e[7], e[8]
        line = e[1]
        h = self.hooks.get(qn)
        if h is not None:
            r = h(self, st, fr, args, line, obj)
            if r is not NotImplemented: return r
        f = self.P.funcs.get(fid)
        if f is None and not virt or (f is None and virt and not self.virt_repo(fid)):
            return self.lib_method(st, fr, e)
        loc = self.base_loc(st, fr, obj, arrow)
        if virt:
            dc = None
            if isinstance(loc, tuple): dc = st.mem.get(("dyncls", loc))
            if dc is not None:
                g = self.resolve_virtual(dc, fid)
                if g is not None: f = g
            elif isinstance(loc, tuple) and loc and loc[0] == "opq": f = None
        if f is None or qn in self.opaque_fns or (isinstance(loc, tuple) and loc and loc[0] == "opq" and not self.opt.get("inline_opaque_this")):
            return self.opaque_method(st, fr, qn, loc, args, line, self.ty(fr, tid))
        if isinstance(loc, Sel): loc = loc.a
        return self.call_repo(st, fr, f, args, line, loc)

    def virt_repo(self, fid):
        for r in self.P.records.values():
            if r["repo"]:
                for m in r.get("methods", []):
                    if m[1] == fid: return True
        return False

    def resolve_virtual(self, cls, fid, seen=None):
        """most-derived override of virtual fid in class cls"""
        def roots(f, r):
            out = {f}
            for m in self.methods_of(r):
                pass
            return out
        cur = cls
        while cur:
            r = self.rec(cur)
            if r is None: return None
            for n, mid, v, ov in r.get("methods", []):
                if mid == fid or self.overrides(mid, fid):
                    g = self.P.funcs.get(mid)
                    if g is not None: return g
            bs = [b for b in r.get("bases", []) if self.rec(b) and self.rec(b)["repo"]]
            cur = bs[0] if bs else None
        return None
    def methods_of(self, r): return r.get("methods", [])
    def overrides(self, mid, fid):
        if not hasattr(self, "_ov"):
            self._ov = {}
            for r in self.P.records.values():
                for n, m, v, ov in r.get("methods", []): self._ov[m] = ov
        todo = [mid]; seen = set()
        while todo:
            m = todo.pop()
            for o in self._ov.get(m, []):
                if o == fid: return True
                if o not in seen: seen.add(o); todo.append(o)
        return False

    def opaque_method(self, st, fr, qn, loc, args, line, rt):
        vs = [self.arg_val(st, fr, a) for a in args]
        self.host_event("call", st, fr, line, (qn, loc, tuple(vs)))
        self.nfresh += 1
        return self.opq_value(("ret", qn, tuple(map(repr, vs)), self.nfresh), self.strip(rt))

    def arg_val(self, st, fr, a):
        try:
            return self.ev(st, fr, a)
        except AnalysisBroken:
            raise

    def e_ocall(self, st, fr, e):
        fid, qn, op, ismem, args, tid, t0 = e[2], e[3], e[4], e[5], e[6], e[7], e[8]
        line = e[1]
        f = self.P.funcs.get(fid) if fid else None
        h = self.hooks.get(qn)
        if h is not None:
            r = h(self, st, fr, args, line, None)
            if r is not NotImplemented: return r
        t = self.strip(self.ty(fr, t0))
        if f is not None:
            if f.name == "operator()" and t["k"] == "rec" and self.rec(t["r"]) and self.rec(t["r"])["lambda"]:
                v = self.ev(st, fr, args[0])
                if isinstance(v, Ref): v = st.mem.get(v.loc, v)
                if isinstance(v, Clos): return self.call_closure(st, fr, v, args[1:], line, callee=f)
            if f.impl and op == "=":
                return self.struct_assign(st, fr, args, t, line)
            if ismem:
                loc = self.base_loc(st, fr, args[0], 0)
                if isinstance(loc, Sel): loc = loc.a
                return self.call_repo(st, fr, f, args[1:], line, loc)
            return self.call_repo(st, fr, f, args, line)
        if op == "=" and self.is_agg(t): return self.struct_assign(st, fr, args, t, line)
        return self.lib_op(st, fr, e, t)

    def l_ocall(self, st, fr, e):
        v = self.e_ocall(st, fr, e)
        if isinstance(v, Ref): return v.loc
        if isinstance(v, Sel) and isinstance(v.a, (Ref, Sel)): return self.deref(v)
        if isinstance(v, Opq): return ("opq", v.key)
        return self.materialise(st, v)

    def struct_assign(self, st, fr, args, t, line):
        src = self.ev(st, fr, args[1]); loc = self.lv(st, fr, args[0])
        if isinstance(src, Sel): src = Ref(self.obj_of_sel(st, src, t, fr, line))
        if isinstance(src, Ref): self.copy_obj(st, loc, src.loc, t, fr, line)
        else:
            for p, lt in self.leaves(t): self.store(st, loc + p, self.opq_value((repr(src),) + p, lt), fr, line)
        return Ref(loc)

    # ------------------------------------------------------------------ library operators / methods
    def lib_op(self, st, fr, e, t):
        op, args, line = e[4], e[6], e[1]
        rn = t.get("r", "")
        rt = self.strip(self.ty(fr, e[7]))
        if rn.startswith("Kokkos::View<") and op in ("()", "[]"):
            v = self.ev(st, fr, args[0])
            idx = tuple(self.toint(self.deload(st, fr, self.ev(st, fr, a), line)) for a in args[1:])
            self.sites += 1
            return self.view_at(st, fr, v, idx, line)
        if self.is_karray(rn) and op in ("[]",):
            loc = self.lv(st, fr, args[0]); i = self.toint(self.ev(st, fr, args[1]))
            self.karray_check(st, fr, t, i, line)
            l = self.ext(loc, i)
            return self._selref(l)
        if op not in ("=", "<<", ">>") and rn.startswith(("std::", "__gnu_cxx::")):
            v0 = stl.rv(self, st, self.ev(st, fr, args[0]))
            if isinstance(v0, Sel) or stl.kind(v0):
                vs = [v0] + [stl.rv(self, st, self.ev(st, fr, a)) for a in args[1:]]
                r = stl.oper(self, st, fr, op, vals=vs, args=args, rt=rt, line=line)
                if r is not NotImplemented: return r
        if op == "=" and rn.startswith("std::tuple<"):
            v0 = stl.rv(self, st, self.ev(st, fr, args[0])); v1 = stl.rv(self, st, self.ev(st, fr, args[1]))
            if isinstance(v0, Lib) and v0.ty == "ktie" and stl.kind(v1) in ("kpair", "ktup"):
                src = [v1.args[0] + (n,) for n in (("first", "second") if v1.ty == "kpair" else range(v1.args[1]))]
                for d, q in zip(v0.args, src): stl.put(self, st, d.loc, Ref(q))
                return v0
        if op in ("->", "*") and len(args) == 1:
            v = self.ev(st, fr, args[0])
            if isinstance(v, Lib) and v.args and isinstance(v.args[0], Ref): return v.args[0]
            if isinstance(v, Ref): return v
            if isinstance(v, Opq): return Opq(("pt", v.key))
            return Opq(("pt", repr(v)))
        if op == "=":
            loc = self.lv(st, fr, args[0]); v = self.ev(st, fr, args[1])
            if isinstance(v, Ref) and self.leaf_load_ok(st, v): v = st.mem.get(v.loc, v)
            self.store(st, loc, v, fr, line)
            return Ref(loc)
        if op == "<<" or op == ">>":
            # stream output: ignore value, keep events for host checks
            a0 = self.ev(st, fr, args[0]); a1 = self.ev(st, fr, args[1])
            if strm.on(self) and op == "<<":
                s0 = stl.rv(self, st, a0)
                if isinstance(s0, Lib) and s0.ty == "kstrm":
                    if isinstance(a1, Ref): a1 = stl.rv(self, st, a1) if a1.loc in st.mem else self.val(st, fr, args[1], line)
                    return strm.shl(self, st, fr, s0, a1, args[1], line)
            if op == ">>":
                try:
                    loc = self.lv(st, fr, args[1])
                    self.store(st, loc, self.opq_value(("stream", self.nfresh), {"k": "other"}), fr, line)
                except AnalysisBroken: raise
            if self.opt.get("streams"): self.host_event("stream", st, fr, line, (op, a0, a1))
            return a0
        vals = [self.ev(st, fr, a) for a in args]
        vals = [st.mem.get(v.loc, v) if isinstance(v, Ref) and self.leaf_load_ok(st, v) else v for v in vals]
        if op in ("==", "!="):
            return self.compare(op, vals[0], vals[1], fr, line)
        if op == "+" and all(isinstance(v, str) for v in vals): return vals[0] + vals[1]
        if op == "+" and ("basic_string" in rn or "basic_string" in rt.get("r", "")): return self.cat(vals[0], vals[1])
        if op == "+=" and "basic_string" in rn:
            loc = self.lv(st, fr, args[0]); self.store(st, loc, self.cat(vals[0], vals[1]), fr, line); return Ref(loc)
        if op == "[]":
            loc = self.lv(st, fr, args[0])
            k = vals[1]
            l = self.ext(loc, ("key", k if isinstance(k, (int, str)) else repr(k)))
            if rt is not None and self.is_agg(rt): return Ref(l)
            return Ref(l)
        if op == "()" :
            v = vals[0]
            if isinstance(v, Clos): return self.call_closure(st, fr, v, args[1:], line)
        return self.opq_value(("op" + op, tuple(map(repr, vals))), rt)

    def cat(self, a, b):
        if isinstance(a, int) and not isinstance(a, bool) and 0 < a < 128: a = chr(a)
        if isinstance(b, int) and not isinstance(b, bool) and 0 < b < 128: b = chr(b)
        if isinstance(a, str) and isinstance(b, str): return a + b
        pa = a.args if isinstance(a, Lib) and a.ty == "cat" else (a,)
        pb = b.args if isinstance(b, Lib) and b.ty == "cat" else (b,)
        r = list(pa)
        for x in pb:
            if isinstance(x, str) and r and isinstance(r[-1], str): r[-1] = r[-1] + x
            else: r.append(x)
        return Lib("cat", r)

    def leaf_load_ok(self, st, v): return v.loc in st.mem

    def deload(self, st, fr, v, line):
        if isinstance(v, Ref): return self.load(st, v.loc, {"k": "int", "s": "int"}, fr, line)
        return v

    def karray_check(self, st, fr, t, i, line):
        et, n = self.karr(t)
        if isinstance(i, int) and not (0 <= i < n) and self.effects is not None:
            self.effects.append(("oob_local", t["s"], (i,), None, st.pc, fr.fn, line))

    def view_at(self, st, fr, v, idx, line):
        if isinstance(v, Ref): v = st.mem.get(v.loc, v)
        if isinstance(v, Sel): return Sel(v.c, self.view_at(st, fr, v.a, idx, line), self.view_at(st, fr, v.b, idx, line))
        if isinstance(v, View): return Ref(("view", v.alloc, idx))
        return Ref(("view", repr(v), idx))

    def lib_method(self, st, fr, e):
        fid, qn, obj, arrow, args, virt, tid = e[2], e[3], e[4], e[5], e[6], e[7], e[8]
        line = e[1]; name = qn.split("::")[-1]
        rt = self.strip(self.ty(fr, tid))
        if qn.startswith("Kokkos::View") or qn.startswith("Kokkos::Impl"):
            v = self.ev(st, fr, obj)
            if isinstance(v, Ref): v = st.mem.get(v.loc, v)
            if name == "operator()":
                idx = tuple(self.toint(self.deload(st, fr, self.ev(st, fr, a), line)) for a in args); self.sites += 1
                return self.view_at(st, fr, v, idx, line)
            vals = [self.ev(st, fr, a) for a in args]
            if isinstance(v, View):
                if name in ("extent", "dimension", "extent_int") and v.ext is not None and isinstance(vals[0], int) and vals[0] < len(v.ext): return v.ext[vals[0]]
                if name.startswith("dimension_") and v.ext is not None: return v.ext[int(name[-1])]
                if name in ("extent", "extent_int"): return psym("%s.ext%s" % (v.alloc, vals[0]))
                if name in ("size", "span") and v.ext is not None:
                    r = 1
                    for x in v.ext: r = self.iop("*", r, x, fr, line)
                    return r
                if name == "data": return Lib("viewdata", [v])
                if name == "is_allocated": return v.alloc != "null"
                if name == "label": return v.label
            return self.opq_value((name, repr(v), tuple(map(repr, vals))), rt)
        ov = self.ev(st, fr, obj)
        oloc = None
        if isinstance(ov, Ref):
            oloc = ov.loc
            if ov.loc in st.mem: ov = st.mem[ov.loc]
        elif not arrow and obj[0] in ("ref", "mem"):
            oloc = self.lv(st, fr, obj)
        # enumerate karray helpers
        if name in ("size", "data") and oloc is not None:
            t = self.obj_type(fr, obj)
        vals = [self.ev(st, fr, a) for a in args]
        vals = [st.mem.get(v.loc, v) if isinstance(v, Ref) and self.leaf_load_ok(st, v) else v for v in vals]
        if isinstance(ov, Lib) and ov.ty == "kstrm":
            r = strm.method(self, st, fr, ov, name, vals, args, line)
            if r is not NotImplemented: return r
        if name == "at" and oloc is not None and qn.startswith("std::map<") and isinstance(vals[0], (int, str)) and isinstance(ov, Lib) and ov.ty.startswith("std::map<"):
            for l in (oloc + (("key", vals[0]),),):
                if l in st.mem or any(x[:len(l)] == l for x in st.mem): return Ref(l)
        r = stl.method(self, st, fr, qn, name, ov, oloc, vals, line, rt, obj)
        if r is not NotImplemented: return r
        if isinstance(ov, str):
            if name == "compare" and len(vals) == 3 and isinstance(vals[2], str) and isinstance(vals[0], int) and isinstance(vals[1], int):
                x = ov[vals[0]:vals[0] + vals[1]]; return 0 if x == vals[2] else 1 if x > vals[2] else -1
            if name == "compare" and len(vals) == 1 and isinstance(vals[0], str):
                return 0 if ov == vals[0] else (1 if ov > vals[0] else -1)
            if name in ("c_str", "data"): return ov
            if name == "empty": return len(ov) == 0
            if name in ("size", "length"): return len(ov)
            if name == "find" and vals and isinstance(vals[0], str):
                k = ov.find(vals[0]); return k if k >= 0 else 18446744073709551615
            if name == "substr" and all(isinstance(x, int) for x in vals): return ov[vals[0]:] if len(vals) == 1 else ov[vals[0]:vals[0] + vals[1]]
        if isinstance(ov, Opq) and isinstance(ov.key, tuple) and len(ov.key) == 2 and ov.key[0] == "typeid" and name == "name": return "typeid:" + ov.key[1].replace("const ", "")
        if "basic_string" in qn and name in ("c_str", "data"): return ov
        if "basic_string" in qn and name == "compare" and len(vals) == 1:
            return Sel(self.compare("==", ov, vals[0], fr, line), 0, 1)
        if "_ptr" in qn and name == "get":
            if isinstance(ov, Lib) and ov.args and isinstance(ov.args[0], Ref): return ov.args[0]
        r = self.lib_method_hook(st, fr, qn, name, ov, oloc, vals, line, rt)
        if r is not NotImplemented: return r
        self.host_event("lib", st, fr, line, (qn, ov, tuple(vals)))
        self.nfresh += 1
        if oloc is not None and not self.is_const_method(name):
            st.mem[oloc] = Opq(("mut", name, self.nfresh)); st.log.add(oloc)
        if name in ("drand", "frand") and "Kokkos" in qn and len(vals) in (1, 2):  # (uniform in [0,range) or [start,end))
            u = self.opq_value(("lib", name, repr(ov), ()), {"k": "float", "s": "double"}); vals = [self.tofloat(v) for v in vals]
            return fmul(u, vals[0]) if len(vals) == 1 else fadd(vals[0], fmul(u, fsub(vals[1], vals[0])))
        return self.opq_value(("lib", name, repr(ov), tuple(map(repr, vals))), rt)

    def lib_method_hook(self, st, fr, qn, name, ov, oloc, vals, line, rt): return NotImplemented
    def obj_type(self, fr, obj): return None
    def is_const_method(self, name):
        return name in ("size", "empty", "begin", "end", "find", "count", "at", "c_str", "data", "str", "length", "back", "front", "what", "good", "is_open", "compare", "substr", "width", "precision", "get", "operator bool")

    def host_event(self, kind, st, fr, line, data):
        if self.effects is not None:
            self.effects.append(("ev:" + kind, data, (), None, st.pc, fr.fn, line)); return
        self.events.append((kind, data, st.pc, self.where(fr, line)))

    # ------------------------------------------------------------------ intrinsics
    def intrinsic(self, st, fr, qn, args, line, rt, targs, this):
        name = qn.split("::")[-1]
        rt = self.strip(rt)
        if qn.startswith(("std::", "Kokkos::Array<")):
            r = stl.call(self, st, fr, qn, name, args, line, rt, targs)
            if r is not NotImplemented: return r
        if name in ("atomic_add", "atomic_sub", "atomic_fetch_add", "atomic_fetch_sub", "atomic_inc", "atomic_increment", "atomic_max", "atomic_fetch_max", "atomic_min", "atomic_exchange", "atomic_store", "atomic_assign") and "Kokkos" in qn:
            p = self.ev(st, fr, args[0]); v = self.ev(st, fr, args[1]) if len(args) > 1 else ONE
            loc = self.deref(p)
            kind = "atomic_add"
            if "sub" in name: v = fneg(self.tofloat(v))
            elif "add" in name or "inc" in name: v = self.tofloat(v)
            else: kind = name
            for g, l in sel_pieces(loc):
                if l[0] == "view": self.store_view(st, l, v, fr, line, kind, extra=g)
                else: self.host_event("atomic_nonview", st, fr, line, (l, v))
            return mk("opq", "atomicret")
        if name in ("swap",) and len(args) == 2:
            a = self.lv(st, fr, args[0]); b = self.lv(st, fr, args[1])
            t = {"k": "float", "s": "double"}
            va = self.load(st, a, t, fr, line); vb = self.load(st, b, t, fr, line)
            self.store(st, a, vb, fr, line); self.store(st, b, va, fr, line)
            return None
        if name in ("move", "forward", "addressof") and len(args) == 1:
            return self.ev(st, fr, args[0])
        if name in ("parallel_for", "parallel_reduce", "parallel_scan") and "Kokkos" in qn:
            return self.parallel(st, fr, name, args, line)
        if name in ("deep_copy",):
            vs = [self.val(st, fr, a, line) for a in args]
            self.events.append(("deep_copy", tuple(vs), st.pc, self.where(fr, line)))
            if isinstance(vs[0], View): self.kill_view(st, vs[0].alloc)
            return None
        if name == "kokkos_realloc" or name in ("realloc", "resize") and "Kokkos" in qn:
            loc = self.lv(st, fr, args[0])
            vs = [self.ev(st, fr, a) for a in args[1:]]
            old = st.mem.get(loc)
            if isinstance(old, View):
                ex = [self.toint(v) for v in vs]
                import re
                nv = self.new_alloc(old.label or "resized", tuple(ex), len(ex), self.where(fr, line), old.elt)
                st.mem[loc] = nv; st.log.add(loc)
            return None
        if name in ("create_mirror", "create_mirror_view"):
            v = self.val(st, fr, args[0], line)
            if isinstance(v, View):
                return self.new_alloc("mirror:" + v.alloc, v.ext, v.rank, self.where(fr, line), v.elt)
            return Opq(("mirror", repr(v)))
        if strm.on(self) and qn.startswith("std::") and name in ("setw", "setfill", "setprecision"):
            return Lib("manip", ({"setw": "width", "setfill": "fill", "setprecision": "precision"}[name], self.val(st, fr, args[0], line)))
        vals = None
        if rt["k"] == "float" or name in ("fmax", "fmin", "max", "min", "fabs", "abs"):
            vals = [self.val(st, fr, a, line) for a in args]
            r = self.math(name, vals, rt)
            if r is not NotImplemented: return r
        if vals is None: vals = [self.val(st, fr, a, line) for a in args]
        if name in ("make_shared", "make_unique"):
            vals = [Ref(self.lv(st, fr, a)) if isinstance(v, Lib) and v.ty.startswith("std::") and a[0] in ("ref", "mem") else v for v, a in zip(vals, args)]
            r = self.make_shared(st, fr, targs, vals, line)
            if r is not None: return r
        if name in ("to_string",) and len(vals) == 1:
            return str(vals[0]) if isinstance(vals[0], int) else Lib("to_string", vals)
        if name == "strcmp" and all(isinstance(x, str) for x in vals): return 0 if vals[0] == vals[1] else 1
        if name in ("exit", "abort", "_exit", "terminate"):
            self.host_event("exit", st, fr, line, (name,)); st.dead = True; return None
        # output arguments: havoc referenced cells
        if name not in ("printf", "fprintf", "puts", "endl", "fflush", "setw", "setfill", "cout"):
            self.nfresh += 1
            for k, v in enumerate(vals):
                if isinstance(v, Ref) and not self.pure_lib(qn):
                    self.havoc(st, v, ("out", qn, k, self.nfresh))
        self.host_event("ext", st, fr, line, (qn, tuple(vals)))
        return self.opq_value(("ret", qn, tuple(map(repr, vals)), self.nfresh if not self.pure_lib(qn) else 0), rt)

    def pure_lib(self, qn): return qn.startswith("std::")

    def havoc(self, st, ref, key):
        loc = ref.loc
        if loc and loc[0] == "view": return
        n = len(loc)
        if loc and loc[-1] == "[]": loc = loc[:-1]; n -= 1
        for l in [l for l in st.mem if l[:n] == loc]:
            old = st.mem[l]
            if isinstance(old, (View, Clos, FRef)): continue
            t = {"k": "int", "s": "int"} if isinstance(old, (int, Poly)) and not isinstance(old, bool) else {"k": "other", "s": "?"}
            if isinstance(old, Node): t = {"k": "float", "s": "double"}
            st.mem[l] = self.opq_value(key + l[n:], t); st.log.add(l)

    def kill_view(self, st, alloc):
        for l in [l for l in st.mem if l[0] == "view" and l[1] == alloc]: del st.mem[l]

    def val(self, st, fr, a, line):
        v = self.ev(st, fr, a)
        if isinstance(v, Ref) and v.loc and v.loc[0] == "view": return self.load(st, v.loc, {"k": "float", "s": "double"}, fr, line)
        if isinstance(v, Ref) and v.loc in st.mem and a[0] not in ("un",) : 
            # glvalue argument of scalar/leaf type
            x = st.mem[v.loc]
            if a[0] in ("ocall", "mcall", "call", "cond", "temp", "sub"): return x
        return v

    def make_shared(self, st, fr, targs, vals, line):
        if not targs: return None
        tn = targs[0]
        r = self.P.records.get(tn)
        if (r is None or not r["repo"]) and tn in ("int", "double", "float", "bool", "long", "unsigned long") and len(vals) == 1:
            root = self.new_root("sh"); stl.put(self, st, root, vals[0]); return Lib("kopt", (root,))
        if r is None or not r["repo"]: return Lib("shared:" + tn, vals)
        cs = [f for f in self.P.funcs.values() if f.kind == "ctor" and f.cls == tn and len(f.params) == len(vals) and not f.copy]
        if len(cs) == 1:
            root = self.new_root("sh:" + r["short"])
            self.run_ctor(st, fr, root, cs[0], None, line, None, argvals=vals)
            return Lib("shared_ptr", [Ref(root)])
        return Lib("shared:" + tn, vals)

    def math(self, name, vals, rt):
        isint = rt["k"] == "int"
        if name in ("fmax", "max", "fmin", "min") and len(vals) == 2:
            a, b = vals
            if all(isinstance(v, (int, Poly, Sel)) for v in vals) and rt["k"] != "float":
                c = self.icmp(">=" if "max" in name else "<=", a, b)
                return self.vsel(c, a, b)
            a = self.tofloat(a); b = self.tofloat(b)
            if a is b: return a
            if self.floors_off and "max" in name:
                if isfloor(a): self.floor_sites.add(id(b)); return b
                if isfloor(b): self.floor_sites.add(id(a)); return a
            c = self.fcmp(">", a, b)
            return fsel(c, a, b) if "max" in name else fsel(c, b, a)
        if name in ("fabs", "abs", "fabsf") and len(vals) == 1:
            v = vals[0]
            if isinstance(v, (int, Poly, Sel)) and rt["k"] != "float":
                if isinstance(v, int): return abs(v)
                return self.vsel(self.icmp(">=", v, 0), v, self.iop("-", 0, v, None, 0))
            v = self.tofloat(v)
            if v.op == "c": return fconst(abs(v.a[0]))
            return fsel(fgt0(v), v, fneg(v))
        if rt["k"] != "float" and name not in MATH1: return NotImplemented
        if name == "sqrt":
            v = self.tofloat(vals[0])
            if v.op == "c":
                import math
                n, d = v.a[0].numerator, v.a[0].denominator
                if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d: return fconst(Fraction(math.isqrt(n), math.isqrt(d)))
            return mk("fn", "sqrt", v)
        if name == "pow" and len(vals) == 2:
            a = self.tofloat(vals[0]); b = self.tofloat(vals[1])
            if b.op == "c" and b.a[0].denominator == 1 and 0 <= b.a[0] <= 8:
                r = ONE
                for _ in range(int(b.a[0])): r = fmul(r, a)
                return r
            return mk("fn", "pow", a, b)
        if name in MATH1 and len(vals) == 1:
            v = self.tofloat(vals[0])
            if rt["k"] == "bool": return mk("bopq", "%s(%d)" % (name, v.id))
            return mk("fn", name, v)
        if name == "copysign" and len(vals) == 2:
            a = self.tofloat(vals[0]); b = self.tofloat(vals[1])
            a = fconst(abs(a.a[0])) if a.op == "c" else fsel(fgt0(a), a, fneg(a))
            return fsel(fgt0(b), a, fneg(a))
        if name in ("copysign", "atan2", "fmod", "hypot") and len(vals) == 2:
            return mk("fn", name, self.tofloat(vals[0]), self.tofloat(vals[1]))
        if name in ("epsilon", "max", "min", "infinity", "lowest") and not vals:
            return mk("sym", "numeric_limits::" + name)
        return NotImplemented

    # ------------------------------------------------------------------ kernels
    def parallel(self, st, fr, name, args, line):
        vals = []
        label = None; rest = list(args)
        # first string argument = label
        first = self.ev(st, fr, rest[0])
        if isinstance(first, str) or (isinstance(first, Lib) and first.ty == "cat") or (isinstance(first, Opq)):
            label = first; rest = rest[1:]
            first = self.ev(st, fr, rest[0])
        policy = first
        if isinstance(policy, Ref) and policy.loc in st.mem: policy = st.mem[policy.loc]
        functor = self.ev(st, fr, rest[1])
        if isinstance(functor, Ref) and functor.loc in st.mem and isinstance(st.mem[functor.loc], Clos): functor = st.mem[functor.loc]
        redarg = rest[2] if len(rest) > 2 and name != "parallel_for" else None
        dims = self.policy_dims(st, policy, fr, line)
        where = self.where(fr, line)
        # functor object
        if isinstance(functor, Clos):
            f = self.P.funcs.get(functor.fid); fcls = functor.rec; cap = None
        else:
            t = self.expr_type(fr, rest[1])
            loc = functor.loc if isinstance(functor, Ref) else None
            cls = st.mem.get(("dyncls", loc)) or (t or {}).get("r")
            if cls is None: self.broken(fr, line, "kernel functor of unknown class")
            f = self.pick_callop(cls, len(dims) + (1 if redarg is not None else 0), policy)
            fcls = cls
        if f is None: self.broken(fr, line, "no call operator for kernel functor %s with %d indices (reduction: %s)" % (fcls, len(dims), redarg is not None))
        if self.effects is not None: self.broken(fr, line, "nested parallel region")
        L = Launch(kind=name, label=label, cls=fcls, fn=f, where=where, iters=[], effects=[], pc=st.pc, red=None, index=len(self.events), splits=[], line=line, host=fr.fn, hosts=callers(fr))
        self.kernel = {}
        args_v = []
        for d, (lo, hi) in enumerate(dims):
            s = self.fresh("ijkl"[d] if len(dims) > 1 else "n")
            p = f.params[d] if d < len(f.params) else None
            hip = self.iop("-", hi, 1, fr, line) if not isinstance(hi, Sel) else None
            self.ranges[s] = (topoly(lo), topoly(hip) if hip is not None else None)
            if len(dims) == 1: self.splittable.add(s)
            L.iters.append((s, lo, hi))
            args_v.append(psym(s))
        ks = State(dict(st.mem), st.pc, set())
        # kernels see device data at this epoch, not this host's pending cells
        for l in [l for l in ks.mem if l[0] == "view"]: del ks.mem[l]
        save = self.effects; self.effects = L.effects
        acc = None
        if redarg is not None:
            acc = ("redacc@%d" % L.index,)
            ks.mem[acc] = mk("sym", "redacc")
            args_v.append(Ref(acc))
        try:
            if isinstance(functor, Clos):
                self.call_closure(ks, fr, functor, None, line, argvals=args_v)
            else:
                root = self.new_root("kern:" + fcls.split("<")[0].split("::")[-1])
                t = self.P.typebyname.get(fcls)
                self.copy_obj(ks, root, functor.loc, t, fr, line)
                ks.mem[("dyncls", root)] = fcls
                self.call_repo(ks, fr, f, None, line, root, argvals=args_v)
        finally:
            self.effects = save
        L.splits = self.kernel.get("splits", []); self.kernel = None
        L.final = {l: v for l, v in ks.mem.items() if l[0] == "view" and l in ks.log}
        if redarg is not None:
            L.red = ks.mem.get(acc)
            L.redjoin = None
            rv = self.ev(st, fr, redarg)
            rl = None
            try: rl = self.lv(st, fr, redarg)
            except AnalysisBroken: pass
            if isinstance(rv, Ref) and rv.loc in st.mem: rv = st.mem[rv.loc]
            reducer = None
            if isinstance(rv, Lib): 
                reducer = rv
                if rv.args and isinstance(rv.args[0], Ref): rl = rv.args[0].loc
                elif rv.args: pass
            L.reducer = reducer
            L.redtarget = rl
            res = mk("reduced", len(self.events))
            if rl is not None:
                st.mem[rl] = res; st.log.add(rl)
        self.events.append(("launch", L, st.pc, where))
        return None

    def expr_type(self, fr, a):
        if a[0] == "ref": return self.strip(self.ty(fr, a[4]))
        if a[0] == "mem": return self.strip(self.ty(fr, a[5]))
        if a[0] == "ctor": return self.strip(self.ty(fr, a[4]))
        if a[0] == "temp": return self.strip(self.ty(fr, a[2]))
        if a[0] == "un" : return self.strip(self.ty(fr, a[3]))
        return None

    def pick_callop(self, cls, n, policy):
        cur = cls
        while cur:
            cands = [f for f in self.P.funcs.values() if f.cls == cur and f.name == "operator()" and len(f.params) == n]
            if len(cands) == 1: return cands[0]
            if len(cands) > 1:
                tag = None
                if isinstance(policy, Lib):
                    r = self.P.records.get(policy.ty, {})
                return cands[0]
            cands = [f for f in self.P.funcs.values() if f.cls == cur and f.name == "operator()" and len(f.params) == n + 1]
            if cands: return None
            r = self.rec(cur)
            bs = [b for b in (r or {}).get("bases", []) if self.rec(b) and self.rec(b)["repo"]]
            cur = bs[0] if bs else None
        return None

    def policy_dims(self, st, policy, fr, line):
        if isinstance(policy, (int, Poly, Sel)) and not isinstance(policy, bool): return [(0, policy)]
        if isinstance(policy, Lib):
            a = [st.mem.get(x.loc, x) if isinstance(x, Ref) and x.loc in st.mem else x for x in policy.args]
            if "MDRangePolicy" in policy.ty:
                lo = self.seq(st, a[0]); hi = self.seq(st, a[1])
                return list(zip([self.toint(x) for x in lo], [self.toint(x) for x in hi]))
            if "RangePolicy" in policy.ty:
                a = [x for x in a if not isinstance(x, Lib)]
                return [(self.toint(a[0]), self.toint(a[1]))]
        self.broken(fr, line, "unsupported execution policy %r" % (policy,))

    def seq(self, st, x):
        if isinstance(x, Lib): 
            out = []
            for y in x.args:
                if isinstance(y, Lib): out += self.seq(st, y)
                else: out.append(y)
            return out
        if isinstance(x, Ref):
            loc = x.loc
            if loc[-1] == "[]": loc = loc[:-1]
            out = []; i = 0
            while loc + (i,) in st.mem: out.append(st.mem[loc + (i,)]); i += 1
            return out
        raise AnalysisBroken("cannot read range bounds %r" % (x,))

    # ------------------------------------------------------------------ statements
    def ex(self, st, fr, s):
        if s is None:
            return Outcome(st)
        return getattr(self, "s_" + s[0])(st, fr, s)

    def s_nop(self, st, fr, s): return Outcome(st)
    def s_expr(self, st, fr, s):
        fr.line = s[1]
        self.ev(st, fr, s[2])
        o = Outcome(st)
        if st.dead: o.st = None
        return o

    def s_blk(self, st, fr, s):
        return self.seqx(st, fr, s[2])

    def seqx(self, st, fr, stmts):
        out = Outcome(st)
        cur = st
        for x in stmts:
            o = self.ex(cur, fr, x)
            out.rets += o.rets; out.brks += o.brks; out.conts += o.conts
            cur = o.st
            if cur is None: break
        out.st = cur
        return out

    def s_decl(self, st, fr, s):
        for d in s[2]:
            vid, name, tid, init, static, line = d[:6]
            t = self.ty(fr, tid)
            if t["k"] == "ref":
                if init is None: continue
                fr.vars[vid] = self.lv(st, fr, init)
                if len(d) > 6: self.bind(st, fr, fr.vars[vid], d[6])
                continue
            if static:
                loc = ("static", fr.fn.id, name)
                fr.vars[vid] = loc
                if loc not in st.mem:
                    self.init_into(st, fr, loc, init, t)
                continue
            loc = (name + "@" + self.fresh("v"),)
            fr.vars[vid] = loc
            if init is not None: self.init_into(st, fr, loc, init, t)
            if len(d) > 6: self.bind(st, fr, loc, d[6])
            if st.dead: return self._dead(st)
        return Outcome(st)
    def bind(self, st, fr, loc, bs):
        """structured binding of the object at loc"""
        v = st.mem.get(loc) if isinstance(loc, tuple) else None
        for i, (bvid, be) in enumerate(bs):
            if stl.kind(v) == "kpair": fr.vars[bvid] = v.args[0] + (("first", "second")[i],)
            elif stl.kind(v) == "ktup": fr.vars[bvid] = v.args[0] + (i,)
            elif isinstance(loc, tuple) and any(len(l) > len(loc) and l[:len(loc)] == loc and l[len(loc)] == i and not isinstance(l[len(loc)], bool) for l in st.mem): fr.vars[bvid] = loc + (i,)
            elif isinstance(loc, tuple) and loc and isinstance(loc[-1], tuple) and loc[-1][0] == "key": fr.vars[bvid] = loc + (("first", "second")[i],)
            elif be is not None: fr.vars[bvid] = self.lv(st, fr, be)
    def _dead(self, st):
        o = Outcome(st); o.st = None
        return o

    def s_ret(self, st, fr, s):
        fr.line = s[1]
        v = None
        if s[2] is not None:
            rt = fr.fn.types[fr.fn.ret]
            if rt["k"] == "ref": 
                l = self.lv(st, fr, s[2]); v = self._selref(l)
            else:
                v = self.ev(st, fr, s[2])
                if isinstance(v, Ref) and v.loc and v.loc[0] == "view" and rt["k"] != "ptr": v = self.load(st, v.loc, rt, fr, s[1])
                if rt["k"] == "float": v = self.tofloat(v)
                elif isinstance(v, Ref) and self.is_agg(rt) and s[2][0] in ("ref", "mem", "ctor", "temp"):
                    pass
        o = Outcome(None)
        o.rets.append((self.cond_of(st), v, st))
        return o

    def cond_of(self, st):
        c = True
        for x in st.pc: c = band(c, x)
        return c

    def s_brk(self, st, fr, s):
        o = Outcome(None); o.brks.append((self.cond_of(st), st)); return o
    def s_cont(self, st, fr, s):
        o = Outcome(None); o.conts.append((self.cond_of(st), st)); return o

    def s_if(self, st, fr, s):
        if s[2] is not None:
            o = self.ex(st, fr, s[2])
        fr.line = s[1]
        ce = s[3]
        if ce[0] == "cvar":
            self.ex(st, fr, ce[2]); c = self.tobool(self.ev(st, fr, ce[3]))
        else:
            c = self.tobool(self.ev(st, fr, ce))
        if st.dead: return self._dead(st)
        if not isinstance(c, bool):
            k = self.implied(st, c)
            if k is not None: c = k
        if c is True: return self.ex(st, fr, s[4])
        if c is False: return self.ex(st, fr, s[5]) if s[5] is not None else Outcome(st)
        s1 = st.fork(c); s2 = st.fork(bnot(c))
        o1 = self.ex(s1, fr, s[4])
        o2 = self.ex(s2, fr, s[5]) if s[5] is not None else Outcome(s2)
        return self.join(st, c, o1, o2)

    def join(self, st, c, o1, o2):
        o = Outcome(None)
        o.rets = o1.rets + o2.rets; o.brks = o1.brks + o2.brks; o.conts = o1.conts + o2.conts
        if o1.st is None and o2.st is None: 
            o.st = None
        elif o1.st is None:
            o.st = o2.st
        elif o2.st is None:
            o.st = o1.st
        else:
            m = self.merge_states(c, o1.st, o2.st, st)
            # path condition: if either branch lost part of its paths keep common conjuncts
            p1, p2 = o1.st.pc, o2.st.pc
            n = len(st.pc)
            pcx = st.pc
            e1 = [x for x in p1[n:] if x is not c and x not in conj_of(c)]
            nc = bnot(c)
            e2 = [x for x in p2[n:] if x is not nc and x not in conj_of(nc)]
            if e1 or e2:
                a = True
                for x in p1[n:]: a = band(a, x)
                b = True
                for x in p2[n:]: b = band(b, x)
                pcx = st.pc + tuple(conj_of(bor(a, b)))
            m.pc = pcx
            m.log |= st.log
            o.st = m
        if o.st is not None and o.st is not st:
            o.st.log |= st.log
        for _, _, rs in o.rets: rs.log |= st.log
        for _, bs in o.brks + o.conts: bs.log |= st.log
        return o

    def s_sw(self, st, fr, s):
        v = self.toint(self.ev(st, fr, s[2]))
        items = s[3][2] if s[3] and s[3][0] == "blk" else [s[3]]
        # flatten: list of ('label', value|None) and statements
        flat = []
        for x in items:
            while x is not None and x[0] in ("case", "dflt"):
                if x[0] == "case": flat.append(("L", self.toint(self.ev(st, fr, x[2])))); x = x[3]
                else: flat.append(("L", None)); x = x[2]
            flat.append(("S", x))
        labels = [(k, l[1]) for k, l in enumerate(flat) if l[0] == "L"]
        def run_from(s0, k):
            o = self.seqx(s0, fr, [x[1] for x in flat[k:] if x[0] == "S"])
            return o
        if isinstance(v, int):
            tgt = next((k for k, l in labels if l == v), None)
            if tgt is None: tgt = next((k for k, l in labels if l is None), None)
            if tgt is None: return Outcome(st)
            o = run_from(st, tgt)
            return self.absorb_breaks(st, o)
        dflt = next((k for k, l in labels if l is None), None)
        cases = [(k, l) for k, l in labels if l is not None]
        def rec(s0, ci):
            if ci == len(cases):
                if dflt is None: return Outcome(s0)
                return self.absorb_breaks(s0, run_from(s0, dflt))
            k, l = cases[ci]
            c = self.icmp("==", v, l)
            if not isinstance(c, bool):
                kk = self.implied(s0, c)
                if kk is not None: c = kk
            if c is True: return self.absorb_breaks(s0, run_from(s0, k))
            if c is False: return rec(s0, ci + 1)
            s1 = s0.fork(c); s2 = s0.fork(bnot(c))
            o1 = self.absorb_breaks(s1, run_from(s1, k)); o2 = rec(s2, ci + 1)
            return self.join(s0, c, o1, o2)
        return rec(st, 0)

    def absorb_breaks(self, st, o):
        """break exits become normal exits"""
        cur = o.st
        for cond, bs in reversed(o.brks):
            if cur is None: cur = bs; 
            else:
                m = self.merge_states(self.relcond(cond, st), bs, cur, st); m.pc = st.pc; m.log |= st.log
                cur = m
        if cur is not None and o.brks and not o.rets and not o.conts: cur.pc = st.pc
        r = Outcome(cur); r.rets = o.rets; r.conts = o.conts
        return r
    def relcond(self, cond, st): 
        base = set(x.id for x in st.pc if isinstance(x, Node))
        c = True
        for x in conj_of(cond):
            if isinstance(x, Node) and x.id in base: continue
            c = band(c, x)
        return c

    def absorb_conts(self, st, o):
        cur = o.st
        for cond, bs in reversed(o.conts):
            if cur is None: cur = bs
            else:
                m = self.merge_states(self.relcond(cond, st), bs, cur, st); m.log |= st.log
                m.pc = st.pc
                cur = m
        r = Outcome(cur); r.rets = o.rets; r.brks = o.brks
        if cur is not None and o.conts and not o.brks and not o.rets: cur.pc = st.pc
        return r

    def s_for(self, st, fr, s):
        if s[2] is not None:
            o = self.ex(st, fr, s[2])
        return self.loop(st, fr, s, s[3], s[4], s[5], False)

    def s_do(self, st, fr, s):
        return self.loop(st, fr, s, s[3], None, s[2], True)

    def loop(self, st, fr, s, ce, ie, body, dofirst):
        out = Outcome(None)
        cur = st; n = 0
        pend = []          # break exits
        base = st
        while True:
            if not (dofirst and n == 0):
                if ce is None: c = True
                else:
                    c = self.tobool(self.ev(cur, fr, ce))
                if not isinstance(c, bool):
                    k = self.implied(cur, c)
                    if k is not None: c = k
                if c is False: break
                if c is not True:
                    # unknown trip count from here: summarise the rest
                    o = self.symloop(cur, fr, s, ce, ie, body)
                    out.rets += o.rets; cur = o.st
                    break
            o = self.ex(cur, fr, body)
            o = self.absorb_conts(cur, o)
            out.rets += o.rets
            # breaks inside unrolled iterations
            if o.brks:
                if o.st is None:
                    pend += o.brks; cur = None; break
                pend += o.brks
                cur = o.st
                # the remaining iterations run under the complement: o.st.pc already carries it
            else:
                cur = o.st
            if cur is None: break
            if ie is not None: self.ev(cur, fr, ie)
            n += 1
            if n > self.max_unroll: raise AnalysisBroken("%s: loop does not terminate within %d abstract iterations" % (self.where(fr, s[1]), self.max_unroll))
        for cond, bs in reversed(pend):
            if cur is None: cur = bs
            else:
                m = self.merge_states(self.relcond(cond, base), bs, cur, base); m.log |= base.log; cur = m
        if cur is not None and pend and not out.rets: cur.pc = base.pc
        out.st = cur
        return out

    def symloop(self, st, fr, s, ce, ie, body):
        """loop with unknown trip count: one abstract iteration over havocked loop-carried cells"""
        self.nfresh += 1
        lid = "loop%d" % self.nfresh
        save_ev = len(self.events); 
        # pass 1: which cells change
        eff = self.effects; self.effects = [] if eff is not None else None
        ev0 = self.events
        self.events = list(ev0)
        sub0 = dict(self.subst); rg0 = dict(self.ranges); sp0 = set(self.splittable); al0 = dict(self.allocs); nf0 = self.nfresh
        s1 = State(dict(st.mem), st.pc, set())
        fv = dict(fr.vars)
        c1 = self.tobool(self.ev(s1, fr, ce)) if ce is not None else True
        o = self.ex(s1, fr, body)
        o = self.absorb_conts(s1, o)
        changed = set()
        for x in [o.st] + [b for _, b in o.brks] + [r for _, _, r in o.rets]:
            if x is not None: changed |= x.log
        if o.st is not None and ie is not None:
            self.ev(o.st, fr, ie); changed |= o.st.log
        self.effects = eff; self.events = ev0
        self.subst = sub0; self.ranges = rg0; self.splittable = sp0; self.allocs = al0
        fr.vars = fv
        # loop-carried: cells that existed before
        carried = [l for l in changed if l in st.mem or l[0] in ("view", "opq", "g") or (isinstance(l[0], str) and l[0].startswith("sym:"))]
        carried = sorted((l for l in carried if l[0] not in ("dyncls",)), key=repr)
        init = [st.mem.get(l, UNSET) for l in carried]
        # pass 2 with havocked carried cells
        s2 = State(dict(st.mem), st.pc, set(st.log))
        ptrs = {}
        for n, l in enumerate(carried):
            v0 = init[n]
            a = self.ptr_split(v0); b = self.ptr_split(o.st.mem.get(l)) if a and o.st is not None else None
            if a and b and a[0] == b[0]:      # a pointer that walks over one array: carried as its index
                ptrs[n] = a; s2.mem[l] = self.ptr_join(a[0], psym("%s.%d" % (lid, n))); s2.log.add(l); continue
            s2.mem[l] = self.loopvar(lid, n, l, v0)
            s2.log.add(l)
        # induction variable bounds
        if ie is not None and ce is not None: self.induction(st, s2, fr, s, ce, ie, carried, init, lid)
        c = self.tobool(self.ev(s2, fr, ce)) if ce is not None else True
        s3 = s2.fork(c)
        if self.effects is None: self.events.append(("loop", (lid, self.where(fr, s[1])), st.pc, ""))
        o = self.ex(s3, fr, body)
        o = self.absorb_conts(s3, o)
        end = o.st
        if end is not None and ie is not None: self.ev(end, fr, ie)
        if self.effects is None: self.events.append(("endloop", (lid,), st.pc, ""))
        # semantic key of the loop
        key = []
        for n, l in enumerate(carried):
            key.append((self.vkey(init[n]), self.vkey(end.mem.get(l, UNSET)) if end is not None else None))
        ck = self.vkey(c)
        res = State(dict(s2.mem), st.pc, set(s2.log))
        fullkey = self.loopkey(lid, ck, key)
        if not hasattr(self, "loopdef"): self.loopdef = {}
        nxt = [end.mem.get(l, UNSET) if end is not None else UNSET for l in carried]; init0 = list(init)
        for n, a in ptrs.items():
            b = self.ptr_split(nxt[n]); init0[n] = a[1]
            nxt[n] = b[1] if b and b[0] == a[0] else UNSET
        self.loopdef[lid] = (c, init0, nxt, bool(o.brks or o.rets))
        for n, l in enumerate(carried):
            if n in ptrs:
                res.mem[l] = self.ptr_join(ptrs[n][0], psym("%s.out%d" % (lid, n))) if nxt[n] is not UNSET else Opq((lid, "out", n)); continue
            res.mem[l] = self.loopout(fullkey, n, l, init[n], end.mem.get(l) if end is not None else None)
        r = Outcome(res); r.rets = o.rets
        # not-cond fact after the loop when there are no breaks
        return r

    def ptr_split(self, v):
        """pointer into an array -> (array, index)"""
        if not isinstance(v, Ref) or not isinstance(v.loc, tuple) or not v.loc: return None
        loc = v.loc
        if loc[0] == "view": return (("view", loc[1]), loc[2][0]) if len(loc) == 3 and loc[1] in self.heapalloc and len(loc[2]) == 1 else None
        if loc[-1] == "[]": return (("view", self.heapviews[loc[:-1]]), 0) if loc[:-1] in self.heapviews else (loc[:-1], 0)
        if isinstance(loc[-1], (int, Poly)) and not isinstance(loc[-1], bool): return (loc[:-1], loc[-1])
        return None
    def ptr_join(self, b, i): return Ref(("view", b[1], (i,)) if b[0] == "view" else b + (i,))

    def vkey(self, v):
        if v is UNSET: return "unset"
        return v

    def loopkey(self, lid, ck, key):
        return (lid, ck, tuple(key))

    def loopvar(self, lid, n, l, v0):
        if isinstance(v0, bool): return mk("bopq", "%s.%d" % (lid, n))
        if isinstance(v0, (int, Poly)) : return psym("%s.%d" % (lid, n))
        if isinstance(v0, Sel): return psym("%s.%d" % (lid, n)) if isinstance(v0.a, (int, Poly)) else Opq((lid, n))
        if isinstance(v0, Node):
            if v0.op in ("ge0", "eq0", "and", "or", "not", "bopq", "fgt0", "feq0"): return mk("bopq", "%s.%d" % (lid, n))
            return mk("lv", lid, n)
        if l[0] == "view" or v0 is UNSET: return mk("lv", lid, n)
        if isinstance(v0, (View, Clos, FRef)): return v0
        return Opq((lid, n))

    def loopout(self, fullkey, n, l, v0, vend):
        lid, ck, key = fullkey
        if isinstance(v0, (View, Clos, FRef)): return v0
        if isinstance(v0, bool): return mk("bopq", "%s.out%d" % (lid, n))
        if isinstance(v0, (int, Poly)): return psym("%s.out%d" % (lid, n))
        if isinstance(v0, Node) and v0.op not in ("ge0", "eq0", "and", "or", "not", "bopq", "fgt0", "feq0"):
            parts = []
            for a, b in key:
                parts.append(a if isinstance(a, Node) else mk("k", repr(a)))
                parts.append(b if isinstance(b, Node) else mk("k", repr(b)))
            cn = ck if isinstance(ck, Node) else mk("k", repr(ck))
            return mk("loopfn", lid, n, cn, *parts)
        if isinstance(v0, Node): return mk("bopq", "%s.out%d" % (lid, n))
        if l[0] == "view" or v0 is UNSET: return mk("opq", "%s.out%d" % (lid, n))
        return Opq((lid, "out", n))

    def induction(self, st, s2, fr, s, ce, ie, carried, init, lid):
        # x++ / x += const with x an int cell: lo bound = init
        if ie[0] == "un" and ie[2] in ("++", "p++"):
            loc = self.lv(s2, fr, ie[4])
            if loc in carried:
                n = carried.index(loc)
                if isinstance(init[n], (int, Poly)):
                    sym = "%s.%d" % (lid, n)
                    self.ranges[sym] = (topoly(init[n]), None)
                    s2.pc = s2.pc + tuple(conj_of(self.icmp(">=", psym(sym), init[n])))

    def s_rfor(self, st, fr, s):
        vid, name, tid = s[2]
        t = self.ty(fr, tid)
        rv = self.ev(st, fr, s[3])
        items = None
        if isinstance(rv, Ref) and stl.kind(st.mem.get(rv.loc)): rv = st.mem[rv.loc]
        if isinstance(rv, Lib) and rv.ty == "ilist": items = list(rv.args)
        elif stl.kind(rv) == "kvec": items = [Ref(rv.args[0] + (i,)) for i in range(rv.args[1])]
        elif stl.kind(rv) == "kmap": items = [Ref(rv.args[0] + (("key", q),)) for q in sorted(rv.args[1])]
        elif isinstance(rv, Ref):
            loc = rv.loc[:-1] if rv.loc and rv.loc[-1] == "[]" else rv.loc
            k = sorted({l[len(loc)] for l in st.mem if len(l) > len(loc) and l[:len(loc)] == loc and isinstance(l[len(loc)], int)})
            if k: items = [Ref(loc + (i,)) for i in k]
        if items is not None:
            cur = st; out = Outcome(None); pend = []
            for it in items:
                if isinstance(it, Ref) and t["k"] == "ref": fr.vars[vid] = it.loc
                else:
                    l = (name + "@" + self.fresh("v"),); fr.vars[vid] = l
                    if isinstance(it, Ref) and self.is_agg(self.strip(t)): self.copy_obj(cur, l, it.loc, self.strip(t), fr, s[1])
                    else: cur.mem[l] = cur.mem.get(it.loc, it) if isinstance(it, Ref) else it
                if len(s) > 5 and s[5]: self.bind(cur, fr, fr.vars[vid] if not (isinstance(it, Ref) and it.loc and isinstance(it.loc[-1], tuple)) else it.loc, s[5])
                o = self.absorb_conts(cur, self.ex(cur, fr, s[4]))
                out.rets += o.rets; pend += o.brks; cur = o.st
                if cur is None: break
            for cond, bs in reversed(pend):
                cur = bs if cur is None else self.merge_states(self.relcond(cond, st), bs, cur, st)
            out.st = cur
            return out
        l = (name + "@" + self.fresh("v"),)
        fr.vars[vid] = l
        st.mem[l] = self.opq_value(("elem", repr(rv), name), self.strip(t))
        if self.effects is None: self.events.append(("loop", (name, self.where(fr, s[1])), st.pc, ""))
        s2 = st.fork(mk("bopq", "nonempty:" + repr(rv)))
        o = self.absorb_conts(s2, self.ex(s2, fr, s[4]))
        if self.effects is None: self.events.append(("endloop", (name,), st.pc, ""))
        r = Outcome(st); r.rets = o.rets
        # havoc what the body changed
        for x in [o.st]:
            if x is None: continue
            for c in x.log:
                if c in st.mem and st.mem[c] != x.mem.get(c):
                    st.mem[c] = self.loopvar("rfor%d" % self.nfresh, 0, c, st.mem[c]) if not isinstance(st.mem[c], (View, Clos, FRef)) else st.mem[c]; st.log.add(c)
        return r

    def s_try(self, st, fr, s):
        return self.ex(st, fr, s[2])

    def s_case(self, st, fr, s): return self.ex(st, fr, s[3])
    def s_dflt(self, st, fr, s): return self.ex(st, fr, s[2])
    def s_label(self, st, fr, s): return self.ex(st, fr, s[3])
    def s_goto(self, st, fr, s): raise AnalysisBroken("%s: goto" % self.where(fr, s[1]))
    def s_opqs(self, st, fr, s):
        raise AnalysisBroken("%s: unsupported statement %s" % (self.where(fr, s[1]), s[2]))

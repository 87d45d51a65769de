"""Abstract value domains: integer polynomials over program symbols, hash-consed value graph nodes, booleans."""
from fractions import Fraction


class Poly:
    """integer-valued polynomial over named symbols; immutable"""
    __slots__ = ("t", "h")

    def __init__(self, terms):
        self.t = terms              # dict mono(tuple of sorted sym names) -> coefficient (int/Fraction), no zeros
        self.h = None

    def key(self):
        if self.h is None:
            self.h = tuple(sorted(self.t.items()))
        return self.h

    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self): return self.t.get((), 0)
    def syms(self):
        s = set()
        for m in self.t: s.update(m)
        return s

    def __repr__(self):
        if not self.t: return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (-len(x[0]), x[0])):
            ms = "*".join(m)
            if not m: s = str(c)
            elif c == 1: s = ms
            elif c == -1: s = "-" + ms
            else: s = "%s*%s" % (c, ms)
            out.append(s)
        r = out[0]
        for s in out[1:]:
            r += (" - " + s[1:]) if s.startswith("-") else (" + " + s)
        return r


def psym(n): return Poly({(n,): 1})
def pc(c): return Poly({(): c} if c else {})
def topoly(v):
    if isinstance(v, Poly): return v
    if isinstance(v, bool): return pc(int(v))
    if isinstance(v, (int, Fraction)): return pc(v)
    raise TypeError(v)
def unpoly(p):
    """int when constant"""
    if p.is_const():
        c = p.const()
        if isinstance(c, Fraction) and c.denominator == 1: c = int(c)
        if isinstance(c, int): return c
    return p
def padd(a, b, s=1):
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + s * c
        if v: t[m] = v
        else: t.pop(m, None)
    return Poly(t)
def pmul(a, b):
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            v = t.get(m, 0) + c1 * c2
            if v: t[m] = v
            else: t.pop(m, None)
    return Poly(t)
def psubst(p, env):
    """substitute symbols by polys; env: sym -> Poly"""
    if not any(s in env for s in p.syms()): return p
    r = Poly({})
    for m, c in p.t.items():
        x = pc(c)
        for s in m:
            x = pmul(x, env[s] if s in env else psym(s))
        r = padd(r, x)
    return r
def peval(p, env):
    v = 0
    for m, c in p.t.items():
        x = c
        for s in m: x = x * env[s]
        v += x
    return v


class Node:
    """hash-consed value-graph node for real-valued (or opaque) expressions and boolean atoms"""
    __slots__ = ("op", "a", "id", "__weakref__")
    _tab = {}
    _n = 0

    def __repr__(self): return show(self, 4)


def mk(op, *a):
    k = (op,) + tuple((x.id, 0) if isinstance(x, Node) else x for x in a)
    n = Node._tab.get(k)
    if n is None:
        n = Node(); n.op = op; n.a = a; Node._n += 1; n.id = Node._n
        Node._tab[k] = n
    return n


def show(n, d=3):
    if not isinstance(n, Node): return repr(n) if not isinstance(n, (Fraction,)) else str(n)
    if n.op == "c": return str(float(n.a[0])) if n.a[0].denominator != 1 else str(n.a[0])
    if n.op == "ld": return "%s(%s)" % (n.a[0], ",".join(map(repr, n.a[1])))
    if d == 0: return "..."
    if n.op in "+-*/" and len(n.a) == 2: return "(%s %s %s)" % (show(n.a[0], d - 1), n.op, show(n.a[1], d - 1))
    return "%s[%s]" % (n.op, ",".join(show(x, d - 1) for x in n.a))


def fconst(x): return mk("c", Fraction(x))
ZERO = fconst(0); ONE = fconst(1)


class Sel:
    """conditional non-float value: cond ? a : b"""
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __eq__(self, o): return isinstance(o, Sel) and self.c is o.c and self.a == o.a and self.b == o.b
    def __hash__(self): return hash((self.c.id, self.a, self.b))
    def __repr__(self): return "(%s ? %r : %r)" % (self.c, self.a, self.b)


def sel_pieces(v, guard=()):
    """-> list of (guard tuple of BNodes, value)"""
    if isinstance(v, Sel):
        return sel_pieces(v.a, guard + (v.c,)) + sel_pieces(v.b, guard + (bnot(v.c),))
    return [(guard, v)]


class Opq:
    __slots__ = ("key",)
    def __init__(self, key): self.key = key
    def __eq__(self, o): return isinstance(o, Opq) and self.key == o.key
    def __hash__(self): return hash(("Opq", self.key))
    def __repr__(self): return "?%s" % (self.key,)


class Ref:
    """pointer/reference value to an abstract location (tuple path)"""
    __slots__ = ("loc",)
    def __init__(self, loc): self.loc = loc
    def __eq__(self, o): return isinstance(o, Ref) and self.loc == o.loc
    def __hash__(self): return hash(("Ref", self.loc))
    def __repr__(self): return "&%r" % (self.loc,)


class View:
    """Kokkos view handle (reference semantics: identity is the allocation)"""
    __slots__ = ("alloc", "label", "ext", "rank", "line", "where", "elt")
    def __init__(self, alloc, label, ext, rank, where, elt="double"):
        self.alloc = alloc; self.label = label; self.ext = ext; self.rank = rank; self.where = where; self.elt = elt
    def __eq__(self, o): return isinstance(o, View) and self.alloc == o.alloc and self.ext == o.ext
    def __hash__(self): return hash(("View", self.alloc))
    def __repr__(self): return "View<%s>" % (self.alloc,)


class Lib:
    """library object built from known arguments: kind + args"""
    __slots__ = ("ty", "args")
    def __init__(self, ty, args): self.ty = ty; self.args = tuple(args)
    def __eq__(self, o): return isinstance(o, Lib) and self.ty == o.ty and self.args == o.args
    def __hash__(self): return hash(("Lib", self.ty, self.args))
    def __repr__(self): return "%s%r" % (self.ty.split("<")[0], self.args)


class Clos:
    __slots__ = ("rec", "fid", "caps", "this", "name")
    def __init__(self, rec, fid, caps, this): self.rec = rec; self.fid = fid; self.caps = caps; self.this = this
    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)
    def __repr__(self): return "closure<%s>" % self.rec


class FRef:
    __slots__ = ("fid", "name")
    def __init__(self, fid, name): self.fid = fid; self.name = name
    def __eq__(self, o): return isinstance(o, FRef) and self.fid == o.fid
    def __hash__(self): return hash(("F", self.fid))
    def __repr__(self): return "fn:%s" % self.name


# ---------------- booleans: python bool or Node with op in {ge0, eq0, fgt0, and, or, not, bopq}
def bnot(b):
    if isinstance(b, bool): return not b
    if b.op == "not": return b.a[0]
    if b.op == "ge0": return bge0(padd(pc(-1), b.a[0], -1))      # !(p>=0)  <=>  -p-1 >= 0
    return mk("not", b)
def _linkey(p): return p
def bge0(p):
    p = unpoly(p) if isinstance(p, Poly) else p
    if isinstance(p, (int, Fraction)): return p >= 0
    return mk("ge0", p)
def beq0(p):
    p = unpoly(p) if isinstance(p, Poly) else p
    if isinstance(p, (int, Fraction)): return p == 0
    # canonical sign
    k = p.key()
    if k[-1][1] < 0: p = padd(Poly({}), p, -1)
    return mk("eq0", p)
def band(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    if a is b: return a
    if bnot(a) is b: return False
    return mk("and", a, b) if a.id <= b.id else mk("and", b, a)
def bor(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    if a is b: return a
    if bnot(a) is b: return True
    return mk("or", a, b) if a.id <= b.id else mk("or", b, a)
def conj_of(b):
    """flatten a boolean into a list of conjuncts"""
    if b is True: return []
    if isinstance(b, Node) and b.op == "and": return conj_of(b.a[0]) + conj_of(b.a[1])
    if isinstance(b, Node) and b.op == "not" and b.a[0].op == "or":
        x, y = b.a[0].a
        return conj_of(bnot(x)) + conj_of(bnot(y))
    return [b]


# ---------------- real-valued nodes
def fadd(a, b):
    if a.op == "c" and b.op == "c": return fconst(a.a[0] + b.a[0])
    if a is ZERO: return b
    if b is ZERO: return a
    return mk("+", a, b)
def fsub(a, b):
    if a.op == "c" and b.op == "c": return fconst(a.a[0] - b.a[0])
    if b is ZERO: return a
    if a is b: return ZERO
    return mk("-", a, b)
def fmul(a, b):
    if a.op == "c" and b.op == "c": return fconst(a.a[0] * b.a[0])
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    return mk("*", a, b)
def fdiv(a, b):
    if b.op == "c" and b.a[0] != 0:
        if a.op == "c": return fconst(a.a[0] / b.a[0])
        if b is ONE: return a
    if a is ZERO: return ZERO
    return mk("/", a, b)
def fneg(a):
    if a.op == "c": return fconst(-a.a[0])
    return mk("-", ZERO, a)
def fsel(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if c.op == "not": return fsel(c.a[0], b, a)
    # sel(c, sel(c,x,y), z)
    if a.op == "sel" and a.a[0] is c: a = a.a[1]
    if b.op == "sel" and b.a[0] is c: b = b.a[2]
    if a is b: return a
    return mk("sel", c, a, b)
def fgt0(x, strict=True):
    """x > 0 (or >= 0). ties are not distinguished for real values"""
    if x.op == "c": return x.a[0] > 0 if strict else x.a[0] >= 0
    return mk("fgt0", x)

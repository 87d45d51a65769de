"""Value numbering of whole-step denotations.

A value-graph node is interpreted in the finite field F_p with the quadratic character as abstract sign (sign(ab)=sign(a)sign(b),
sign(-1)=-1) and the modular square root as abstract square root, so two nodes get the same number exactly when they are equal
under field axioms plus those sign laws (up to a 2^-60 collision chance per evaluation).  Leaves are array cells identified by
their affine index, hashed into the field.  Loads are resolved through the effect summary of the kernel that produced the cell;
integer guards are decided by affine entailment under the given cell-class facts, never by picking a grid size."""
import decimal, hashlib
from decimal import Decimal
from fractions import Fraction
from .dom import *
from .affine import Facts
from .ir import AnalysisBroken
from .absint import F2I
from .mpi import several

PR = 2305843009213682039
HALF = (PR - 1) // 2


class Undecided(Exception):
    def __init__(self, atom): self.atom = atom


class Inconsistent(Exception): pass


def hsh(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=16).digest(), "big") % PR


def inv(x): return pow(x, PR - 2, PR)
_sg = {}
def sign_pos(x):
    r = _sg.get(x)
    if r is None:
        r = x != 0 and pow(x, HALF, PR) == 1
        if len(_sg) < 2000000: _sg[x] = r
    return r
def fsqrt(x): return pow(x, (PR + 1) // 4, PR)
def frac(c):
    if isinstance(c, Fraction): return c.numerator % PR * (inv(c.denominator % PR) if c.denominator != 1 else 1) % PR
    return c % PR


def pkey(idx):
    return tuple(i if isinstance(i, int) else i.key() for i in idx)


class Deno:
    lazy_pc = False         # look for a write before deciding whether a conditional kernel runs
    def __init__(self, I, facts, seed, start=0, leaf=None, cfgbool=None, symval=None, positive=()):
        self.I = I; self.facts = facts; self.seed = seed; self.start = start
        self.leaf = leaf            # (deno, alloc, idx) -> residue or None
        self.cfgbool = cfgbool or (lambda n: None)
        self.symval = symval or {}
        self.memo = {}; self.lmemo = {}
        self.envs = {}; self.dommemo = {}
        self.writers = {}
        for k, e in enumerate(I.events):
            if k < start: continue
            if e[0] == "launch":
                L = e[1]
                for a in set([l[1] for l in L.final] + [x[1] for x in L.effects if x[0].startswith("atomic")]): self.writers.setdefault(a, []).append(k)
            elif e[0] == "deep_copy" and isinstance(e[1][0], View): self.writers.setdefault(e[1][0].alloc, []).append(k)
        self.touched = 0
        self.bools = {}
        self.usedcells = set()

    # ---- environments
    def env(self, d):
        k = tuple(sorted((s, p.key()) for s, p in d.items()))
        e = self.envs.get(k)
        if e is None:
            e = (len(self.envs), dict(d)); self.envs[k] = e
        return e

    def sub(self, p, env):
        if isinstance(p, int): return p
        p = self.I.norm(p)
        return unpoly(psubst(p, env[1])) if env[1] else p

    def pval(self, p, env=None):
        """residue of an integer polynomial"""
        if isinstance(p, int): return p % PR
        v = 0
        for m, c in p.t.items():
            x = frac(c)
            for s in m: x = x * self.isym(s, env) % PR
            v += x
        return v % PR

    def isym(self, s, env=None):
        if s in F2I: return hsh(self.seed, "f2i", self.val(F2I[s], env or self.env({})))
        v = self.symval.get(s)
        if v is not None: return v
        return hsh(self.seed, "i", self.canon(s))

    def canon(self, s):
        if s.startswith("loop") and "." in s: return "loop." + s.split(".")[-1]
        if s.startswith("reduced"): return "reduced"
        return s

    # ---- booleans
    def bval(self, b, env):
        if isinstance(b, bool): return b
        k = (b.id, env[0])
        r = self.memo.get(k)
        if r is not None: return r
        r = self._bval(b, env)
        self.memo[k] = r
        return r

    def _bval(self, b, env):
        op = b.op
        if op == "not": return not self.bval(b.a[0], env)
        if op == "and":
            # integer part first so that float conditions are only visited in feasible contexts
            if not self.bval_int_first(b.a[0], env): return False
            return self.bval(b.a[0], env) and self.bval(b.a[1], env)
        if op == "or": return self.bval(b.a[0], env) or self.bval(b.a[1], env)
        if op == "ge0" or op == "eq0":
            p = self.sub(b.a[0], env)
            if isinstance(p, (int, Fraction)): return p >= 0 if op == "ge0" else p == 0
            r = self.facts.decide_ge0(p) if op == "ge0" else self.facts.decide_eq0(p)
            if r is None and "nprocs" in p.syms(): r = several(bge0(p) if op == "ge0" else beq0(p))      # MPI runs have several processes
            if r is None:
                if any(s.startswith(("loop", "f2i", "o(", "cfg:", "ld(")) for s in p.syms()) and not any(s.startswith("cfg:mesh/n") for s in p.syms()):
                    return self.ibool(op, p)
                raise Undecided(bge0(p) if op == "ge0" else beq0(p))
            return r
        if op == "fgt0":
            v = self.val(b.a[0], env)
            return sign_pos(v)
        if op == "feq0": return self.val(b.a[0], env) == 0
        if op == "bopq":
            r = self.cfgbool(b.a[0])
            if r is not None: return r
            return bool(hsh(self.seed, "b", b.a[0]) & 1)
        raise AnalysisBroken("boolean node " + op)

    def ibool(self, op, p):
        """unknown integer condition that does not concern grid geometry: consistent arbitrary truth value"""
        if op == "eq0": return bool(hsh(self.seed, "ie", tuple(sorted((tuple(map(self.canon, m)), c) for m, c in p.t.items()))) & 1)
        # p>=0 and -p-1>=0 are complementary
        k1 = tuple(sorted((tuple(map(self.canon, m)), c) for m, c in p.t.items()))
        q = padd(pc(-1), p, -1)
        k2 = tuple(sorted((tuple(map(self.canon, m)), c) for m, c in q.t.items()))
        if k1 <= k2: return bool(hsh(self.seed, "ig", k1) & 1)
        return not bool(hsh(self.seed, "ig", k2) & 1)

    def bval_int_first(self, b, env): return True

    # ---- reals
    def val(self, n, env):
        k = (n.id, env[0])
        r = self.memo.get(k)
        if r is not None: return r
        r = self._val(n, env)
        self.memo[k] = r
        self.touched += 1
        return r

    def _val(self, n, env):
        op = n.op
        if op == "c": return frac(n.a[0])
        if op == "+": return (self.val(n.a[0], env) + self.val(n.a[1], env)) % PR
        if op == "-": return (self.val(n.a[0], env) - self.val(n.a[1], env)) % PR
        if op == "*": return self.val(n.a[0], env) * self.val(n.a[1], env) % PR
        if op == "/":
            d = self.val(n.a[1], env)
            return self.val(n.a[0], env) * pow(d, PR - 2, PR) % PR
        if op == "sel":
            return self.val(n.a[1], env) if self.bval(n.a[0], env) else self.val(n.a[2], env)
        if op == "ld":
            idx = tuple(i if isinstance(i, int) else self.sub(i, env) for i in n.a[1])
            return self.load(n.a[0], idx, n.a[2])
        if op == "fn":
            v = [self.val(x, env) for x in n.a[1:]]
            if n.a[0] == "sqrt": return fsqrt(v[0])
            return hsh(self.seed, "fn", n.a[0], tuple(v))
        if op == "sym": return self.sym(n.a[0])
        if op == "i2f": return self.pval(self.sub(n.a[0], env), env)
        if op == "reduced":
            r = self.symval.get("<reduced>")
            return r if r is not None else self.pos(hsh(self.seed, "reduced"))
        if op == "opq": return hsh(self.seed, "opq", n.a[0])
        if op == "lv": return hsh(self.seed, "lv", n.a[1])
        if op == "k": return hsh(self.seed, "k", n.a[0] if not n.a[0].startswith("loop") else "")
        if op == "loopfn":
            cn = n.a[2]
            c = self.bval(cn, env) if cn.op in ("ge0", "eq0", "fgt0", "feq0", "and", "or", "not", "bopq") else self.val(cn, env)
            return hsh(self.seed, "loopfn", n.a[1], c, tuple(self.val(x, env) for x in n.a[3:]))
        if op in ("ge0", "eq0", "fgt0", "feq0", "and", "or", "not", "bopq"):
            return 1 if self.bval(n, env) else 0
        raise AnalysisBroken("value node " + op)

    def pos(self, h): return h * h % PR

    def sym(self, name):
        v = self.symval.get(name)
        if v is not None: return v
        return hsh(self.seed, "sym", name)

    def base_leaf(self, alloc, idx):
        if self.leaf is not None:
            r = self.leaf(self, alloc, idx)
            if r is not None: return r
        return hsh(self.seed, "leaf", alloc, pkey(idx))

    # ---- arrays
    def load(self, alloc, idx, epoch):
        w = self.writers.get(alloc)
        e = None
        if w:
            lo, hi = 0, len(w)
            while lo < hi:
                m = (lo + hi) // 2
                if w[m] < epoch: lo = m + 1
                else: hi = m
            if lo: e = w[lo - 1]
        k = (alloc, pkey(idx), e)
        r = self.lmemo.get(k)
        if r is not None: return r
        r = self._load(alloc, idx, e)
        self.lmemo[k] = r
        return r

    def prior(self, alloc, idx, e): return self.load(alloc, idx, e)

    def _load(self, alloc, idx, e):
        if e is None:
            self.usedcells.add((alloc, idx))
            return self.base_leaf(alloc, idx)
        ev = self.I.events[e]
        if ev[0] == "deep_copy":
            if not self.pcval(ev[2]): return self.load(alloc, idx, e)
            src = ev[1][1]
            if not isinstance(src, View):
                v = src
                if isinstance(v, Node): return self.val(v, self.env({}))
                if isinstance(v, (int, Fraction)): return frac(v)
                raise AnalysisBroken("deep_copy from unknown value")
            return self.load(src.alloc, idx, e)
        L = ev[1]
        if L.pc and self.lazy_pc and self.written(L, e, alloc, idx) is None and not self.atomics(L, alloc, idx): return self.load(alloc, idx, e)
        if not self.pcval(L.pc): return self.load(alloc, idx, e)
        w = self.written(L, e, alloc, idx)
        if w is not None:
            node, env = w
            base = self.val(node, env)
        else: base = self.load(alloc, idx, e)
        # atomic contributions
        for eff, env in self.atomics(L, alloc, idx):
            if eff[0] != "atomic_add": raise AnalysisBroken("unsupported atomic %s" % eff[0])
            base = (base + self.val(self.I.tofloat(eff[3]), env)) % PR
        return base

    def pcval(self, pcs):
        env = self.env({})
        for b in pcs:
            if not self.bval(b, env): return False
        return True

    def solve(self, L, cell, idx):
        """iteration environment mapping cell index expression to the target; None if impossible"""
        env = {}
        its = {s for s, _, _ in L.iters}
        for s, q, r, b in L.splits: its |= {q, r}
        eqs = []
        for c, t in zip(cell, idx):
            if isinstance(c, int) and isinstance(t, int):
                if c != t: return None
                continue
            eqs.append((self.I.norm(topoly(c)), topoly(t)))
        ch = True
        while eqs and ch:
            ch = False; rest = []
            for c, t in eqs:
                c = psubst(c, env)
                fs = [m for m in c.t if any(s in its for s in m)]
                if not fs:
                    d = padd(c, t, -1)
                    if d.is_const():
                        if d.const() != 0: return None
                        continue
                    r = self.facts.decide_eq0(d)
                    if r is None: raise Undecided(beq0(d))
                    if not r: return None
                    continue
                if len(fs) == 1 and len(fs[0]) == 1 and c.t[fs[0]] in (1, -1):
                    s = fs[0][0]; a = c.t[fs[0]]
                    o = padd(c, Poly({fs[0]: a}), -1)
                    v = padd(t, o, -1)
                    env[s] = v if a == 1 else padd(Poly({}), v, -1)
                    ch = True
                else: rest.append((c, t))
            eqs = rest
        if eqs: raise AnalysisBroken("%s: cannot invert index map %r of kernel %s" % (L.where, cell, L.cls))
        return env

    def domain_ok(self, L, env):
        k = (id(L), tuple((s, p.key()) for s, p in sorted(env.items())))
        r = self.dommemo.get(k)
        if r is None: r = self.dommemo[k] = self._domain_ok(L, env)
        return r

    def _domain_ok(self, L, env):
        """iteration vector inside the launch range? True/False (raises Undecided); decided outside before anything is left undecided"""
        und = None; facts = self.facts
        sp = {s: (qn, rn, b) for s, qn, rn, b in L.splits}
        lin = []
        def upper(s, h):
            """s < h; for s = q*b + r with h a multiple of b this is q < h/b"""
            if s in sp:
                c = self.I.exact_div(h, sp[s][2])
                if c is not None: return upper(sp[s][0], c)
            return padd(padd(h, pc(-1)), psubst(self.I.norm(psym(s)), env), -1)
        def lower(s):
            if s in sp: return lower(sp[s][0])
            return psubst(self.I.norm(psym(s)), env)
        for s, qn, rn, b in L.splits: lin += [lower(rn), upper(rn, b)]
        for s, lo, hi in L.iters:
            if isinstance(lo, int) and lo == 0: lin.append(lower(s))
            else: lin.append(padd(psubst(self.I.norm(psym(s)), env), topoly(lo), -1))
        lin.sort(key=lambda q: max((len(m) for m in q.t), default=0))
        for q in lin:
            r = facts.decide_ge0(q)
            if r is False: return False
            if r is None and und is None: und = bge0(q)
        for s, lo, hi in L.iters:
            out = {}
            for g, h in sel_pieces(hi):
                q = upper(s, topoly(h))
                for F in facts.under(g):
                    r = F.decide_ge0(q)
                    out[r] = (g, q)
                    if r is not False and len(out) > 1: break
            if None in out or len(out) > 1:
                if und is not None: continue
                g, q = out[None] if None in out else out[False]
                for x in g:
                    if facts.decide(x) is None: und = x; break
                else: und = bge0(q)
            elif False in out: return False
        if und is not None: raise Undecided(und)
        return True

    def surely_false(self, b, en):
        """integer guard decided false by the facts (never raises, never consults values)"""
        if isinstance(b, bool): return not b
        k = ("sf", b.id, en[0])
        r = self.memo.get(k)
        if r is None: r = self.memo[k] = self._tri(b, en) is False
        return r

    def _tri(self, b, en):
        if isinstance(b, bool): return b
        if b.op == "not":
            r = self._tri(b.a[0], en); return None if r is None else not r
        if b.op in ("and", "or"):
            x = self._tri(b.a[0], en)
            if x is (b.op == "or"): return x
            y = self._tri(b.a[1], en)
            if y is (b.op == "or"): return y
            return x if x is y else None
        if b.op in ("ge0", "eq0"):
            p = self.sub(b.a[0], en)
            if isinstance(p, (int, Fraction)): return p >= 0 if b.op == "ge0" else p == 0
            return self.facts.decide_ge0(p) if b.op == "ge0" else self.facts.decide_eq0(p)
        return None

    def inverse_cells(self, L, alloc):
        c = getattr(L, "_cells", None)
        if c is None:
            c = {}
            for l, v in L.final.items(): c.setdefault(l[1], []).append((l[2], v))
            g = {}
            for eff in L.effects:
                if eff[0] == "write": g.setdefault((eff[1], eff[2]), []).append(eff)
            L._cells = c; L._guards = g
        return c.get(alloc, ())

    def written(self, L, e, alloc, idx):
        hit = []
        for cell, v in self.inverse_cells(L, alloc):
            env = self.solve(L, cell, idx)
            if env is None: continue
            free = [s for s, _, _ in L.iters if s not in env and not any(s == x[0] for x in L.splits)]
            en = self.env(env)
            if free: raise AnalysisBroken("%s: cell %s%r written by every value of %s" % (L.where, alloc, cell, free))
            gs = [eff[4] for eff in L._guards.get((alloc, cell), ()) if not any(self.surely_false(b, en) for b in eff[4])]
            if not gs or not self.domain_ok(L, env): continue
            if any(all(self.bval(b, en) for b in g) for g in gs): hit.append((v, en, cell))
        if not hit: return None
        if len(hit) > 1:
            raise Inconsistent("%s: cell %s%r written by %d iterations" % (L.where, alloc, idx, len(hit)))
        return hit[0][0], hit[0][1]

    def atomics(self, L, alloc, idx):
        out = []
        for eff in L.effects:
            if not eff[0].startswith("atomic") or eff[1] != alloc: continue
            env = self.solve(L, eff[2], idx)
            if env is None: continue
            en = self.env(env)
            if not self.domain_ok(L, env): continue
            if all(self.bval(b, en) for b in eff[4]): out.append((eff, en))
        return out


def pick_atom(a, f):
    while a.op in ("and", "or", "not"):
        for x in a.a:
            if not isinstance(x, bool) and f.decide(x) is None: a = x; break
        else: raise AnalysisBroken("undecided %r" % (a,))
    return a


def with_cases(facts, run, limit=64):
    """run(facts) with case splitting on undecided affine atoms; yields (facts, result) for every feasible region"""
    todo = [facts]; out = []
    while todo:
        f = todo.pop()
        if f.empty(): continue
        try:
            out.append((f, run(f)))
        except Undecided as u:
            a = pick_atom(u.atom, f)
            if len(out) + len(todo) > limit: raise AnalysisBroken("too many index regions; undecided %r" % (a,))
            if a.op == "ge0":
                todo.append(f.add(a.a[0])); todo.append(f.add(padd(pc(-1), a.a[0], -1)))
            elif a.op == "eq0":
                p = a.a[0]
                todo.append(f.add(p, padd(Poly({}), p, -1)))
                todo.append(f.add(padd(p, pc(-1)))); todo.append(f.add(padd(pc(-1), p, -1)))
            else: raise AnalysisBroken("undecided %r" % (a,))
    return out


class Unstable(Exception):
    """a sign could not be taken from the real model (too close to zero / square root of a negative value): the trial is discarded"""


decimal.getcontext().prec = 36
Z = Decimal(0); TINY = Decimal('1e-22')
def dec(f):
    f = Fraction(f)
    return Decimal(f.numerator) / Decimal(f.denominator)


def shash(*k):
    """small rational in [0,1) with 12-bit numerator and its residue"""
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=4).digest(), "big") % 4096


ROOTS = {}


class DenoR(Deno):
    """Same value numbering, but the sign of a residue is read from a real model carried along (value = (residue, real)).
    Equality is still decided on residues; the real model only selects jointly feasible branches."""
    def fgt(self, v):
        r, x, m = v
        if r == 0: return False
        if abs(x) <= m * TINY: raise Unstable("sign")
        return x > 0

    def _bval(self, b, env):
        if b.op == "fgt0": return self.fgt(self.val(b.a[0], env))
        if b.op == "feq0": return self.val(b.a[0], env)[0] == 0
        return Deno._bval(self, b, env)

    def const(self, f): return (frac(f), dec(f), abs(dec(f)))

    def _val(self, n, env):
        op = n.op
        if op == "c": return self.const(n.a[0])
        if op in "+-" and len(op) == 1:
            a = self.val(n.a[0], env); b = self.val(n.a[1], env)
            if op == "+": return ((a[0] + b[0]) % PR, a[1] + b[1], max(a[2], b[2], abs(a[1]), abs(b[1])))
            return ((a[0] - b[0]) % PR, a[1] - b[1], max(a[2], b[2], abs(a[1]), abs(b[1])))
        if op == "*":
            a = self.val(n.a[0], env); b = self.val(n.a[1], env)
            if a[0] == 0 or b[0] == 0: return (0, Z, Z)
            x = a[1] * b[1]
            if a[0] == b[0]: ROOTS[a[0] * a[0] % PR] = a[0] if a[1] >= 0 else PR - a[0]
            return (a[0] * b[0] % PR, x, max(abs(x), a[2] * abs(b[1]), b[2] * abs(a[1])))
        if op == "/":
            a = self.val(n.a[0], env); b = self.val(n.a[1], env)
            if b[0] == 0: raise Unstable("division by zero")
            x = a[1] / b[1]
            return (a[0] * inv(b[0]) % PR, x, max(abs(x), a[2] / abs(b[1]), abs(x) * b[2] / abs(b[1])))
        if op == "sel":
            return self.val(n.a[1], env) if self.bval(n.a[0], env) else self.val(n.a[2], env)
        if op == "ld":
            idx = tuple(i if isinstance(i, int) else self.sub(i, env) for i in n.a[1])
            return self.load(n.a[0], idx, n.a[2])
        if op == "fn":
            v = [self.val(x, env) for x in n.a[1:]]
            if n.a[0] == "sqrt":
                if v[0][0] == 0: return (0, Z, Z)
                if v[0][1] <= 0: raise Unstable("sqrt")
                s = v[0][1].sqrt()
                r = ROOTS.get(v[0][0])       # square of a known value: its non-negative root
                return (fsqrt(v[0][0]) if r is None else r, s, max(s, v[0][2] / s))
            r = hsh(self.seed, "fn", n.a[0], tuple(x[0] for x in v))
            return (r, 1 + Decimal(r % 4096) / 4096, Decimal(2))
        if op == "loopfn": return self.loopval(n, env)
        if op == "lv": return self.lvval(n, env)
        if op == "i2f":
            r = self.pval(self.sub(n.a[0], env), env)
            s = self.symreal(n.a[0], env)
            return (r, s, abs(s))
        if op == "sym":
            v = self.symval.get(n.a[0])
            if isinstance(v, tuple): return v
            f = Fraction(1 + shash(self.seed, "sym", n.a[0]), 4096)
            return self.const(f)
        if op == "reduced":
            return self.symval["<reduced>"]
        raise Unstable("no real model for " + op)

    # ---- loops whose trip count depends on the state are iterated on the model
    def lvval(self, n, env):
        if len(env) < 3 or (n.a[0], n.a[1]) not in env[2]: raise Unstable("loop variable outside its loop")
        return env[2][(n.a[0], n.a[1])]

    def loopval(self, n, env):
        lid = n.a[0]
        k = ("loop", lid, env[0])
        out = self.memo.get(k)
        if out is None: out = self.memo[k] = self.loopiter(lid, env)
        r = out.get(n.a[1])
        if r is None: raise Unstable("value of loop %s" % lid)
        return r

    def loopiter(self, lid, env, limit=200):
        cond, init, end, brk = self.I.loopdef[lid]
        if brk: raise Unstable("loop with break")
        ints = {}; fl = {}
        def ev(v, e):
            if isinstance(v, Node): return self.val(v, e)
            if isinstance(v, Fraction): return self.const(v)
            return None
        for k, v in enumerate(init):
            if isinstance(v, (int, Poly)) and not isinstance(v, bool): ints[k] = self.sub(v, env)
            else: fl[k] = ev(v, env)
        for it in range(limit):
            sub = dict(env[1]); lv = dict(env[2]) if len(env) > 2 else {}
            for k, v in ints.items(): sub["%s.%d" % (lid, k)] = topoly(v)
            for k, v in fl.items():
                if v is not None: lv[(lid, k)] = v
            self.nloop = getattr(self, "nloop", 0) + 1
            e = (("L", self.nloop), sub, lv)
            if not (cond if isinstance(cond, bool) else self.bval(cond, e)):
                return fl
            ni = {k: self.sub(end[k], e) for k in ints}
            nf = {k: ev(end[k], e) for k in fl}
            ints, fl = ni, nf
        raise Unstable("loop does not end")

    def pval(self, p, env=None):
        if isinstance(p, int): return p % PR
        v = 0
        for m, c in p.t.items():
            x = frac(c)
            for s in m: x = x * self.symval[s][0] % PR
            v += x
        return v % PR

    def symreal(self, p, env):
        p = self.sub(p, env)
        if isinstance(p, int): return Decimal(p)
        v = Z
        for m, c in p.t.items():
            x = dec(c)
            for s in m: x *= self.symval[s][1]
            v += x
        return v

    def base_leaf(self, alloc, idx):
        r = self.leaf(self, alloc, idx)
        if r is None: return self.const(Fraction(1 + shash(self.seed, "stale", alloc, pkey(idx)) % 4096, 4096))    # left-over contents: arbitrary
        return r

    def _load(self, alloc, idx, e):
        if e is None:
            self.usedcells.add((alloc, idx))
            return self.base_leaf(alloc, idx)
        ev = self.I.events[e]
        if ev[0] == "deep_copy":
            if not self.pcval(ev[2]): return self.load(alloc, idx, e)
            src = ev[1][1]
            if not isinstance(src, View):
                if isinstance(src, Node): return self.val(src, self.env({}))
                return self.const(src)
            return self.load(src.alloc, idx, e)
        L = ev[1]
        if not self.pcval(L.pc): return self.load(alloc, idx, e)
        w = self.written(L, e, alloc, idx)
        base = self.val(*w) if w is not None else self.load(alloc, idx, e)
        for eff, env in self.atomics(L, alloc, idx):
            if eff[0] != "atomic_add": raise AnalysisBroken("unsupported atomic %s" % eff[0])
            v = self.val(self.I.tofloat(eff[3]), env)
            base = ((base[0] + v[0]) % PR, base[1] + v[1], max(base[2], v[2]))
        return base


# ---- additive decomposition ------------------------------------------------------------------------------------------------
INTB = ("ge0", "eq0", "and", "or", "not", "bopq")


def int_only(b):
    if isinstance(b, bool): return True
    if b.op in ("fgt0", "feq0"): return False
    if b.op in ("and", "or", "not"): return all(int_only(x) for x in b.a)
    return True


def has_load(n, cache):
    r = cache.get(n.id)
    if r is None:
        r = n.op == "ld" or any(isinstance(x, Node) and has_load(x, cache) for x in n.a)
        cache[n.id] = r
    return r


class Terms:
    """additive decomposition of a cell value into (coefficient, node, environment) and base-leaf terms"""
    def __init__(self, D, expand):
        self.D = D; self.expand = set(expand); self.out = []; self.leaves = {}; self.hl = {}

    def cell(self, alloc, idx, epoch, coef=1):
        D = self.D
        w = D.writers.get(alloc); e = None
        for k in w or ():
            if k < epoch: e = k
        if e is None:
            k = (alloc, pkey(idx)); self.leaves[k] = (self.leaves.get(k, 0) + coef) % PR
            return
        ev = D.I.events[e]
        if ev[0] == "deep_copy":
            src = ev[1][1]
            if not D.pcval(ev[2]): return self.cell(alloc, idx, e, coef)
            if isinstance(src, View): return self.cell(src.alloc, idx, e, coef)
            v = src if isinstance(src, Node) else fconst(Fraction(src))
            return self.node(v, D.env({}), coef)
        L = ev[1]
        if not D.pcval(L.pc): return self.cell(alloc, idx, e, coef)
        w = D.written(L, e, alloc, idx)
        if w is not None: self.node(w[0], w[1], coef, L)
        else: self.cell(alloc, idx, e, coef)
        for eff, env in D.atomics(L, alloc, idx): self.node(D.I.tofloat(eff[3]), env, coef, L, eff)

    def scalar(self, n): return not has_load(n, self.hl)

    def node(self, n, env, coef, L=None, eff=None):
        D = self.D
        op = n.op
        if op == "+":
            self.node(n.a[0], env, coef, L, eff); self.node(n.a[1], env, coef, L, eff)
        elif op == "-":
            self.node(n.a[0], env, coef, L, eff); self.node(n.a[1], env, (-coef) % PR, L, eff)
        elif op == "*" and self.scalar(n.a[0]): self.node(n.a[1], env, coef * D.val(n.a[0], env) % PR, L, eff)
        elif op == "*" and self.scalar(n.a[1]): self.node(n.a[0], env, coef * D.val(n.a[1], env) % PR, L, eff)
        elif op == "/" and self.scalar(n.a[1]): self.node(n.a[0], env, coef * inv(D.val(n.a[1], env)) % PR, L, eff)
        elif op == "sel" and int_only(n.a[0]):
            self.node(n.a[1] if D.bval(n.a[0], env) else n.a[2], env, coef, L, eff)
        elif op == "ld" and n.a[0] in self.expand:
            idx = tuple(i if isinstance(i, int) else D.sub(i, env) for i in n.a[1])
            self.cell(n.a[0], idx, n.a[2], coef)
        else:
            if coef: self.out.append((coef, n, env, L, eff))

    def value(self, t, shift):
        """residue of a term translated by `shift` (dict index symbol -> int)"""
        coef, n, env, L, eff = t
        if shift:
            sub = {s: padd(psym(s), pc(o)) for s, o in shift.items()}
            env = self.D.env({k: psubst(v, sub) for k, v in env[1].items()})
        return coef * self.D.val(n, env) % PR

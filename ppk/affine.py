"""Linear integer facts and entailment (Fourier-Motzkin elimination over the rationals with integer tightening)."""
from fractions import Fraction
from math import gcd
from .dom import *


def _tight(t):
    """divide by gcd of the variable coefficients, floor the constant (integer tightening)"""
    g = 0
    for m, c in t.items():
        if m: g = gcd(g, int(c))
    if g > 1:
        c0 = t.get((), 0)
        t = {m: int(c) // g for m, c in t.items() if m}
        c0 = (c0 // g) if isinstance(c0, int) else int(c0 // g)
        if c0: t[()] = c0
    return t


def _int(p):
    l = 1
    for c in p.t.values():
        if isinstance(c, Fraction): l = l * c.denominator // gcd(l, c.denominator)
    return {m: int(c * l) for m, c in p.t.items()}


def infeasible(ineqs, limit=4000):
    """True when the conjunction of linear p>=0 has no integer solution (sound: True only if proven)"""
    cur = set()
    for p in ineqs:
        t = _tight(_int(p) if isinstance(p, Poly) else p)
        if not any(t.keys()) :
            if t.get((), 0) < 0: return True
            continue
        cur.add(frozenset(t.items()))
    while True:
        vs = {}
        for f in cur:
            for m, c in f:
                if m:
                    a = vs.setdefault(m, [0, 0]); a[0 if c > 0 else 1] += 1
        if not vs: return False
        # dominated constraints: same variable part, keep smallest constant
        best = {}
        for f in cur:
            d = dict(f); c0 = d.pop((), 0); k = frozenset(d.items())
            if k not in best or c0 < best[k]: best[k] = c0
        cur = set()
        for k, c0 in best.items():
            # contradiction with the opposite constraint
            o = frozenset((m, -c) for m, c in k)
            if o in best and best[o] + c0 < 0: return True
            d = dict(k)
            if c0: d[()] = c0
            cur.add(frozenset(d.items()))
        v = min(vs, key=lambda m: vs[m][0] * vs[m][1] - vs[m][0] - vs[m][1])
        pos = []; neg = []; rest = set()
        for f in cur:
            d = dict(f); c = d.get(v, 0)
            if c > 0: pos.append((d, c))
            elif c < 0: neg.append((d, -c))
            else: rest.add(f)
        for d1, c1 in pos:
            for d2, c2 in neg:
                t = {}
                for m, c in d1.items():
                    if m != v: t[m] = t.get(m, 0) + c * c2
                for m, c in d2.items():
                    if m != v: t[m] = t.get(m, 0) + c * c1
                t = {m: c for m, c in t.items() if c}
                t = _tight(t)
                if not any(t.keys()):
                    if t.get((), 0) < 0: return True
                    continue
                rest.add(frozenset(t.items()))
        cur = rest
        if len(cur) > limit: return False


def dnf(g, sense):
    """list of conjunctions (lists of p >= 0)"""
    if isinstance(g, bool): return [[]] if g == sense else []
    if g.op == "not": return dnf(g.a[0], not sense)
    if g.op in ("and", "or"):
        if (g.op == "and") == sense:
            out = [[]]
            for x in g.a: out = [c + d for c in out for d in dnf(x, sense)]
            return out
        return [c for x in g.a for c in dnf(x, sense)]
    p = g.a[0]
    if g.op == "ge0": return [[p]] if sense else [[padd(pc(-1), p, -1)]]
    if g.op == "eq0":
        n = padd(Poly({}), p, -1)
        return [[p, n]] if sense else [[padd(p, pc(-1))], [padd(n, pc(-1))]]
    return [[]]         # not an index condition: no information


class Facts:
    def __init__(self, ps=()):
        self.ps = tuple(ps); self.cache = {}
        self.keys = set(p.key() for p in self.ps)
        self._inf = None; self._under = {}

    def add(self, *ps): return Facts(self.ps + tuple(p for p in ps if p.key() not in self.keys))

    def under(self, guards):
        """the non-empty fact sets that cover these facts and the guards (disjunctive normal form)"""
        k = tuple(g.id if hasattr(g, "id") else g for g in guards)
        r = self._under.get(k)
        if r is None:
            r = [self]
            for g in guards:
                r = [F if not c else F.add(*c) for F in r for c in dnf(g, True)]
                r = [F for F in r if not F.empty()]
            self._under[k] = r
        return r

    def empty(self):
        if self._inf is None: self._inf = infeasible(self.ps)
        return self._inf

    def relevant(self, p):
        """facts connected to p through shared symbols (monomials)"""
        ms = set(m for m in p.t if m); out = []; todo = list(self.ps); ch = True
        while ch:
            ch = False; nt = []
            for q in todo:
                qm = [m for m in q.t if m]
                if any(m in ms for m in qm):
                    out.append(q); ms.update(qm); ch = True
                else: nt.append(q)
            todo = nt
        return out

    def nonneg(self, p):
        """p >= 0 for all points satisfying the facts"""
        if p.is_const(): return p.const() >= 0
        k = p.key()
        r = self.cache.get(k)
        if r is None:
            r = k in self.keys or infeasible(self.relevant(p) + [padd(pc(-1), p, -1)])
            if not r and any(len(m) > 1 for m in p.t): r = self.nonlinear(p)
            self.cache[k] = r
        return r

    def nonlinear(self, p):
        """p >= 0 by eliminating symbols through their bounds (s = bound + slack, slack >= 0) until every coefficient is >= 0"""
        lin = [q for q in self.ps if all(len(m) <= 1 for m in q.t)]
        opts = {}
        for q in lin:
            for m, c in q.t.items():
                if len(m) == 1 and c in (1, -1):
                    e = padd(Poly({}), padd(q, Poly({m: c}), -1), -c)     # s >= e (c=1) or s <= e (c=-1)
                    opts.setdefault(m[0], []).append((c, e))
        budget = [400]
        def rec(p, done):
            if all(c >= 0 for c in p.t.values()): return all(s.startswith("~") for s in p.syms()) or all(s.startswith("~") or s in pos for s in p.syms())
            if budget[0] <= 0: return False
            ss = [s for s in p.syms() if not s.startswith("~")]
            if not ss: return False
            ss.sort(key=lambda s: (s.startswith("cfg:"), len(opts.get(s, ())), s))
            for s in ss:
                cs = [c for m, c in p.t.items() if s in m]
                if s.startswith("cfg:"): want = (1, -1)
                elif all(c >= 0 for c in cs): want = (1,)
                elif all(c <= 0 for c in cs): want = (-1,)
                else: want = (1, -1)
                for c, e in opts.get(s, ()):
                    if c not in want or any(x in done for x in e.syms()): continue
                    budget[0] -= 1
                    sl = psym("~%s%d" % (s, len(done)))
                    if rec(psubst(p, {s: padd(e, sl, c)}), done | {s}): return True
                if not s.startswith("cfg:"): return False
            return False
        pos = set(s for s, o in opts.items() if any(c == 1 and e.is_const() and e.const() >= 0 for c, e in o))
        return rec(p, frozenset())

    def decide_ge0(self, p):
        if self.nonneg(p): return True
        if self.nonneg(padd(pc(-1), p, -1)): return False
        return None

    def decide_eq0(self, p):
        a = self.nonneg(p); b = self.nonneg(padd(Poly({}), p, -1))
        if a and b: return True
        if self.nonneg(padd(p, pc(-1))) or self.nonneg(padd(pc(-1), p, -1)): return False
        return None

    def decide(self, atom):
        """atom: bool or Node ge0/eq0/not/and/or"""
        if isinstance(atom, bool): return atom
        op = atom.op
        if op == "ge0": return self.decide_ge0(atom.a[0])
        if op == "eq0": return self.decide_eq0(atom.a[0])
        if op == "not":
            r = self.decide(atom.a[0]); return None if r is None else not r
        if op == "and":
            a = self.decide(atom.a[0]); b = self.decide(atom.a[1])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if op == "or":
            a = self.decide(atom.a[0]); b = self.decide(atom.a[1])
            if a or b: return True
            if a is False and b is False: return False
            return None
        return None

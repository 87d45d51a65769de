"""Library containers with known content: values
Lib("kvec", (root, n))      elements at root + (i,)
Lib("kmap", (root, keys))   elements at root + (("key", k), "first"/"second")
Lib("kpair", (root,))       root + ("first",), root + ("second",)
Lib("ktup", (root, n))      root + (i,)
Lib("kit", (root, i, n))    iterator into a kvec / array
Lib("kmit", (root, k))      iterator into a kmap, k None = end
Lib("kopt", (root,))        engaged optional / owning pointer to a library value, value at root"""
from .dom import *

NI = NotImplemented
MAPS = ("std::map<", "std::unordered_map<")
VECS = ("std::vector<",)
CONT = {"kvec", "kmap", "kpair", "ktup", "kopt"}


def kind(v): return v.ty if isinstance(v, Lib) and v.ty in ("kvec", "kmap", "kpair", "ktup", "kit", "kmit", "kopt") else None


def rv(I, st, v):
    n = 0
    while isinstance(v, Ref) and v.loc in st.mem and n < 3: v = st.mem[v.loc]; n += 1
    return v


def put(I, st, loc, v):
    """copy value v (leaf, object or container) to loc"""
    if isinstance(v, Ref) and v.loc not in st.mem:
        n = len(v.loc)
        for l in [l for l in st.mem if len(l) > n and l[:n] == v.loc]:
            st.mem[loc + l[n:]] = st.mem[l]; st.log.add(loc + l[n:])
        return
    v = clone(I, st, rv(I, st, v))
    st.mem[loc] = v; st.log.add(loc)


def clone(I, st, v):
    if kind(v) in CONT:
        r = I.new_root("stl"); o = v.args[0]; n = len(o)
        for l in [l for l in st.mem if l[:n] == o]:
            x = st.mem[l]; x = clone(I, st, x) if kind(x) in CONT else x
            st.mem[r + l[n:]] = x; st.log.add(r + l[n:])
        return Lib(v.ty, (r,) + tuple(v.args[1:]))
    return v


def items_of(I, st, v):
    """values/refs of a list initialiser or known array, or None"""
    if isinstance(v, Lib) and v.ty == "ilist": return list(v.args)
    if kind(v) == "kvec": return [Ref(v.args[0] + (i,)) for i in range(v.args[1])]
    if isinstance(v, Ref):
        loc = v.loc[:-1] if v.loc and v.loc[-1] == "[]" else v.loc
        k = sorted({l[len(loc)] for l in st.mem if len(l) > len(loc) and l[:len(loc)] == loc and isinstance(l[len(loc)], int)})
        if k and k == list(range(len(k))): return [Ref(loc + (i,)) for i in k]
    return None


def pair_of(I, st, v):
    v2 = rv(I, st, v)
    if kind(v2) == "kpair": return Ref(v2.args[0] + ("first",)), Ref(v2.args[0] + ("second",))
    if isinstance(v2, Lib) and v2.ty.startswith("std::pair<") and len(v2.args) == 2: return v2.args
    return None


def leafval(I, st, v): return rv(I, st, v)


def heapvec(I, st, fr, rn, n, line):
    """std::vector of reals of a size not known as a number: a heap array"""
    if not I.opt.get("heapviews") or not rn.startswith(VECS) or rn[len("std::vector<"):].split(",")[0].split(">")[0] not in ("double", "float"): return None
    if isinstance(n, bool) or not isinstance(n, (int, Poly, Sel)): return None
    r = I.new_root("heap:vec"); I.host_event("new[]", st, fr, line, ("double", n, r))
    I.heapviews[r] = a = "heap%d" % len(I.heapviews); I.heapalloc.add(a)
    return Lib("hvec", (r, n))


def construct(I, st, fr, rn, args, line):
    if rn.startswith(("std::pair<",)) and len(args) == 2 and not rn.startswith("std::pair<const char *"):
        r = I.new_root("pair")
        for n, a in zip(("first", "second"), args): put(I, st, r + (n,), a)
        return Lib("kpair", (r,))
    args = [a for a in args if not (isinstance(a, Lib) and a.ty.startswith(("std::allocator<", "std::less<", "std::hash<", "std::equal_to<")))]
    if rn.startswith("std::tuple<") and args and not kind(rv(I, st, args[0])) == "ktup":
        r = I.new_root("tup")
        for i, a in enumerate(args): put(I, st, r + (i,), a)
        return Lib("ktup", (r, len(args)))
    if rn.startswith(VECS):
        if not args:
            return NI
        it = items_of(I, st, args[0]) if len(args) == 1 else None
        if it is not None:
            r = I.new_root("vec")
            for i, a in enumerate(it): put(I, st, r + (i,), a)
            return Lib("kvec", (r, len(it)))
        if isinstance(args[0], int) and not isinstance(args[0], bool) and 0 <= args[0] <= 64 and len(args) in (1, 2):
            r = I.new_root("vec"); en = rn[len("std::vector<"):].split(",")[0]
            z = args[1] if len(args) == 2 else (0 if en in ("int", "long", "unsigned long", "unsigned int") else False if en == "bool" else ZERO if en in ("double", "float") else None)
            if z is None: return NI
            if not I.opt.get("heapviews"):
                for i in range(args[0]): put(I, st, r + (i,), z)
                return Lib("kvec", (r, args[0]))
        if len(args) in (1, 2):
            h = heapvec(I, st, fr, rn, args[0], line)
            if h is not None: return h
        return NI
    if rn.startswith(MAPS) and len(args) >= 1:
        it = items_of(I, st, args[0])
        if it is None: return NI
        ps = [pair_of(I, st, a) for a in it]
        if any(p is None for p in ps): return NI
        r = I.new_root("map"); keys = []
        for k, v in ps:
            k = rv(I, st, k)
            if not isinstance(k, (str, int)): return NI
            if k in keys: continue
            keys.append(k)
            put(I, st, r + (("key", k), "first"), k); put(I, st, r + (("key", k), "second"), v)
        return Lib("kmap", (r, tuple(keys)))
    if rn.startswith("std::function<") and len(args) == 1 and isinstance(rv(I, st, args[0]), (Clos, FRef)): return rv(I, st, args[0])
    return NI


def key_choice(I, st, fr, v, k, line):
    """index of key k in the map: known key, None when absent, or NI when undecidable"""
    if isinstance(k, (str, int)) and not isinstance(k, bool): return k if k in v.args[1] else None
    return NI


def find_iter(I, st, fr, v, k, line):
    c = key_choice(I, st, fr, v, k, line)
    if c is not NI: return Lib("kmit", (v.args[0], c))
    r = Lib("kmit", (v.args[0], None))
    for q in reversed(v.args[1]): r = Sel(I.compare("==", k, q, fr, line), Lib("kmit", (v.args[0], q)), r)
    return r


def method(I, st, fr, qn, name, ov, oloc, vals, line, rt, obj):
    k = kind(ov)
    if k == "kmap":
        root, keys = ov.args
        if name == "find": return find_iter(I, st, fr, ov, vals[0], line)
        if name in ("end", "cend"): return Lib("kmit", (root, None))
        if name in ("count", "contains"):
            c = key_choice(I, st, fr, ov, vals[0], line)
            if c is NI:
                r = False
                for q in keys: r = bor(r, I.compare("==", vals[0], q, fr, line))
                return r if name == "contains" else Sel(r, 1, 0)
            return (c is not None) if name == "contains" else int(c is not None)
        if name == "size": return len(keys)
        if name == "empty": return not keys
        if name == "at":
            c = key_choice(I, st, fr, ov, vals[0], line)
            if c is None: I.host_event("throw", st, fr, line, ("out_of_range",)); st.dead = True; return None
            if c is not NI: return Ref(root + (("key", c), "second"))
            r = None
            for q in reversed(keys):
                x = Ref(root + (("key", q), "second"))
                r = x if r is None else Sel(I.compare("==", vals[0], q, fr, line), x, r)
            return r if r is not None else NI
        if name in ("emplace", "insert", "insert_or_assign") and oloc is not None:
            kv = vals if len(vals) == 2 else pair_of(I, st, vals[0])
            if kv is None: return NI
            q = rv(I, st, kv[0])
            if not isinstance(q, (str, int)): return NI
            if q in keys and name != "insert_or_assign": return None
            put(I, st, root + (("key", q), "first"), q); put(I, st, root + (("key", q), "second"), kv[1])
            st.mem[oloc] = Lib("kmap", (root, keys + ((q,) if q not in keys else ()))); st.log.add(oloc)
            return None
    if name in ("resize", "assign") and oloc is not None and vals and qn.startswith(VECS) and k is None:
        h = heapvec(I, st, fr, qn, vals[0], line)
        if h is not None: st.mem[oloc] = h; st.log.add(oloc); return None
    if isinstance(ov, Lib) and ov.ty == "hvec":
        if name == "size": return ov.args[1]
        if name == "data": return Ref(ov.args[0] + ("[]",))
        if name == "at" and vals: return I.ptradd_ref(Ref(ov.args[0] + ("[]",)), I.toint(vals[0]))
        if name == "reserve": return None
    if k == "kvec":
        root, n = ov.args
        if name == "size": return n
        if name == "empty": return n == 0
        if name == "at" and isinstance(vals[0], int): return Ref(root + (vals[0],)) if 0 <= vals[0] < n else NI
        if name == "front": return Ref(root + (0,))
        if name == "back": return Ref(root + (n - 1,))
        if name == "data": return Ref(root + (0,))
        if name in ("begin", "cbegin"): return Lib("kit", (root, 0, n))
        if name in ("end", "cend"): return Lib("kit", (root, n, n))
        if name in ("push_back", "emplace_back") and oloc is not None and len(vals) == 1:
            put(I, st, root + (n,), vals[0]); st.mem[oloc] = Lib("kvec", (root, n + 1)); st.log.add(oloc); return None
        if name == "reserve": return None
    if k == "kopt":
        if name in ("value", "value_or", "get"): return Ref(ov.args[0])
        if name in ("has_value", "operator bool"): return True
    if isinstance(ov, str) and name == "append" and vals and isinstance(vals[0], str) and oloc is not None:
        st.mem[oloc] = ov + vals[0]; st.log.add(oloc); return Ref(oloc)
    # arrays
    if "array<" in qn or qn.startswith(("Kokkos::Array", "std::array")):
        t = I.strip(I.expr_type(fr, obj)) if obj is not None else None
        if oloc is not None:
            ar = arr_len(I, st, fr, qn, oloc, t)
            if ar is not None:
                n = ar
                if name in ("size", "max_size"): return n
                if name == "empty": return n == 0
                if name == "fill":
                    for i in range(n): put(I, st, oloc + (i,), vals[0])
                    return None
                if name in ("begin", "cbegin"): return Lib("kit", (oloc, 0, n))
                if name in ("end", "cend"): return Lib("kit", (oloc, n, n))
                if name == "data": return Ref(oloc + (0,))
                if name == "front": return Ref(oloc + (0,))
                if name == "back": return Ref(oloc + (n - 1,))
                if name == "at" and isinstance(vals[0], int) and 0 <= vals[0] < n: return Ref(oloc + (vals[0],))
    return NI


def arr_len(I, st, fr, qn, loc, t):
    if t is not None and t["k"] == "rec" and I.is_karray(t["r"]):
        q = I.karr(t)
        return q[1] if q else None
    k = sorted({l[len(loc)] for l in st.mem if len(l) > len(loc) and l[:len(loc)] == loc and isinstance(l[len(loc)], int)})
    if k and k == list(range(len(k))): return len(k)
    return None


def oper(I, st, fr, op, vals, args, rt, line):
    a = vals[0]; k = kind(a)
    if isinstance(a, Sel) and op in ("->", "*") and all(kind(x) == "kmit" for _, x in sel_pieces(a)): return sel_map(a, lambda x: Ref(x.args[0] + (("key", x.args[1]),)) if x.args[1] is not None else None)
    if op in ("==", "!=") and len(vals) == 2 and (k in ("kit", "kmit") or isinstance(a, Sel) or isinstance(vals[1], Sel)):
        ps = [[x for x in sel_pieces(v)] if isinstance(v, Sel) else [(True, v)] for v in vals]
        if all(kind(x) in ("kit", "kmit") for p in ps for _, x in p):
            r = False
            for c1, x in ps[0]:
                for c2, y in ps[1]:
                    if x.args[:2] == y.args[:2]: r = bor(r, band(cj(c1), cj(c2)))
            return r if op == "==" else bnot(r)
    if k == "kmit" and op in ("->", "*"):
        return Ref(a.args[0] + (("key", a.args[1]),)) if a.args[1] is not None else NI
    if k == "kit":
        if op in ("*", "->"): return Ref(a.args[0] + (a.args[1],))
        if op in ("++", "--"):
            n = Lib("kit", (a.args[0], a.args[1] + (1 if op == "++" else -1), a.args[2]))
            l = I.lv(st, fr, args[0]); st.mem[l] = n; st.log.add(l)
            return a if len(args) > 1 else n
        if op in ("+", "-") and len(vals) == 2 and isinstance(vals[1], int): return Lib("kit", (a.args[0], a.args[1] + (vals[1] if op == "+" else -vals[1]), a.args[2]))
        if op == "-" and kind(vals[1]) == "kit" and vals[1].args[0] == a.args[0]: return a.args[1] - vals[1].args[1]
        if op == "<" and kind(vals[1]) == "kit": return a.args[1] < vals[1].args[1]
    if isinstance(a, Lib) and a.ty == "hvec" and op == "[]": return I.ptradd_ref(Ref(a.args[0] + ("[]",)), I.toint(vals[1]))
    if k == "kvec" and op == "[]":
        i = I.toint(vals[1])
        return Ref(a.args[0] + (i,))
    if k == "kmap" and op == "[]":
        c = key_choice(I, st, fr, a, vals[1], line)
        if c is None or c is NI: return NI
        return Ref(a.args[0] + (("key", c), "second"))
    if k == "kopt" and op in ("*", "->"): return Ref(a.args[0])
    return NI


def cj(c):
    if isinstance(c, (list, tuple)):
        b = True
        for x in c: b = band(b, x)
        return b
    return c


def sel_map(v, f):
    if isinstance(v, Sel):
        a, b = sel_map(v.a, f), sel_map(v.b, f)
        if a is None: return b
        if b is None: return a
        return Sel(v.c, a, b)
    return f(v)


def call(I, st, fr, qn, name, args, line, rt, targs):
    """free functions of the library over known containers"""
    if qn.startswith("Kokkos::Array<") and name in ("size", "max_size") and not args:
        import re
        m = re.search(r",\s*(\d+)(?:UL|ul|L|l)?\s*(?:,[^<>]*)?>::(?:max_)?size$", qn)
        return int(m.group(1)) if m else NI
    if not qn.startswith("std::"): return NI
    if name in ("min", "max") and len(args) == 1:
        it = items_of(I, st, I.ev(st, fr, args[0]))
        if not it: return NI
        vs = [rv(I, st, x) for x in it]; r = vs[0]
        for x in vs[1:]:
            r = I.math(name, [r, x], rt if rt["k"] != "ref" else {"k": "int" if isinstance(x, (int, Poly)) else "float", "s": ""})
            if r is NI: return NI
        return r
    if name in ("make_pair", "pair") and len(args) == 2:
        r = I.new_root("pair")
        for n, a in zip(("first", "second"), args): put(I, st, r + (n,), I.val(st, fr, a, line))
        return Lib("kpair", (r,))
    if name in ("make_tuple", "forward_as_tuple") and args:
        r = I.new_root("tup")
        for i, a in enumerate(args): put(I, st, r + (i,), I.val(st, fr, a, line))
        return Lib("ktup", (r, len(args)))
    if name == "tie": return Lib("ktie", tuple(Ref(I.lv(st, fr, a)) for a in args))
    if name == "get" and len(args) == 1:
        v = I.ev(st, fr, args[0])
        i = targs[0] if targs else None
        try: i = int(str(i).rstrip("ULul"))
        except (TypeError, ValueError): i = None
        x = rv(I, st, v)
        if i is not None and kind(x) == "kpair": return Ref(x.args[0] + (("first", "second")[i],))
        if i is not None and kind(x) == "ktup": return Ref(x.args[0] + (i,))
        if i is not None and isinstance(v, Ref) and any(l[:len(v.loc)] == v.loc and len(l) > len(v.loc) and isinstance(l[len(v.loc)], int) for l in st.mem): return Ref(v.loc + (i,))
        return NI
    if name in ("begin", "cbegin", "end", "cend", "size") and len(args) == 1:
        v = I.ev(st, fr, args[0]); x = rv(I, st, v)
        it = items_of(I, st, x if kind(x) else v)
        if it is None: return NI
        root = it[0].loc[:-1]
        return len(it) if name == "size" else Lib("kit", (root, 0 if "begin" in name else len(it), len(it)))
    if name in ("copy", "copy_n", "fill", "fill_n", "accumulate", "any_of", "all_of", "none_of", "for_each", "find", "max_element", "min_element", "transform", "count"):
        vs = [I.ev(st, fr, a) for a in args]
        its = [asit(I, st, v) for v in vs[:2]]
        if its[0] is None: return NI
        if name in ("copy_n", "fill_n"):
            n = rv(I, st, vs[1])
            if not isinstance(n, int): return NI
            rng = [its[0].args[0] + (its[0].args[1] + q,) for q in range(n)]
        else:
            if its[1] is None or its[0].args[0] != its[1].args[0]: return NI
            rng = [its[0].args[0] + (q,) for q in range(its[0].args[1], its[1].args[1])]
        if len(rng) > 256: return NI
        if name in ("copy", "copy_n"):
            d = asit(I, st, vs[2])
            if d is None: return NI
            for q, l in enumerate(rng): put(I, st, d.args[0] + (d.args[1] + q,), Ref(l))
            return Lib("kit", (d.args[0], d.args[1] + len(rng), d.args[2]))
        if name in ("fill", "fill_n"):
            for l in rng: put(I, st, l, vs[2])
            return None
        def app(c, *a):
            c = rv(I, st, c)
            if not isinstance(c, Clos): raise AnalysisNo
            return I.call_closure(st, fr, c, None, line, argvals=list(a))
        try:
            if name == "accumulate":
                r = rv(I, st, vs[2])
                for l in rng:
                    x = st.mem.get(l)
                    r = app(vs[3], r, x) if len(vs) > 3 else (fadd(I.tofloat(r), I.tofloat(x)) if isinstance(r, Node) else I.iop("+", r, x, fr, line))
                return r
            if name in ("any_of", "all_of", "none_of"):
                r = name == "all_of"
                for l in rng:
                    b = I.tobool(app(vs[2], st.mem.get(l)))
                    r = band(r, b) if name == "all_of" else bor(r, b)
                return bnot(r) if name == "none_of" else r
            if name == "for_each":
                for l in rng: app(vs[2], Ref(l) if l not in st.mem else st.mem[l])
                return None
            if name == "find":
                r = Lib("kit", (its[0].args[0], its[1].args[1], its[0].args[2]))
                for l in reversed(rng):
                    c = I.compare("==", st.mem.get(l), rv(I, st, vs[2]), fr, line); x = Lib("kit", (l[:-1], l[-1], its[0].args[2]))
                    r = x if c is True else r if c is False else Sel(c, x, r)
                return r
        except AnalysisNo: return NI
    return NI


class AnalysisNo(Exception): pass


def asit(I, st, v):
    x = rv(I, st, v)
    if kind(x) == "kit": return x
    if kind(v) == "kit": return v
    if isinstance(v, Ref):
        l = v.loc
        if l and l[-1] == "[]": return Lib("kit", (l[:-1], 0, 0))
        if l and isinstance(l[-1], int): return Lib("kit", (l[:-1], l[-1], 0))
        if any(q[:len(l)] == l and len(q) > len(l) and isinstance(q[len(l)], int) for q in st.mem): return Lib("kit", (l, 0, 0))
    return None

"""Streams of the C++ library: what is written to a file, in order (kept as events), and the text built in string streams."""
from .dom import *

CLS = ("std::basic_fstream<", "std::basic_ofstream<", "std::basic_ostringstream<", "std::basic_stringstream<", "std::__cxx11::basic_ostringstream<", "std::__cxx11::basic_stringstream<",
       "basic_fstream<", "basic_ofstream<", "basic_ostringstream<", "basic_stringstream<")
NI = NotImplemented


def on(I): return I.opt.get("streams") == 2
def is_cls(rn): return rn.startswith(CLS)


def new(I, st, rn, args, fr, line):
    r = I.new_root("strm")
    st.mem[r + ("fmt",)] = ()
    st.log.add(r + ("fmt",))
    text = "stringstream" in rn[:40]
    if text: st.mem[r + ("buf",)] = ""; st.log.add(r + ("buf",))
    s = Lib("kstrm", (r, text))
    if args and not text: emit(I, st, fr, line, s, ("open", args[0]))
    elif args and isinstance(args[0], str) and text: st.mem[r + ("buf",)] = args[0]
    return s


def emit(I, st, fr, line, s, item):
    root, text = s.args
    if text:
        if item[0] == "raw": raise_no(I, fr, line, "raw data in a string stream")
        x = item[1] if item[0] == "text" else Lib("fmt", (item[1], item[2]))
        st.mem[root + ("buf",)] = I.cat(st.mem.get(root + ("buf",), ""), x); st.log.add(root + ("buf",))
        return
    I.host_event("out", st, fr, line, (root,) + item)


def raise_no(I, fr, line, m):
    from .ir import AnalysisBroken
    raise AnalysisBroken("%s: %s" % (I.where(fr, line), m))


def setf(I, st, s, k, v):
    root = s.args[0]
    f = dict(st.mem.get(root + ("fmt",), ())); f[k] = v
    st.mem[root + ("fmt",)] = tuple(sorted(f.items())); st.log.add(root + ("fmt",))


def shl(I, st, fr, s, a, ast, line):
    """s << a"""
    if isinstance(a, Sel):
        if not all(isinstance(x, str) for x in leaves(a)): pass
    if isinstance(a, FRef) or isinstance(a, Opq) and str(a.key).startswith("fn:"):
        n = (a.name if isinstance(a, FRef) else str(a.key)).split("::")[-1]
        if n == "endl": emit(I, st, fr, line, s, ("text", "\n")); return s
        if n in ("flush", "ends"): return s
        setf(I, st, s, n, True); return s
    if isinstance(a, Lib) and a.ty == "manip": setf(I, st, s, a.args[0], a.args[1]); return s
    root = s.args[0]; fmt = st.mem.get(root + ("fmt",), ())
    if isinstance(a, bool): a = int(a)
    if isinstance(a, int) and len(ast) > 3 and ast[3] == "c": a = chr(a)
    if isinstance(a, Lib) and a.ty == "cat" and not dict(fmt).get("width"):
        for x in a.args:
            if isinstance(x, str): emit(I, st, fr, line, s, ("text", x))
            else: emit(I, st, fr, line, s, ("val", x, ()))
        return s
    if isinstance(a, str) and not dict(fmt).get("width"): emit(I, st, fr, line, s, ("text", a))
    else: emit(I, st, fr, line, s, ("val", a, fmt))
    if dict(fmt).get("width"): setf(I, st, s, "width", 0)
    return s


def leaves(v):
    if isinstance(v, Sel): return leaves(v.a) + leaves(v.b)
    return [v]


def method(I, st, fr, s, name, vals, ast, line):
    root, text = s.args
    if name == "open": emit(I, st, fr, line, s, ("open", vals[0])); return None
    if name == "close": emit(I, st, fr, line, s, ("close",)); return None
    if name in ("width", "precision"):
        old = dict(st.mem.get(root + ("fmt",), ())).get(name, 0 if name == "width" else 6)
        if vals: setf(I, st, s, name, vals[0])
        return old
    if name == "fill":
        if vals: setf(I, st, s, "fill", chr(vals[0]) if isinstance(vals[0], int) else vals[0])
        return None
    if name == "write":
        emit(I, st, fr, line, s, ("raw", vals[0], vals[1])); return s
    if name == "put":
        emit(I, st, fr, line, s, ("text", chr(vals[0]) if isinstance(vals[0], int) else vals[0])); return s
    if name == "str" and text:
        if vals: st.mem[root + ("buf",)] = vals[0]; st.log.add(root + ("buf",)); return None
        return st.mem.get(root + ("buf",), "")
    if name in ("is_open", "good", "operator bool"): return True
    if name in ("fail", "bad", "eof", "operator!"): return False
    if name in ("flush", "clear", "setf", "unsetf", "imbue"): return None if name != "flush" else s
    return NI

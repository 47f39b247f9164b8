"""Generic-element arrays: arrays of symbolic length, represented by the term of their element at position #i.

A boolean mask of a particle type is such an array; a selection through a mask keeps the predicate with it.
"""
from . import terms as tm
from .terms import Term, T, sym
from . import interp as ip
from .interp import PyFunc, Ext, Inst, AnalysisError
from .narr import NInterp, NA, mk, err, chained, NP, dtname

POS = sym("#i", "int")


class GA:
    """element at position #i; sel: predicate of the positions kept (None: all 0..size)"""
    __slots__ = ("elem", "sel", "size", "dtype", "label", "akey")
    n = [0]

    def __init__(self, elem, size, sel=None, dtype="bool", label=None):
        self.elem, self.size, self.sel, self.dtype, self.label = elem, size, sel, dtype, label
        GA.n[0] += 1
        self.akey = "GA%d" % GA.n[0]

    def snap(self):
        return GA(self.elem, self.size, self.sel, self.dtype, self.label)

    def show(self):
        return "array(#i -> %s%s)" % (tm.show(self.elem), "" if self.sel is None else " where %s" % tm.show(self.sel))


class Idx:
    """the ascending positions where a predicate holds"""

    def __init__(self, pred, total):
        self.pred, self.total = pred, total
        GA.n[0] += 1
        self.akey = "Idx%d" % GA.n[0]

    def show(self):
        return "positions(%s)" % tm.show(self.pred)


class Ranges:
    """row ranges covering exactly the positions where a predicate holds"""

    def __init__(self, pred, total):
        self.pred, self.total = pred, total
        GA.n[0] += 1
        self.akey = "Ranges%d" % GA.n[0]

    def show(self):
        return "ranges(%s)" % tm.show(self.pred)


class AnyRange:
    """an arbitrary one of those ranges"""

    def __init__(self, of):
        self.of = of
        self.akey = of.akey + "[]"

    def show(self):
        return "range of " + self.of.show()


class Edge:
    def __init__(self, of, end):
        self.of, self.end = of, end
        self.akey = of.akey + (".stop" if end else ".start")

    def show(self):
        return self.akey


def count(pred):
    return 0 if pred is False else T("count", pred)


def between(a, b):
    c = []
    if a is not None and a != 0:
        c.append(tm.ge0(tm.sub(POS, a)))
    if b is not None:
        c.append(tm.gt0(tm.sub(b, POS)))
    return tm.land(*c) if c else True


def land(*a):
    a = [x for x in a if x is not True]
    return tm.land(*a) if a else True


class GInterp(NInterp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        for name, f in GNP.items():
            self.models["numpy." + name] = chained(f, self.models.get("numpy." + name))

    def tonp(self, v, deep=True):
        if isinstance(v, (GA, Idx, Ranges, AnyRange, Edge)):
            return None
        return super().tonp(v, deep)

    def where_of(self, i):
        """the predicate selected by an index"""
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, tuple) and len(i) == 2 and i[1] is Ellipsis:
            i = i[0]
        if i is Ellipsis:
            return True
        if isinstance(i, slice):
            i = T("slice", i.start, i.stop, i.step)
        if isinstance(i, Term) and i.op == "slice":
            a, b, s = i.args
            if s not in (None, 1):
                return None
            if isinstance(a, Edge) or isinstance(b, Edge):
                if isinstance(a, Edge) and isinstance(b, Edge) and a.of is b.of and (a.end, b.end) == (False, True):
                    return a.of.pred
                return None
            return between(a, b)
        if isinstance(i, GA):
            return i.elem if i.dtype == "bool" and i.sel is None else None
        if isinstance(i, Idx):
            return i.pred
        x = NInterp.tonp(self, i)
        if x is not None and x.dtype != "bool" and len(x.shape) <= 1:
            return tm.lor(*[tm.eq0(tm.sub(POS, z)) for z in x.vals()]) if x.vals() else False
        return None

    def getitem(self, b, i, node, quiet=False):
        if isinstance(b, GA):
            if i is Ellipsis:
                return b.snap()
            p = self.where_of(i)
            if p is None or b.sel is not None:
                raise AnalysisError("indexing of a generic array")
            return GA(b.elem, count(p), p, b.dtype, b.label)
        if isinstance(b, AnyRange):
            if i in (0, 1):
                return Edge(b.of, bool(i))
            raise AnalysisError("item of a range")
        if isinstance(b, Ranges):
            raise AnalysisError("item of a range list")
        return super().getitem(b, i, node, quiet)

    def setitem(self, b, i, v, node):
        if isinstance(b, GA):
            p = self.where_of(i)
            if p is None or b.sel is not None or b.dtype != "bool":
                raise AnalysisError("assignment into a generic array")
            if isinstance(v, GA):
                if v.sel is None or tm._key(tm.freeze(v.sel)) != tm._key(tm.freeze(p)):
                    raise AnalysisError("assignment of differently selected values")
                v = v.elem
            elif isinstance(v, NA) and v.size == 1:
                v = v.vals()[0]
            if not isinstance(v, (bool, Term)):
                raise AnalysisError("assignment of %r" % (v,))
            b.elem = tm.lor(tm.land(p, v), tm.land(tm.lnot(p), b.elem))
            self.event("store", node, target=b, index=i, value=v, op="=")
            return
        return super().setitem(b, i, v, node)

    def gel(self, *a):
        """common shape of generic operands -> (elements, prototype)"""
        g = [x for x in a if isinstance(x, GA)]
        k = {tm._key(tm.freeze(x.sel)) if x.sel is not None else None for x in g}
        if len(k) > 1:
            raise AnalysisError("generic arrays of different selections")
        return [x.elem if isinstance(x, GA) else x.vals()[0] if isinstance(x, NA) and x.size == 1 else x for x in a], g[0]

    def compare(self, op, a, b, node=None):
        if (isinstance(a, GA) or isinstance(b, GA)) and op in ("<", "<=", ">", ">=", "==", "!=") and a is not None and b is not None:
            (x, y), g = self.gel(a, b)
            if g.dtype != "bool":
                self.event("gcmp", node, op=op, left=a, right=b)
            return GA(NInterp.compare(self, op, x, y, node), g.size, g.sel, "bool")
        return super().compare(op, a, b, node)

    def binop(self, op, a, b, node=None):
        if isinstance(a, GA) or isinstance(b, GA):
            (x, y), g = self.gel(a, b)
            if g.dtype == "bool" and op in ("&", "|", "^"):
                f = {"&": tm.land, "|": tm.lor, "^": lambda p, q: tm.lor(tm.land(p, tm.lnot(q)), tm.land(tm.lnot(p), q))}[op]
                return GA(f(x, y), g.size, g.sel, "bool")
            raise AnalysisError("arithmetic on a generic array")
        return super().binop(op, a, b, node)

    def st_AugAssign(self, st, fr):
        import ast
        if isinstance(st.target, ast.Name):
            cur = self.lookup(st.target.id, fr)
            if isinstance(cur, GA):
                r = self.binop(ip._BINOPS[type(st.op)], cur, self.eval(st.value, fr), st)
                cur.elem = r.elem
                return
        if isinstance(st.target, ast.Subscript):
            base = self.eval(st.target.value, fr)
            if isinstance(base, GA):
                i = self.eval_index(st.target.slice, fr)
                v = self.eval(st.value, fr)
                self.setitem(base, i, self.binop(ip._BINOPS[type(st.op)], self.getitem(base, i, st), v, st), st)
                return
        return super().st_AugAssign(st, fr)

    def ev_UnaryOp(self, e, fr):
        import ast
        if isinstance(e.op, ast.Invert):
            v = self.eval(e.operand, fr)
            if isinstance(v, GA):
                return GA(tm.lnot(v.elem), v.size, v.sel, "bool")
        return super().ev_UnaryOp(e, fr)

    def truth(self, v, node=None):
        if isinstance(v, (GA, Idx, Ranges)):
            raise AnalysisError("truth value of a generic array")
        return super().truth(v, node)

    def iterate_list(self, x):
        if isinstance(x, Ranges):
            return [AnyRange(x)]
        if isinstance(x, AnyRange):
            return [Edge(x.of, False), Edge(x.of, True)]
        if isinstance(x, (GA, Idx)):
            raise AnalysisError("iteration over a generic array")
        return super().iterate_list(x)

    def bi_len(self, args, kw, node):
        x = args[0]
        if isinstance(x, GA):
            return x.size
        if isinstance(x, Idx):
            return count(x.pred)
        return super().bi_len(args, kw, node)

    def isinstance(self, v, c, node=None):
        if isinstance(v, (GA, Idx, Ranges)):
            names = set(self.class_names(c) or ()) if not isinstance(c, (tuple, list)) else set(n for x in c for n in (self.class_names(x) or ()))
            mine = {"ndarray", "object"} | ({"unyt_array", "cosmo_array"} if getattr(v, "label", None) else set())
            return bool(mine & names)
        return super().isinstance(v, c, node)

    def getattr(self, o, name, node=None):
        if isinstance(o, GA):
            if name == "size":
                return o.size
            if name == "shape":
                return (o.size,)
            if name == "ndim":
                return 1
            if name == "dtype":
                return T("dtype", o.dtype)
            if o.label and name in o.label:
                return o.label[name]
            if name in ("copy", "sum", "any", "all", "nonzero", "astype", "squeeze", "ravel", "flatten"):
                f = GNP.get({"squeeze": "copy", "ravel": "copy", "flatten": "copy", "astype": "copy"}.get(name, name))
                if f is None:
                    raise AnalysisError("%s of a generic array" % name)
                return PyFunc(lambda i, a, k, n: f(self, [o], k, n), name)
            raise AnalysisError("attribute %s of a generic array" % name)
        if isinstance(o, Idx):
            if name == "size":
                return count(o.pred)
            if name == "shape":
                return (count(o.pred),)
            raise AnalysisError("attribute %s of positions" % name)
        if isinstance(o, Ranges):
            raise AnalysisError("attribute %s of a range list" % name)
        return super().getattr(o, name, node)


GNP = {}


def g_(*names):
    def d(f):
        for n in names:
            GNP[n] = f
        return f
    return d


def _galloc(val):
    def f(it, args, kw, node):
        s = args[0] if args else kw.get("shape")
        if isinstance(s, Term) and s.op in ("tuple", "list") and len(s.args) == 1:
            s = s.args[0]
        if isinstance(s, (tuple, list)) and len(s) == 1:
            s = s[0]
        if isinstance(s, NA) and s.size == 1:
            s = s.vals()[0]
        if not isinstance(s, Term) or s.op in ("tuple", "list") or dtname(kw.get("dtype", args[1] if len(args) > 1 else None)) != "bool":
            return NotImplemented
        return GA(val, s)
    return f


GNP["zeros"], GNP["ones"] = _galloc(False), _galloc(True)


@g_("full")
def _gfull(it, args, kw, node):
    if len(args) > 1 and isinstance(args[1], bool):
        return _galloc(args[1])(it, args[:1], {"dtype": "bool"}, node)
    return NotImplemented


def _glike(val):
    def f(it, args, kw, node):
        if isinstance(args[0], GA) and (dtname(kw.get("dtype")) or args[0].dtype) == "bool":
            return GA(val, args[0].size, args[0].sel)
        return NotImplemented
    return f


GNP["zeros_like"], GNP["ones_like"] = _glike(False), _glike(True)


@g_("array", "asarray", "copy", "asanyarray", "ascontiguousarray")
def _gcopy(it, args, kw, node):
    x = args[0]
    return x.snap() if isinstance(x, GA) else x if isinstance(x, (Idx, Ranges)) else NotImplemented


@g_("where", "nonzero")
def _gwhere(it, args, kw, node):
    if len(args) == 1 and isinstance(args[0], GA) and args[0].sel is None:
        return (Idx(args[0].elem, args[0].size),)
    return NotImplemented


@g_("flatnonzero")
def _gfnz(it, args, kw, node):
    r = _gwhere(it, args[:1], kw, node)
    return r if r is NotImplemented else r[0]


@g_("sum", "count_nonzero")
def _gsum(it, args, kw, node):
    x = args[0]
    if isinstance(x, GA) and x.dtype == "bool":
        return count(land(x.sel if x.sel is not None else True, x.elem))
    return NotImplemented


def _g2(f):
    def g(it, args, kw, node):
        if not any(isinstance(x, GA) for x in args[:2]):
            return NotImplemented
        (x, y), p = it.gel(args[0], args[1])
        r = GA(f(x, y), p.size, p.sel)
        o = kw.get("out")
        if isinstance(o, GA):
            o.elem = r.elem
            return o
        return r
    return g


GNP["logical_and"], GNP["logical_or"] = _g2(tm.land), _g2(tm.lor)
GNP["logical_xor"] = _g2(lambda p, q: tm.lor(tm.land(p, tm.lnot(q)), tm.land(tm.lnot(p), q)))
GNP["bitwise_and"], GNP["bitwise_or"] = GNP["logical_and"], GNP["logical_or"]


@g_("logical_not", "invert")
def _gnot(it, args, kw, node):
    x = args[0]
    return GA(tm.lnot(x.elem), x.size, x.sel) if isinstance(x, GA) else NotImplemented


for _n, _f in (("greater", ">"), ("greater_equal", ">="), ("less", "<"), ("less_equal", "<="), ("equal", "=="), ("not_equal", "!=")):
    GNP[_n] = lambda it, args, kw, node, _f=_f: it.compare(_f, args[0], args[1], node) if any(isinstance(x, GA) for x in args[:2]) else NotImplemented


def _greduce(f):
    def g(it, args, kw, node):
        l = args[0] if isinstance(args[0], (list, tuple)) else None
        if l is None or not any(isinstance(x, GA) for x in l):
            return NotImplemented
        e, p = it.gel(*l)
        return GA(f(*e), p.size, p.sel)
    return g


GNP["logical_and.reduce"], GNP["logical_or.reduce"] = _greduce(tm.land), _greduce(tm.lor)
GNP["all"], GNP["any"] = _greduce(tm.land), _greduce(tm.lor)


@g_("take")
def _gtake(it, args, kw, node):
    x, i = args[0], args[1] if len(args) > 1 else kw.get("indices")
    if isinstance(x, Inst) and "_path" in x.attrs and isinstance(i, (Idx, GA)):
        if kw.get("axis", args[2] if len(args) > 2 else None) != 0:
            raise AnalysisError("take without an axis")
        if isinstance(i, GA):
            raise AnalysisError("take through a boolean mask")
        f = x.attrs.get("file")
        if f is not None:
            it.call(it.getattr(f, "_touch"), ["read", x.attrs["_path"], "rows"], {}, node)
        return GA(T("field", x.attrs["_path"]), count(i.pred), i.pred, "data")
    if isinstance(x, GA) and isinstance(i, Idx) and x.sel is None:
        return GA(x.elem, count(i.pred), i.pred, x.dtype, x.label)
    return NotImplemented


@g_("compress")
def _gcompress(it, args, kw, node):
    if isinstance(args[0], GA) and isinstance(args[1], GA):
        return it.getitem(args[1], args[0], node)
    return NotImplemented


def selected_data(it, path, mask):
    """rows of a dataset picked by a boolean mask"""
    return GA(T("field", path), count(mask.elem), mask.elem, "data")

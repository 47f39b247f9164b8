"""Abstract domain for cosmology-aware arrays.

Every abstract array carries a *buffer* with two abstract numbers

    e   the scale-factor dimension of the quantity  (physical = comoving * s**e)
    k   the power of the scale factor s that its stored numbers currently hold relative to
        the physical ones (0: physical numbers; -e: comoving numbers)

and the four labels the library maintains (comoving, cosmo_factor, valid_transform,
compression).  numpy/unyt primitives are transfer functions on (e, k); the library's own code
is interpreted abstractly from its source.  A result is consistent when

    comoving is True   ->  k == -e  and the attached exponent is e
    comoving is False  ->  k == 0   and the attached exponent is e

so a wrong conversion direction, a skipped conversion, a wrong exponent, a mislabelled result
or an operation that combines numbers of two frames all show up as an inconsistency that
does not depend on any concrete number.
"""

import ast
import glob
import os
from fractions import Fraction

from . import terms as tm
from .terms import T, Term, sym
from .interp import (
    AList, AnalysisError, Bound, Cls, Ext, Fn, Inst, Interp, Project, PyFunc, PyRaise, Property,
    clsname, is_const, is_native, METH_MODELS,
)


class Unknown:
    def __repr__(self):
        return "?"


UNK = Unknown()
ANY = Unknown()      # wildcard: plain numbers, no frame at all
MIX = "mixed"


def eq(a, b):
    """canonical equality of exponents; None = cannot tell"""
    if a is UNK or b is UNK:
        return None
    if a is MIX or b is MIX:
        return False
    d = tm.sub(a, b)
    if isinstance(d, Term):
        return None if False else False
    return abs(float(d)) < 1e-9


def num(x):
    if isinstance(x, float):
        f = Fraction(x).limit_denominator(1000)
        return int(f) if f.denominator == 1 else f
    return x


def emul(a, b):
    if a is UNK or b is UNK:
        return UNK
    if a is MIX or b is MIX:
        return MIX
    return tm.mul(num(a), num(b))


def eadd(a, b):
    if a is UNK or b is UNK:
        return UNK
    if a is MIX or b is MIX:
        return MIX
    return tm.add(num(a), num(b))


class Buf:
    n = 0

    def __init__(self, e=0, k=0, why=None, src=()):
        Buf.n += 1
        self.id = Buf.n
        self.e = e
        self.k = k
        self.writes = 0
        self.why = why
        self.src = frozenset(src)   # labels of the operands whose numbers contributed


class EK(tuple):
    """(e, k) of a kernel result, with the operands it is made from."""

    def __new__(cls, e, k, src=()):
        t = tuple.__new__(cls, (e, k))
        t.src = frozenset(src)
        return t


class AArr(Inst):
    def __init__(self, cls, buf, shape=None, units=None, label=None, size=None):
        super().__init__(cls, {}, label)
        self.buf = buf
        self.shape = shape
        self.size = size
        if units is not None:
            self.attrs["units"] = units

    def show(self):
        c = self.attrs.get("comoving", "-")
        return "%s<%s com=%s e=%s k=%s>" % (self.label or "", clsname(self.cls), c,
                                            tm.show(self.buf.e) if isinstance(self.buf.e, Term) else self.buf.e,
                                            tm.show(self.buf.k) if isinstance(self.buf.k, Term) else self.buf.k)

    __repr__ = show


ND = Ext("numpy.ndarray")
UA = Ext("unyt.unyt_array")
UQ = Ext("unyt.unyt_quantity")

ARRAY_METHODS = {
    "astype", "in_units", "byteswap", "compress", "diagonal", "flatten", "ravel", "repeat", "swapaxes",
    "transpose", "view", "__copy__", "copy", "__deepcopy__", "in_cgs", "in_base", "in_mks", "take",
    "reshape", "__getitem__", "__setitem__", "dot", "squeeze", "to", "to_value", "to_equivalent",
    "convert_to_units", "convert_to_base", "convert_to_cgs", "convert_to_mks", "convert_to_equivalent",
    "__array_finalize__", "__reduce__", "__setstate__", "__array_ufunc__", "__array_function__",
    "__mul__", "__rmul__", "__str__", "__repr__", "__round__", "any", "all", "min", "max", "sum", "mean",
    "std", "var", "argsort", "sort", "fill", "item", "tolist", "to_ndarray", "ndarray_view", "tobytes",
    "cumsum", "prod", "clip", "round", "put", "__len__", "__iter__", "__float__", "__int__", "__bool__",
    "__add__", "__sub__", "__truediv__", "__pow__", "__neg__", "has_equivalent", "same_dimensions_as",
    "conj", "conjugate", "nonzero", "searchsorted", "trace", "ptp", "cumprod", "argmin", "argmax", "resize",
    "to_astropy", "to_pint", "to_string", "write_hdf5", "list_equivalencies", "tofile", "dump", "dumps",
}
# attribute values that every abstract array answers
SHARE = {"d", "ndview", "base_view", "T"}


OP_UFUNC = {"+": "add", "-": "subtract", "*": "multiply", "/": "divide", "//": "floor_divide", "%": "remainder",
            "**": "power", "@": "matmul", "<": "less", "<=": "less_equal", ">": "greater", ">=": "greater_equal",
            "==": "equal", "!=": "not_equal", "&": "bitwise_and", "|": "bitwise_or", "^": "bitwise_xor"}
LABELS = ("comoving", "cosmo_factor", "valid_transform", "compression", "units")


def fresh_int(it, tag):
    it.nfresh += 1
    return sym("%s#%d" % (tag, it.nfresh), "int")


class World:
    """An interpreter over the repository with the array domain installed."""

    def __init__(self, root):
        self.project = Project(root)
        self.it = it = Interp(self.project, max_paths=3000)
        self.s = sym("s")
        self.lean = False     # follow only one representation of each ufunc result
        it.fact = self.fact
        it.inst_ext_attr = self.inst_attr
        it.inst_ext_binop = self.inst_binop
        it.inplace_model = self.inplace
        it.store_model = self.store
        it.term_is = self.term_is
        old_hi = it.is_same
        self.problems = []
        M = it.models
        M["*binop"] = self.binop
        M["*iter"] = self.m_iter
        M["sympy.symbols"] = lambda it, a, k, n: T("apow", 1)
        M["sympy.Symbol"] = M["sympy.symbols"]
        M["numpy.isclose"] = self.m_isclose
        M["math.isclose"] = self.m_isclose
        M["numpy.power"] = self.m_power
        M["numpy.asarray"] = self.m_asarray
        M["numpy.asanyarray"] = self.m_asany
        M["numpy.array"] = self.m_nparray
        M["numpy.copy"] = self.m_nparray
        M["numpy.ascontiguousarray"] = self.m_asarray
        M["numpy.ones_like"] = self.m_ones_like
        M["numpy.shape"] = lambda it, a, k, n: it.getattr(a[0], "shape", n) if isinstance(a[0], AArr) else (() if isinstance(a[0], (int, float, Fraction)) else NotImplemented)
        M["numpy.size"] = lambda it, a, k, n: it.getattr(a[0], "size", n) if isinstance(a[0], AArr) else NotImplemented
        M["numpy.ndim"] = self.m_ndim
        M["numpy.isscalar"] = lambda it, a, k, n: (not isinstance(a[0], AArr)) if not isinstance(a[0], Term) else NotImplemented
        M["unyt._iterable"] = lambda it, a, k, n: self.iterable(a[0])
        M["numpy.iterable"] = M["unyt._iterable"]
        M["warnings.catch_warnings"] = lambda it, a, k, n: T("ctx")
        M["warnings.filterwarnings"] = lambda it, a, k, n: None
        M["importlib.metadata.version"] = lambda it, a, k, n: "2.4.1"
        M["packaging.version.Version"] = self.m_version
        M["unyt.unyt_array.__new__"] = self.m_new
        M["unyt.unyt_quantity.__new__"] = self.m_new
        M["unyt.unyt_array"] = lambda it, a, k, n: self.m_new(it, [UA] + a, k, n)
        M["unyt.unyt_quantity"] = lambda it, a, k, n: self.m_new(it, [UQ] + a, k, n)
        for m in ARRAY_METHODS:
            for c in ("unyt.unyt_array", "unyt.unyt_quantity", "numpy.ndarray"):
                M.setdefault(c + "." + m, self.method(m))
        for nm in ("multiply", "divide", "true_divide", "add", "subtract"):
            base = it.models.get("numpy." + nm)
            M["numpy." + nm] = self.m_ufunc(nm)
        it.attr_models["ext:unyt.POWER_MAPPING"] = lambda it, o, n: Ext("unyt.POWER_MAPPING")
        M["unyt.unyt_array.from_astropy"] = self.m_import
        M["unyt.unyt_array.from_pint"] = self.m_import
        it.meth_models["subs"] = self.m_subs
        it.attr_models["is_Unit"] = lambda it, b, n: True if isinstance(b, Term) and b.op == "units" else NotImplemented

        def unit_mul(it, recv, args, kw, node):
            if isinstance(recv, Term) and recv.op == "units" and len(args) == 1 and isinstance(args[0], AArr):
                o = args[0]
                c = UQ if o.shape == () else UA
                return AArr(c, self.copybuf(o.buf), o.shape, T("units", "*", recv), o.label, o.size)
            return NotImplemented

        it.meth_models["__mul__"] = unit_mul
        it.meth_models["__rmul__"] = unit_mul
        old_ext_has = it.ext_has
        it.ext_has = lambda c, name: c.path.split(".")[-1] in ("unyt_array", "unyt_quantity", "ndarray") and name in ARRAY_METHODS and name not in (
            "__add__", "__sub__", "__truediv__", "__pow__", "__neg__", "__len__", "__iter__", "__mul__", "__rmul__", "__getitem__", "__setitem__", "__float__", "__int__", "__bool__")
        self._wrap_getitem()
        base_has = it.hasattr

        def has(o, name, node=None):
            if isinstance(o, Ext) and name in LABELS:
                return False
            if isinstance(o, Term) and o.op == "units":
                return name not in LABELS
            if False:
                return False    # sentinels, functions and modules of other packages carry no cosmology labels
            return base_has(o, name, node)

        it.hasattr = has

    # ------------------------------------------------------------------ plumbing
    def _wrap_getitem(self):
        it = self.it
        base_get = it.getitem
        base_ite = it.iterate_list

        def getitem(b, i, node, quiet=False):
            if isinstance(b, Ext) and b.path == "unyt.POWER_MAPPING":
                nm = i.path.split(".")[-1] if isinstance(i, Ext) else None
                if nm == "multiply":
                    return PyFunc(lambda it2, a, k, n: a[0], "pm")
                if nm in ("divide", "true_divide"):
                    return PyFunc(lambda it2, a, k, n: tm.sub(2, a[0]), "pm")
            if isinstance(b, AArr):
                m = it.find_method(b.cls, "__getitem__")
                if m is not None:
                    return it.call(Bound(m, b), [i], {}, node)
                return self.method("__getitem__")(it, [b, i], {}, node)
            return base_get(b, i, node, quiet)

        it.getitem = getitem

        def iterate(v):
            if isinstance(v, AArr):
                return None
            return base_ite(v)

        it.iterate_list = iterate
        base_cls_has = it._cls_has
        base_len = it.bi_len

        def bi_len(args, kw, node):
            v = args[0]
            if isinstance(v, AArr):
                if v.shape == ():
                    raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("len() of unsized object",)}), node)
                sh = self.shape_of(v)
                return sh[0]
            return base_len(args, kw, node)

        it.bi_len = bi_len

    def iterable(self, v):
        if isinstance(v, AArr):
            return v.shape != ()
        if isinstance(v, (list, tuple, str, dict, set)):
            return True
        if isinstance(v, (int, float, Fraction, bool)) or v is None:
            return False
        return T("iterable", v)

    def fact(self, t):
        # the scale factor is a generic positive number different from one; distinct powers of it differ
        op = t.op
        neg = False
        x = t
        while x.op == "not":
            neg = not neg
            x = x.args[0]
        if x.op in ("eq", "eq0") and "dtype(" in tm.show(x) and "object" in tm.show(x):
            return neg      # the arrays considered hold numbers
        if x.op == "eq" and None in [y for y in x.args if not isinstance(y, Term)]:
            return neg      # a number is not None
        if x.op == "eq0":
            ds = x.args[0]
            if isinstance(ds, Term):
                syms = {y.args[0] for y in tm.walk(ds) if isinstance(y, Term) and y.op == "sym"}
                if syms == {"s", "t"} and not any(isinstance(y, Term) and y.op in ("sfac", "call") for y in tm.walk(ds)):
                    return neg      # two different scale factors
                at = [y for y in tm.walk(ds)]
                leaf = [y for y in at if isinstance(y, Term) and y.op not in ("poly",)]
                if leaf and all(y.op in ("sfac", "sym", "int") for y in leaf) and any(y.op == "sfac" for y in leaf):
                    return neg  # distinct powers
        return None

    def term_is(self, a, b):
        if b is None and isinstance(a, Term) and a.op in ("apow", "sfac", "units", "unitmul"):
            return False
        if b is None and isinstance(a, Term) and a.op == "sym":
            return False
        return None

    # ------------------------------------------------------------------ numbers
    def uncertain(self, guesses):
        return bool(guesses)

    def binop(self, it, args, kw, node):
        op, a, b = args
        ta = isinstance(a, Term) and a.op in ("apow", "sfac")
        tb = isinstance(b, Term) and b.op in ("apow", "sfac")
        if ta or tb:
            kind = (a if ta else b).op
            ea = a.args[0] if ta else (0 if isinstance(a, (int, float, Fraction)) and a == 1 else None)
            eb = b.args[0] if tb else (0 if isinstance(b, (int, float, Fraction)) and b == 1 else None)
            if op == "*" and ea is not None and eb is not None:
                return T(kind, tm.add(ea, eb))
            if op == "/" and ea is not None and eb is not None:
                return T(kind, tm.sub(ea, eb))
            if op == "**" and ta and not tb:
                if isinstance(b, (int, float, Fraction, Term)) and not isinstance(b, AArr):
                    return T(kind, tm.mul(num(a.args[0]), num(b)))
        if op == "**" and isinstance(a, Term) and a == self.s:
            return T("sfac", num(b)) if isinstance(b, (int, float, Fraction)) else NotImplemented
        if isinstance(a, Term) and a.op == "units" or isinstance(b, Term) and isinstance(b, Term) and b.op == "units":
            return T("units", op, a, b)
        return NotImplemented

    def m_subs(self, it, recv, args, kw, node):
        if isinstance(recv, Term) and recv.op == "apow" and len(args) == 2 and isinstance(args[0], Term) and args[0] == T("apow", 1):
            if args[1] == self.s:
                return T("sfac", recv.args[0])
        if isinstance(recv, (int,)) and recv == 1:
            return 1
        return NotImplemented

    def m_isclose(self, it, args, kw, node):
        a, b = args[0], args[1]
        if isinstance(a, AArr) or isinstance(b, AArr):
            return NotImplemented
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == "sfac":
            d = tm.sub(a.args[0], b.args[0])
            if not isinstance(d, Term):
                return abs(float(d)) < 1e-9
            return False if a.key() != b.key() else True
        if isinstance(a, Term) and isinstance(b, Term) and a == b:
            return True
        return NotImplemented

    def m_power(self, it, args, kw, node):
        if not kw and len(args) == 2:
            if isinstance(args[0], AArr) or isinstance(args[1], AArr):
                return NotImplemented
            return it.binop("**", args[0], args[1], node)
        return NotImplemented

    def m_version(self, it, args, kw, node):
        try:
            parts = tuple(int(x) for x in args[0].split("."))
        except Exception:
            return NotImplemented
        # comparable stand-in: encode as a number
        parts = (parts + (0, 0, 0))[:3]
        return parts[0] * 10 ** 6 + parts[1] * 10 ** 3 + parts[2]

    def m_ndim(self, it, args, kw, node):
        v = args[0]
        if isinstance(v, AArr):
            sh = v.shape
            return len(sh) if sh is not None else NotImplemented
        if isinstance(v, (int, float, Fraction)) or v is None:
            return 0
        if isinstance(v, (list, tuple)):
            return 1
        return NotImplemented

    def m_iter(self, it, args, kw, node):
        v = args[0]
        if isinstance(v, AArr) and v.shape == ():
            raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("iteration over a 0-d array",)}), node)
        return v

    # ------------------------------------------------------------------ arrays
    def shape_of(self, a):
        if a.shape is None:
            a.shape = (sym("n%d" % a.uid, "int"),)
        return a.shape

    def size_of(self, a):
        if a.size is None:
            sh = self.shape_of(a)
            r = 1
            for x in sh:
                r = tm.mul(r, x)
            a.size = r
        return a.size

    def is_cosmo(self, a):
        return isinstance(a, AArr) and isinstance(a.cls, Cls)

    def inst_attr(self, it, o, name, node):
        if not isinstance(o, AArr):
            return NotImplemented
        isnd = clsname(o.cls) == "ndarray"
        if name == "shape":
            return self.shape_of(o)
        if name == "size":
            return self.size_of(o)
        if name == "ndim":
            return len(self.shape_of(o))
        if name == "dtype":
            return T("dtype", o.uid)
        if name in ("base", "flags", "strides", "nbytes", "itemsize", "ctypes", "real", "imag", "flat"):
            return T("attr", o, name)
        if not isnd:
            if name in ("d", "ndview"):
                return AArr(ND, o.buf, o.shape, None, "%s.d" % (o.label or ""), o.size)
            if name in ("v", "value"):
                return AArr(ND, self.copybuf(o.buf), o.shape, None, "%s.v" % (o.label or ""), o.size)
            if name in ("units", "name"):
                if name in o.attrs:
                    return o.attrs[name]
                return T("units", o.uid) if name == "units" else None
            if name in ("uq", "unit_quantity", "ua", "unit_array"):
                return self.m_ones_like(it, [o], {}, node)
        if name == "T":
            return it.call(it.getattr(o, "transpose", node), [], {}, node)
        if name in ARRAY_METHODS:
            return Bound(Ext("unyt.unyt_array." + name if not isnd else "numpy.ndarray." + name), o)
        if name.startswith("__") and name.endswith("__"):
            raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)
        raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": ("%s has no attribute %s" % (clsname(o.cls), name),)}), node)

    def copybuf(self, b):
        return Buf(b.e, b.k, b.why, b.src)

    def cls_of(self, name):
        m = self.it.get_mod("swiftsimio.objects")
        return self.it.mod_attr(m, name)

    def mk(self, e, comoving, scalar=False, label=None, vt=True, comp=None, shape=None, nullcf=False, cf=None):
        """a consistent cosmo_array/cosmo_quantity"""
        it = self.it
        if not scalar and shape is None:
            shape = (sym("n", "int"),)
        k = 0 if not comoving else tm.neg(e)
        b = Buf(e, k if comoving is not None else 0, None, (label,) if label else ())
        a = AArr(self.cls_of("cosmo_quantity" if scalar else "cosmo_array"), b, () if scalar else shape, T("units", label or "u"), label)
        a.attrs["name"] = None
        a.attrs["comoving"] = comoving
        a.attrs["valid_transform"] = vt
        a.attrs["compression"] = comp
        if cf is not None:
            a.attrs["cosmo_factor"] = cf
        elif nullcf:
            a.attrs["cosmo_factor"] = it.mod_attr(it.get_mod("swiftsimio.objects"), "NULL_CF")
        else:
            a.attrs["cosmo_factor"] = self.mkcf(e)
        return a

    def mkcf(self, e, s=None):
        it = self.it
        c = self.cls_of("cosmo_factor")
        saved = it._module_mode
        it._module_mode += 1
        try:
            return it.call(c, [T("apow", e), self.s if s is None else s], {})
        finally:
            it._module_mode = saved

    def finalize(self, new, old, node):
        m = self.it.find_method(new.cls, "__array_finalize__")
        if isinstance(m, Fn):
            self.it.call(Bound(m, new), [old], {}, node)
        elif clsname(new.cls) in ("unyt_array", "unyt_quantity"):
            self.uf(new, old)
        return new

    def uf(self, new, old):
        new.attrs["units"] = old.attrs.get("units", T("units", "null")) if isinstance(old, AArr) else T("units", "null")
        new.attrs["name"] = None

    def view_as(self, a, cls, node, buf=None, shape=None):
        new = AArr(cls, buf or a.buf, shape if shape is not None else a.shape, None, a.label, a.size if shape is None else None)
        return self.finalize(new, a, node)

    def resolve_cls(self, c):
        if isinstance(c, Ext):
            n = c.path.split(".")[-1]
            return {"ndarray": ND, "unyt_array": UA, "unyt_quantity": UQ}.get(n)
        if isinstance(c, Cls):
            return c
        return None

    def construct(self, cls, a, units, node, shape=None):
        """type(self)(plain_buffer, units, bypass_validation=True): labels are not carried over"""
        if isinstance(cls, Cls):
            nd = AArr(ND, a, shape, None)
            return self.it.call(cls, [nd, units], {"bypass_validation": True}, node)
        r = AArr(cls, a, shape, units)
        r.attrs["name"] = None
        return r

    # methods of the unyt/numpy base classes, applied to a cosmo-aware (or not) receiver
    def method(self, name):
        def f(it, args, kw, node):
            o = args[0] if args else None
            if not isinstance(o, AArr):
                if isinstance(o, (Cls, Term)) or o is None:
                    return NotImplemented
                return NotImplemented
            return self.apply_method(name, o, args[1:], kw, node)
        return f

    def apply_method(self, name, o, args, kw, node):
        it = self.it
        isnd = clsname(o.cls) == "ndarray"
        if name == "__array_finalize__":
            self.uf(o, args[0])
            return None
        if name == "view":
            c = None
            for x in list(args) + [kw.get("type")]:
                rc = self.resolve_cls(x)
                if rc is not None:
                    c = rc
            return self.view_as(o, c if c is not None else o.cls, node)
        if name in ("ndarray_view",):
            return AArr(ND, o.buf, o.shape, None, o.label, o.size)
        if name in ("reshape", "ravel", "swapaxes", "transpose", "squeeze", "diagonal"):
            if name == "reshape" and clsname(o.cls) == "cosmo_quantity":
                c = it.choose(2)
                # unyt_array.reshape is the ndarray method: the (sub)class is kept whatever the shape
                return self.view_as(o, o.cls, node, shape=(fresh_int(it, "n"),) if c else ())
            if name == "squeeze" and it.choose(2):
                return self.view_as(o, o.cls, node, shape=())
            return self.view_as(o, o.cls, node, shape=o.shape)
        if name in ("flatten", "repeat", "compress", "byteswap", "astype", "__round__", "round", "conj", "conjugate"):
            return self.view_as(o, o.cls, node, buf=self.copybuf(o.buf), shape=o.shape)
        if name == "take":
            c = it.choose(2)
            b = self.copybuf(o.buf)
            if isnd:
                return AArr(ND, b, o.shape if not c else (), None)
            r = AArr(UA if not c else UQ, b, None if not c else (), o.attrs.get("units"))
            r.attrs["name"] = None
            return r
        if name == "__getitem__":
            c = it.choose(2)
            if c == 0 or isnd:
                return self.view_as(o, o.cls, node, shape=(fresh_int(it, "n"),))
            return AArr(UQ, self.copybuf(o.buf), (), o.attrs.get("units"))
        if name in ("copy", "__copy__", "in_units", "in_base", "in_cgs", "in_mks", "to", "to_equivalent", "__deepcopy__"):
            b = self.copybuf(o.buf)
            if isnd:
                return AArr(ND, b, o.shape, None, o.label, o.size)
            if name in ("to", "in_mks") and isinstance(o.cls, Cls):
                # unyt_array.to / in_mks dispatch to the (overridden) in_units / in_base
                return it.call(it.getattr(o, "in_units" if name == "to" else "in_base", node), list(args) if name == "to" else ["mks"], kw, node)
            u = args[0] if name == "in_units" and args else o.attrs.get("units")
            r = self.construct(o.cls, b, u, node, o.shape)
            if isinstance(r, AArr):
                r.size = o.size
            return r
        if name in ("convert_to_units", "convert_to_base", "convert_to_cgs", "convert_to_mks", "convert_to_equivalent"):
            o.buf.writes += 1
            if args:
                o.attrs["units"] = args[0]
            return None
        if name in ("to_value", "to_ndarray"):
            return AArr(ND, self.copybuf(o.buf), o.shape, None, o.label, o.size)
        if name == "dot":
            return self.kernel("dot", [o] + list(args), kw, node)
        if name in ("sum", "min", "max", "mean", "std"):
            return self.view_as(o, o.cls, node, buf=self.copybuf(o.buf), shape=(fresh_int(it, "n"),))
        if name == "__array_ufunc__":
            return self.ufunc_kernel(o, args, kw, node)
        if name in ("__mul__", "__rmul__"):
            v = args[0]
            if isinstance(o.cls, Cls):
                ab = [o, v] if name == "__mul__" else [v, o]
                return it.call(it.getattr(o, "__array_ufunc__", node), [Ext("numpy.multiply"), "__call__"] + ab, {}, node)
            if isinstance(v, Term) and v.op == "units":
                return AArr(o.cls, self.copybuf(o.buf), o.shape, T("units", "*", v), o.label, o.size)
            if isinstance(v, (int, float, Fraction)):
                return self.view_as(o, o.cls, node, buf=self.copybuf(o.buf))
            if isinstance(v, Term) and v.op == "sfac":
                return self.view_as(o, o.cls, node, buf=Buf(o.buf.e, eadd(o.buf.k, v.args[0]), None, o.buf.src))
            return T("arrop", "*", o.uid, v if not isinstance(v, AArr) else v.uid)
        if name == "__setitem__":
            self.store(o, args[0], args[1], "=", node)
            return None
        if name == "__setstate__":
            # unyt: state[0] holds the unit state, the rest the ndarray state
            st = args[0]
            it.event("setstate", node, obj=o, state=st)
            o.attrs["units"] = T("units", "unpickled")
            if isinstance(st, tuple) and st and isinstance(st[-1], Term) and st[-1].op == "rawdata":
                src = it.scratch.get(("raw", st[-1].args[0]))
                if src is not None:
                    o.buf.e, o.buf.k = src.e, src.k
                    it.scratch["unpickled-ok"] = True
            return None
        if name == "__reduce__":
            it.scratch[("raw", o.uid)] = o.buf
            return (Ext("numpy._core.multiarray._reconstruct"), (o.cls, (0,), "b"), (("unitstr", "lut"), 1, T("rawshape", o.uid), T("dtype", o.uid), False, T("rawdata", o.uid)))
        if name in ("__str__", "__repr__", "to_string"):
            return T("call", Ext("unyt." + name), o)
        if name == "fill":
            o.buf.writes += 1
            o.buf.k = UNK
            return None
        if name == "put":
            o.buf.writes += 1
            return None
        if name == "sort":
            o.buf.writes += 1
            return None
        return T("call", Ext("unyt.unyt_array." + name), o, *[a if not isinstance(a, AArr) else a for a in args])

    def m_new(self, it, args, kw, node):
        cls = args[0]
        rc = self.resolve_cls(cls)
        if rc is None:
            return NotImplemented
        args = list(args[1:])
        inp = args[0] if args else kw.get("input_array", kw.get("input_scalar"))
        units = args[1] if len(args) > 1 else kw.get("units")
        if isinstance(inp, AArr):
            u = units if units is not None else inp.attrs.get("units", T("units", "dimensionless"))
            if kw.get("bypass_validation") is True:
                r = self.view_as(inp, rc, node)
            else:
                # np.asarray(input).view(cls): attributes are not carried
                nd = AArr(ND, inp.buf, inp.shape, None, inp.label, inp.size)
                r = self.view_as(nd, rc, node)
            r.attrs["units"] = u
            r.attrs["name"] = kw.get("name")
            r.size = inp.size
            return r
        if isinstance(inp, (list, tuple)):
            arrs = [x for x in inp if isinstance(x, AArr)]
            e, k = self.combine([(x, 1) for x in arrs], node, "construction from a sequence")
            u = units if units is not None else (arrs[0].attrs.get("units") if arrs else T("units", "dimensionless"))
            if arrs:
                # unyt._coerce_iterable_units returns a plain unyt_array
                r = AArr(UA if it.choose(2) else rc, Buf(e, k), (len(inp),), u)
                if isinstance(r.cls, Cls):
                    self.finalize(r, None, node)
                    r.attrs["units"] = u
                return r
            nd = AArr(ND, Buf(ANY, 0), (len(inp),), None)
            r = self.view_as(nd, rc, node)
            r.attrs["units"] = u
            return r
        if isinstance(inp, (int, float, Fraction)) or isinstance(inp, Term):
            nd = AArr(ND, Buf(ANY, 0), () if isinstance(inp, (int, float, Fraction)) else None, None)
            r = self.view_as(nd, rc, node)
            r.attrs["units"] = units if units is not None else T("units", "dimensionless")
            return r
        return NotImplemented

    def m_import(self, it, args, kw, node):
        cls = self.resolve_cls(args[0])
        r = AArr(cls, Buf(ANY, 0), (fresh_int(it, "n"),), T("units", "imported"))
        if isinstance(cls, Cls):
            self.finalize(r, AArr(ND, r.buf, r.shape), node)
            r.attrs["units"] = T("units", "imported")
        return r

    def m_asarray(self, it, args, kw, node):
        v = args[0]
        if isinstance(v, AArr):
            return AArr(ND, v.buf, v.shape, None, v.label, v.size)
        if isinstance(v, (int, float, Fraction)):
            return AArr(ND, Buf(ANY, 0), (), None)
        return NotImplemented

    def m_asany(self, it, args, kw, node):
        if isinstance(args[0], AArr):
            return args[0]
        return self.m_asarray(it, args, kw, node)

    def m_nparray(self, it, args, kw, node):
        v = args[0]
        if isinstance(v, AArr):
            if kw.get("copy", True) is False:
                return AArr(ND, v.buf, v.shape, None, v.label, v.size)
            if kw.get("subok"):
                return self.view_as(v, v.cls, node, buf=self.copybuf(v.buf))
            return AArr(ND, self.copybuf(v.buf), v.shape, None, v.label, v.size)
        return NotImplemented

    def m_ones_like(self, it, args, kw, node):
        v = args[0]
        if isinstance(v, AArr) and isinstance(v.cls, Cls):
            # a unit array in the same frame and with the same labels
            return self.view_as(v, v.cls, node, buf=Buf(v.buf.e, v.buf.k, None, v.buf.src))
        return NotImplemented

    # ------------------------------------------------------------------ arithmetic on plain views
    def inst_binop(self, it, op, a, b, node):
        arrs = [x for x in (a, b) if isinstance(x, AArr)]
        if not arrs:
            return NotImplemented
        cos = [x for x in arrs if self.is_cosmo(x)]
        if b is None and op in ("neg", "abs", "pos", "invert"):
            nm = {"neg": "negative", "abs": "absolute", "pos": "positive", "invert": "invert"}[op]
            if cos:
                return it.call(it.getattr(a, "__array_ufunc__", node), [Ext("numpy." + nm), "__call__", a], {}, node)
            return AArr(a.cls, self.copybuf(a.buf), a.shape, a.attrs.get("units"), a.label, a.size)
        if cos and op in OP_UFUNC and not (isinstance(a, Term) and a.op == "units" or isinstance(b, Term) and b.op == "units"):
            return it.call(it.getattr(cos[0], "__array_ufunc__", node), [Ext("numpy." + OP_UFUNC[op]), "__call__", a, b], {}, node)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if isinstance(a, AArr) and isinstance(b, AArr):
                ua, ub = a, b
            return T("cmp", op, arrs[0].uid, b if not isinstance(b, AArr) else b.uid)
        o = arrs[0]
        other = b if o is a else a
        if isinstance(other, Term) and other.op == "sfac":
            p = other.args[0]
            cls = o.cls
            if op == "*" or (op == "/" and o is a):
                b2 = Buf(o.buf.e, eadd(o.buf.k, p if op == "*" else tm.neg(p)), None, o.buf.src)
                if clsname(cls) == "ndarray":
                    return AArr(ND, b2, o.shape, None, o.label, o.size)
                return self.view_as(o, cls, node, buf=b2)
        if isinstance(other, (int, float, Fraction)):
            b2 = self.copybuf(o.buf)
            if clsname(cls := o.cls) == "ndarray":
                return AArr(ND, b2, o.shape, None, o.label, o.size)
            if op in ("*",):
                return self.view_as(o, o.cls, node, buf=b2)
        if isinstance(other, Term) and other.op == "units" and op in ("*",) and clsname(o.cls) == "ndarray":
            r = AArr(UA, self.copybuf(o.buf), o.shape, other)
            return r
        return T("arrop", op, a.uid if isinstance(a, AArr) else a, b.uid if isinstance(b, AArr) else b)

    def inplace(self, op, cur, v, node):
        if not isinstance(cur, AArr):
            return NotImplemented
        if self.is_cosmo(cur) and op in OP_UFUNC:
            r = self.it.call(self.it.getattr(cur, "__array_ufunc__", node), [Ext("numpy." + OP_UFUNC[op]), "__call__", cur, v], {"out": (cur,)}, node)
            return r if isinstance(r, AArr) else cur
        cur.buf.writes += 1
        if isinstance(v, Term) and v.op == "sfac" and op in ("*", "/"):
            cur.buf.k = eadd(cur.buf.k, v.args[0] if op == "*" else tm.neg(v.args[0]))
        elif isinstance(v, (int, float, Fraction)) and op in ("*", "/"):
            pass
        else:
            cur.buf.k = UNK
        return cur

    def store(self, base, idx, v, op, node):
        if not isinstance(base, AArr):
            return
        base.buf.writes += 1
        full = idx is Ellipsis or isinstance(idx, Term) and idx.op == "slice" and all(x is None for x in idx.args)
        if op == "=":
            if isinstance(v, AArr):
                if full:
                    base.buf.k, base.buf.e = v.buf.k, base.buf.e if v.buf.e is ANY else v.buf.e
                elif eq(v.buf.k, base.buf.k) is not True:
                    base.buf.k = UNK if v.buf.k is UNK else MIX
            elif not isinstance(v, (int, float, Fraction)):
                base.buf.k = UNK
        elif full and isinstance(v, Term) and v.op == "sfac" and op in ("*", "/"):
            base.buf.k = eadd(base.buf.k, v.args[0] if op == "*" else tm.neg(v.args[0]))
        elif not isinstance(v, (int, float, Fraction)):
            base.buf.k = UNK

    def m_ufunc(self, nm):
        sign = {"multiply": "*", "divide": "/", "true_divide": "/", "add": "+", "subtract": "-"}[nm]

        def f(it, args, kw, node):
            if len(args) >= 2 and any(isinstance(x, AArr) for x in args[:2]):
                out = kw.get("out", args[2] if len(args) > 2 else None)
                if isinstance(out, tuple):
                    out = out[0]
                if any(self.is_cosmo(x) for x in args[:2]):
                    return NotImplemented
                r = self.inst_binop(it, sign, args[0], args[1], node)
                if isinstance(out, AArr):
                    out.buf.writes += 1
                    if isinstance(r, AArr):
                        out.buf.k = r.buf.k
                    else:
                        out.buf.k = UNK
                    return out
                return r
            if kw or len(args) != 2:
                return NotImplemented
            return it.binop(sign, args[0], args[1], node)
        return f

    # ------------------------------------------------------------------ kernels
    def combine(self, terms, node, what, record=True):
        """sum-like combination: every framed operand must hold the same (e, k)."""
        e, k = ANY, 0
        src = set()
        unsure = mixed = False
        for a, _ in terms:
            if not isinstance(a, AArr) or a.buf.e is ANY:
                continue
            src |= a.buf.src
            if e is ANY:
                e, k = a.buf.e, a.buf.k
                continue
            same_e, same_k = eq(e, a.buf.e), eq(k, a.buf.k)
            if same_e is False or same_k is False:
                if record and not mixed:
                    self.it.event("mixed", node, what=what, operands=[x for x, _ in terms], dim=same_e is False)
                mixed = True
            elif same_e is None or same_k is None:
                unsure = True
        return EK(e, MIX if mixed else UNK if unsure else k, src)

    def flat(self, v):
        if isinstance(v, (list, tuple)):
            out = []
            for x in v:
                out += self.flat(x)
            return out
        if isinstance(v, AArr):
            return [v]
        return []

    def prod(self, parts, node, what):
        """parts: list of (operand group, degree); operands within a group are sum-combined."""
        e, k = 0, 0
        anyframe = False
        src = set()
        for g, d in parts:
            c = self.combine([(x, 1) for x in self.flat(g)], node, what)
            src |= c.src
            ge, gk = c
            for x in (g if isinstance(g, (list, tuple)) else [g]):
                if isinstance(x, Term) and x.op == "sfac":
                    k = eadd(k, emul(x.args[0], d))
            if ge is ANY:
                continue
            anyframe = True
            e = eadd(e, emul(ge, d))
            k = eadd(k, emul(gk, d))
        return EK(e, k, src) if anyframe else EK(ANY, 0)

    def result(self, ek, kind, node, ret_cls=None, shape=None):
        """kind: 'unyt' (promotable array), 'plain' (ndarray)."""
        it = self.it
        if kind == "plain":
            return AArr(ND, Buf(ANY, 0, "plain"), shape, None)
        e, k = ek
        src = getattr(ek, "src", ())
        if ret_cls is not None:
            return self.construct(ret_cls, Buf(e, k, None, src), T("units", fresh_int(it, "u")), node, shape)
        c = it.choose(2) if shape is None else (1 if shape == () else 0)
        return AArr(UQ if c else UA, Buf(e, k, None, src), () if c else shape or (fresh_int(it, "n"),), T("units", fresh_int(it, "u")))

    def kernel(self, name, args, kw, node):
        from . import npspec
        sp = npspec.KERNELS.get(name)
        if sp is None:
            self.it.event("kernel", node, name=name, unknown=True, args=tuple(args))
            return self.it.mkcall(Ext("kernel." + name), args, kw)
        try:
            b = npspec.bind(sp, args, kw)
        except TypeError as ex:
            raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": (str(ex),)}), node)
        self.it.event("kernel", node, name=name, unknown=False, bound=b, args=tuple(args), kwargs=dict(kw))
        return sp.run(self, b, node)

    def write_out(self, out, e, k, node):
        if isinstance(out, tuple):
            for o in out:
                self.write_out(o, e, k, node)
            return
        if isinstance(out, AArr):
            out.buf.writes += 1
            out.buf.e, out.buf.k = e, k
            self.it.scratch.setdefault("outs", []).append(out)

    def ufunc_kernel(self, self_, args, kw, node):
        from . import npspec
        it = self.it
        ufunc, method = args[0], args[1]
        inputs = list(args[2:])
        nm = ufunc.path.split(".")[-1] if isinstance(ufunc, Ext) else None
        nm = npspec.UFUNC_ALIAS.get(nm, nm)
        it.event("kernel", node, name="ufunc:%s" % nm, unknown=nm not in npspec.UFUNCS, args=tuple(inputs), method=method)
        if nm not in npspec.UFUNCS:
            return it.mkcall(Ext("kernel.ufunc"), args, kw)
        what = "numpy.%s" % nm
        kinds, groups = npspec.UFUNCS[nm]
        if method in ("reduce", "accumulate", "reduceat"):
            x = inputs[0]
            if nm in ("multiply", "divide") and method == "reduce":
                ax = kw.get("axis", 0)
                n = self.size_of(x) if kw.get("axis") is None else self.shape_of(x)[kw["axis"]] if isinstance(kw["axis"], int) else UNK
                if nm == "divide":
                    n = tm.sub(2, n) if n is not UNK else UNK
                ek = self.prod([([x], n)], node, what)
                outs = [("unyt", ek)]
            elif nm in ("add", "maximum", "minimum", "fmax", "fmin"):
                outs = [("unyt", self.prod([([x], 1)], node, what))]
            elif kinds == ["plain"]:
                outs = [("plain", None)]
            else:
                outs = [("unyt", (UNK, UNK))]
        else:
            outs = []
            grp = groups(inputs)
            base = self.prod(grp, node, what)
            for kd in kinds:
                if kd == "plain":
                    outs.append(("plain", None))
                elif kd == "unyt0":   # dimensionless in frame terms but a unyt result
                    outs.append(("unyt", EK(0 if base[0] is not ANY else ANY, 0 if base[1] is not MIX else MIX, base.src)))
                elif kd == "unyt?":
                    outs.append(("unyt", (UNK, UNK)))
                else:
                    outs.append(("unyt", base))
        out = kw.get("out")
        res = []
        for i, (kd, ek) in enumerate(outs):
            if kd == "plain":
                res.append(self.result((ANY, 0), "plain", node))
            else:
                c = 0 if self.lean else it.choose(3)
                if self.lean and inputs and all(x.shape == () for x in inputs if isinstance(x, AArr)):
                    c = 1
                if c == 0:
                    r = self.result(ek, "unyt", node, shape=(fresh_int(it, "n"),))
                elif c == 1:
                    r = self.result(ek, "unyt", node, shape=())
                else:
                    cc = [x.cls for x in inputs if self.is_cosmo(x)]
                    acls = self.cls_of("cosmo_array")
                    r = self.construct(acls, Buf(ek[0], ek[1], None, getattr(ek, 'src', ())), T("units", fresh_int(it, "u")), node, (fresh_int(it, "n"),))
                res.append(r)
        if out is not None:
            os_ = out if isinstance(out, tuple) else (out,)
            for i, o in enumerate(os_):
                if isinstance(o, AArr) and i < len(outs):
                    if outs[i][0] == "plain":
                        self.write_out(o, ANY, 0, node)
                    else:
                        self.write_out(o, outs[i][1][0], outs[i][1][1], node)
        return res[0] if len(res) == 1 else tuple(res)


def unyt_handled(root=None):
    """(handled, unsupported) numpy function names of the installed unyt, read from its source."""
    pats = ["/opt/venv/lib/python3*/site-packages/unyt/_array_functions.py"]
    for p in pats:
        for fn in glob.glob(p):
            tree = ast.parse(open(fn).read())
            names, uns = set(), set()
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    for d in n.decorator_list:
                        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "implements":
                            names.add(ast.unparse(d.args[0]).replace("np.", "numpy.", 1))
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.If)):
                    for m in ast.walk(n):
                        if isinstance(m, (ast.Assign,)) and any(isinstance(t, ast.Name) and "UNSUPPORTED" in t.id for t in m.targets):
                            for x in ast.walk(m.value):
                                if isinstance(x, ast.Attribute):
                                    u = ast.unparse(x)
                                    if u.startswith("np."):
                                        uns.add(u.replace("np.", "numpy.", 1))
            return names, uns
    return set(), set()


UNYT_HANDLED = None


def install_dispatch(W):
    """numpy functions/ufuncs called by library code on cosmology-aware operands dispatch to the
    library's own protocol methods; numpy/unyt primitives become kernels."""
    from . import npspec
    from .cosmocheck import first_cosmo
    it = W.it
    base = it.call_ext
    W.unyt_handled, W.unyt_unsupported = unyt_handled()

    def call_ext(f, args, kwargs, node):
        p = f.path
        if p in ("unyt._array_functions._HANDLED_FUNCTIONS",):
            return base(f, args, kwargs, node)
        kn = npspec.kernel_name(p)
        if kn is not None and p not in it.models:
            if kn in npspec.KERNELS:
                return W.kernel(kn, list(args), dict(kwargs), node)
            if W.flat(list(args)) or W.flat(list(kwargs.values())):
                it.event("kernel", node, name=kn, unknown=True, args=tuple(args))
            return base(f, args, kwargs, node)
        if p.startswith("numpy.") and p not in it.models:
            c = first_cosmo([list(args), dict(kwargs)])
            if c is not None:
                nm = p[6:]
                parts = nm.split(".")
                un = npspec.UFUNC_ALIAS.get(parts[0], parts[0])
                if un in npspec.UFUNCS and parts[0] not in npspec.KERNELS:
                    m = parts[1] if len(parts) > 1 else "__call__"
                    kwargs = dict(kwargs)
                    if kwargs.get("out", 0) is None:
                        del kwargs["out"]
                    elif "out" in kwargs and not isinstance(kwargs["out"], tuple):
                        kwargs["out"] = (kwargs["out"],)
                    fn = it.getattr(c, "__array_ufunc__", node)
                    return it.call(fn, [Ext("numpy." + parts[0]), m] + list(args), dict(kwargs), node)
                if nm in npspec.KERNELS:
                    fn = it.getattr(c, "__array_function__", node)
                    return it.call(fn, [Ext(p), (c.cls,), tuple(args), dict(kwargs)], {}, node)
        return base(f, args, kwargs, node)

    it.call_ext = call_ext
    base_contains = it.contains

    def contains(a, b, node=None):
        if isinstance(b, Ext) and isinstance(a, Ext):
            if b.path == "unyt._array_functions._HANDLED_FUNCTIONS":
                return a.path in W.unyt_handled
            if b.path == "unyt._array_functions._UNSUPPORTED_FUNCTIONS":
                return a.path in W.unyt_unsupported
            if b.path.endswith("multiple_output_operators"):
                return a.path.split(".")[-1] in ("modf", "frexp", "divmod", "divmod_")
        return base_contains(a, b, node)

    it.contains = contains
    gi = it.getitem

    def getitem(b, i, node, quiet=False):
        if isinstance(b, Ext) and b.path == "unyt._array_functions._HANDLED_FUNCTIONS" and isinstance(i, Ext):
            n = i.path[6:]
            # unyt names its handlers after the numpy function
            un = n.replace("linalg.", "linalg_").replace("fft.", "fft_")
            return Ext("unyt._array_functions." + ("norm" if n == "linalg.norm" else un))
        return gi(b, i, node, quiet)

    it.getitem = getitem


def world(root):
    W = World(root)
    install_dispatch(W)
    return W

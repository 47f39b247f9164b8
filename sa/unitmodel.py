"""Stand-ins for unyt dimensions, unit systems and labelled arrays, written in the analysed language.

An array is its origin (which user array, or which expression) together with what was done to its values:
the unit system it was converted to and the frame it is in."""
from . import terms as tm, interp as ip
from .terms import Term, T, sym
from .interp import Ext, Inst, PyFunc, AnalysisError

SOURCE = '''
class Dim:
    def __init__(self, exps):
        self.exps = exps
    def _z(self, o):
        if o == 1:
            return [0.0] * 5
        return o.exps if isinstance(o, Dim) else None
    def __eq__(self, o):
        return self.exps == (o.exps if isinstance(o, Dim) else [0.0] * 5 if o == 1 else None)
    def __ne__(self, o):
        return not (self == o)
    def __mul__(self, o):
        return Dim([a + b for a, b in zip(self.exps, o.exps)])
    def __truediv__(self, o):
        return Dim([a - b for a, b in zip(self.exps, o.exps)])
    def __pow__(self, n):
        return Dim([a * n for a in self.exps])
    def as_ordered_factors(self):
        l = [b ** e if e != 1 else b for b, e in zip(BASE, self.exps) if e != 0]
        return l if len(l) else [self]
    def as_base_exp(self):
        for b, e in zip(BASE, self.exps):
            if e != 0:
                return b, e
        return self, 1
    def as_powers_dict(self):
        return Powers([(b, e) for b, e in zip(BASE, self.exps) if e != 0])

BASE = [Dim([1.0 if i == k else 0.0 for i in range(5)]) for k in range(5)]
BASE = [BASE[0], BASE[1], BASE[2], BASE[3], BASE[4]]
mass, length, time, temperature, current_mks = BASE
dimensionless = Dim([0.0, 0.0, 0.0, 0.0, 0.0])
velocity = length / time


class Powers:
    def __init__(self, l):
        self.l = l
    def __getitem__(self, k):
        for b, e in self.l:
            if b is k:
                return e
        return 0
    def get(self, k, d=None):
        for b, e in self.l:
            if b is k:
                return e
        return d
    def items(self):
        return self.l


class Expr:
    # power of the scale factor
    def __init__(self, e):
        self.e = e
    def __getattr__(self, name):
        if name == "exp" and self.e not in (0, 1):
            return self.e
        return no_attr(self, name)
    def as_powers_dict(self):
        return ScalePowers(self.e)
    def as_base_exp(self):
        return (SYMBOL_A if self.e != 0 else 1), (self.e if self.e != 0 else 1)
    def as_coeff_exponent(self, x):
        return 1, self.e
    def __eq__(self, o):
        return self.e == 0 if o == 1 else isinstance(o, Expr) and o.e == self.e
    def __ne__(self, o):
        return not (self == o)


class ScalePowers:
    def __init__(self, e):
        self.e = e
    def __getitem__(self, k):
        return self.e
    def get(self, k, d=None):
        return self.e if self.e != 0 else d


class CF:
    def __init__(self, e, a):
        self.expr, self.scale_factor = Expr(e), a
    @property
    def a_factor(self):
        return note("a_factor", self.expr.e, self.scale_factor)


class System:
    def __init__(self, name):
        self.name = name
        self.base_units = Bases(name)
    def __getitem__(self, d):
        return self.base_units[d]


class Bases:
    def __init__(self, system):
        self.system = system
    def __getitem__(self, d):
        return Unit(d, self.system)


class Unit:
    def __init__(self, d, system):
        self.dimensions, self.system = d, system
    def get_conversion_factor(self, o, dtype=None):
        return conversion(self, o), None
    @property
    def base_value(self):
        return conversion(self, None)


class UnitQuantity:
    def __init__(self, unit):
        self.unit = unit
    def in_cgs(self):
        return CgsFactor(self.unit, None)
    def in_base(self, s):
        return CgsFactor(self.unit, s)


class CgsFactor:
    def __init__(self, unit, system):
        self.unit, self.system, self.scale = unit, system, None
    def __mul__(self, o):
        r = CgsFactor(self.unit, self.system)
        r.scale = o
        return r
    def __rmul__(self, o):
        return self * o


class Array:
    def __init__(self, what, dims, system, comoving, cf, shape):
        self.what, self.units, self.comoving, self.cosmo_factor, self.shape = what, Unit(dims, system), comoving, cf, shape
        self.valid_transform = True
        self.ndim = len(shape)
    def __getattr__(self, name):
        return no_attr(self, name)
    @property
    def size(self):
        s = 1
        for x in self.shape:
            s = s * x
        return s
    def __len__(self):
        return self.shape[0]
    def copy(self):
        return Array(self.what, self.units.dimensions, self.units.system, self.comoving, self.cosmo_factor, self.shape)
    def convert_to_base(self, s=None):
        changed(self)
        self.units = Unit(self.units.dimensions, s)
    def in_base(self, s=None):
        r = self.copy()
        r.units = Unit(self.units.dimensions, s)
        return r
    def convert_to_comoving(self):
        changed(self)
        self.comoving = True
    def to_comoving(self):
        r = self.copy()
        r.comoving = True
        return r
    def convert_to_physical(self):
        changed(self)
        self.comoving = False
    def to_physical(self):
        r = self.copy()
        r.comoving = False
        return r
    @property
    def unit_quantity(self):
        return UnitQuantity(self.units)
    def __getitem__(self, i):
        return Array(item(self.what, i), self.units.dimensions, self.units.system, self.comoving, self.cosmo_factor, self.shape[1:])
    def __le__(self, o):
        return Elementwise("<=", self, o)
    def __lt__(self, o):
        return Elementwise("<", self, o)
    def __gt__(self, o):
        return Elementwise(">", self, o)
    def __ge__(self, o):
        return Elementwise(">=", self, o)
    def min(self):
        return extreme(self, False)
    def max(self):
        return extreme(self, True)


class Elementwise:
    # a comparison of each element with a constant
    def __init__(self, op, array, c):
        self.op, self.array, self.c = op, array, c
    def any(self):
        return some(self.op, self.array, self.c)
    def all(self):
        return not some({"<=": ">", "<": ">=", ">": "<=", ">=": "<"}[self.op], self.array, self.c)
    def __invert__(self):
        return Elementwise({"<=": ">", "<": ">=", ">": "<=", ">=": "<"}[self.op], self.array, self.c)
    def sum(self):
        return number(self.op, self.array, self.c)
'''
NAMES_OF = {"unyt": ("unyt_array", "ndarray", "object"), "ndarray": ("ndarray", "object")}
NAMES = ("mass", "length", "time", "temperature", "current_mks", "dimensionless", "velocity")


class Units:
    """installs the stand-ins; call before a module of the library is loaded"""

    def __init__(self, it):
        self.it = it
        m = it.client(SOURCE, "<units>")
        v = self.v = m.env.vars
        v["no_attr"] = PyFunc(self.no_attr, "no_attr")
        v["conversion"] = PyFunc(lambda i, a, k, n: T("conversion", self.unit(a[0]), self.unit(a[1])), "conversion")
        v["note"] = PyFunc(lambda i, a, k, n: T(*a), "note")
        v["item"] = PyFunc(lambda i, a, k, n: T("item", tm.freeze(a[0]), a[1] if isinstance(a[1], (int, Term)) else tm.freeze(a[1])), "item")
        v["changed"] = PyFunc(lambda i, a, k, n: i.event("changed", n, array=a[0]) and None, "changed")
        v["extreme"] = PyFunc(lambda i, a, k, n: self.extreme(a[0], a[1]), "extreme")
        v["some"] = PyFunc(lambda i, a, k, n: self.some(*a), "some")
        v["number"] = PyFunc(lambda i, a, k, n: self.number(*a), "number")
        self.lowest = {}     # smallest element of an array, by origin
        self.repeats = {}    # number of elements that repeat an earlier one
        for n in NAMES:
            it.attr_models["ext:unyt.dimensions." + n] = lambda i, o, nd, n=n: v[n]
        it.attr_models["ext:unyt.dimensions.base_dimensions"] = lambda i, o, nd: ip.AList(v["BASE"])
        for q in ("unyt.unit_systems.cgs_unit_system",):
            it.attr_models["ext:" + q] = lambda i, o, nd: self.cgs
        it.attr_models["ext:unyt.unit_systems.unit_system_registry"] = lambda i, o, nd: self.registry
        self.cgs = it.instantiate(v["System"], ["cgs"], {}, None)
        self.registry = it.instantiate(v["Registry"], [], {}, None) if "Registry" in v else {"cgs": self.cgs, "galactic": it.instantiate(v["System"], ["galactic"], {}, None)}
        for q in ("unyt.unit_object.Unit", "unyt.Unit"):
            it.models[q] = lambda i, a, k, n: a[0] if isinstance(a[0], Inst) and a[0].cls is v["Unit"] else NotImplemented
        it.models["unyt.UnitSystem"] = lambda i, a, k, n: i.instantiate(v["System"], [a[0] if isinstance(a[0], str) else "new system"], {}, n)
        it.models["numpy.copy"] = it.models["numpy.array"] = self.chain(it.models.get("numpy.array"), lambda i, a, k, n: self.np_copy(i, a, k, n))
        it.models["numpy.concatenate"] = self.chain(it.models.get("numpy.concatenate"), self.np_concat)
        it.models["numpy.unique"] = self.chain(it.models.get("numpy.unique"), self.np_unique)
        for q in ("any", "all", "min", "max", "sum", "amin", "amax", "count_nonzero"):
            m = self.reduction({"amin": "min", "amax": "max", "count_nonzero": "sum"}.get(q, q))
            it.models["numpy." + q] = self.chain(it.models.get("numpy." + q), m)
            old = getattr(it, "bi_" + q, None)
            if old is not None:
                def bi(a, k, n, m=m, old=old):
                    r = m(it, a, k, n)
                    return old(a, k, n) if r is NotImplemented else r
                setattr(it, "bi_" + q, bi)
        real = it.isinstance
        def inst(x, c, node=None):
            if isinstance(x, Inst) and x.cls is v["Array"]:
                names = NAMES_OF.get(x.attrs.get("kind"), ("cosmo_array", "unyt_array", "ndarray", "object"))
                cn = it.class_names(c)
                cn = {z.name if isinstance(z, ip.Cls) else z for z in cn} if cn else set()
                return bool(cn & set(names))
            return real(x, c, node)
        it.isinstance = inst

    def chain(self, old, new):
        def f(i, a, k, n):
            r = new(i, a, k, n)
            if r is NotImplemented:
                return old(i, a, k, n) if old else NotImplemented
            return r
        return f

    def is_array(self, x):
        return isinstance(x, Inst) and x.cls is self.v["Array"]

    def np_copy(self, i, a, k, n):
        return i.call(i.getattr(a[0], "copy"), [], {}, n) if a and self.is_array(a[0]) else NotImplemented

    def np_concat(self, i, a, k, n):
        l = a[0]
        if isinstance(l, (list, tuple)) and l and all(self.is_array(x) for x in l):
            tot = 0
            for x in l:
                tot = tm.add(tot, x.attrs["shape"][0])
            f = l[0].attrs
            return i.instantiate(self.v["Array"], [T("concat", *[tm.freeze(x.attrs["what"]) for x in l]), f["units"].attrs["dimensions"], f["units"].attrs["system"], f["comoving"], f["cosmo_factor"], (tot,)], {}, n)
        if isinstance(l, (list, tuple)) and not l:
            raise ip.PyRaise(Inst(Ext("builtins.ValueError"), {"args": ("need at least one array to concatenate",)}), n)
        return NotImplemented

    def extreme(self, x, most):
        w = x.attrs["what"]
        if isinstance(w, Term) and w.op == "arange":
            return tm.sub(w.args[1], 1) if most else w.args[0]
        if not most and tm._key(w) in self.lowest:
            return self.lowest[tm._key(w)]
        return T("maximum" if most else "minimum", tm.freeze(w))

    def some(self, op, x, c):
        if not isinstance(c, (int, float, Term)):
            raise AnalysisError("comparison of an array with %s" % tm.show(tm.freeze(c))[:60])
        e = self.extreme(x, op in (">", ">="))
        return {"<=": lambda: tm.ge0(tm.sub(c, e)), "<": lambda: tm.gt0(tm.sub(c, e)), ">=": lambda: tm.ge0(tm.sub(e, c)), ">": lambda: tm.gt0(tm.sub(e, c))}[op]()

    def number(self, op, x, c):
        r = self.some(op, x, c)
        if r is False:
            return 0
        return T("number", op, tm.freeze(x.attrs["what"]), c)

    def reduction(self, name):
        def f(i, a, k, n):
            if len(a) == 1 and not k and isinstance(a[0], Inst) and (a[0].cls is self.v["Elementwise"] or self.is_array(a[0])):
                return i.call(i.getattr(a[0], name), [], {}, n)
            return NotImplemented
        return f

    def np_unique(self, i, a, k, n):
        if len(a) == 1 and not k and self.is_array(a[0]):
            f = a[0].attrs
            if isinstance(f["what"], Term) and f["what"].op == "arange":
                return a[0]
            w = tm.freeze(f["what"])
            size = tm.sub(f["shape"][0], self.repeats[tm._key(w)]) if tm._key(w) in self.repeats and len(f["shape"]) == 1 else T("distinct", w)
            return i.instantiate(self.v["Array"], [T("unique", w), f["units"].attrs["dimensions"], f["units"].attrs["system"], f["comoving"], f["cosmo_factor"], (size,)], {}, n)
        return NotImplemented

    def unit(self, u):
        if not isinstance(u, Inst):
            return tm.freeze(u)
        d = u.attrs["dimensions"]
        s = u.attrs["system"]
        return T("unit", tuple(d.attrs["exps"]) if isinstance(d, Inst) else tm.freeze(d), self.system(s))

    def system(self, s):
        return s.attrs["name"] if isinstance(s, Inst) and "name" in s.attrs else s if isinstance(s, (str, type(None))) else tm.freeze(s)

    def no_attr(self, i, a, k, n):
        name = a[1]
        real = {"Array": "all any max min sum mean dtype T astype reshape ravel flatten view to in_units in_cgs value v d tolist sort squeeze compression name registry".split(),
                "Expr": "subs free_symbols args func is_number evalf".split()}.get(a[0].cls.name, ())
        if name in real:
            raise AnalysisError("no model of %s.%s" % (a[0].cls.name, name))
        raise ip.PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), n)

    def array(self, what, dims, comoving, exp, a, shape, system="user"):
        v, it = self.v, self.it
        cf = it.instantiate(v["CF"], [exp, a], {}, None)
        return it.instantiate(v["Array"], [what, dims, system, comoving, cf, tuple(shape)], {}, None)

"""The library's file-facing code interpreted as a whole against model files (h5model)."""
from . import terms as tm
from .terms import Term, T, sym
from . import interp as ip
from .interp import Interp, Project, Ext, Inst, Fn, Bound, PyFunc, AnalysisError
from . import h5model as h5

OBJ = "swiftsimio.objects"
NEAREST = "swiftsimio.metadata.unit.unit_types:find_nearest_base_unit"
RANGES = "swiftsimio.accelerated:read_ranges_from_file"


class World:
    def __init__(self, root, files, nearest=True, ranges=True, opaque_arrays=True, facts=None, interp=Interp, setup=None):
        self.root = root
        it = self.it = interp(Project(root))
        it.unroll = 8
        if setup:
            setup(it)
        self.facts = dict(facts or {})
        it.fact = self.fact
        self.h5 = h5.H5(it, files)
        self.objects = it.get_mod(OBJ)
        self.cf_init = it.find_method(self.objects.env.vars["cosmo_factor"], "__init__")
        if nearest:
            it.fn_models[NEAREST] = lambda i, a, k, n: T("nearest", *self.bound(NEAREST, a, k, n))
        if ranges:
            it.fn_models[RANGES] = self.read_ranges
        if opaque_arrays:
            for c in ("cosmo_array", "cosmo_quantity"):
                it.fn_models[OBJ + ":" + c] = lambda i, a, k, n, c=c: self.make_array(c, a, k, n)
            it.fn_models[OBJ + ":cosmo_factor"] = lambda i, a, k, n: T("cosmo_factor", *self.vals(i.bind(self.cf_init, [None] + list(a), k, n), ("expr", "scale_factor")))
        it.term_isinstance = self.term_isinstance
        prev = it.term_getattr
        def tga(o, name, node=None):
            if o.op == "array":
                r = self.array_attr(o, name)
                if r is not NotImplemented:
                    return r
            return prev(o, name, node)
        it.term_getattr = tga

    NEVER_NONE = ("array", "data", "ranges", "sym", "nearest", "cosmo_factor", "fstr", "tuple", "list", "poly")

    def fact(self, t):
        if not isinstance(t, Term):
            return None
        r = self.facts.get(t.key())
        if r is None and t.op == "is":
            a, b = t.args
            if a is None:
                a, b = b, a
            if b is None and isinstance(a, Term) and a.op in self.NEVER_NONE:
                return False
        return r

    # -------------------------------------------------------- intercepted
    def vals(self, env, names):
        return [env.get(n) for n in names]

    def fn(self, key):
        mod, q = key.split(":")
        v = self.it.get_mod(mod).env.vars
        f = None
        for part in q.split("."):
            f = v[part] if f is None else f.ns[part]
        return f

    def bound(self, key, a, k, n):
        f = self.fn(key)
        env = self.it.bind(f, list(a), k, n)
        return [env[x.arg] for x in f.node.args.args]

    def read_ranges(self, i, a, k, n):
        f = self.fn(RANGES)
        env = i.bind(f, list(a), k, n)
        h = env["handle"]
        path = h.attrs.get("_path") if isinstance(h, Inst) else h
        if isinstance(h, Inst) and "file" in h.attrs:
            i.call(i.getattr(h.attrs["file"], "_touch"), ["read", path, "ranges"], {}, n)
        cols = env["columns"]
        return T("ranges", path, env["ranges"], self.canon_shape(env["output_shape"]), env["output_type"], None if self.h5.whole(cols) else h5.sl(cols))

    def canon_shape(self, s):
        if isinstance(s, (tuple, list)):
            l = [x for x in s]
        elif isinstance(s, Term) and s.op == "tuple":
            l = list(s.args)
        else:
            l = [s]
        return tuple(l)

    def make_array(self, c, a, k, n):
        cls = self.objects.env.vars[c]
        new = self.it.find_method(cls, "__new__")
        env = self.it.bind(new, [cls] + list(a), k, n)
        names = [x.arg for x in new.node.args.args + new.node.args.kwonlyargs]
        env = {x: env.get(x) for x in names}
        env.pop("cls", None)
        values = env.pop("input_array", None) if c == "cosmo_array" else env.pop("input_scalar", None)
        sf, se, cf = env.pop("scale_factor", None), env.pop("scale_exponent", None), env.pop("cosmo_factor", None)
        if cf is None and (sf is not None or se is not None):
            cf = T("cosmo_factor", tm.power(Ext("A"), se), sf)
        cf = self.canon_cf(cf)
        units = env.pop("units", None)
        drop = ("registry", "dtype", "bypass_validation")
        env = {x: v for x, v in env.items() if x not in drop}
        return T("array", c, tm.freeze(values), self.canon_unit(units), cf, tuple((x, tm.freeze(env[x])) for x in sorted(env)))

    def canon_cf(self, cf):
        if isinstance(cf, Term) and cf.op == "cosmo_factor":
            a = self.objects.env.vars.get("a")
            def rw(z):
                if a is not None and tm._key(z) == tm._key(a):
                    return Ext("A")
            return T("cosmo_factor", tm.subst(cf.args[0], rw), cf.args[1])
        return cf

    DIMLESS = ("unyt.dimensionless",)

    def canon_unit(self, u):
        def rw(z):
            if isinstance(z, Ext) and z.path in self.DIMLESS:
                return 1
            if isinstance(z, Term) and z.op == "call" and isinstance(z.args[0], Ext) and z.args[0].path in ("unyt.Unit", "unyt.unit_object.Unit") and len(z.args) == 2:
                return tm.subst(z.args[1], rw)
        return tm.subst(tm.freeze(u), rw) if u is not None else None

    def array_attr(self, o, name):
        if name in ("squeeze", "copy", "ravel", "flatten", "byteswap"):
            return PyFunc(lambda i, a, k, n: T("array", o.args[0], T("method", name, o.args[1], tuple(a)), *o.args[2:]), name)
        f = {"units": 2, "cosmo_factor": 3}.get(name)
        if f:
            return o.args[f]
        if name in ("comoving", "valid_transform", "compression", "name"):
            for kv in o.args[4].args:
                if kv.args[0] == name:
                    return kv.args[1]
        return NotImplemented

    def term_isinstance(self, v, names):
        if v.op == "array":
            mine = {v.args[0], "cosmo_array", "unyt_array", "ndarray", "object"}
            if v.args[0] == "cosmo_quantity":
                mine |= {"unyt_quantity"}
            return any(n in mine for n in names)
        if v.op == "sym" and len(v.args) > 1:
            ty = {"int": {"int", "Integral", "Number", "object", "Real"}, "str": {"str", "object"}, "float": {"float", "Real", "Number", "object"}}.get(v.args[1])
            if ty:
                return any(n in ty for n in names)
        return None

    # -------------------------------------------------------- programs
    def program(self, source):
        return self.it.client(source, "<program %d>" % id(source))

    def run(self, mod, name="run", args=(), limit=3000):
        def thunk(i):
            self.h5.reset()
            return i.call(mod.env.vars[name], list(args), {}, None)
        return self.it.explore(thunk, limit)


def arr(t):
    """fields of an opaque array term, or None"""
    if isinstance(t, Term) and t.op == "array":
        d = {"class": t.args[0], "values": t.args[1], "units": t.args[2], "cf": t.args[3]}
        for kv in t.args[4].args:
            k, v = kv.args
            d[k] = v
        return d
    return None

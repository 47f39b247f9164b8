"""Exact-shape array domain: numpy arrays of known shape whose elements are value-flow terms.

Every numpy operation in use on such arrays is computed elementwise on the terms; comparisons that decide
control flow or selection partition the trace (with infeasible partitions pruned by the linear domain).
"""
from fractions import Fraction
import itertools

from . import terms as tm
from .terms import Term, T, sym
from . import interp as ip
from .interp import Interp, PyFunc, Ext, Inst, PyRaise, AnalysisError, _BINOPS
import ast

_n = itertools.count()


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


class NA:
    __slots__ = ("store", "pos", "shape", "dtype", "label", "akey")

    def __init__(self, store, shape, dtype=None, pos=None, label=None):
        self.store = store
        self.pos = list(range(prod(shape))) if pos is None else pos
        self.shape = tuple(shape)
        self.dtype = dtype
        self.label = label
        self.akey = "NA%d" % next(_n)

    def vals(self):
        return [self.store[p] for p in self.pos]

    @property
    def size(self):
        return len(self.pos)

    def show(self):
        return "array%s" % ([tm.show(x) if isinstance(x, Term) else x for x in self.vals()],)

    def copy(self):
        return NA(self.vals(), self.shape, self.dtype, label=self.label)

    def tolist(self):
        def build(l, sh):
            if not sh:
                return l[0]
            n = prod(sh[1:])
            return [build(l[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])]
        return build(self.vals(), self.shape)


def mk(vals, shape=None, dtype=None, label=None):
    vals = list(vals)
    return NA(vals, (len(vals),) if shape is None else shape, dtype, label=label)


def err(name, *args, node=None):
    raise PyRaise(Inst(Ext("builtins." + name), {"args": args}), node)


def uninit():
    return T("uninit", next(_n))


def chained(f, g):
    if g is None:
        return f
    def h(it, args, kw, node):
        r = f(it, args, kw, node)
        return g(it, args, kw, node) if r is NotImplemented else r
    return h


class NInterp(Interp):
    """Interp with the exact-shape array domain"""
    whole_bools = False     # decide a compound condition as one, instead of literal by literal

    def decide(self, t, node=None):
        if self.whole_bools and isinstance(t, Term):
            neg = t.op == "not"
            g = t.args[0] if neg else t
            if isinstance(g, Term) and g.op == "and":
                k = g.key()
                if k not in self.memo:
                    v = self.fact(g) if self.fact else None
                    if v is None:
                        v = self.choose(2) == 0
                        self.guesses.append((g, v))
                    self.memo[k] = v
                    self.conds.append((g, v))
                return self.memo[k] != neg
        return super().decide(t, node)

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        for name, f in NP.items():
            self.models["numpy." + name] = chained(f, ip.EXT_MODELS.get("numpy." + name))

    # ------------------------------------------------------- conversion
    def tonp(self, v, deep=True):
        """NA for arrays, lists and tuples of known extent; scalars give a 0-d array; None if unknown"""
        if isinstance(v, NA):
            return v
        if isinstance(v, Term) and v.op in ("list", "tuple"):
            v = list(v.args)
        if isinstance(v, (list, tuple)):
            if any(isinstance(x, Term) and x.op in ("each", "splat") for x in v):
                return None
            subs = [self.tonp(x) for x in v]
            if any(s is None for s in subs):
                return None
            if not subs:
                return NA([], (0,), "float")
            sh = subs[0].shape
            if any(s.shape != sh for s in subs):
                err("ValueError", "inhomogeneous shape")
            d = [s.dtype for s in subs]
            return NA([x for s in subs for x in s.vals()], (len(subs),) + sh, d[0] if len(set(d)) == 1 else ("float" if set(d) == {"int", "float"} else None))
        if isinstance(v, Inst) and not isinstance(v.cls, Ext):
            l = self.iterate_list(v)
            if l is not None:
                return self.tonp(l)
            return None
        if isinstance(v, (int, float, Fraction, Term, str)) or v is None:
            return NA([v], (), "bool" if isinstance(v, bool) else "int" if isinstance(v, int) else "float" if isinstance(v, (float, Fraction)) else None)
        return None

    def arr(self, v, node=None):
        r = self.tonp(v)
        if r is None:
            raise AnalysisError("array operand of unknown extent: %s" % (tm.show(v)[:80],))
        return r

    def out(self, a):
        """0-d results are scalars"""
        return a.vals()[0] if a.shape == () else a

    def bcast(self, *arrs):
        n = max(len(a.shape) for a in arrs)
        shs = [(1,) * (n - len(a.shape)) + a.shape for a in arrs]
        sh = []
        for ds in zip(*shs):
            big = [d for d in ds if d != 1]
            if big and any(d != big[0] for d in big):
                err("ValueError", "operands could not be broadcast together")
            sh.append(big[0] if big else 1)
        res = []
        for a, s in zip(arrs, shs):
            st = []
            acc = 1
            for d in reversed(s):
                st.append(0 if d == 1 else acc)
                acc *= d
            st.reverse()
            v = a.vals()
            res.append([v[sum(i * k for i, k in zip(ix, st))] for ix in itertools.product(*[range(d) for d in sh])])
        return tuple(sh), res

    def elementwise(self, f, *arrs, dtype=None):
        sh, ls = self.bcast(*arrs)
        vals = [f(*xs) for xs in zip(*ls)]
        return self.out(NA(vals, sh, dtype))

    # ------------------------------------------------------- hooks
    def is_na(self, *v):
        return any(isinstance(x, NA) for x in v)

    def dt(self, op, a, b):
        d = {a.dtype, b.dtype}
        if op == "/":
            return "float"
        if d == {"int"}:
            return "int"
        if "float" in d:
            return "float"
        return next(iter(d)) if len(d) == 1 else None

    def binop(self, op, a, b, node=None):
        if self.is_na(a, b) and not (isinstance(a, Inst) or isinstance(b, Inst)):
            if op == "@":
                return NP["dot"](self, [a, b], {}, node)
            x, y = self.arr(a), self.arr(b)
            if op in "&|^" and "bool" in (x.dtype, y.dtype):
                f = {"&": tm.land, "|": tm.lor}.get(op)
                if f is None:
                    f = lambda p, q: self.truth(p) != self.truth(q)
                return self.elementwise(f, x, y, dtype="bool")
            g = super().binop
            return self.elementwise(lambda p, q: g(op, p, q, node), x, y, dtype=self.dt(op, x, y))
        return super().binop(op, a, b, node)

    def compare(self, op, a, b, node=None):
        if self.is_na(a, b) and op in ("==", "!=", "<", "<=", ">", ">=") and not (a is None or b is None or isinstance(a, Inst) or isinstance(b, Inst)):
            g = super().compare
            return self.elementwise(lambda p, q: g(op, p, q, node), self.arr(a), self.arr(b), dtype="bool")
        if self.is_na(a, b) and op in ("is", "is not"):
            return (a is b) == (op == "is")
        if op in ("in", "not in") and isinstance(b, NA):
            r = any(self.truth(super(NInterp, self).compare("==", x, a, node)) for x in b.vals())
            return r == (op == "in")
        return super().compare(op, a, b, node)

    def truth(self, v, node=None):
        if isinstance(v, NA):
            if v.size == 1:
                return self.truth(v.vals()[0], node)
            if v.size == 0:
                return False
            err("ValueError", "truth value of an array is ambiguous", node=node)
        return super().truth(v, node)

    def ev_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(v, NA):
            if isinstance(e.op, ast.Not):
                return not self.truth(v, e)
            if isinstance(e.op, ast.USub):
                return self.out(NA([tm.neg(x) if isinstance(x, Term) else -x for x in v.vals()], v.shape, v.dtype))
            if isinstance(e.op, ast.Invert):
                return self.out(NA([self.lnot(x) for x in v.vals()], v.shape, v.dtype))
            return v
        return super().ev_UnaryOp(e, fr)

    def lnot(self, x):
        return (not x) if isinstance(x, bool) else tm.lnot(x)

    def iterate_list(self, it):
        if isinstance(it, NA):
            if it.shape == ():
                err("TypeError", "iteration over a 0-d array")
            return [self.getitem(it, i, None) for i in range(it.shape[0])]
        return super().iterate_list(it)

    def bi_len(self, args, kw, node):
        if isinstance(args[0], NA):
            if args[0].shape == ():
                err("TypeError", "len() of unsized object", node=node)
            return args[0].shape[0]
        return super().bi_len(args, kw, node)

    def bi_int(self, args, kw, node):
        if args and isinstance(args[0], NA) and args[0].size == 1:
            args = [args[0].vals()[0]]
        return super().bi_int(args, kw, node)

    def bi_float(self, args, kw, node):
        if args and isinstance(args[0], NA) and args[0].size == 1:
            args = [args[0].vals()[0]]
        return super().bi_float(args, kw, node)

    def bi_bool(self, args, kw, node):
        if args and isinstance(args[0], NA):
            return self.truth(args[0], node)
        return super().bi_bool(args, kw, node)

    def isinstance(self, v, c, node=None):
        if isinstance(v, NA):
            names = set(self.class_names(c) or ()) if not isinstance(c, (tuple, list)) else set(n for x in c for n in (self.class_names(x) or ()))
            mine = {"ndarray", "object"}
            if v.label is not None:
                mine |= {"unyt_array", "cosmo_array"}
            return bool(mine & names)
        return super().isinstance(v, c, node)

    def index(self, i, n, node=None):
        """resolve one concrete integer index"""
        if isinstance(i, NA) and i.size == 1:
            i = i.vals()[0]
        if isinstance(i, Term):
            # a symbolic position in an array of known length: case split
            for k in range(n):
                if self.truth(tm.eq0(tm.sub(i, k)), node):
                    return k
            for k in range(1, n + 1):
                if self.truth(tm.eq0(tm.add(i, k)), node):
                    return n - k
            err("IndexError", "index out of bounds", node=node)
        if isinstance(i, bool) or not isinstance(i, int):
            raise AnalysisError("array index %r" % (i,))
        if i < -n or i >= n:
            err("IndexError", "index %s is out of bounds for axis with size %s" % (i, n), node=node)
        return i % n

    def bound(self, x, n, node=None):
        """a slice bound, clamped to 0..n"""
        if isinstance(x, Term):
            if self.truth(tm.gt0(tm.neg(x)), node):
                x = tm.add(x, n)
                if self.truth(tm.gt0(tm.neg(x)), node):
                    return 0
            for k in range(n):
                if self.truth(tm.eq0(tm.sub(x, k)), node):
                    return k
            return n
        return x

    def positions(self, i, n, node):
        """('int', k) | ('list', [k...]) positions along one axis"""
        if isinstance(i, Term) and i.op == "slice" or isinstance(i, slice):
            a = (i.start, i.stop, i.step) if isinstance(i, slice) else i.args
            a = tuple(self.bound(x, n, node) if k < 2 else x for k, x in enumerate(a))
            return "list", list(range(n))[slice(*a)]
        if isinstance(i, (list, tuple, NA)):
            x = self.arr(i)
            if len(x.shape) == 0:
                return "int", self.index(x.vals()[0], n, node)
            if len(x.shape) != 1:
                raise AnalysisError("index array of %d dimensions" % len(x.shape))
            if x.dtype == "bool" or x.size and all(isinstance(z, bool) for z in x.vals()):
                if x.size != n:
                    err("IndexError", "boolean index did not match indexed array", node=node)
                return "fancy", [k for k, z in enumerate(x.vals()) if self.truth(z, node)]
            return "fancy", [self.index(z, n, node) for z in x.vals()]
        return "int", self.index(i, n, node)

    def locate(self, b, i, node):
        """-> (shape, positions, view?) of b[i]"""
        ix = list(i) if isinstance(i, tuple) else [i]
        full = T("slice", None, None, None)
        if len(ix) == 1 and isinstance(ix[0], NA) and ix[0].dtype == "bool" and len(ix[0].shape) == len(b.shape) and len(b.shape) > 1:
            if ix[0].shape != b.shape:
                err("IndexError", "boolean index did not match")
            sel = [p for p, z in zip(b.pos, ix[0].vals()) if self.truth(z, node)]
            return (len(sel),), sel, False
        if Ellipsis in [x for x in ix if x is Ellipsis]:
            k = [j for j, x in enumerate(ix) if x is Ellipsis][0]
            have = len([x for x in ix if x is not None]) - 1
            ix = ix[:k] + [full] * (len(b.shape) - have) + ix[k + 1:]
        nax = len([x for x in ix if x is not None])
        if nax > len(b.shape):
            err("IndexError", "too many indices for array", node=node)
        ix += [full] * (len(b.shape) - nax)
        view = True
        axes = []
        ax = 0
        for x in ix:
            if x is None:
                axes.append(("new", None))
                continue
            k, p = self.positions(x, b.shape[ax], node)
            if k == "fancy":
                view = False
            axes.append((k, p))
            ax += 1
        nf = [k for k, _ in axes].count("fancy")
        strides = []
        acc = 1
        for d in reversed(b.shape):
            strides.append(acc)
            acc *= d
        strides.reverse()
        if nf > 1:
            raise AnalysisError("several index arrays")
        shape, lists = [], []
        for k, p in axes:
            if k == "new":
                shape.append(1)
                continue
            if k == "int":
                lists.append([p])
            else:
                shape.append(len(p))
                lists.append(p)
        pos = [b.pos[sum(q * s for q, s in zip(c, strides))] for c in itertools.product(*lists)]
        return tuple(shape), pos, view

    def getitem(self, b, i, node, quiet=False):
        if isinstance(b, NA):
            if isinstance(i, str):
                err("IndexError", "field access", node=node)
            shape, pos, view = self.locate(b, i, node)
            if shape == () and not (isinstance(i, tuple) and any(x is Ellipsis for x in i)) and i is not Ellipsis:
                return b.store[pos[0]]
            if view:
                return NA(b.store, shape, b.dtype, pos, b.label)
            return NA([b.store[p] for p in pos], shape, b.dtype, label=b.label)
        if isinstance(b, Ext) and b.path == "numpy.r_":
            return NP["concatenate"](self, [list(i) if isinstance(i, tuple) else [i]], {}, node)
        if isinstance(b, Term) and b.op == "sym" and len(b.args) > 1 and b.args[1] in ("int", "float"):
            err("TypeError", "object is not subscriptable", node=node)
        if isinstance(b, (list, tuple)) and not isinstance(i, (int, str)):
            if isinstance(i, NA) and i.size == 1:
                i = i.vals()[0]
            if isinstance(i, Term) and i.op != "slice" and not any(isinstance(x, Term) and x.op in ("each", "splat") for x in b):
                return b[self.index(i, len(b), node)]
        return super().getitem(b, i, node, quiet)

    def setitem(self, b, i, v, node):
        if isinstance(b, NA):
            shape, pos, _ = self.locate(b, i, node)
            x = self.arr(v)
            sh, (vals,) = self.bcast_to(x, shape, node)
            for p, z in zip(pos, vals):
                b.store[p] = z
            self.event("store", node, target=b, index=i, value=v, op="=")
            return
        return super().setitem(b, i, v, node)

    def bcast_to(self, x, shape, node):
        s = x.shape
        while len(s) > len(shape) and s[0] == 1:
            s = s[1:]
        x = NA(x.vals(), s, x.dtype)
        d = NA([0] * prod(shape), shape)
        sh, (vals, _) = self.bcast(x, d)
        if sh != tuple(shape):
            err("ValueError", "could not broadcast input array", node=node)
        return sh, (vals,)

    def st_AugAssign(self, st, fr):
        op = _BINOPS[type(st.op)]
        t = st.target
        cur = None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
        elif isinstance(t, ast.Attribute):
            cur = self.getattr(self.eval(t.value, fr), t.attr, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr)
            if isinstance(base, NA):
                i = self.eval_index(t.slice, fr)
                v = self.eval(st.value, fr)
                self.setitem(base, i, self.binop(op, self.getitem(base, i, st), v, st), st)
                return
        if isinstance(cur, NA):
            v = self.eval(st.value, fr)
            r = self.arr(self.binop(op, cur, v, st))
            if r.shape != cur.shape:
                err("ValueError", "non-broadcastable output operand", node=st)
            for p, z in zip(cur.pos, r.vals()):
                cur.store[p] = z
            self.event("inplace", st, op=op, target=cur, value=v, expr=t)
            if isinstance(t, ast.Attribute):
                self.setattr(self.eval(t.value, fr), t.attr, cur, st)
            return
        return super().st_AugAssign(st, fr)

    def getattr(self, o, name, node=None):
        if isinstance(o, NA):
            return self.na_attr(o, name, node)
        return super().getattr(o, name, node)

    def na_attr(self, o, name, node):
        if name == "shape":
            return o.shape
        if name == "ndim":
            return len(o.shape)
        if name == "size":
            return o.size
        if name == "T":
            return NP["transpose"](self, [o], {}, node)
        if name in ("value", "v", "d", "ndview", "view", "real"):
            if name == "view":
                return PyFunc(lambda i, a, k, n: NA(o.store, o.shape, o.dtype, o.pos), "view")
            return NA(o.store, o.shape, o.dtype, o.pos)
        if name == "flat":
            return NA(o.store, (o.size,), o.dtype, o.pos)
        if name == "dtype":
            return T("dtype", o.dtype) if o.dtype else T("dtype", o.akey)
        if o.label is not None and isinstance(o.label, dict) and name in o.label:
            return o.label[name]
        if name in ("to", "to_value", "to_comoving_value", "to_physical_value", "to_comoving", "to_physical") and o.label is not None:
            return PyFunc(lambda i, a, k, n: NA(o.vals(), o.shape, o.dtype, label=dict(o.label, converted=(name, tuple(a), tuple(sorted(k.items()))))), name)
        if name in ("convert_to_units", "convert_to_comoving", "convert_to_physical") and o.label is not None:
            def conv(i, a, k, n):
                o.label = dict(o.label, **({"units": a[0]} if a else {"comoving": name == "convert_to_comoving"}))
                return None
            return PyFunc(conv, name)
        if name in ("squeeze", "reshape", "ravel", "flatten", "copy", "astype", "sum", "min", "max", "mean", "any", "all", "transpose", "argsort", "dot", "cumsum", "prod", "nonzero", "take", "tolist", "item", "fill", "repeat", "round", "argmax", "argmin", "clip"):
            f = METHODS.get(name) or NP.get(name)
            if f is None:
                raise AnalysisError("ndarray.%s is not modelled" % name)
            return PyFunc(lambda i, a, k, n: f(self, [o] + list(a), k, n), name)
        if name.startswith("__"):
            err("AttributeError", name, node=node)
        raise AnalysisError("ndarray.%s is not modelled" % name)


NP = {}
METHODS = {}


def np_(*names):
    def d(f):
        for n in names:
            NP[n] = f
        return f
    return d


def me_(*names):
    def d(f):
        for n in names:
            METHODS[n] = f
        return f
    return d


def _known(it, args):
    return all(it.tonp(a) is not None for a in args)


@np_("array", "asarray", "asanyarray", "ascontiguousarray", "copy", "atleast_1d")
def _array(it, args, kw, node):
    x = it.tonp(args[0]) if args else None
    if x is None:
        return NotImplemented
    if x.shape == () and isinstance(args[0], Term) and not isinstance(args[0], NA):
        if args[0].op not in ("list", "tuple"):
            return NotImplemented
    d = kw.get("dtype", args[1] if len(args) > 1 else None)
    r = x.copy()
    r.dtype = dtname(d) or x.dtype
    return r


def dtname(d):
    if d is None:
        return None
    s = d.path if isinstance(d, Ext) else d.name if isinstance(d, ip.Builtin) else d if isinstance(d, str) else ""
    s = s.split(".")[-1]
    if isinstance(d, Term) and d.op == "call" and len(d.args) > 1:
        return dtname(d.args[1])
    if isinstance(d, Term) and d.op == "dtype":
        return d.args[0]
    if "int" in s:
        return "int"
    if "float" in s or "double" in s:
        return "float"
    if "bool" in s:
        return "bool"
    return None


def _alloc(kind):
    def f(it, args, kw, node):
        s = args[0] if args else kw.get("shape")
        if isinstance(s, NA):
            s = tuple(s.vals()) if s.shape else s.vals()[0]
        if isinstance(s, Term) and s.op in ("tuple", "list"):
            s = tuple(s.args)
        s = tuple(s) if isinstance(s, (list, tuple)) else (s,)
        if not all(isinstance(x, int) for x in s):
            return NotImplemented
        d = dtname(kw.get("dtype", args[1] if len(args) > 1 else None))
        n = prod(s)
        z = {"zeros": lambda: False if d == "bool" else 0, "ones": lambda: True if d == "bool" else 1, "empty": uninit}[kind]
        return NA([z() for _ in range(n)], s, d or "float")
    return f


for _k in ("zeros", "ones", "empty"):
    NP[_k] = _alloc(_k)


def _like(kind):
    def f(it, args, kw, node):
        x = it.tonp(args[0])
        if x is None:
            return NotImplemented
        d = dtname(kw.get("dtype")) or x.dtype
        z = {"zeros": lambda: False if d == "bool" else 0, "ones": lambda: True if d == "bool" else 1, "empty": uninit}[kind]
        return NA([z() for _ in range(x.size)], x.shape, d)
    return f


for _k in ("zeros", "ones", "empty"):
    NP[_k + "_like"] = _like(_k)


@np_("full")
def _full(it, args, kw, node):
    s = args[0]
    s = tuple(s) if isinstance(s, (list, tuple)) else (s,)
    if not all(isinstance(x, int) for x in s):
        return NotImplemented
    return NA([args[1]] * prod(s), s, "bool" if isinstance(args[1], bool) else None)


@np_("eye", "identity")
def _eye(it, args, kw, node):
    n = args[0]
    return NA([1 if i == j else 0 for i in range(n) for j in range(n)], (n, n), "float")


@np_("arange")
def _arange(it, args, kw, node):
    if not all(isinstance(x, int) for x in args):
        return NotImplemented
    return mk(range(*args), dtype="int")


@np_("diff")
def _diff(it, args, kw, node):
    x = it.tonp(args[0])
    if x is None or not x.shape:
        return NotImplemented
    ax = kw.get("axis", args[2] if len(args) > 2 else -1)
    if ax not in (-1, len(x.shape) - 1):
        return NotImplemented
    n = x.shape[-1]
    v = x.vals()
    rows = [v[k * n:(k + 1) * n] for k in range(prod(x.shape[:-1]))]
    out = [tm.sub(tm.freeze(b), tm.freeze(a)) for r in rows for a, b in zip(r, r[1:])]
    return NA(out, x.shape[:-1] + (max(n - 1, 0),), x.dtype)


def axis_red(it, x, axis, keep, f):
    v = x.vals()
    if axis is None:
        return f(v)
    axis = (axis,) if isinstance(axis, int) else tuple(axis)
    axis = tuple(a % len(x.shape) for a in axis)
    out = {}
    for ix, z in zip(itertools.product(*[range(d) for d in x.shape]), v):
        k = tuple(0 if j in axis else i for j, i in enumerate(ix))
        out.setdefault(k, []).append(z)
    if keep:
        return NA([f(l) for l in out.values()], tuple(1 if j in axis else d for j, d in enumerate(x.shape)), x.dtype)
    sh = tuple(d for j, d in enumerate(x.shape) if j not in axis)
    if not out:
        return NA([f([]) for _ in range(prod(sh))], sh, x.dtype)
    return it.out(NA([f(l) for l in out.values()], sh, x.dtype))


def reduction(f, name):
    def g(it, args, kw, node):
        x = it.tonp(args[0]) if args else None
        if x is None or (x.shape == () and isinstance(args[0], Term)):
            return NotImplemented
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        return axis_red(it, x, ax, kw.get("keepdims", False), lambda l: f(it, l, node))
    return g


def _sum(it, l, node):
    s = 0
    for z in l:
        if isinstance(z, Term) and z.op in ("gt0", "eq0", "not", "and"):
            z = it.truth(z, node)
        s = tm.add(s, tm.freeze(int(z) if isinstance(z, bool) else z))
    return s


def _mx(sign):
    def f(it, l, node):
        if not l:
            err("ValueError", "zero-size array to reduction operation", node=node)
        b = l[0]
        for z in l[1:]:
            if it.truth(Interp.compare(it, ">" if sign > 0 else "<", z, b, node), node):
                b = z
        return b
    return f


NP["sum"] = reduction(_sum, "sum")
NP["prod"] = reduction(lambda it, l, n: __import__("functools").reduce(lambda a, b: tm.mul(tm.freeze(a), tm.freeze(b)), l, 1), "prod")
NP["max"] = NP["amax"] = reduction(_mx(1), "max")
NP["min"] = NP["amin"] = reduction(_mx(-1), "min")
NP["any"] = reduction(lambda it, l, n: any_(it, l), "any")
NP["all"] = reduction(lambda it, l, n: all_(it, l), "all")
NP["mean"] = reduction(lambda it, l, n: tm.div(_sum(it, l, n), len(l)) if l else float("nan"), "mean")


def any_(it, l):
    r = False
    for z in l:
        if z is True:
            return True
        if isinstance(z, Term):
            if it.truth(z):
                return True
        elif z:
            return True
    return r


def all_(it, l):
    for z in l:
        if not it.truth(z):
            return False
    return True


@np_("cumsum")
def _cumsum(it, args, kw, node):
    x = it.tonp(args[0])
    if x is None or len(x.shape) != 1:
        return NotImplemented
    out, s = [], 0
    for z in x.vals():
        s = tm.add(s, tm.freeze(z))
        out.append(s)
    return mk(out, dtype=x.dtype)


def elem2(op, cmp=False):
    def f(it, args, kw, node):
        if not it.is_na(*args[:2]) and not any(isinstance(a, (list, tuple)) for a in args[:2]):
            return NotImplemented
        a, b = it.tonp(args[0]), it.tonp(args[1])
        if a is None or b is None:
            return NotImplemented
        r = it.compare(op, a, b, node) if cmp else it.binop(op, a, b, node)
        return r
    return f


for _n1, _o in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("floor_divide", "//"), ("mod", "%"), ("remainder", "%"), ("power", "**")):
    NP[_n1] = elem2(_o)
for _n1, _o in (("greater", ">"), ("less", "<"), ("greater_equal", ">="), ("less_equal", "<="), ("equal", "=="), ("not_equal", "!=")):
    NP[_n1] = elem2(_o, True)


def _logic(f):
    def g(it, args, kw, node):
        a, b = it.tonp(args[0]), it.tonp(args[1])
        if a is None or b is None:
            return NotImplemented
        return it.elementwise(lambda p, q: f(tm.freeze(p), tm.freeze(q)), a, b, dtype="bool")
    return g


NP["logical_and"] = _logic(tm.land)
NP["logical_or"] = _logic(tm.lor)
NP["logical_xor"] = _logic(lambda p, q: tm.lor(tm.land(p, tm.lnot(q)), tm.land(tm.lnot(p), q)))


@np_("logical_not", "invert")
def _lnot(it, args, kw, node):
    a = it.tonp(args[0])
    if a is None:
        return NotImplemented
    return it.elementwise(lambda p: it.lnot(p), a, dtype="bool")


def _logreduce(f):
    def g(it, args, kw, node):
        l = it.iterate_list(args[0])
        if l is None:
            return NotImplemented
        ls = [it.tonp(x) for x in l]
        if any(x is None for x in ls):
            return NotImplemented
        if not ls:
            return f is tm.land
        r = ls[0]
        for x in ls[1:]:
            r = it.arr(it.elementwise(lambda p, q: f(tm.freeze(p), tm.freeze(q)), r, x, dtype="bool"))
        if len(ls) == 1 and r.shape == ():
            return r.vals()[0]
        return it.out(r)
    return g


NP["logical_or.reduce"] = _logreduce(tm.lor)
NP["logical_and.reduce"] = _logreduce(tm.land)


def unary(g):
    def f(it, args, kw, node):
        if not isinstance(args[0], (NA, list, tuple)):
            return NotImplemented
        a = it.tonp(args[0])
        if a is None:
            return NotImplemented
        return it.elementwise(g, a, dtype=a.dtype)
    return f


for _n1 in ("abs", "absolute", "fabs"):
    NP[_n1] = unary(lambda z: ip.tabs(z) if isinstance(z, Term) else abs(z))
for _n1 in ("sqrt", "floor", "ceil", "cos", "sin", "tan", "exp", "log", "log10", "isfinite", "isnan", "arccos", "arcsin", "rint"):
    NP[_n1] = unary(lambda z, _n1=_n1: tm.power(z, Fraction(1, 2)) if _n1 == "sqrt" else T("call", Ext("numpy." + _n1), tm.freeze(z)))
NP["negative"] = unary(lambda z: tm.neg(z) if isinstance(z, Term) else -z)


def _mm(sign):
    def f(it, args, kw, node):
        if not it.is_na(*args[:2]):
            return NotImplemented
        w = "max" if sign > 0 else "min"
        return it.elementwise(lambda p, q: tm.minmax(w, [tm.freeze(p), tm.freeze(q)]), it.arr(args[0]), it.arr(args[1]))
    return f


NP["maximum"], NP["minimum"] = _mm(1), _mm(-1)


@np_("where")
def _where(it, args, kw, node):
    c = it.tonp(args[0])
    if c is None:
        return NotImplemented
    if len(args) == 1:
        if len(c.shape) != 1:
            return NotImplemented
        return (mk([k for k, z in enumerate(c.vals()) if it.truth(z, node)], dtype="int"),)
    a, b = it.tonp(args[1]), it.tonp(args[2])
    if a is None or b is None:
        return NotImplemented
    return it.elementwise(lambda q, x, y: ite(it, q, x, y, node), c, a, b, dtype=it.dt("+", a, b))


def ite(it, q, x, y, node=None):
    if not isinstance(q, Term) or not all(isinstance(z, (Term, int, float, Fraction)) and not isinstance(z, bool) for z in (x, y)):
        return x if it.truth(q, node) else y
    x, y = tm.freeze(x), tm.freeze(y)
    neg = q.op == "not"
    g = q.args[0] if neg else q
    if isinstance(g, Term) and g.op == "gt0":
        d = tm.sub(y, x)
        # x < y (or not x > y) picks x: the smaller one
        if tm.gt0(d) == g and not neg or tm.gt0(tm.neg(d)) == g and neg:
            return tm.minmax("min", [x, y])
        if tm.gt0(tm.neg(d)) == g and not neg or tm.gt0(d) == g and neg:
            return tm.minmax("max", [x, y])
    return T("ite", q, x, y)


@np_("nonzero")
def _nonzero(it, args, kw, node):
    return _where(it, args[:1], kw, node)


@np_("flatnonzero")
def _fnz(it, args, kw, node):
    r = _where(it, args[:1], kw, node)
    return r if r is NotImplemented else r[0]


@np_("count_nonzero")
def _cnz(it, args, kw, node):
    c = it.tonp(args[0])
    if c is None:
        return NotImplemented
    return sum(1 for z in c.vals() if it.truth(z, node))


def order(it, v, node=None):
    idx = []
    for k in range(len(v)):
        j = len(idx)
        while j > 0 and it.truth(Interp.compare(it, "<", v[k], v[idx[j - 1]], node), node):
            j -= 1
        idx.insert(j, k)
    return idx


@np_("argsort")
def _argsort(it, args, kw, node):
    x = it.tonp(args[0])
    if x is None or len(x.shape) != 1:
        return NotImplemented
    return mk(order(it, x.vals(), node), dtype="int")


@np_("lexsort")
def _lexsort(it, args, kw, node):
    if kw or len(args) != 1:
        return NotImplemented
    ks = [it.tonp(x) for x in it.iterate_list(args[0])]
    if not ks or any(x is None or len(x.shape) != 1 for x in ks):
        return NotImplemented
    cols = [x.vals() for x in reversed(ks)]
    lt = lambda x, y: it.truth(Interp.compare(it, "<", x, y, node), node)
    def less(i, j):
        for v in cols:
            if lt(v[i], v[j]):
                return True
            if lt(v[j], v[i]):
                return False
        return False
    idx = []
    for k in range(len(cols[0])):
        j = len(idx)
        while j > 0 and less(k, idx[j - 1]):
            j -= 1
        idx.insert(j, k)
    return mk(idx, dtype="int")


@np_("sort")
def _sort(it, args, kw, node):
    x = it.tonp(args[0])
    if x is None or len(x.shape) != 1:
        return NotImplemented
    v = x.vals()
    return mk([v[k] for k in order(it, v, node)], dtype=x.dtype)


@np_("unique")
def _unique(it, args, kw, node):
    x = it.tonp(args[0])
    if x is None or kw or len(args) > 1:
        return NotImplemented
    v = x.vals()
    out = []
    for k in order(it, v, node):
        if not out or not it.truth(Interp.compare(it, "==", v[k], out[-1], node), node):
            out.append(v[k])
    return mk(out, dtype=x.dtype)


@np_("searchsorted")
def _searchsorted(it, args, kw, node):
    a, v = it.tonp(args[0]), it.tonp(args[1])
    if a is None or v is None or len(a.shape) != 1:
        return NotImplemented
    side = kw.get("side", args[2] if len(args) > 2 else "left")
    def f(x):
        n = 0
        for z in a.vals():
            if it.truth(Interp.compare(it, "<=" if side == "right" else "<", z, x, node), node):
                n += 1
            else:
                break
        return n
    return it.elementwise(f, v, dtype="int")


@np_("concatenate", "hstack")
def _concat(it, args, kw, node):
    l = it.iterate_list(args[0])
    if l is None:
        return NotImplemented
    ls = [it.tonp(x) for x in l]
    if any(x is None for x in ls) or not ls:
        return NotImplemented
    ax = kw.get("axis", args[1] if len(args) > 1 else 0)
    ls = [NA(x.vals(), (1,), x.dtype) if x.shape == () else x for x in ls]
    nd = len(ls[0].shape)
    if ax % nd:
        return NotImplemented
    if any(x.shape[1:] != ls[0].shape[1:] for x in ls):
        err("ValueError", "all the input array dimensions must match", node=node)
    return NA([z for x in ls for z in x.vals()], (sum(x.shape[0] for x in ls),) + ls[0].shape[1:], ls[0].dtype)


@np_("vstack", "stack", "row_stack")
def _vstack(it, args, kw, node):
    l = it.iterate_list(args[0])
    if l is None:
        return NotImplemented
    ls = [it.tonp(x) for x in l]
    if any(x is None for x in ls) or not ls or kw.get("axis", 0) or any(len(x.shape) != 1 for x in ls):
        return NotImplemented
    if any(x.shape != ls[0].shape for x in ls):
        err("ValueError", "dimensions must match", node=node)
    return NA([z for x in ls for z in x.vals()], (len(ls),) + ls[0].shape, ls[0].dtype)


@np_("column_stack")
def _cstack(it, args, kw, node):
    r = _vstack(it, args, {}, node)
    return r if r is NotImplemented else _transpose(it, [r], {}, node)


@np_("transpose")
def _transpose(it, args, kw, node):
    x = it.tonp(args[0])
    if x is None:
        return NotImplemented
    if len(x.shape) < 2:
        return x
    if len(x.shape) > 2:
        return NotImplemented
    r, c = x.shape
    return NA(x.store, (c, r), x.dtype, [x.pos[i * c + j] for j in range(c) for i in range(r)], x.label)


@np_("dot", "matmul")
def _dot(it, args, kw, node):
    a, b = it.tonp(args[0]), it.tonp(args[1])
    if a is None or b is None:
        return NotImplemented
    if a.shape == () or b.shape == ():
        return it.binop("*", a, b, node)
    A = a if len(a.shape) == 2 else NA(a.vals(), (1, a.size), a.dtype)
    B = b if len(b.shape) == 2 else NA(b.vals(), (b.size, 1), b.dtype)
    if len(A.shape) != 2 or len(B.shape) != 2:
        return NotImplemented
    n, m = A.shape
    m2, p = B.shape
    if m != m2:
        err("ValueError", "shapes not aligned", node=node)
    av, bv = A.vals(), B.vals()
    out = []
    for i in range(n):
        for j in range(p):
            s = 0
            for k in range(m):
                s = tm.add(s, tm.mul(tm.freeze(av[i * m + k]), tm.freeze(bv[k * p + j])))
            out.append(s)
    sh = ((n,) if len(a.shape) == 2 else ()) + ((p,) if len(b.shape) == 2 else ())
    return it.out(NA(out, sh, "float"))


@np_("split", "array_split")
def _split(it, args, kw, node):
    x = it.tonp(args[0])
    cuts = it.tonp(args[1])
    if x is None or cuts is None or len(cuts.shape) != 1:
        return NotImplemented
    out = []
    lo = 0
    for c in cuts.vals() + [None]:
        out.append(it.getitem(x, T("slice", lo, c, None), node))
        lo = c
    return out


@np_("take")
def _take(it, args, kw, node):
    x, i = it.tonp(args[0]), it.tonp(args[1])
    ax = kw.get("axis", args[2] if len(args) > 2 else None)
    if x is None or i is None or (ax not in (0, None)) or (ax is None and len(x.shape) > 1):
        return NotImplemented
    return it.getitem(x, i, node)


@np_("repeat")
def _repeat(it, args, kw, node):
    x = it.tonp(args[0])
    if x is None or not isinstance(args[1], int):
        return NotImplemented
    return mk([z for z in x.vals() for _ in range(args[1])], dtype=x.dtype)


@me_("astype")
def _astype(it, args, kw, node):
    r = args[0].copy()
    r.dtype = dtname(args[1] if len(args) > 1 else kw.get("dtype")) or r.dtype
    return r


@me_("reshape")
def _reshape(it, args, kw, node):
    x = args[0]
    s = args[1] if len(args) == 2 and isinstance(args[1], (tuple, list)) else tuple(args[1:])
    s = [z for z in s]
    if not all(isinstance(z, int) for z in s):
        return NotImplemented
    if -1 in s:
        k = prod([z for z in s if z != -1])
        s[s.index(-1)] = x.size // k if k else 0
    if prod(s) != x.size:
        err("ValueError", "cannot reshape", node=node)
    return NA(x.store, tuple(s), x.dtype, x.pos, x.label)


@np_("reshape")
def _npreshape(it, args, kw, node):
    x = it.tonp(args[0])
    return NotImplemented if x is None else _reshape(it, [x] + list(args[1:]), kw, node)


@me_("squeeze")
def _squeeze(it, args, kw, node):
    x = args[0]
    return NA(x.store, tuple(d for d in x.shape if d != 1), x.dtype, x.pos, x.label)


@me_("ravel", "flatten")
def _ravel(it, args, kw, node):
    x = args[0].copy()
    x.shape = (x.size,)
    return x


METHODS["copy"] = lambda it, a, k, n: a[0].copy()
METHODS["tolist"] = lambda it, a, k, n: a[0].tolist()
METHODS["item"] = lambda it, a, k, n: a[0].vals()[a[1] if len(a) > 1 else 0]


@me_("fill")
def _fill(it, args, kw, node):
    for p in args[0].pos:
        args[0].store[p] = args[1]


def atoms_of(t):
    """symbols a linear condition speaks about"""
    out = set()
    for x in tm.walk(t):
        if isinstance(x, Term) and x.op in ("sym", "loop", "phi", "attr0"):
            out.add(x.key())
    return out


def feasibility(it, base=(), integer=(), positive=(), nonneg=(), extra=None, light=False):
    """prune infeasible trace partitions: a fact function deciding linear comparisons against the path so far"""
    from .lin import Facts
    cache = {}
    base = list(base)
    kw = dict(positive=positive, integer=integer, nonneg=nonneg)
    at = {}
    OPS = ("gt0", "eq0", "not", "and")

    def atoms(t):
        k = t.key()
        if k not in at:
            at[k] = atoms_of(t)
        return at[k]

    def facts(conds, about=None):
        l = [(t, True) for t in base] + [(c, v) for c, v in conds if isinstance(c, (Term, bool))]
        if about is not None:
            # only the conditions connected with the question
            seen = set(atoms(about))
            rest, use = [(t, v) for t, v in l if isinstance(t, Term)], []
            more = True
            while more:
                more = False
                keep = []
                for t, v in rest:
                    if atoms(t) & seen:
                        seen |= atoms(t)
                        use.append((t, v))
                        more = True
                    else:
                        keep.append((t, v))
                rest = keep
            l = use
        f = Facts(**kw)
        for t, v in l:
            f.add(t, v)
        return f

    def fact(t):
        if extra is not None:
            r = extra(t)
            if r is not None:
                return r
        if not isinstance(t, Term) or t.op not in OPS:
            return None
        conds = [(c, v) for c, v in it.conds if isinstance(c, Term) and c.op in OPS]
        k = (t.key(), tuple((c.key(), v) for c, v in conds))
        if k not in cache:
            f = facts(conds, t)
            if light:
                f.cases = []
            cache[k] = False if f.unsat([(t, True)]) else True if f.unsat([(t, False)]) else None
        return cache[k]

    fact.facts = facts
    it.fact = fact
    return facts

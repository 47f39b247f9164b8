"""Path-sensitive abstract interpreter (trace-partitioned dataflow) over the Python AST.

The source under analysis is parsed, never imported or executed: every value is an
abstract value (a canonical value-flow Term, an abstract instance, a known constant, or a
container of those).  A condition whose value the abstract state does not determine
partitions the trace; each partition is analysed to its end.  Repository helpers are
analysed inline through the resolved call graph, so moving code into a helper, renaming
locals or reordering independent statements leaves the computed facts unchanged.
"""
import time
import ast
import builtins as _bi
import os
import sys
from fractions import Fraction

from . import terms as tm
from .terms import Term, T, sym

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """The analysis itself cannot proceed (vanished anchor, path explosion...)."""


# ------------------------------------------------------------------ values
class Ext:
    """An object defined outside the repository, known by canonical dotted path."""

    __slots__ = ("path",)
    _c = {}

    def __new__(cls, path):
        o = cls._c.get(path)
        if o is None:
            o = object.__new__(cls)
            o.path = path
            cls._c[path] = o
        return o

    @property
    def akey(self):
        return "ext:" + self.path

    def show(self):
        return self.path

    def __repr__(self):
        return self.path


class Env:
    __slots__ = ("vars", "parent", "globals_decl", "nonlocal_decl")

    def __init__(self, parent=None):
        self.vars = {}
        self.parent = parent
        self.globals_decl = set()
        self.nonlocal_decl = set()


class Fn:
    def __init__(self, node, mod, env, qual, owner=None):
        self.node = node
        self.mod = mod
        self.env = env
        self.qual = qual
        self.owner = owner
        self.defaults = []
        self.kwdefaults = {}
        self.attrs = {}
        self.is_gen = None

    @property
    def name(self):
        return self.qual.split(".")[-1]

    @property
    def akey(self):
        return "fn:" + self.mod.name + ":" + self.qual + "@%x" % id(self)

    def show(self):
        return "<fn %s:%s>" % (self.mod.name, self.qual)

    __repr__ = show


class Bound:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_

    @property
    def akey(self):
        return "bound:" + tm._key(self.fn) + "/" + tm._key(self.self)

    def show(self):
        return "<bound %s of %s>" % (tm.show(self.fn), tm.show(self.self))

    __repr__ = show


class Cls:
    def __init__(self, name, mod, bases, ns):
        self.name = name
        self.mod = mod
        self.bases = bases
        self.ns = ns
        self.qual = name

    @property
    def akey(self):
        return "cls:%s@%x" % (self.name, id(self))

    def mro(self):
        # simple C3-free linearisation good enough for this code base: DFS, keep last
        out = []

        def rec(c):
            out.append(c)
            if isinstance(c, Cls):
                for b in c.bases:
                    rec(b)
            elif isinstance(c, Ext):
                for b in EXT_BASES.get(c.path.split(".")[-1], ()):
                    rec(Ext(b))

        rec(self)
        seen, res = set(), []
        for c in reversed(out):
            k = id(c)
            if k not in seen:
                seen.add(k)
                res.append(c)
        return res[::-1]

    def mro_names(self):
        return [c.name if isinstance(c, Cls) else c.path.split(".")[-1] for c in self.mro()]

    def show(self):
        return "<class %s>" % self.name

    __repr__ = show


EXT_BASES = {
    "unyt_array": ("numpy.ndarray",),
    "unyt_quantity": ("unyt.unyt_array",),
}


class Inst:
    """Abstract instance of a repository (or external) class."""

    _n = 0

    def __init__(self, cls, attrs=None, label=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        Inst._n += 1
        self.uid = Inst._n
        self.label = label
        self.open = False  # open=True: unknown attributes are allowed (opaque)

    @property
    def akey(self):
        return "inst:%s#%s" % (self.label or clsname(self.cls), "" if self.label else self.uid)

    def show(self):
        return self.label or "<%s #%d>" % (clsname(self.cls), self.uid)

    __repr__ = show


def clsname(c):
    return c.name if isinstance(c, Cls) else c.path.split(".")[-1]


class Mod:
    def __init__(self, name, path, project):
        self.name = name
        self.path = path
        self.project = project
        self.tree = None
        self.env = None
        self.state = 0

    @property
    def akey(self):
        return "mod:" + self.name

    def show(self):
        return "<module %s>" % self.name

    __repr__ = show


class Builtin:
    def __init__(self, name):
        self.name = name

    @property
    def akey(self):
        return "bi:" + self.name

    def show(self):
        return self.name

    __repr__ = show


class NativeMethod:
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    @property
    def akey(self):
        return "nm:" + tm._key(self.obj) + "." + self.name


class Property:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class Super:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    @property
    def akey(self):
        return "partial:" + tm._key(self.fn) + tm._key(self.args) + tm._key(self.kwargs)


class PyFunc:
    """A model: python callable(interp, args, kwargs, node) -> abstract value."""

    def __init__(self, f, name="model"):
        self.f = f
        self.name = name

    @property
    def akey(self):
        return "py:" + self.name


class CtxGen:
    """the context manager made by calling a @contextmanager generator"""

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    @property
    def akey(self):
        return "ctxgen:%s" % id(self)

    def show(self):
        return "<%s()>" % self.fn.qual


class AList(list):
    """A list object with identity (python list semantics)."""


# ------------------------------------------------------------------ control
class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class PyRaise(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, val, node=None, where=None):
        self.val = val
        self.node = node
        self.where = where

    @property
    def name(self):
        v = self.val
        if isinstance(v, Inst):
            return clsname(v.cls)
        if isinstance(v, (Cls, Ext)):
            return clsname(v)
        if isinstance(v, Builtin):
            return v.name
        if isinstance(v, Term) and v.op == "call":
            return str(v.args[0]).split(".")[-1]
        return str(v)


class _Stop(Exception):
    """Abandon the current trace (infeasible by assumption)."""


class Event:
    __slots__ = ("kind", "d", "node", "fn", "mod", "guards", "loops", "seq", "stack")

    def __init__(self, kind, d, node, fn, mod, guards, loops, seq, stack=()):
        self.kind, self.d, self.node = kind, d, node
        self.fn, self.mod = fn, mod
        self.guards, self.loops, self.seq = guards, loops, seq
        self.stack = stack

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    @property
    def where(self):
        return "%s:%s:%s" % (
            os.path.relpath(self.mod.path, self.mod.project.root) if self.mod else "?",
            getattr(self.node, "lineno", "?"),
            self.fn or "<module>",
        )

    def __repr__(self):
        return "<%s %s @%s>" % (self.kind, {k: tm.show(v) for k, v in self.d.items()}, self.where)


class Loop:
    def __init__(self, sym, kind, iterable=None, lo=None, hi=None, step=1, par=False):
        self.sym, self.kind, self.iterable = sym, kind, iterable
        self.lo, self.hi, self.step, self.par = lo, hi, step, par

    def __repr__(self):
        return "<loop %s %s [%s,%s) of %s>" % (
            self.sym, self.kind, tm.show(self.lo), tm.show(self.hi), tm.show(self.iterable))


class PathResult:
    def __init__(self):
        self.ret = None
        self.exc = None
        self.events = []
        self.conds = []
        self.decisions = []
        self.extra = None
        self.heap = {}

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


# ------------------------------------------------------------------ project
class Project:
    def __init__(self, root, package="swiftsimio"):
        self.root = root
        self.package = package
        self.mods = {}
        self.files = {}
        for dp, dn, fns in os.walk(os.path.join(root, package)):
            dn[:] = [d for d in dn if d != "__pycache__"]
            for f in fns:
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.files[rel] = p

    def mod(self, name):
        m = self.mods.get(name)
        if m is None:
            if name not in self.files:
                return None
            m = Mod(name, self.files[name], self)
            with open(m.path) as fh:
                try:
                    m.tree = ast.parse(fh.read(), m.path)
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (m.path, e))
            m.ispkg = m.path.endswith("__init__.py")
            self.mods[name] = m
        return m


_CANON = {
    "np": "numpy",
}


def canon_ext(path):
    if path.startswith("unyt.array.") or path.startswith("unyt.unit_object."):
        path = "unyt." + path.split(".")[-1]
    if path.startswith("numpy._core.umath."):
        path = "numpy." + path.split(".")[-1]
    if path.startswith("numpy.core.umath."):
        path = "numpy." + path.split(".")[-1]
    if path.startswith("numba.") and path.split(".")[-1] in ("jit", "prange", "njit"):
        path = "numba." + path.split(".")[-1]
    return path


BUILTIN_NAMES = {n for n in dir(_bi)}
EXC_NAMES = {
    n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)
}

_BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|",
    ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
}
_DUNDER = {
    "+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod",
    "**": "pow", "@": "matmul", "&": "and", "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift",
}
_CMPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
    ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}
_CMPDUNDER = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
_CMPSWAP = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}

INT_CASTS = {"int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "intp", "uint", "intc"}
FLOAT_CASTS = {"float", "float16", "float32", "float64", "float_", "double", "single", "longdouble"}


def is_const(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, Fraction, complex)) or v is Ellipsis


def is_native(v):
    return isinstance(v, (list, tuple, dict, set, frozenset))


class Interp:
    def __init__(self, project, max_paths=4000, max_depth=60, fork_raise=False):
        self.project = project
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.unroll = 64        # longest constant range that is unrolled
        self.fork_raise = fork_raise
        self.models = {}        # dotted path of Ext -> f(interp,args,kwargs,node)
        self.meth_models = {}   # method name on Term/ext receiver -> f(interp,recv,args,kwargs,node)
        self.attr_models = {}   # attr name on Term -> f(interp, base, node) -> value or NotImplemented
        self.fn_models = {}     # 'module:qualname' -> f(interp,args,kwargs,node) or NotImplemented
        self.inst_ext_attr = None   # f(interp, inst, name, node)
        self.inst_ext_binop = None  # f(interp, op, a, b, node)
        self.fact = None        # f(term) -> bool|None : scenario assumptions
        self.no_inline = set()  # quals never inlined
        self.on_call = None
        self.on_new = None
        self.record_calls = True
        self.stats = {"functions": set(), "stmts": 0, "calls": 0, "paths": 0, "unknown": 0}
        self._module_mode = 0
        self._reset([])

    # ---------------------------------------------------------------- paths
    def _reset(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.events = []
        self.memo = {}
        self.heap = {}
        self.conds = []
        self.guesses = []
        self.loops = []
        self.stack = []
        self.seq = 0
        self.nloop = 0
        self.nfresh = 0
        self.try_depth = 0
        self.steps = 0
        self.scratch = {}

    def fresh(self, tag):
        self.nfresh += 1
        return sym("%s#%d" % (tag, self.nfresh))

    budget = 200
    deadline = None

    def explore(self, thunk, limit=None):
        """Run thunk(interp) over every trace partition. thunk rebuilds its inputs."""
        out = []
        work = [[]]
        limit = limit or self.max_paths
        self.deadline = time.monotonic() + self.budget
        total = 0
        while work:
            prefix = work.pop()
            self._reset(prefix)
            r = PathResult()
            try:
                r.ret = thunk(self)
            except PyRaise as e:
                r.exc = e
            except _Stop:
                r = None
            except RecursionError:
                raise AnalysisError("recursion limit in abstract interpretation")
            except (TypeError, KeyError, AttributeError, IndexError, ValueError, ArithmeticError, MemoryError) as e:
                if os.environ.get("SA_DEBUG"):
                    raise
                raise AnalysisError("%s in abstract interpretation: %s" % (type(e).__name__, e))
            for i in range(len(prefix), len(self.decisions)):
                c, n = self.decisions[i]
                for alt in range(c + 1, n):
                    work.append([d for d, _ in self.decisions[:i]] + [alt])
            self.stats["paths"] += 1
            if r is not None:
                r.events = self.events
                r.conds = self.conds
                r.guesses = self.guesses
                r.decisions = [d for d, _ in self.decisions]
                r.heap = self.heap
                r.extra = self.scratch
                out.append(r)
            total += len(self.events)
            if len(out) > limit:
                raise AnalysisError("more than %d trace partitions" % limit)
            if total > 6000000:
                raise AnalysisError("more than %d events" % total)
        self.deadline = None
        return out

    def choose(self, n):
        i = len(self.decisions)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.decisions.append((c, n))
        return c

    def event(self, kind, node, **d):
        if self._module_mode:
            return None
        fr = self.stack[-1] if self.stack else None
        self.seq += 1
        e = Event(kind, d, node, fr.fn.qual if fr else None, fr.fn.mod if fr else None,
                  tuple(self.conds), tuple(self.loops), self.seq,
                  tuple(f.fn.qual for f in self.stack))
        self.events.append(e)
        return e

    # ---------------------------------------------------------------- truth
    def truth(self, v, node=None):
        if v is None or v is Ellipsis:
            return v is Ellipsis
        if isinstance(v, (bool, int, float, str, bytes, Fraction, complex)):
            return bool(v)
        if isinstance(v, (list, tuple, dict, set, frozenset)):
            if len(v) == 0:
                return False
            return True
        if isinstance(v, Inst):
            m = self.find_method(v.cls, "__bool__")
            if isinstance(m, Fn):
                return self.truth(self.call(Bound(m, v), [], {}, node))
            m = self.find_method(v.cls, "__len__")
            if isinstance(m, Fn):
                return self.truth(self.call(Bound(m, v), [], {}, node))
            if not self.is_arraylike(v):
                return True
            return self.decide(T("truth", v), node)
        if isinstance(v, (Fn, Bound, Cls, Mod, Ext, Builtin, NativeMethod, Partial, PyFunc, Property)):
            return True
        if isinstance(v, Term):
            return self.decide(v, node)
        return True

    def decide(self, t, node=None):
        if isinstance(t, bool):
            return t
        if t.op == "not":
            return not self.decide_t(t.args[0], node)
        if t.op == "and":
            for a in t.args:
                if not self.decide_t(a, node):
                    return False
            return True
        return self.decide_t(t, node)

    def decide_t(self, t, node):
        if not isinstance(t, Term):
            return self.truth(t, node)
        if t.op in ("not", "and"):
            return self.decide(t, node)
        k = t.key()
        if k in self.memo:
            return self.memo[k]
        v = self.fact(t) if self.fact else None
        if v is None:
            v = self.implied(t)
        if v is None:
            if self._module_mode:
                return True
            v = self.choose(2) == 0
            self.guesses.append((t, v))
        self.memo[k] = v
        self.conds.append((t, v))
        return v

    def implied(self, t):
        """Cheap consequence checks among comparisons on the same polynomial."""
        if t.op in ("eq0", "gt0"):
            d = t.args[0]
            def known(x):
                return x if isinstance(x, bool) else self.memo.get(x.key())
            if t.op == "eq0":
                if known(tm.gt0(d)) or known(tm.gt0(tm.neg(d))):
                    return False
                return None
            if known(tm.eq0(d)) is True:
                return False
            if known(tm.gt0(tm.neg(d))) is True:
                return False
        if t.op == "is" and t.args[1] is None and isinstance(t.args[0], Term):
            # something with a known isinstance fact is not None
            for (c, val) in self.conds:
                if val and isinstance(c, Term) and c.op == "isinstance" and c.args[0] == t.args[0]:
                    return False
        return None

    # ---------------------------------------------------------------- modules
    def get_mod(self, name):
        m = self.project.mod(name)
        if m is None:
            return None
        if m.env is None:
            m.env = Env()
            m.env.vars["__name__"] = name
            m.env.vars["__file__"] = T("file", name)
            self._module_mode += 1
            saved = (self.stack, self.loops, self.try_depth)
            self.stack, self.loops, self.try_depth = [], [], 0
            fr = Frame(Fn(ast.parse("lambda: 0").body[0].value, m, m.env, "<module>"), m.env)
            self.stack.append(fr)
            try:
                for st in m.tree.body:
                    try:
                        self.exec_stmt(st, fr)
                    except PyRaise:
                        # a module-level failure on one statement: keep going, names unbound
                        pass
            finally:
                self.stack, self.loops, self.try_depth = saved
                self._module_mode -= 1
        return m

    def client(self, source, name="<client>"):
        """a module of ours that uses the library: interpreted like any other source"""
        import textwrap
        m = Mod(name, name, self.project)
        m.tree = ast.parse(textwrap.dedent(source))
        m.ispkg = False
        self.project.mods[name] = m
        return self.get_mod(name)

    def import_path(self, dotted):
        """value for `import a.b.c` leaf"""
        if dotted.split(".")[0] == self.project.package:
            m = self.get_mod(dotted)
            if m is not None:
                return m
            if "." in dotted:
                par, leaf = dotted.rsplit(".", 1)
                return self.getattr(self.import_path(par), leaf)
        return Ext(canon_ext(dotted))

    def mod_attr(self, m, name):
        if name in m.env.vars:
            return m.env.vars[name]
        sub = self.get_mod(m.name + "." + name)
        if sub is not None:
            return sub
        return None

    # ---------------------------------------------------------------- lookup
    def find_method(self, cls, name):
        if isinstance(cls, Cls):
            for c in cls.mro():
                if isinstance(c, Cls):
                    if name in c.ns:
                        return c.ns[name]
                elif isinstance(c, Ext) and c.path.split(".")[-1] not in ("object",):
                    if self.ext_has(c, name):
                        return Ext(c.path + "." + name)
        elif isinstance(cls, Ext):
            if self.ext_has(cls, name):
                return Ext(cls.path + "." + name)
        return None

    def ext_has(self, c, name):
        return False

    def is_arraylike(self, v):
        return isinstance(v, Inst) and any(
            n in ("ndarray", "unyt_array") for n in (v.cls.mro_names() if isinstance(v.cls, Cls) else [clsname(v.cls)] + [b.split(".")[-1] for b in EXT_BASES.get(clsname(v.cls), ())] )
        )

    def lookup(self, name, fr):
        e = fr.env
        if name in e.globals_decl:
            g = fr.fn.mod.env.vars
            if name in g:
                return g[name]
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        g = fr.fn.mod.env
        if g is not None and name in g.vars:
            return g.vars[name]
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        if name in BUILTIN_NAMES:
            return Builtin(name)
        raise PyRaise(Inst(Ext("builtins.NameError"), {"args": (name,)}))

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, node=None):
        if isinstance(o, Mod):
            if o.env is None:
                self.get_mod(o.name)
            v = self.mod_attr(o, name)
            if v is None and name not in o.env.vars:
                if o.state == 0 and name == "__version__":
                    return T("attr", o, name)
                raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)
            return v
        if isinstance(o, Ext):
            m = self.attr_models.get("ext:" + o.path + "." + name)
            if m:
                return m(self, o, node)
            return Ext(canon_ext(o.path + "." + name))
        if isinstance(o, Inst):
            return self.inst_getattr(o, name, node)
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro())
            if name == "__doc__":
                return None
            for c in o.mro():
                if isinstance(c, Cls) and name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, StaticM):
                        return v.fn
                    if isinstance(v, ClassM):
                        return Bound(v.fn, o)
                    return v
                if isinstance(c, Ext):
                    return Ext(c.path + "." + name)
            if name in ("__new__",):
                return Ext("builtins.object.__new__")
            raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)
        if isinstance(o, Super):
            return self.super_getattr(o, name, node)
        if isinstance(o, Property) and name in ("setter", "getter", "deleter"):
            def f(it, args, kw, n, o=o, name=name):
                p = Property(o.fget, o.fset, o.fdel)
                setattr(p, {"setter": "fset", "getter": "fget", "deleter": "fdel"}[name], args[0])
                return p
            return PyFunc(f, "property." + name)
        if isinstance(o, Property):
            return getattr(o, name, None)
        if isinstance(o, Fn):
            if name == "__name__":
                return o.attrs.get(name, o.name)
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__doc__", "__module__", "__qualname__"):
                return o.attrs.get(name, None)
            raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            return self.getattr(o.fn, name, node)
        if isinstance(o, Term):
            return self.term_getattr(o, name, node)
        if isinstance(o, (str, bytes, list, tuple, dict, set, frozenset, int, float, Fraction, complex)) or o is None:
            if isinstance(o, (str, bytes, list, tuple, dict, set, frozenset)) and hasattr(o, name):
                return NativeMethod(o, name)
            if isinstance(o, (int, float, Fraction)) and not isinstance(o, bool):
                if name in ("real",):
                    return o
                if name == "imag":
                    return 0
                if name in ("is_integer", "bit_length"):
                    return NativeMethod(o, name)
            if isinstance(o, (bool, int, float, Fraction)) and hasattr(float, name):
                return NativeMethod(o, name)
            raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)
        if isinstance(o, (Builtin, NativeMethod, Partial, PyFunc)):
            if isinstance(o, Partial) and name in ("func", "args", "keywords"):
                return {"func": o.fn, "args": o.args, "keywords": o.kwargs}[name]
            if name == "__name__":
                return getattr(o, "name", "f")
            if isinstance(o, Builtin):
                if o.name in ("dict", "list", "str", "object", "set", "tuple", "int", "float"):
                    return Ext("builtins.%s.%s" % (o.name, name))
            raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)
        raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)

    def term_getattr(self, o, name, node=None):
        k = (o.key(), name)
        if k in self.heap:
            return self.heap[k]
        m = self.attr_models.get(name)
        if m:
            r = m(self, o, node)
            if r is not NotImplemented:
                return r
        return T("attr", o, name)

    def super_getattr(self, s, name, node):
        o = s.self
        cls = o if isinstance(o, Cls) else getattr(o, "cls", None)
        mro = cls.mro() if isinstance(cls, Cls) else []
        idx = 0
        for i, c in enumerate(mro):
            if c is s.cls:
                idx = i + 1
        for c in mro[idx:]:
            if isinstance(c, Cls) and name in c.ns:
                v = c.ns[name]
                if isinstance(v, StaticM):
                    return v.fn
                if isinstance(v, ClassM):
                    return Bound(v.fn, cls)
                if isinstance(v, Property):
                    return self.call(v.fget, [o], {}, node)
                if name == "__new__":
                    return v
                if isinstance(v, (Fn, Ext, PyFunc)):
                    return Bound(v, o)
                return v
            if isinstance(c, Ext):
                e = Ext(c.path + "." + name)
                if name == "__new__":
                    return e
                if isinstance(o, Cls):
                    return Bound(e, o)
                return Bound(e, o)
        if name == "__new__":
            return Ext("builtins.object.__new__")
        if name in ("__init__", "__init_subclass__"):
            return PyFunc(lambda it, a, k, n: None, "object.__init__")
        raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)

    def inst_getattr(self, o, name, node=None):
        cls = o.cls
        # data descriptors first
        cv = None
        found = False
        if isinstance(cls, Cls):
            for c in cls.mro():
                if isinstance(c, Cls) and name in c.ns:
                    cv, found = c.ns[name], True
                    break
                if isinstance(c, Ext):
                    break
        if found and isinstance(cv, Property):
            if cv.fget is None:
                raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)
            return self.call(cv.fget, [o], {}, node)
        if name in o.attrs:
            return o.attrs[name]
        if found:
            if isinstance(cv, (Fn, PyFunc, Partial)):
                return Bound(cv, o)
            if isinstance(cv, Ext):
                return Bound(cv, o)
            if isinstance(cv, StaticM):
                return cv.fn
            if isinstance(cv, ClassM):
                return Bound(cv.fn, o.cls)
            return cv
        if name == "__class__":
            return cls
        if name == "__dict__":
            return o.attrs
        if name == "__doc__":
            return None
        if self.inst_ext_attr is not None:
            r = self.inst_ext_attr(self, o, name, node)
            if r is not NotImplemented:
                return r
        if isinstance(cls, Cls):
            ga = self.find_method(cls, "__getattr__")
            if isinstance(ga, Fn):
                return self.call(Bound(ga, o), [name], {}, node)
            for c in cls.mro():
                if isinstance(c, Ext) and c.path.split(".")[-1] not in ("object", "ABC", "Exception"):
                    if name.startswith("__") and name.endswith("__"):
                        return Bound(Ext(c.path + "." + name), o)
                    return T("attr", o, name)
        if isinstance(cls, Ext):
            if o.open or not isinstance(cls, Cls):
                if clsname(cls) in EXC_NAMES and name not in ("args",):
                    raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)
                return T("attr", o, name)
        if o.open:
            k = (o.akey, name)
            if k in self.heap:
                return self.heap[k]
            return T("attr", o, name)
        raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)

    def setattr(self, o, name, v, node=None):
        if isinstance(o, Inst):
            cls = o.cls
            if isinstance(cls, Cls):
                for c in cls.mro():
                    if isinstance(c, Cls):
                        if name in c.ns:
                            cv = c.ns[name]
                            if isinstance(cv, Property):
                                if cv.fset is None:
                                    raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)
                                self.call(cv.fset, [o, v], {}, node)
                                return
                            break
            self.event("setattr", node, obj=o, name=name, value=v)
            o.attrs[name] = v
            return
        if isinstance(o, Term):
            self.event("setattr", node, obj=o, name=name, value=v)
            self.heap[(o.key(), name)] = v
            return
        if isinstance(o, Cls):
            o.ns[name] = v
            return
        if isinstance(o, Fn):
            o.attrs[name] = v
            return
        if isinstance(o, Mod):
            o.env.vars[name] = v
            return
        self.event("setattr", node, obj=o, name=name, value=v)

    def delattr(self, o, name, node=None):
        if isinstance(o, Inst):
            if isinstance(o.cls, Cls):
                for c in o.cls.mro():
                    if isinstance(c, Cls) and name in c.ns and isinstance(c.ns[name], Property):
                        if c.ns[name].fdel is not None:
                            self.call(c.ns[name].fdel, [o], {}, node)
                            return
            self.event("delattr", node, obj=o, name=name)
            if name in o.attrs:
                del o.attrs[name]
            elif not o.open:
                raise PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (name,)}), node)
            return
        self.event("delattr", node, obj=o, name=name)

    def hasattr(self, o, name, node=None):
        if isinstance(o, Term):
            if (o.key(), name) in self.heap:
                return True
            if is_integral(o) and not hasattr(1, name):
                return False
            return T("hasattr", o, name)
        if isinstance(o, Inst) and o.open and name not in o.attrs:
            try:
                v = self.getattr(o, name, node)
            except PyRaise:
                return False
            if isinstance(v, Term) and v.op == "attr":
                return T("hasattr", o, name)
            return True
        try:
            v = self.getattr(o, name, node)
        except PyRaise as e:
            if e.name == "AttributeError":
                return False
            raise
        return True

    # ---------------------------------------------------------------- isinstance
    def class_names(self, c):
        if isinstance(c, tuple) or isinstance(c, list):
            out = []
            for x in c:
                r = self.class_names(x)
                if r is None:
                    return None
                out += r
            return out
        if isinstance(c, Cls):
            return [c]
        if isinstance(c, Ext):
            return [c.path.split(".")[-1]]
        if isinstance(c, Builtin):
            return [c.name]
        if c is None:
            return ["NoneType"]
        return None

    def native_types(self, v):
        if isinstance(v, bool):
            return {"bool", "int", "Number", "Integral", "Real", "Hashable", "object"}
        if isinstance(v, int):
            return {"int", "Number", "Integral", "Real", "Hashable", "object"}
        if isinstance(v, (float, Fraction)):
            return {"float", "Number", "Real", "Hashable", "object"}
        if isinstance(v, complex):
            return {"complex", "Number", "object"}
        if isinstance(v, str):
            return {"str", "Sequence", "Collection", "Iterable", "Sized", "Hashable", "object"}
        if isinstance(v, bytes):
            return {"bytes", "Sequence", "Collection", "Iterable", "object"}
        if isinstance(v, list):
            return {"list", "Sequence", "Collection", "Iterable", "MutableSequence", "Sized", "object"}
        if isinstance(v, tuple):
            return {"tuple", "Sequence", "Collection", "Iterable", "Sized", "Hashable", "object"}
        if isinstance(v, dict):
            return {"dict", "Mapping", "MutableMapping", "Collection", "Iterable", "Sized", "object"}
        if isinstance(v, (set, frozenset)):
            return {"set", "Collection", "Iterable", "Sized", "Set", "object"}
        if v is None:
            return {"NoneType", "object"}
        if isinstance(v, (Fn, Bound, PyFunc, Partial)):
            return {"Callable", "function", "FunctionType", "object"}
        if isinstance(v, (Cls,)):
            return {"type", "Callable", "object"}
        return None

    def isinstance(self, v, c, node=None):
        names = self.class_names(c)
        if isinstance(v, Term) or names is None:
            nm = tuple(sorted(x.name if isinstance(x, Cls) else x for x in names)) if names else (c,)
            if isinstance(v, Term):
                if v.op == "poly" or v.op in ("gt0", "eq0", "not", "and", "fstr", "list", "tuple", "dict"):
                    pass
                r = self.term_isinstance(v, nm)
                if r is not None:
                    return r
            return T("isinstance", v, *nm)
        if isinstance(v, Inst):
            cls = v.cls
            if isinstance(cls, Cls):
                mro = cls.mro()
                for n in names:
                    if isinstance(n, Cls):
                        if n in mro:
                            return True
                    elif n in cls.mro_names() or n == "object":
                        return True
                    elif n == "Iterable" and (self.is_arraylike(v) or self.find_method(cls, "__iter__")):
                        return True
                    elif n in ("Number",) and self.is_arraylike(v):
                        continue
                return False
            mine = {clsname(cls), "object"} | self._ext_supers(clsname(cls))
            for n in names:
                nn = n.name if isinstance(n, Cls) else n
                if isinstance(n, Cls):
                    continue
                if nn in mine:
                    return True
            return False
        if isinstance(v, Ext):
            return T("isinstance", v, *[x.name if isinstance(x, Cls) else x for x in names])
        nt = self.native_types(v)
        if nt is None:
            return False
        for n in names:
            if isinstance(n, Cls):
                continue
            if n in nt:
                return True
        return False

    def _ext_supers(self, n):
        out = set()
        for b in EXT_BASES.get(n, ()):
            bn = b.split(".")[-1]
            out.add(bn)
            out |= self._ext_supers(bn)
        if n in EXC_NAMES:
            out |= {k.__name__ for k in getattr(_bi, n).__mro__}
        return out

    def term_isinstance(self, v, names):
        return None

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs, node=None):
        self.stats["calls"] += 1
        if self.deadline is not None and not self.stats["calls"] & 255 and (time.monotonic() > self.deadline or len(self.events) > 3000000):
            raise AnalysisError("out of time after %d calls" % self.stats["calls"])
        if isinstance(f, Bound):
            return self.call_unbound(f.fn, [f.self] + list(args), kwargs, node, bound=True)
        return self.call_unbound(f, list(args), kwargs, node)

    def call_unbound(self, f, args, kwargs, node, bound=False):
        if isinstance(f, Fn):
            key = f.mod.name + ":" + f.qual
            m = self.fn_models.get(key) or self.fn_models.get(f.qual)
            if m is not None:
                r = m(self, args, kwargs, node)
                if r is not NotImplemented:
                    self.event("call", node, callee=f, name=f.qual, args=tuple(args), kwargs=dict(kwargs), result=r)
                    return r
            depth = sum(1 for s in self.stack if s.fn.node is f.node)
            if len(self.stack) > self.max_depth or depth > 4 or key in self.no_inline or f.qual in self.no_inline:
                r = self.mkcall(f, args, kwargs)
                self.event("call", node, callee=f, name=f.qual, args=tuple(args), kwargs=dict(kwargs), result=r)
                return r
            ev = self.event("call", node, callee=f, name=f.qual, args=tuple(args), kwargs=dict(kwargs), result=None)
            r = self.call_fn(f, args, kwargs, node)
            if ev is not None:
                ev.d["result"] = r
                self.event("ret", node, callee=f, name=f.qual, result=r, call=ev)
            return r
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs, node)
        if isinstance(f, Builtin):
            return self.call_builtin(f.name, args, kwargs, node)
        if isinstance(f, NativeMethod):
            return self.call_native(f.obj, f.name, args, kwargs, node)
        if isinstance(f, PyFunc):
            return f.f(self, args, kwargs, node)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + args, {**f.kwargs, **kwargs}, node)
        if isinstance(f, Bound):
            return self.call(f, args, kwargs, node)
        if isinstance(f, Inst):
            m = self.find_method(f.cls, "__call__")
            if isinstance(m, Fn):
                return self.call(Bound(m, f), args, kwargs, node)
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.fn, args, kwargs, node)
        if isinstance(f, Term):
            return self.call_term(f, args, kwargs, node)
        if f is None or is_const(f) or is_native(f):
            raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("not callable",)}), node)
        r = self.mkcall(f, args, kwargs)
        self.event("call", node, callee=f, name=tm.show(f), args=tuple(args), kwargs=dict(kwargs), result=r)
        return r

    def mkcall(self, f, args, kwargs):
        return T("call", f, *args, *[Term("kw", (k, tm.freeze(kwargs[k]))) for k in sorted(kwargs)])

    def maybe_raise(self, node):
        if self.fork_raise and self.try_depth and not self._module_mode:
            tr = self.stack_try[-1] if getattr(self, "stack_try", None) else None
            if tr is not None and tr["left"] > 0:
                n = len(tr["types"])
                if n:
                    c = self.choose(n + 1)
                    if c:
                        tr["left"] -= 1
                        self.event("implicit-raise", node, exc=tr["types"][c - 1])
                        raise PyRaise(Inst(Ext("builtins." + tr["types"][c - 1]), {"args": ()}), node)

    def call_ext(self, f, args, kwargs, node):
        m = self.models.get(f.path)
        if m is None:
            m = EXT_MODELS.get(f.path)
        last = f.path.split(".")[-1]
        if m is None and last in EXC_NAMES:
            return Inst(Ext("builtins." + last), {"args": tuple(args)})
        if m is not None:
            r = m(self, args, kwargs, node)
            if r is not NotImplemented:
                self.event("call", node, callee=f, name=f.path, args=tuple(args), kwargs=dict(kwargs), result=r)
                return r
        # unbound ext method on an Inst with a python-level dunder etc.
        self.maybe_raise(node)
        r = self.mkcall(f, args, kwargs)
        self.event("call", node, callee=f, name=f.path, args=tuple(args), kwargs=dict(kwargs), result=r)
        return r

    def call_term(self, f, args, kwargs, node):
        if f.op == "attr":
            recv, name = f.args
            m = self.meth_models.get(name)
            if m is None:
                m = METH_MODELS.get(name)
            if m is not None:
                r = m(self, recv, args, kwargs, node)
                if r is not NotImplemented:
                    self.event("call", node, callee=f, name="." + name, recv=recv, args=tuple(args), kwargs=dict(kwargs), result=r)
                    return r
            self.maybe_raise(node)
            r = self.mkcall(f, args, kwargs)
            self.event("call", node, callee=f, name="." + name, recv=recv, args=tuple(args), kwargs=dict(kwargs), result=r)
            return r
        m = self.models.get("*callterm")
        if m is not None:
            r = m(self, [f] + args, kwargs, node)
            if r is not NotImplemented:
                return r
        self.maybe_raise(node)
        r = self.mkcall(f, args, kwargs)
        self.event("call", node, callee=f, name=tm.show(f), args=tuple(args), kwargs=dict(kwargs), result=r)
        return r

    def instantiate(self, c, args, kwargs, node):
        key = c.mod.name + ":" + c.qual if c.mod else c.qual
        m = self.fn_models.get(key)
        if m is not None:
            r = m(self, args, kwargs, node)
            if r is not NotImplemented:
                self.event("call", node, callee=c, name=c.qual, args=tuple(args), kwargs=dict(kwargs), result=r)
                return r
        ev = self.event("call", node, callee=c, name=c.qual, args=tuple(args), kwargs=dict(kwargs), result=None)
        new = None
        for k in c.mro():
            if isinstance(k, Cls) and "__new__" in k.ns:
                new = k.ns["__new__"]
                break
        if new is not None:
            if isinstance(new, StaticM):
                new = new.fn
            o = self.call_unbound(new, [c] + args, kwargs, node)
        else:
            o = Inst(c)
            if self.on_new:
                self.on_new(self, o, args, kwargs, node)
        if isinstance(o, Inst):
            init = None
            for k in c.mro():
                if isinstance(k, Cls) and "__init__" in k.ns:
                    init = k.ns["__init__"]
                    break
                if isinstance(k, Ext):
                    break
            if init is not None and isinstance(o.cls, Cls) and c in o.cls.mro():
                self.call_unbound(init, [o] + args, kwargs, node)
            elif new is None and args and any(n in EXC_NAMES for n in c.mro_names()):
                o.attrs["args"] = tuple(args)
        if ev is not None:
            ev.d["result"] = o
            self.event("ret", node, callee=c, name=c.qual, result=o, call=ev)
        return o

    def bind(self, f, args, kwargs, node):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        args = list(args)
        stars = [x for x in args if isinstance(x, Term) and x.op == "star"]
        rest = []
        i = 0
        for v in args:
            if isinstance(v, Term) and v.op == "star":
                rest.append(v)
                continue
            if rest or i >= len(pos):
                rest.append(v)
            else:
                env[pos[i]] = v
                i += 1
        if rest:
            if a.vararg:
                env[a.vararg.arg] = tuple(rest) if not stars else T("tuple*", *rest)
                if stars and len(rest) == 1:
                    env[a.vararg.arg] = rest[0].args[0]
            elif stars:
                # unknown number of positionals: fill the remaining parameters opaquely
                j = 0
                for p in pos[i:]:
                    if p not in kwargs:
                        env[p] = T("idx", stars[0].args[0], j)
                        j += 1
                    else:
                        break
            else:
                raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("too many positional arguments for %s" % f.qual,)}), node)
        elif a.vararg:
            env[a.vararg.arg] = ()
        extra = {}
        for k, v in kwargs.items():
            if k == "**":
                extra["**"] = v
                continue
            if k in pos and k not in [x.arg for x in a.posonlyargs] or k in kwo:
                if k in env:
                    raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("multiple values for argument %s" % k,)}), node)
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = extra
        elif extra and "**" not in extra:
            raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("unexpected keyword %s for %s" % (sorted(extra), f.qual),)}), node)
        nd = len(f.defaults)
        for j, p in enumerate(pos):
            if p not in env:
                dj = j - (len(pos) - nd)
                if dj >= 0:
                    env[p] = f.defaults[dj]
                elif "**" in extra:
                    env[p] = T("idx", extra["**"], p)
                else:
                    raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("missing argument %s for %s" % (p, f.qual),)}), node)
        for p in kwo:
            if p not in env:
                if p in f.kwdefaults:
                    env[p] = f.kwdefaults[p]
                elif "**" in extra:
                    env[p] = T("idx", extra["**"], p)
                else:
                    raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("missing argument %s for %s" % (p, f.qual),)}), node)
        return env

    def call_fn(self, f, args, kwargs, node, on_yield=None):
        bound = self.bind(f, args, kwargs, node)
        env = Env(f.env)
        env.vars.update(bound)
        fr = Frame(f, env)
        fr.call_args = args
        if not self._module_mode:
            self.stats["functions"].add(f.mod.name + ":" + f.qual)
        self.stack.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if f.is_gen is None:
                f.is_gen = any(
                    isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node)
                )
            if f.is_gen:
                fr.yields = []
                if "contextmanager" in f.attrs.get("__decor__", ()) and on_yield is None:
                    return CtxGen(f, args, kwargs)
                fr.on_yield = on_yield
            try:
                self.exec_body(f.node.body, fr)
                r = None
            except _Return as e:
                r = e.v
            if f.is_gen:
                return fr.yields
            return r
        finally:
            self.stack.pop()

    # ---------------------------------------------------------------- statements
    def exec_body(self, body, fr):
        for st in body:
            self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        self.stats["stmts"] += 1
        self.steps += 1
        fr.at = st.lineno if hasattr(st, "lineno") else None
        if self.steps > 400000:
            raise AnalysisError("step budget exceeded in %s" % fr.fn.qual)
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            self.stats["unknown"] += 1
            return
        m(st, fr)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Return(self, st, fr):
        v = self.eval(st.value, fr) if st.value is not None else None
        self.event("return", st, value=v)
        raise _Return(v)

    def st_Break(self, st, fr):
        raise _Break()

    def st_Continue(self, st, fr):
        raise _Continue()

    def st_Global(self, st, fr):
        fr.env.globals_decl.update(st.names)

    def st_Nonlocal(self, st, fr):
        fr.env.nonlocal_decl.update(st.names)

    def st_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        op = _BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.eval(st.value, fr)
            if isinstance(cur, list) and op == "+":
                items = self.iterate_list(v)
                if items is not None:
                    cur.extend(items)
                else:
                    cur.append(T("splat", v))
                return
            if isinstance(cur, list) and op == "*" and isinstance(v, int):
                cur *= v
                return
            if isinstance(cur, dict) and op == "|" and isinstance(v, dict):
                cur.update(v)
                return
            if isinstance(cur, Term) or isinstance(cur, Inst):
                self.event("inplace", st, op=op, target=cur, value=v, expr=t, loops_=tuple(self.loops))
                r = self.inplace_model(op, cur, v, st)
                if r is not NotImplemented:
                    self.assign(t, r, fr)
                    return
            self.assign(t, self.binop(op, cur, v, st), fr)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, fr)
            cur = self.getattr(base, t.attr, t)
            v = self.eval(st.value, fr)
            if isinstance(cur, list) and op == "+" :
                items = self.iterate_list(v)
                cur.extend(items if items is not None else [T("splat", v)])
                return
            if isinstance(cur, (Term, Inst)):
                self.event("inplace", st, op=op, target=cur, value=v, expr=t)
                r = self.inplace_model(op, cur, v, st)
                if r is not NotImplemented:
                    self.setattr(base, t.attr, r, st)
                    return
            self.setattr(base, t.attr, self.binop(op, cur, v, st), st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            cur = self.getitem(base, idx, t, quiet=True)
            v = self.eval(st.value, fr)
            if isinstance(base, dict) or (isinstance(base, list) and isinstance(idx, int)):
                if isinstance(cur, list) and op == "+":
                    items = self.iterate_list(v)
                    cur.extend(items if items is not None else [T("splat", v)])
                    return
                self.setitem(base, idx, self.binop(op, cur, v, st), st)
                return
            self.event("store", st, target=base, index=idx, value=v, op=op)
            self.store_model(base, idx, v, op, st)
        else:
            raise AnalysisError("unsupported augmented assignment")

    def inplace_model(self, op, cur, v, node):
        return NotImplemented

    def store_model(self, base, idx, v, op, node):
        pass

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, fr), t.attr, st)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, fr)
                i = self.eval_index(t.slice, fr)
                if isinstance(b, dict) and hashable(i) and i in b:
                    del b[i]
                elif isinstance(b, list) and isinstance(i, int):
                    del b[i]
                elif isinstance(b, Inst) and isinstance(self.find_method(b.cls, "__delitem__"), Fn):
                    self.call(Bound(self.find_method(b.cls, "__delitem__"), b), [i], {}, st)
                else:
                    self.event("delitem", st, obj=b, index=i)

    def st_If(self, st, fr):
        c = self.eval(st.test, fr)
        if self.truth(c, st):
            self.exec_body(st.body, fr)
        else:
            self.exec_body(st.orelse, fr)

    def st_Assert(self, st, fr):
        c = self.eval(st.test, fr)
        if not self.truth(c, st):
            self.event("raise", st, exc="AssertionError")
            raise PyRaise(Inst(Ext("builtins.AssertionError"), {"args": ()}), st)

    def st_Raise(self, st, fr):
        if st.exc is None:
            if fr.exc_stack:
                raise fr.exc_stack[-1]
            raise PyRaise(Inst(Ext("builtins.RuntimeError"), {"args": ()}), st)
        v = self.eval(st.exc, fr)
        if isinstance(v, (Cls, Ext, Builtin)):
            v = self.call(v, [], {}, st)
        e = PyRaise(v, st, (fr.fn.mod, fr.fn.qual))
        self.event("raise", st, exc=e.name, value=v)
        raise e

    def st_Import(self, st, fr):
        for al in st.names:
            if al.asname:
                self.bind_name(al.asname, self.import_path(al.name), fr)
            else:
                top = al.name.split(".")[0]
                if top == self.project.package:
                    self.import_path(al.name)
                self.bind_name(top, self.import_path(top), fr)

    def st_ImportFrom(self, st, fr):
        modname = st.module or ""
        if st.level:
            base = fr.fn.mod.name.split(".")
            if not getattr(fr.fn.mod, "ispkg", False):
                base = base[:-1]
            if st.level > 1:
                base = base[: -(st.level - 1)]
            modname = ".".join(base + ([modname] if modname else []))
        for al in st.names:
            if modname.split(".")[0] == self.project.package:
                m = self.get_mod(modname)
                if m is None:
                    self.bind_name(al.asname or al.name, Ext(modname + "." + al.name), fr)
                    continue
                if al.name == "*":
                    for k, v in m.env.vars.items():
                        if not k.startswith("_"):
                            self.bind_name(k, v, fr)
                    continue
                if al.name in m.env.vars:
                    v = m.env.vars[al.name]
                else:
                    v = self.get_mod(modname + "." + al.name)
                    if v is None:
                        if self._module_mode:
                            v = Lazy(modname, al.name)
                        else:
                            raise PyRaise(Inst(Ext("builtins.ImportError"), {"args": (al.name,)}), st)
                self.bind_name(al.asname or al.name, v, fr)
            else:
                m = self.attr_models.get("ext:" + canon_ext(modname) + "." + al.name)
                self.bind_name(al.asname or al.name, m(self, Ext(modname), st) if m else Ext(canon_ext(modname + "." + al.name)), fr)

    def bind_name(self, name, v, fr):
        if name in fr.env.globals_decl:
            fr.fn.mod.env.vars[name] = v
            return
        if name in fr.env.nonlocal_decl:
            e = fr.env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        fr.env.vars[name] = v

    def st_FunctionDef(self, st, fr):
        f = self.make_fn(st, fr, st.name)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, fr)
            v = self.apply_decorator(dv, v, st)
        self.bind_name(st.name, v, fr)

    st_AsyncFunctionDef = st_FunctionDef

    def make_fn(self, node, fr, name):
        owner = getattr(fr, "owner_cls", None)
        q = name
        if fr.fn.qual != "<module>":
            q = fr.fn.qual + "." + name
        f = Fn(node, fr.fn.mod, fr.env if (fr.fn.qual != "<module>" or owner) and fr.env is not fr.fn.mod.env else None, q, owner or fr.fn.owner)
        if owner is not None:
            f.env = fr.outer_env
        f.defaults = [self.eval(d, fr) for d in node.args.defaults]
        for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if d is not None:
                f.kwdefaults[a.arg] = self.eval(d, fr)
        return f

    def apply_decorator(self, dv, v, node):
        if isinstance(dv, Builtin):
            if dv.name == "property":
                return Property(v)
            if dv.name == "staticmethod":
                return StaticM(v)
            if dv.name == "classmethod":
                return ClassM(v)
        if isinstance(dv, Ext):
            last = dv.path.split(".")[-1]
            if last in ("jit", "njit", "abstractmethod", "contextmanager", "cached_property", "lru_cache", "cache", "wraps", "overload", "dataclass"):
                if isinstance(v, Fn):
                    v.attrs["__decor__"] = v.attrs.get("__decor__", ()) + (last,)
                if last == "cached_property":
                    return Property(v)
                return v
        if isinstance(dv, Term):
            if dv.op == "call":
                nm = str(dv.args[0]).split(".")[-1]
                if isinstance(v, Fn):
                    v.attrs["__decor__"] = v.attrs.get("__decor__", ()) + (nm,)
                    v.attrs["__decorterm__"] = dv
                return v
            return v
        r = self.call(dv, [v], {}, node)
        return r

    def st_ClassDef(self, st, fr):
        bases = [self.eval(b, fr) for b in st.bases]
        bases = [b for b in bases if isinstance(b, (Cls, Ext)) or isinstance(b, Builtin)]
        bases = [Ext("builtins." + b.name) if isinstance(b, Builtin) else b for b in bases]
        bases = [b for b in bases if not (isinstance(b, Ext) and b.path in ("builtins.object",))]
        ns = {}
        c = Cls(st.name, fr.fn.mod, bases, ns)
        env = Env(fr.env if fr.env is not fr.fn.mod.env else None)
        env.vars = ns
        f2 = Fn(fr.fn.node, fr.fn.mod, env, (fr.fn.qual + "." if fr.fn.qual != "<module>" else "") + st.name, c)
        cf = Frame(f2, env)
        cf.owner_cls = c
        cf.outer_env = fr.env if fr.env is not fr.fn.mod.env else None
        self.stack.append(cf)
        try:
            self.exec_body(st.body, cf)
        finally:
            self.stack.pop()
        v = c
        for d in reversed(st.decorator_list):
            dv = self.eval(d, fr)
            r = self.apply_decorator(dv, v, st) if not isinstance(dv, (Term, Ext)) else v
            v = r
        self.bind_name(st.name, v, fr)

    def st_Try(self, st, fr):
        types = []
        for h in st.handlers:
            if h.type is None:
                types.append("Exception")
            else:
                tv = self.eval(h.type, fr)
                for x in (tv if isinstance(tv, tuple) else (tv,)):
                    types.append(x.name if isinstance(x, (Cls, Builtin)) else str(x).split(".")[-1])
        if not hasattr(self, "stack_try"):
            self.stack_try = []
        pushed = bool(st.handlers)
        if pushed:
            self.try_depth += 1
            self.stack_try.append({"types": [t for t in types[:2] if t in EXC_NAMES], "left": 1})
        def unpush():
            nonlocal pushed
            if pushed:
                self.try_depth -= 1
                self.stack_try.pop()
                pushed = False
        try:
            try:
                self.exec_body(st.body, fr)
            except PyRaise as e:
                unpush()
                for h in st.handlers:
                    if self.exc_matches(e, h, fr):
                        if h.name:
                            self.bind_name(h.name, e.val, fr)
                        fr.exc_stack.append(e)
                        self.event("except", h, exc=e.name)
                        try:
                            self.exec_body(h.body, fr)
                        finally:
                            fr.exc_stack.pop()
                        break
                else:
                    raise
            else:
                unpush()
                self.exec_body(st.orelse, fr)
        except AnalysisError:
            raise
        except _Stop:
            raise
        except BaseException:
            unpush()
            self.exec_body(st.finalbody, fr)
            raise
        else:
            unpush()
            self.exec_body(st.finalbody, fr)

    st_TryStar = st_Try

    def exc_matches(self, e, h, fr):
        if h.type is None:
            return True
        tv = self.eval(h.type, fr)
        for x in (tv if isinstance(tv, tuple) else (tv,)):
            xn = x.name if isinstance(x, (Cls, Builtin)) else str(x).split(".")[-1]
            v = e.val
            c = v.cls if isinstance(v, Inst) else v
            if isinstance(c, Cls):
                if xn in c.mro_names():
                    return True
                for b in c.mro_names():
                    if b in EXC_NAMES and xn in {k.__name__ for k in getattr(_bi, b).__mro__}:
                        return True
            else:
                n = e.name
                if n == xn:
                    return True
                if n in EXC_NAMES and xn in {k.__name__ for k in getattr(_bi, n).__mro__}:
                    return True
                if n not in EXC_NAMES and (isinstance(c, Ext) or isinstance(c, Term) and c.op == "call" and isinstance(c.args[0], Ext)) and xn in ("Exception", "BaseException"):
                    return True
        return False

    def st_With(self, st, fr):
        self.with_items(st, 0, fr)

    def with_items(self, st, i, fr):
        if i >= len(st.items):
            self.exec_body(st.body, fr)
            return
        it = st.items[i]
        cm = self.eval(it.context_expr, fr)
        ent = None
        if isinstance(cm, CtxGen):
            left = []
            def on_yield(v):
                depth, loops = len(self.stack), len(self.loops)
                saved = self.stack
                self.stack = [x for x in saved if x is not saved[-1]]
                try:
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, fr)
                    self.with_items(st, i + 1, fr)
                except (_Return, _Break, _Continue) as e:
                    left.append(e)
                finally:
                    self.stack = saved
            self.call_fn(cm.fn, list(cm.args), cm.kwargs, st, on_yield=on_yield)
            if left:
                raise left[0]
            return
        if isinstance(cm, Inst) and isinstance(self.find_method(cm.cls, "__enter__"), Fn):
            ent = self.call(Bound(self.find_method(cm.cls, "__enter__"), cm), [], {}, st)
        else:
            self.event("enter", st, obj=cm)
            ent = self.enter_model(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent, fr)
        def leave(exc):
            if isinstance(cm, Inst) and isinstance(self.find_method(cm.cls, "__exit__"), Fn):
                a = [None, None, None] if exc is None else [exc.val, exc.val, None]
                return self.call(Bound(self.find_method(cm.cls, "__exit__"), cm), a, {}, st)
            self.event("exit", st, obj=cm)
            return None
        try:
            self.with_items(st, i + 1, fr)
        except PyRaise as e:
            r = leave(e)
            if r is True:
                return
            raise
        except (_Return, _Break, _Continue):
            leave(None)
            raise
        leave(None)

    def enter_model(self, cm):
        return cm

    # loops --------------------------------------------------------------
    def st_For(self, st, fr):
        it = self.eval(st.iter, fr)
        items = self.iterate_list(it)
        if items is not None and not any(isinstance(x, Term) and x.op in ("each", "splat") for x in items):
            for x in items:
                self.assign(st.target, x, fr)
                try:
                    self.exec_body(st.body, fr)
                except _Break:
                    return
                except _Continue:
                    continue
            self.exec_body(st.orelse, fr)
            return
        if items is not None:
            # list built by a symbolic loop: visit each summarised element once
            broke = False
            for x in items:
                if isinstance(x, Term) and x.op == "each":
                    lp = Loop(x.args[0], "each", it)
                    el = x.args[1]
                elif isinstance(x, Term) and x.op == "splat":
                    lp, el = self.loop_elem(x.args[0])
                else:
                    lp, el = None, x
                if lp is not None:
                    broke = self.symbolic_iter(st, fr, lp, el) or broke
                else:
                    self.assign(st.target, el, fr)
                    try:
                        self.exec_body(st.body, fr)
                    except _Break:
                        broke = True
                        break
                    except _Continue:
                        pass
            if not broke:
                self.exec_body(st.orelse, fr)
            return
        lp, el = self.loop_elem(it)
        self.event("loop", st, loop=lp)
        broke = self.symbolic_iter(st, fr, lp, el)
        if not broke:
            self.exec_body(st.orelse, fr)

    def assigned_names(self, body):
        out = []
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    if n.id not in out:
                        out.append(n.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    if n.target.id not in out:
                        out.append(n.target.id)
        return out

    def symbolic_iter(self, st, fr, lp, el):
        """One abstract iteration of a loop; returns True when it left by break."""
        names = self.assigned_names(st.body)
        phis = {}
        for k, n in enumerate(names):
            v = self.peek(n, fr)
            if v is not None and (isinstance(v, (int, float, Fraction, Term, str)) or v in (True, False)) :
                if n in self.live_in(st):
                    p = Term("phi", (lp.sym, k))
                    phis[n] = (p, v)
                    fr.env.vars[n] = p
        self.loops.append(lp)
        broke = False
        ncond = len(self.conds)
        try:
            if isinstance(st, ast.For):
                self.assign(st.target, el, fr)
            try:
                self.exec_body(st.body, fr)
            except _Break:
                broke = True
                self.event("break", st, loop=lp)
            except _Continue:
                pass
        finally:
            self.loops.pop()
        for n, (p, v0) in phis.items():
            cur = self.peek(n, fr)
            if isinstance(cur, Term) and cur == p:
                fr.env.vars[n] = v0
            elif not broke:
                fr.env.vars[n] = T("fold", lp.sym, v0, p, cur)
        return broke

    def live_in(self, st):
        """names possibly read before written in the loop body (conservative: by AST order)"""
        c = getattr(st, "_livein", None)
        if c is not None:
            return c
        live = set()
        def expr(n, w):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in w:
                    live.add(x.id)
        def stores(n):
            return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        def body(b, w):
            w = set(w)
            for s in b:
                if isinstance(s, ast.Assign):
                    expr(s.value, w)
                    for t in s.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in w:
                                live.add(x.id)
                        w |= stores(t)
                elif isinstance(s, ast.AugAssign):
                    expr(s.value, w)
                    if isinstance(s.target, ast.Name):
                        if s.target.id not in w:
                            live.add(s.target.id)
                        w.add(s.target.id)
                    else:
                        expr(s.target, w)
                elif isinstance(s, ast.AnnAssign):
                    if s.value is not None:
                        expr(s.value, w)
                        w |= stores(s.target)
                elif isinstance(s, ast.If):
                    expr(s.test, w)
                    a = body(s.body, w)
                    b2 = body(s.orelse, w)
                    w |= (a & b2)
                    if s.body and isinstance(s.body[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise)):
                        w |= b2
                    if s.orelse and isinstance(s.orelse[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise)):
                        w |= a
                elif isinstance(s, (ast.For,)):
                    expr(s.iter, w)
                    body(s.body, w | stores(s.target))
                    body(s.orelse, w)
                elif isinstance(s, ast.While):
                    expr(s.test, w)
                    body(s.body, w)
                elif isinstance(s, (ast.With,)):
                    for i in s.items:
                        expr(i.context_expr, w)
                        if i.optional_vars is not None:
                            w |= stores(i.optional_vars)
                    w |= body(s.body, w)
                elif isinstance(s, ast.Try):
                    body(s.body, w)
                    for h in s.handlers:
                        body(h.body, w)
                    body(s.finalbody, w)
                elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    w.add(s.name)
                else:
                    expr(s, w)
            return w
        w0 = stores(st.target) if isinstance(st, ast.For) else set()
        if isinstance(st, ast.While):
            expr(st.test, set())
        body(st.body, w0)
        st._livein = live
        return live

    def peek(self, name, fr):
        e = fr.env
        if name in e.vars:
            return e.vars[name]
        return None

    def st_While(self, st, fr):
        # counted while -> range
        cnt = self.counted_while(st, fr)
        if cnt is not None:
            name, lp, drop = cnt
            saved = fr.env.vars[name]
            fr.env.vars[name] = lp.sym
            self.event("loop", st, loop=lp)
            w2 = ast.While(test=st.test, body=[s for s in st.body if s is not drop], orelse=[])
            ast.copy_location(w2, st)
            self.symbolic_iter(w2, fr, lp, None)
            fr.env.vars[name] = lp.hi
            self.exec_body(st.orelse, fr)
            return
        # try concrete unrolling while the condition stays known
        for _ in range(200):
            c = self.eval(st.test, fr)
            if isinstance(c, Term):
                break
            if not self.truth(c):
                self.exec_body(st.orelse, fr)
                return
            try:
                self.exec_body(st.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        self.nloop += 1
        lp = Loop(Term("loop", (self.nloop,)), "while")
        self.event("loop", st, loop=lp)
        names = self.assigned_names(st.body)
        phis = {}
        for k, n in enumerate(names):
            v = self.peek(n, fr)
            if v is not None and n in self.live_in(st) and not isinstance(v, (Fn, Cls)):
                p = Term("phi", (lp.sym, k))
                phis[n] = (p, v)
                fr.env.vars[n] = p
        c = self.eval(st.test, fr)
        if not self.truth(c, st):
            for n, (p, v0) in phis.items():
                fr.env.vars[n] = T("phiout", lp.sym, v0)
            return
        self.loops.append(lp)
        try:
            try:
                self.exec_body(st.body, fr)
            except (_Break, _Continue):
                pass
        finally:
            self.loops.pop()
        for n, (p, v0) in phis.items():
            cur = self.peek(n, fr)
            fr.env.vars[n] = T("fold", lp.sym, v0, p, cur)

    def counted_while(self, st, fr):
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        if isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Lt, ast.LtE)):
            name, bound, le = t.left.id, t.comparators[0], isinstance(t.ops[0], ast.LtE)
        elif isinstance(t.comparators[0], ast.Name) and isinstance(t.ops[0], (ast.Gt, ast.GtE)):
            name, bound, le = t.comparators[0].id, t.left, isinstance(t.ops[0], ast.GtE)
        else:
            return None
        incs = [s for s in st.body if (isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant))]
        incs += [s for s in st.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) and any(isinstance(z, ast.Name) and z.id == name for z in (s.value.left, s.value.right)) and any(isinstance(z, ast.Constant) for z in (s.value.left, s.value.right))]
        if len(incs) != 1:
            return None
        nst = sum(1 for s in st.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name)
        if nst != 1 or incs[0] is not st.body[-1]:
            return None
        bn = {x.id for x in ast.walk(bound) if isinstance(x, ast.Name)}
        if bn & set(self.assigned_names(st.body)):
            return None
        if any(isinstance(x, ast.Continue) for s in st.body for x in walk_own_loop(s)):
            return None
        lo = self.peek(name, fr)
        hi = self.eval(bound, fr)
        if lo is None or isinstance(lo, (Inst,)):
            return None
        inc = incs[0]
        step = inc.value.value if isinstance(inc, ast.AugAssign) else [z.value for z in (inc.value.left, inc.value.right) if isinstance(z, ast.Constant)][0]
        if is_const(lo) and is_const(hi):
            return None
        if le:
            hi = tm.add(hi, 1)
        self.nloop += 1
        lp = Loop(Term("loop", (self.nloop,)), "range", None, lo, hi, step)
        return name, lp, inc

    def loop_elem(self, it):
        """(Loop, element) for one abstract iteration over an unknown iterable."""
        self.nloop += 1
        s = Term("loop", (self.nloop,))
        if isinstance(it, Term) and it.op == "range":
            lo, hi, step, par = it.args
            lp = Loop(s, "range", it, lo, hi, step, par)
            return lp, s
        lp = Loop(s, "iter", it, 0, T("len", it))
        return lp, self.elem(it, s)

    def elem(self, it, s):
        if isinstance(it, Term):
            if it.op == "zip":
                return tuple(self.elem(x, s) for x in it.args)
            if it.op == "enumerate":
                st = it.args[1]
                return (tm.add(s, st), self.elem(it.args[0], s))
            if it.op == "items":
                return (T("key", it.args[0], s), T("idx", it.args[0], T("key", it.args[0], s)))
            if it.op == "keys":
                return T("key", it.args[0], s)
            if it.op == "values":
                return T("idx", it.args[0], T("key", it.args[0], s))
            if it.op == "reversed":
                return T("ridx", it.args[0], s)
            if it.op == "range":
                lo, hi, step, par = it.args
                return tm.add(lo, tm.mul(s, step))
            if it.op == "map":
                args = [self.elem(x, s) for x in it.args[1:]]
                return self.call(it.args[0], args, {}, None)
            if it.op in ("list", "tuple") and len(it.args) == 1 and isinstance(it.args[0], Term) and it.args[0].op == "each":
                return tm.subst(it.args[0].args[1], lambda t, a=it.args[0].args[0]: s if isinstance(t, Term) and t == a else None)
        if isinstance(it, (list, tuple)):
            es = [x for x in it if isinstance(x, Term) and x.op in ("each",)]
            if len(it) == 1 and es:
                return tm.subst(es[0].args[1], lambda t, a=es[0].args[0]: s if isinstance(t, Term) and t == a else None)
            return T("idx", it, s)
        return self.getitem(it, s, None, quiet=True) if isinstance(it, Term) else T("idx", it, s)

    def iterate_list(self, it):
        """known finite element list, or None"""
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, dict):
            if any(isinstance(k, Term) and k.op == "each" for k in it):
                return None
            return list(it.keys())
        if isinstance(it, (set, frozenset)):
            return sorted(it, key=tm._key)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, Term) and it.op in ("tuple", "list"):
            return list(it.args)
        if isinstance(it, Term) and it.op == "zip" :
            ls = [self.iterate_list(x) for x in it.args]
            if all(l is not None for l in ls):
                return list(zip(*ls))
            known = [len(l) for l in ls if l is not None and not any(isinstance(x, Term) and x.op in ("each", "splat") for x in l)]
            if known:
                # a zip with a known-length member has at most that many elements
                n = min(known)
                rows = []
                for i in range(n):
                    rows.append(tuple(l[i] if l is not None and i < len(l) else self.getitem(x, i, None, quiet=True) for l, x in zip(ls, it.args)))
                return rows
        if isinstance(it, Term) and it.op == "enumerate":
            l = self.iterate_list(it.args[0])
            if l is not None:
                return [(tm.add(i, it.args[1]), x) for i, x in enumerate(l)]
        if isinstance(it, Inst):
            m = self.find_method(it.cls, "__iter__")
            if isinstance(m, Fn):
                return self.iterate_list(self.call(Bound(m, it), [], {}, None))
        if isinstance(it, Term):
            r = self.iter_model(it)
            if r is not None:
                return r
        return None

    def iter_model(self, it):
        return None

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.iterate_list(v)
            if items is not None and any(isinstance(x, Term) and x.op in ("each", "splat") for x in items):
                items = None
            if items is None and isinstance(v, Inst) and not self.is_arraylike(v):
                items = None
            if items is not None:
                if star:
                    i = star[0]
                    k = n - i - 1
                    vals = items[:i] + [list(items[i: len(items) - k])] + items[len(items) - k:]
                else:
                    if len(items) != n:
                        raise PyRaise(Inst(Ext("builtins.ValueError"), {"args": ("unpack",)}), t)
                    vals = items
            else:
                vals = []
                for i in range(n):
                    vals.append(self.getitem(v, i, t, quiet=True))
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            self.setitem(b, i, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def setitem(self, b, i, v, node):
        if isinstance(b, dict):
            try:
                b[i if hashable(i) else tm.freeze(i)] = v
            except TypeError:
                pass
            self.event("dictset", node, target=b, index=i, value=v)
            return
        if isinstance(b, list) and isinstance(i, int) and -len(b) <= i < len(b):
            b[i] = v
            self.event("dictset", node, target=b, index=i, value=v)
            return
        if isinstance(b, Inst):
            m = self.find_method(b.cls, "__setitem__")
            if isinstance(m, Fn):
                self.call(Bound(m, b), [i, v], {}, node)
                return
        self.event("store", node, target=b, index=i, value=v, op="=")
        self.store_model(b, i, v, "=", node)

    def getitem(self, b, i, node, quiet=False):
        if isinstance(b, dict):
            k = i if hashable(i) else tm.freeze(i)
            if k in b:
                return b[k]
            if isinstance(i, Term) or any(isinstance(x, Term) for x in b):
                return self.dict_unknown(b, i, node)
            self.event("keyerror", node, obj=b, key=i)
            raise PyRaise(Inst(Ext("builtins.KeyError"), {"args": (i,)}), node)
        if isinstance(b, (list, tuple, str, bytes)):
            if isinstance(i, int) and not isinstance(i, bool) or i in (True, False):
                if isinstance(b, (list, tuple)) and any(isinstance(x, Term) and x.op in ("each", "splat") for x in b):
                    if len(b) == 1:
                        return self.elem(b, i)
                    return T("idx", b, i)
                try:
                    return b[int(i)]
                except IndexError:
                    raise PyRaise(Inst(Ext("builtins.IndexError"), {"args": (i,)}), node)
            if isinstance(i, Term) and i.op == "slice" and all(x is None or isinstance(x, int) for x in i.args):
                r = b[slice(*i.args)]
                return r
            if isinstance(b, (list, tuple)) and len(b) == 1 and isinstance(b[0], Term) and b[0].op == "each":
                return self.elem(b, i)
            return T("idx", b, i)
        if isinstance(b, Inst):
            m = self.find_method(b.cls, "__getitem__")
            if isinstance(m, (Fn,)):
                return self.call(Bound(m, b), [i], {}, node)
            if self.inst_ext_attr is not None:
                r = self.inst_ext_attr(self, b, "__getitem__", node)
                if r is not NotImplemented:
                    return self.call(r, [i], {}, node)
            k = (b.akey, "[]" + tm._key(tm.freeze(i)))
            if k in self.heap:
                return self.heap[k]
            return T("idx", b, i)
        if isinstance(b, Term):
            if b.op in ("tuple", "list") and isinstance(i, int) and -len(b.args) <= i < len(b.args):
                if not any(isinstance(x, Term) and x.op in ("each", "splat") for x in b.args):
                    return b.args[i]
            if b.op in ("dict",) and is_const(i):
                for kv in b.args:
                    if kv.args[0] == i:
                        return kv.args[1]
            if b.op == "ite":
                pass
            m = self.models.get("*getitem")
            if m is not None:
                r = m(self, [b, i], {}, node)
                if r is not NotImplemented:
                    return r
            if not quiet:
                self.event("getitem", node, obj=b, index=i)
                self.maybe_raise(node)
            return T("idx", b, i)
        if isinstance(b, (Builtin, Ext, Cls)):
            if isinstance(b, Ext) and b.path in ("numpy.s_", "numpy.index_exp"):
                return i if b.path == "numpy.s_" or isinstance(i, tuple) else (i,)
            return b if not isinstance(b, Ext) else T("idx", b, i)
        if isinstance(b, Fn):
            return T("idx", b, i)
        if b is None or is_const(b):
            raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("not subscriptable",)}), node)
        return T("idx", b, i)

    def dict_unknown(self, b, i, node):
        return T("idx", b, i)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            self.stats["unknown"] += 1
            return self.fresh("unknown")
        return m(e, fr)

    def ev_Constant(self, e, fr):
        return e.value

    def ev_Name(self, e, fr):
        v = self.lookup(e.id, fr)
        if isinstance(v, Lazy):
            m = self.get_mod(v.mod)
            r = m.env.vars.get(v.name)
            if r is None or isinstance(r, Lazy):
                r = Ext(v.mod + "." + v.name)
            return r
        return v

    def ev_Attribute(self, e, fr):
        b = self.eval(e.value, fr)
        name = e.attr
        if name.startswith("__") and not name.endswith("__"):
            oc = None
            for f in reversed(self.stack):
                if f is fr:
                    break
            oc = fr.fn.owner
            if oc is not None:
                name = "_" + oc.name.lstrip("_") + name
                if not isinstance(b, (Inst, Cls)):
                    name = e.attr
                elif isinstance(b, Inst) and name not in b.attrs and self._cls_has(b.cls, e.attr):
                    name = e.attr
                elif isinstance(b, Inst) and name not in b.attrs and e.attr in b.attrs:
                    name = e.attr
        v = self.getattr(b, name, e)
        if isinstance(v, Lazy):
            m = self.get_mod(v.mod)
            v = m.env.vars.get(v.name, Ext(v.mod + "." + v.name))
        return v

    def _cls_has(self, c, name):
        return isinstance(c, Cls) and any(isinstance(k, Cls) and name in k.ns for k in c.mro())

    def eval_index(self, e, fr):
        return self.eval(e, fr)

    def ev_Slice(self, e, fr):
        f = lambda x: None if x is None else self.eval(x, fr)
        return Term("slice", (tm.freeze(f(e.lower)), tm.freeze(f(e.upper)), tm.freeze(f(e.step))))

    def ev_Subscript(self, e, fr):
        b = self.eval(e.value, fr)
        i = self.eval_index(e.slice, fr)
        return self.getitem(b, i, e)

    def ev_Starred(self, e, fr):
        return T("star", self.eval(e.value, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                items = self.iterate_list(v)
                if items is None:
                    out.append(T("splat", v))
                else:
                    out.extend(items)
            else:
                out.append(self.eval(x, fr))
        return out

    def ev_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def ev_List(self, e, fr):
        return AList(self.elts(e.elts, fr))

    def ev_Set(self, e, fr):
        return set(tm.freeze(x) for x in self.elts(e.elts, fr))

    def ev_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.eval(v, fr)
                if isinstance(vv, dict):
                    d.update(vv)
                else:
                    d[T("splat", vv)] = vv
            else:
                kk = self.eval(k, fr)
                d[kk if hashable(kk) else tm.freeze(kk)] = self.eval(v, fr)
        return d

    def ev_Lambda(self, e, fr):
        return self.make_fn(e, fr, "<lambda>")

    def ev_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr), e) else e.orelse, fr)

    def ev_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, e)
            if isand and not t:
                return False if isinstance(v, Term) else v
            if not isand and t:
                if isinstance(v, Term) and v.op in ("gt0", "eq0", "not", "and", "eq", "is", "in", "isinstance", "hasattr"):
                    return True
                return v
        return v

    def ev_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Term):
                return not self.truth(v, e)
            return not self.truth(v, e)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float, Fraction)):
                return -v
            if isinstance(v, Inst):
                m = self.find_method(v.cls, "__neg__")
                if isinstance(m, Fn):
                    return self.call(Bound(m, v), [], {}, e)
                if self.inst_ext_binop is not None:
                    r = self.inst_ext_binop(self, "neg", v, None, e)
                    if r is not NotImplemented:
                        return r
            return tm.neg(v) if isinstance(v, (Term, Inst, Ext)) else T("neg", v)
        if isinstance(e.op, ast.UAdd):
            if isinstance(v, Inst) and self.inst_ext_binop is not None:
                r = self.inst_ext_binop(self, "pos", v, None, e)
                if r is not NotImplemented:
                    return r
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Inst) and self.inst_ext_binop is not None:
                r = self.inst_ext_binop(self, "invert", v, None, e)
                if r is not NotImplemented:
                    return r
            if isinstance(v, int):
                return ~v
            return tm.lnot(v) if isinstance(v, (Term, bool)) else T("not", v)
        return v

    def ev_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(_BINOPS[type(e.op)], a, b, e)

    def binop(self, op, a, b, node=None):
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Inst):
                m = self.find_method(x.cls, pre + _DUNDER[op] + "__")
                if isinstance(m, (Fn, Bound, Partial)):
                    return self.call(Bound(m, x), [y], {}, node)
        if (isinstance(a, Inst) or isinstance(b, Inst)) and self.inst_ext_binop is not None:
            r = self.inst_ext_binop(self, op, a, b, node)
            if r is not NotImplemented:
                return r
        na, nb = isinstance(a, (int, float, Fraction, complex)), isinstance(b, (int, float, Fraction, complex))
        if na and nb:
            try:
                return _const_binop(op, a, b)
            except ZeroDivisionError:
                raise PyRaise(Inst(Ext("builtins.ZeroDivisionError"), {"args": ()}), node)
            except (TypeError, ValueError, OverflowError):
                return T("binop", op, a, b)
        if isinstance(a, str) and isinstance(b, str) and op == "+":
            return a + b
        if isinstance(a, str) and op == "%":
            try:
                if all(is_const(x) for x in (b if isinstance(b, tuple) else (b,))):
                    return a % b
            except (TypeError, ValueError):
                pass
            return T("fmt", a, b)
        if isinstance(a, (str, list, tuple)) and isinstance(b, int) and op == "*":
            return AList(a * b) if isinstance(a, list) else a * b
        if isinstance(b, (str, list, tuple)) and isinstance(a, int) and op == "*":
            return AList(b * a) if isinstance(b, list) else b * a
        if isinstance(a, list) and isinstance(b, list) and op == "+":
            return AList(list(a) + list(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, (list, tuple)) and isinstance(b, Term) and op == "+":
            return AList(list(a) + [T("splat", b)])
        if isinstance(b, (list, tuple)) and isinstance(a, Term) and op == "+":
            l = self.iterate_list(a)
            if l is not None:
                return type(b)(l + list(b)) if isinstance(b, tuple) else AList(l + list(b))
            return AList([T("splat", a)] + list(b))
        if isinstance(a, dict) and isinstance(b, dict) and op == "|":
            return {**a, **b}
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and op in "|&-^":
            return {"|": a | b, "&": a & b, "-": a - b, "^": a ^ b}[op]
        if isinstance(a, (str,)) or isinstance(b, (str,)):
            return T("binop", op, a, b)
        m = self.models.get("*binop")
        if m is not None:
            r = m(self, [op, a, b], {}, node)
            if r is not NotImplemented:
                return r
        a2 = tm.freeze(a)
        b2 = tm.freeze(b)
        if isinstance(a2, bool):
            a2 = int(a2) if op not in "&|^" else a2
        if isinstance(b2, bool):
            b2 = int(b2) if op not in "&|^" else b2
        if op == "+":
            return tm.add(a2, b2)
        if op == "-":
            return tm.sub(a2, b2)
        if op == "*":
            return tm.mul(a2, b2)
        if op == "/":
            return tm.div(a2, b2)
        if op == "**":
            return tm.power(a2, b2)
        if op == "//":
            if b2 == 1:
                return T("floor", a2) if not is_integral(a2) else a2
            q = tm.div(a2, b2)
            return q if is_integral(q) else T("floor", q)
        if op == "%":
            return T("mod", a2, b2)
        if op == "&":
            return tm.land(a2, b2) if not (isinstance(a2, int) and not isinstance(a2, bool)) else T("bitand", a2, b2)
        if op == "|":
            return tm.lor(a2, b2)
        return T("binop", op, a2, b2)

    def ev_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, fr)
            r = self.compare(_CMPS[type(op)], left, right, e)
            if len(e.ops) == 1:
                return r
            if i == len(e.ops) - 1:
                return r
            if not self.truth(r, e):
                return False
            left = right
        return res

    def compare(self, op, a, b, node=None):
        if op in ("is", "is not"):
            r = self.is_same(a, b)
            if isinstance(r, Term):
                return tm.lnot(r) if op == "is not" else r
            return (not r) if op == "is not" else r
        if op in ("in", "not in"):
            r = self.contains(a, b, node)
            if isinstance(r, Term):
                return tm.lnot(r) if op == "not in" else r
            return (not r) if op == "not in" else r
        for x, y, o in ((a, b, op), (b, a, _CMPSWAP[op])):
            if isinstance(x, Inst):
                m = self.find_method(x.cls, _CMPDUNDER[o])
                if isinstance(m, Fn):
                    return self.call(Bound(m, x), [y], {}, node)
        if (isinstance(a, Inst) or isinstance(b, Inst)) and self.inst_ext_binop is not None:
            r = self.inst_ext_binop(self, op, a, b, node)
            if r is not NotImplemented:
                return r
        na, nb = isinstance(a, (int, float, Fraction)), isinstance(b, (int, float, Fraction))
        if na and nb:
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        ka = is_const(a) or is_native(a)
        kb = is_const(b) or is_native(b)
        if ka and kb and op in ("==", "!="):
            if deep_known(a) and deep_known(b):
                try:
                    return (a == b) if op == "==" else (a != b)
                except Exception:
                    pass
            if (is_const(a) != is_const(b)):
                return op == "!="
            if is_native(a) and is_native(b) and len(a) != len(b) and not has_splat(a) and not has_splat(b):
                return op == "!="
        if op in ("==", "!="):
            if isinstance(a, (Cls, Fn, Ext, Mod, Builtin, Bound)) or isinstance(b, (Cls, Fn, Ext, Mod, Builtin, Bound)):
                if not isinstance(a, Term) and not isinstance(b, Term):
                    r = self.is_same(a, b)
                    if isinstance(r, bool):
                        return r if op == "==" else not r
            if a is None or b is None or isinstance(a, (str, bytes, tuple, list)) or isinstance(b, (str, bytes, tuple, list)):
                if (a is None and not isinstance(b, Term)) or (b is None and not isinstance(a, Term)):
                    return (a is b) if op == "==" else (a is not b)
                x, y = sorted((tm.freeze(a), tm.freeze(b)), key=tm._key)
                if tm._key(x) == tm._key(y):
                    return op == "=="
                if is_native(a) and type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b) and not has_splat(a) and not has_splat(b):
                    # sequences of one length with an element known to differ
                    if any(isinstance(u, (int, float, Fraction, Term)) and isinstance(w, (int, float, Fraction, Term)) and self.compare("==", u, w, node) is False for u, w in zip(a, b)):
                        return op == "!="
                t = T("eq", x, y)
                return t if op == "==" else tm.lnot(t)
            d = tm.sub(tm.freeze(a), tm.freeze(b))
            t = tm.eq0(d)
            return t if op == "==" else tm.lnot(t)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        d = tm.sub(tm.freeze(b), tm.freeze(a))
        if op == "<":
            return tm.gt0(d)
        if op == "<=":
            return tm.ge0(d)
        d = tm.neg(d)
        if op == ">":
            return tm.gt0(d)
        return tm.ge0(d)

    def is_same(self, a, b):
        if isinstance(a, Term) or isinstance(b, Term):
            if isinstance(a, Term) and isinstance(b, Term) and a == b:
                return True
            if isinstance(b, Term):
                a, b = b, a
            if isinstance(a, Term) and a.op in ("poly", "tuple", "list", "dict", "fstr", "zip", "range", "alloc", "slice") and b is None:
                return False
            if isinstance(a, Term) and a.op == "call" and isinstance(a.args[0], Ext) and a.args[0].path.startswith("numpy.") and b is None:
                return False
            if isinstance(a, Term) and a.op == "sym" and b is None and any(x in ("int", "float", "bool") for x in a.args[1:]):
                return False
            if isinstance(a, Term):
                r = self.term_is(a, b)
                if r is not None:
                    return r
            return T("is", a, b)
        if a is b:
            return True
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn is b.fn and a.self is b.self
        if isinstance(a, Builtin) and isinstance(b, Builtin):
            return a.name == b.name
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        if is_const(a) and is_const(b) and type(a) is type(b):
            return a == b
        return False

    def term_is(self, a, b):
        return None

    def contains(self, a, b, node=None):
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, dict):
            k = a if hashable(a) else tm.freeze(a)
            if k in b:
                return True
            if isinstance(a, Term) or any(isinstance(x, Term) for x in b):
                if not b:
                    return False
                return T("in", a, b)
            return False
        if isinstance(b, (list, tuple, set, frozenset)):
            if len(b) == 0:
                return False
            unknown = False
            for x in b:
                r = self.compare("==", a, x) if not (isinstance(a, Inst) or isinstance(x, Inst)) else self.is_same(a, x)
                if r is True:
                    return True
                if isinstance(r, Term):
                    if isinstance(x, Ext) or isinstance(a, Ext):
                        if isinstance(x, Ext) and isinstance(a, Ext):
                            continue
                    unknown = True
            if unknown:
                return T("in", a, tuple(b) if not isinstance(b, (set, frozenset)) else tuple(sorted(b, key=tm._key)))
            return False
        if isinstance(b, Inst):
            m = self.find_method(b.cls, "__contains__")
            if isinstance(m, Fn):
                return self.call(Bound(m, b), [a], {}, node)
        if isinstance(b, Term) and b.op == "keys":
            b = b.args[0]
        if isinstance(b, Term) and b.op in ("list", "tuple", "set"):
            return self.contains(a, tuple(b.args), node)
        return T("in", a, b)

    def ev_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if v.conversion == -1 and v.format_spec is None and isinstance(x, (str, int)) and not isinstance(x, bool):
                    parts.append(str(x))
                elif v.conversion == -1 and v.format_spec is not None and is_const(x) and isinstance(v.format_spec, ast.JoinedStr) and all(isinstance(q, ast.Constant) for q in v.format_spec.values):
                    try:
                        parts.append(format(x, "".join(q.value for q in v.format_spec.values)))
                    except (ValueError, TypeError):
                        parts.append(tm.freeze(x))
                elif v.conversion == -1 and v.format_spec is None and isinstance(x, Term) and x.op == "fstr":
                    parts.extend(x.args)
                else:
                    parts.append(tm.freeze(x))
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif isinstance(p, str) and p == "":
                continue
            else:
                out.append(p)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return Term("fstr", tuple(out))

    def ev_FormattedValue(self, e, fr):
        return self.eval(e.value, fr)

    def ev_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ev_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else None
        f = fr
        if getattr(fr, "on_yield", None) is not None:
            fr.on_yield(v)
            return None
        if hasattr(f, "yields"):
            f.yields.append(T("each", self.loops[-1].sym, v) if self.loops and isinstance(v, Term) else v)
        self.event("yield", e, value=v)
        return None

    def ev_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        l = self.iterate_list(v)
        if hasattr(fr, "yields"):
            fr.yields.extend(l if l is not None else [T("splat", v)])
        return None

    def ev_Await(self, e, fr):
        return self.eval(e.value, fr)

    # comprehensions -----------------------------------------------------
    def comp(self, gens, fr, emit):
        env = Env(fr.env)
        f2 = Frame(fr.fn, env)
        f2.exc_stack = fr.exc_stack
        self.stack.append(f2)
        try:
            self._comp(gens, 0, f2, emit, [])
        finally:
            self.stack.pop()

    def _comp(self, gens, i, fr, emit, loops):
        if i == len(gens):
            emit(fr, list(loops))
            return
        g = gens[i]
        it = self.eval(g.iter, fr)
        items = self.iterate_list(it)
        todo = []
        if items is not None:
            for x in items:
                if isinstance(x, Term) and x.op == "each":
                    todo.append((Loop(x.args[0], "each", it), x.args[1]))
                elif isinstance(x, Term) and x.op == "splat":
                    todo.append(self.loop_elem(x.args[0]))
                else:
                    todo.append((None, x))
        else:
            todo.append(self.loop_elem(it))
        for lp, el in todo:
            if lp is not None:
                self.loops.append(lp)
            try:
                self.assign(g.target, el, fr)
                ok = True
                conds = []
                for c in g.ifs:
                    cv = self.eval(c, fr)
                    if lp is not None and isinstance(cv, Term):
                        # a per-element filter: keep it as data, do not partition
                        k = cv.key()
                        known = self.memo.get(k)
                        if known is None:
                            conds.append(cv)
                        elif not known:
                            ok = False
                            break
                    elif not self.truth(cv, c):
                        ok = False
                        break
                if ok:
                    self._comp(gens, i + 1, fr, emit, loops + ([(lp, tuple(conds))] if lp is not None else []))
            finally:
                if lp is not None:
                    self.loops.pop()

    @staticmethod
    def wrap_each(v, loops):
        for lp, conds in reversed(loops):
            if conds:
                v = T("each", lp.sym, v, *conds)
            else:
                v = T("each", lp.sym, v)
        return v

    def ev_ListComp(self, e, fr):
        out = AList()
        def emit(f2, loops):
            out.append(self.wrap_each(self.eval(e.elt, f2), loops) if loops else self.eval(e.elt, f2))
        self.comp(e.generators, fr, emit)
        return out

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, fr):
        out = set()
        def emit(f2, loops):
            v = self.eval(e.elt, f2)
            out.add(tm.freeze(self.wrap_each(v, loops) if loops else v))
        self.comp(e.generators, fr, emit)
        return out

    def ev_DictComp(self, e, fr):
        out = {}
        def emit(f2, loops):
            k = self.eval(e.key, f2)
            v = self.eval(e.value, f2)
            if loops:
                k = self.wrap_each(k, loops)
            out[k if hashable(k) else tm.freeze(k)] = v
        self.comp(e.generators, fr, emit)
        return out

    # calls --------------------------------------------------------------
    def ev_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if e.args:
                c = self.eval(e.args[0], fr)
                o = self.eval(e.args[1], fr)
                return Super(c, o)
            f = fr
            while f is not None and (f.fn.owner is None or not getattr(f, "call_args", None)):
                break
            node_args = fr.fn.node.args
            first = (node_args.posonlyargs + node_args.args)
            if first and first[0].arg in fr.env.vars:
                o = fr.env.vars[first[0].arg]
            else:
                o = None
                for g in reversed(self.stack):
                    na = g.fn.node.args
                    ff = (na.posonlyargs + na.args)
                    if ff and ff[0].arg in g.env.vars:
                        o = g.env.vars[ff[0].arg]
                        break
            return Super(fr.fn.owner, o)
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            return dict(fr.env.vars)
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                items = self.iterate_list(v)
                if items is not None and not has_splat(items):
                    args.extend(items)
                else:
                    args.append(T("star", v))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if isinstance(v, dict):
                    for kk, vv in v.items():
                        if isinstance(kk, str):
                            if kk in kwargs:
                                raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("multiple values for keyword %s" % kk,)}), e)
                            kwargs[kk] = vv
                        else:
                            kwargs["**"] = v
                elif isinstance(v, Term) and v.op == "dict":
                    for kv in v.args:
                        kwargs[kv.args[0]] = kv.args[1]
                else:
                    kwargs["**"] = v
            else:
                if k.arg in kwargs:
                    raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("multiple values for keyword %s" % k.arg,)}), e)
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs, e)

    # builtins -------------------------------------------------------------
    def call_builtin(self, name, args, kwargs, node):
        m = getattr(self, "bi_" + name, None)
        if m is not None:
            r = m(args, kwargs, node)
            if name in ("open", "print", "setattr", "isinstance"):
                pass
            return r
        if name in EXC_NAMES:
            return Inst(Ext("builtins." + name), {"args": tuple(args)})
        mm = self.models.get("builtins." + name)
        if mm is not None:
            r = mm(self, args, kwargs, node)
            if r is not NotImplemented:
                self.event("call", node, callee=Builtin(name), name=name, args=tuple(args), kwargs=dict(kwargs), result=r)
                return r
        r = self.mkcall(Builtin(name), args, kwargs)
        self.event("call", node, callee=Builtin(name), name=name, args=tuple(args), kwargs=dict(kwargs), result=r)
        return r

    def bi_len(self, args, kw, node):
        v = args[0]
        if isinstance(v, (list, tuple, dict, set, frozenset, str, bytes)):
            if has_splat(v):
                return T("len", v)
            return len(v)
        if isinstance(v, Inst):
            m = self.find_method(v.cls, "__len__")
            if isinstance(m, Fn):
                return self.call(Bound(m, v), [], {}, node)
        if isinstance(v, (bool, int, float, Fraction)) or v is None:
            raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("len",)}), node)
        if isinstance(v, Term) and v.op in ("list", "tuple") and not has_splat(v.args):
            return len(v.args)
        if isinstance(v, Term) and v.op == "keys":
            return T("len", v.args[0])
        return T("len", v)

    def bi_range(self, args, kw, node, par=False):
        a = list(args)
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a
        if all(isinstance(x, int) for x in (lo, hi, st)) and abs(hi - lo) <= self.unroll * abs(st):
            return list(range(lo, hi, st))
        return Term("range", (tm.freeze(lo), tm.freeze(hi), tm.freeze(st), par))

    def bi_zip(self, args, kw, node):
        ls = [self.iterate_list(a) for a in args]
        if all(l is not None and not has_splat(l) for l in ls):
            return [tuple(x) for x in zip(*ls)]
        return T("zip", *args)

    def bi_enumerate(self, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        l = self.iterate_list(args[0])
        if l is not None and not has_splat(l):
            return [(tm.add(i, start), x) for i, x in enumerate(l)]
        return T("enumerate", args[0], start)

    def bi_isinstance(self, args, kw, node):
        return self.isinstance(args[0], args[1], node)

    def bi_issubclass(self, args, kw, node):
        a, b = args
        names = self.class_names(b)
        if isinstance(a, Cls) and names is not None:
            mro = a.mro()
            return any((n in mro) if isinstance(n, Cls) else (n in a.mro_names() or n == "object") for n in names)
        if isinstance(a, Ext) and names is not None:
            mine = {a.path.split(".")[-1]} | self._ext_supers(a.path.split(".")[-1])
            return any(n in mine for n in names if not isinstance(n, Cls))
        return T("issubclass", a, b)

    def bi_hasattr(self, args, kw, node):
        if isinstance(args[1], str):
            return self.hasattr(args[0], args[1], node)
        return T("hasattr", args[0], args[1])

    def bi_getattr(self, args, kw, node):
        o, n = args[0], args[1]
        if isinstance(n, str):
            if len(args) > 2:
                h = self.hasattr(o, n, node)
                if isinstance(h, Term):
                    h = self.truth(h, node)
                if not h:
                    return args[2]
            return self.getattr(o, n, node)
        if isinstance(o, Inst) or isinstance(o, Mod):
            k = ((o.akey if isinstance(o, Inst) else o.akey), "dyn:" + tm._key(tm.freeze(n)))
            if k in self.heap:
                return self.heap[k]
        if isinstance(o, Term):
            k = (o.key(), "dyn:" + tm._key(tm.freeze(n)))
            if k in self.heap:
                return self.heap[k]
        return T("getattr", o, n, *args[2:])

    def bi_setattr(self, args, kw, node):
        o, n, v = args
        if isinstance(n, str):
            self.setattr(o, n, v, node)
        else:
            self.event("setattr", node, obj=o, name=n, value=v)
            k = o.akey if isinstance(o, Inst) else tm._key(o)
            self.heap[(k, "dyn:" + tm._key(tm.freeze(n)))] = v
        return None

    def bi_delattr(self, args, kw, node):
        if isinstance(args[1], str):
            self.delattr(args[0], args[1], node)
        else:
            self.event("delattr", node, obj=args[0], name=args[1])
        return None

    def bi_print(self, args, kw, node):
        self.event("call", node, callee=Builtin("print"), name="print", args=tuple(args), kwargs=dict(kw), result=None)
        return None

    def bi_int(self, args, kw, node):
        if not args:
            return 0
        v = args[0]
        if isinstance(v, (bool, int, float, Fraction)):
            return int(v)
        if isinstance(v, str) and len(args) == 1:
            try:
                return int(v)
            except ValueError:
                raise PyRaise(Inst(Ext("builtins.ValueError"), {"args": (v,)}), node)
        if isinstance(v, Term):
            return trunc(v)
        return T("trunc", v)

    def bi_float(self, args, kw, node):
        if not args:
            return 0.0
        v = args[0]
        if isinstance(v, (bool, int, float)):
            return float(v)
        if isinstance(v, Fraction):
            return v
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                raise PyRaise(Inst(Ext("builtins.ValueError"), {"args": (v,)}), node)
        return v if isinstance(v, Term) else T("float", v)

    def bi_str(self, args, kw, node):
        if not args:
            return ""
        v = args[0]
        if isinstance(v, str):
            return v
        if isinstance(v, (int,)) or v is None:
            return str(v)
        if isinstance(v, Inst):
            m = self.find_method(v.cls, "__str__")
            if isinstance(m, Fn):
                return self.call(Bound(m, v), [], {}, node)
        return T("str", v)

    def bi_repr(self, args, kw, node):
        return repr(args[0]) if isinstance(args[0], (str, int)) else T("repr", args[0])

    def bi_bool(self, args, kw, node):
        if not args:
            return False
        v = args[0]
        if isinstance(v, Term):
            return v if v.op in ("gt0", "eq0", "not", "and") else T("bool", v)
        return self.truth(v, node)

    def bi_list(self, args, kw, node):
        if not args:
            return AList()
        l = self.iterate_list(args[0])
        if l is not None:
            return AList(l)
        v = args[0]
        if isinstance(v, Term) and v.op in ("zip", "range", "enumerate", "items", "keys", "values", "map", "reversed"):
            lp, el = self.loop_elem(v)
            return AList([T("each", lp.sym, el)])
        return T("list*", v)

    def bi_tuple(self, args, kw, node):
        if not args:
            return ()
        l = self.iterate_list(args[0])
        if l is not None:
            return tuple(l)
        return T("list*", args[0])

    def bi_set(self, args, kw, node):
        if not args:
            return set()
        l = self.iterate_list(args[0])
        if l is not None and not has_splat(l):
            return set(tm.freeze(x) if not hashable(x) else x for x in l)
        return T("set*", args[0])

    bi_frozenset = bi_set

    def bi_dict(self, args, kw, node):
        d = {}
        if args:
            a = args[0]
            if isinstance(a, dict):
                d.update(a)
            elif isinstance(a, Inst) and isinstance(self.find_method(a.cls, "keys"), Fn):
                for k in self.iterate_list(self.call(self.getattr(a, "keys"), [], {}, node)):
                    d[k] = self.getitem(a, k, node)
            else:
                l = self.iterate_list(a)
                if l is None or has_splat(l):
                    if isinstance(a, Term) and a.op == "zip":
                        lp, el = self.loop_elem(a)
                        d[T("each", lp.sym, el[0])] = el[1]
                    elif l is not None:
                        for x in l:
                            if isinstance(x, Term) and x.op == "each" and isinstance(x.args[1], Term) and x.args[1].op == "tuple":
                                d[T("each", x.args[0], x.args[1].args[0])] = x.args[1].args[1]
                            else:
                                d[T("splat", x)] = x
                    else:
                        return T("dict*", a)
                else:
                    for x in l:
                        kv = self.iterate_list(x)
                        if kv is None:
                            return T("dict*", a)
                        d[kv[0] if hashable(kv[0]) else tm.freeze(kv[0])] = kv[1]
        d.update(kw)
        return d

    def bi_sorted(self, args, kw, node):
        l = self.iterate_list(args[0])
        if l is not None and not has_splat(l) and not kw:
            if all(isinstance(x, str) for x in l) or all(isinstance(x, (int, float, Fraction)) for x in l):
                return AList(sorted(l))
        if l is not None and not has_splat(l) and "key" in kw:
            ks = [self.call(kw["key"], [x], {}, node) for x in l]
            if all(isinstance(x, (int, float)) for x in ks) or all(isinstance(x, str) for x in ks):
                o = sorted(range(len(l)), key=lambda i: ks[i], reverse=bool(kw.get("reverse", False)))
                return AList([l[i] for i in o])
        return T("sorted", args[0], *[Term("kw", (k, tm.freeze(v))) for k, v in sorted(kw.items())])

    def bi_reversed(self, args, kw, node):
        l = self.iterate_list(args[0])
        if l is not None and not has_splat(l):
            return AList(l[::-1])
        return T("reversed", args[0])

    def _minmax(self, which, args, kw, node):
        if len(args) == 1:
            l = self.iterate_list(args[0])
            if l is None or has_splat(l):
                return self.mkcall(Ext("numpy." + which), args, kw)
            args = l
        if kw:
            return T(which + "*", *args)
        if all(isinstance(x, (int, float, Fraction)) for x in args) and args:
            return min(args) if which == "min" else max(args)
        if any(isinstance(x, str) for x in args):
            return T(which + "*", *args)
        return tm.minmax(which, [tm.freeze(a) for a in args])

    def bi_min(self, args, kw, node):
        return self._minmax("min", args, kw, node)

    def bi_max(self, args, kw, node):
        return self._minmax("max", args, kw, node)

    def bi_abs(self, args, kw, node):
        v = args[0]
        if isinstance(v, (int, float, Fraction)):
            return abs(v)
        if isinstance(v, Inst) and self.inst_ext_binop is not None:
            r = self.inst_ext_binop(self, "abs", v, None, node)
            if r is not NotImplemented:
                return r
        return tabs(v) if isinstance(v, Term) else T("abs", v)

    def bi_sum(self, args, kw, node):
        l = self.iterate_list(args[0])
        if l is not None and not has_splat(l):
            r = args[1] if len(args) > 1 else 0
            for x in l:
                r = self.binop("+", r, x, node)
            return r
        return T("call", Ext("numpy.sum"), args[0])

    def bi_all(self, args, kw, node):
        l = self.iterate_list(args[0])
        if l is not None:
            unk = []
            for x in l:
                if isinstance(x, Term) and x.op in ("each", "splat"):
                    unk.append(T("forall", *x.args))
                    continue
                if isinstance(x, Term):
                    if not self.truth(x, node):
                        return False
                    continue
                if not self.truth(x, node):
                    return False
            if unk:
                return tm.land(*unk)
            return True
        return T("forall", args[0])

    def bi_any(self, args, kw, node):
        l = self.iterate_list(args[0])
        if l is not None:
            unk = []
            for x in l:
                if isinstance(x, Term) and x.op in ("each", "splat"):
                    if x.op == "each" and len(x.args) == 2:
                        unk.append(tm.lnot(T("forall", x.args[0], tm.lnot(x.args[1]) if isinstance(x.args[1], (Term, bool)) else x.args[1])))
                    else:
                        unk.append(T("exists", *x.args))
                    continue
                if self.truth(x, node):
                    return True
            if unk:
                return tm.lor(*unk)
            return False
        return T("exists", args[0])

    def bi_map(self, args, kw, node):
        ls = [self.iterate_list(a) for a in args[1:]]
        if all(l is not None and not has_splat(l) for l in ls):
            return AList([self.call(args[0], list(x), {}, node) for x in zip(*ls)])
        it = args[1] if len(args) == 2 else T("zip", *args[1:])
        lp, el = self.loop_elem(it)
        self.loops.append(lp)
        try:
            v = self.call(args[0], [el] if len(args) == 2 else list(el), {}, node)
        finally:
            self.loops.pop()
        return AList([T("each", lp.sym, v)])

    def bi_filter(self, args, kw, node):
        l = self.iterate_list(args[1])
        if l is not None and not has_splat(l):
            out = AList()
            for x in l:
                c = x if args[0] is None else self.call(args[0], [x], {}, node)
                if self.truth(c, node):
                    out.append(x)
            return out
        return T("filter", *args)

    def bi_type(self, args, kw, node):
        if len(args) == 3:
            name, bases, ns = args
            b = [x for x in self.iterate_list(bases) if isinstance(x, Cls) or isinstance(x, Ext)]
            mod = self.stack[-1].fn.mod if self.stack else None
            c = Cls(name if isinstance(name, str) else "<dyn>", mod, b, dict(ns) if isinstance(ns, dict) else {})
            c.dynname = name
            return c
        v = args[0]
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, Term):
            return T("type", v)
        nt = {bool: "bool", int: "int", float: "float", str: "str", AList: "list", list: "list", tuple: "tuple", dict: "dict", set: "set", bytes: "bytes"}.get(type(v))
        if nt:
            return Builtin(nt)
        return T("type", v)

    def bi_iter(self, args, kw, node):
        v = args[0]
        if v is None or isinstance(v, (bool, int, float, Fraction)):
            raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("not iterable",)}), node)
        if isinstance(v, Inst):
            r = self.models.get("*iter")
            if r is not None:
                return r(self, args, kw, node)
        return v

    def bi_next(self, args, kw, node):
        l = self.iterate_list(args[0])
        if l is not None and not has_splat(l):
            if l:
                return l[0]
            if len(args) > 1:
                return args[1]
            raise PyRaise(Inst(Ext("builtins.StopIteration"), {"args": ()}), node)
        return T("next", *args)

    def bi_callable(self, args, kw, node):
        v = args[0]
        if isinstance(v, (Fn, Bound, Cls, Builtin, PyFunc, Partial, NativeMethod)):
            return True
        if is_const(v) or is_native(v):
            return False
        return T("callable", v)

    def bi_property(self, args, kw, node):
        a = list(args) + [None] * 3
        return Property(a[0] or kw.get("fget"), a[1] or kw.get("fset"), a[2] or kw.get("fdel"))

    def bi_staticmethod(self, args, kw, node):
        return StaticM(args[0])

    def bi_classmethod(self, args, kw, node):
        return ClassM(args[0])

    def bi_object(self, args, kw, node):
        return Inst(Ext("builtins.object"))

    def bi_slice(self, args, kw, node):
        a = list(args)
        if len(a) == 1:
            a = [None, a[0], None]
        while len(a) < 3:
            a.append(None)
        return Term("slice", tuple(tm.freeze(x) for x in a))

    def bi_round(self, args, kw, node):
        if all(isinstance(a, (int, float)) for a in args):
            return round(*args)
        if isinstance(args[0], Inst):
            m = self.find_method(args[0].cls, "__round__")
            if m is not None:
                return self.call(Bound(m, args[0]), args[1:], {}, node)
        return T("round", *args)

    def bi_divmod(self, args, kw, node):
        return (self.binop("//", args[0], args[1], node), self.binop("%", args[0], args[1], node))

    def bi_pow(self, args, kw, node):
        return self.binop("**", args[0], args[1], node)

    def bi_open(self, args, kw, node):
        r = self.fresh("openfile")
        self.event("call", node, callee=Builtin("open"), name="open", args=tuple(args), kwargs=dict(kw), result=r)
        return r

    def bi_id(self, args, kw, node):
        return T("id", args[0])

    def bi_vars(self, args, kw, node):
        if args and isinstance(args[0], Inst):
            return args[0].attrs
        return T("vars", *args)

    def bi_super(self, args, kw, node):
        return Super(args[0], args[1])

    # native methods -------------------------------------------------------
    def call_native(self, o, name, args, kwargs, node):
        if isinstance(o, list):
            if name == "append":
                v = args[0]
                if self.loops and self.loops[-1].sym is not None and not isinstance(v, (list, dict)):
                    v = T("each", self.loops[-1].sym, v) if isinstance(v, (Term, Inst)) or True else v
                o.append(v)
                self.event("append", node, target=o, value=args[0])
                return None
            if name == "extend":
                l = self.iterate_list(args[0])
                o.extend(l if l is not None else [T("splat", args[0])])
                return None
            if name == "copy":
                return AList(o)
            if name == "index" :
                for i, x in enumerate(o):
                    r = self.compare("==", args[0], x) if not isinstance(x, Inst) else self.is_same(args[0], x)
                    if r is True:
                        return i
                    if isinstance(r, Term):
                        return T("index", o, args[0])
                raise PyRaise(Inst(Ext("builtins.ValueError"), {"args": ()}), node)
            if name == "pop":
                try:
                    return o.pop(*[int(a) for a in args])
                except (IndexError, TypeError):
                    return T("pop", o, *args)
            if name == "insert" and isinstance(args[0], int):
                o.insert(args[0], args[1])
                return None
            if name == "remove":
                for i, x in enumerate(o):
                    if x is args[0] or (not isinstance(x, Inst) and self.compare("==", args[0], x) is True):
                        del o[i]
                        return None
                raise PyRaise(Inst(Ext("builtins.ValueError"), {"args": ()}), node)
            if name == "sort":
                if all(isinstance(x, (int, float, str)) for x in o) and not kwargs:
                    o.sort()
                return None
            if name == "reverse":
                o.reverse()
                return None
            if name == "count":
                return T("count", o, *args)
            if name == "clear":
                o.clear()
                return None
        if isinstance(o, dict):
            if name == "get":
                k = args[0] if hashable(args[0]) else tm.freeze(args[0])
                if k in o:
                    return o[k]
                if isinstance(k, Term) or any(isinstance(x, Term) for x in o):
                    if o:
                        return T("getdef", o, *args)
                return args[1] if len(args) > 1 else kwargs.get("default")
            if name == "items":
                if any(isinstance(k, Term) and k.op == "each" for k in o):
                    return AList([T("each", k.args[0], (k.args[1], v)) if isinstance(k, Term) and k.op == "each" else (k, v) for k, v in o.items()])
                return AList(list(o.items()))
            if name == "keys":
                return AList(list(o.keys()))
            if name == "values":
                if any(isinstance(k, Term) and k.op == "each" for k in o):
                    return AList([T("each", k.args[0], v) if isinstance(k, Term) and k.op == "each" else v for k, v in o.items()])
                return AList(list(o.values()))
            if name == "update":
                if args:
                    if isinstance(args[0], dict):
                        o.update(args[0])
                    else:
                        l = self.iterate_list(args[0])
                        ps = [self.iterate_list(x) if isinstance(x, (list, tuple)) else None for x in l] if l is not None else [None]
                        if all(x is not None and len(x) == 2 and hashable(x[0]) for x in ps):
                            o.update((x[0], x[1]) for x in ps)
                        else:
                            o[T("splat", args[0])] = args[0]
                o.update(kwargs)
                return None
            if name == "pop":
                k = args[0]
                if hashable(k) and k in o:
                    return o.pop(k)
                if len(args) > 1:
                    return args[1]
                raise PyRaise(Inst(Ext("builtins.KeyError"), {"args": (k,)}), node)
            if name == "setdefault":
                k = args[0] if hashable(args[0]) else tm.freeze(args[0])
                return o.setdefault(k, args[1] if len(args) > 1 else None)
            if name == "copy":
                return dict(o)
            if name == "clear":
                o.clear()
                return None
        if isinstance(o, (set, frozenset)):
            if name == "add":
                o.add(args[0] if hashable(args[0]) else tm.freeze(args[0]))
                return None
            if name in ("union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "update", "copy", "isdisjoint"):
                ls = [self.iterate_list(a) for a in args]
                if all(l is not None for l in ls):
                    return getattr(o, name)(*[set(l) for l in ls])
        if isinstance(o, (str, bytes)):
            if name == "join":
                l = self.iterate_list(args[0])
                if l is not None and all(isinstance(x, str) for x in l):
                    return o.join(l)
                return T("join", o, args[0])
            if name == "format":
                if all(isinstance(x, (str, int)) for x in list(args) + list(kwargs.values())):
                    try:
                        return o.format(*args, **kwargs)
                    except (IndexError, KeyError, ValueError):
                        pass
                return T("format", o, *args, *[Term("kw", (k, tm.freeze(v))) for k, v in sorted(kwargs.items())])
            if all(is_const(x) or (isinstance(x, tuple) and all(is_const(y) for y in x)) for x in args) and all(is_const(x) for x in kwargs.values()):
                try:
                    r = getattr(o, name)(*args, **kwargs)
                    return AList(r) if isinstance(r, list) else r
                except Exception as ex:
                    raise PyRaise(Inst(Ext("builtins." + type(ex).__name__), {"args": ()}), node)
            return self.mkcall(T("attr", o, name), args, kwargs)
        if isinstance(o, tuple):
            if name in ("index", "count"):
                try:
                    return getattr(o, name)(*args)
                except ValueError:
                    raise PyRaise(Inst(Ext("builtins.ValueError"), {"args": ()}), node)
        if isinstance(o, (int, float, Fraction)):
            try:
                return getattr(o, name)(*args)
            except Exception:
                pass
        r = self.mkcall(T("attr", o, name), args, kwargs)
        self.event("call", node, callee=None, name="." + name, recv=o, args=tuple(args), kwargs=dict(kwargs), result=r)
        return r

    # ---------------------------------------------------------------- entry helpers
    def func(self, modname, qual):
        m = self.get_mod(modname)
        if m is None:
            raise AnalysisError("anchor vanished: module %s" % modname)
        v = None
        env = m.env.vars
        parts = qual.split(".")
        v = env.get(parts[0])
        if isinstance(v, Lazy):
            v = self.get_mod(v.mod).env.vars.get(v.name)
        for p in parts[1:]:
            if isinstance(v, Cls):
                w = v.ns.get(p)
                if w is None:
                    try:
                        w = self.getattr(v, p)
                    except PyRaise:
                        w = None
                v = w
            else:
                v = None
        if v is None:
            raise AnalysisError("anchor vanished: %s:%s" % (modname, qual))
        return v


class Lazy:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    @property
    def akey(self):
        return "lazy:%s.%s" % (self.mod, self.name)


class Frame:
    def __init__(self, fn, env):
        self.fn = fn
        self.env = env
        self.exc_stack = []
        self.call_args = None
        self.at = None


def walk_own(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                todo.append(c)


def walk_own_loop(st):
    """continue/break statements belonging to the enclosing loop"""
    todo = [st]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.For, ast.While)):
                todo.append(c)


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def deep_known(x):
    if is_const(x):
        return True
    if isinstance(x, (list, tuple, set, frozenset)):
        return all(deep_known(y) for y in x)
    if isinstance(x, dict):
        return all(deep_known(k) and deep_known(v) for k, v in x.items())
    return False


def has_splat(l):
    it = l
    return any(isinstance(x, Term) and x.op in ("each", "splat", "star") for x in it)


def is_integral(t):
    if isinstance(t, bool) or isinstance(t, int):
        return True
    if isinstance(t, Fraction):
        return t.denominator == 1
    if isinstance(t, Term):
        if t.op in ("floor", "ceil", "trunc", "len", "loop", "round0"):
            return True
        if t.op in ("min", "max"):
            return all(is_integral(a) for a in t.args)
        if t.op == "poly":
            return all(
                c.denominator == 1 and all(e.denominator == 1 and e > 0 and is_integral(a) for a, e in m)
                for m, c in t.args
            )
        if t.op == "sym" and len(t.args) > 1 and t.args[1] == "int":
            return True
    return False


def trunc(v):
    if is_integral(v):
        return v
    if isinstance(v, (int, float, Fraction)):
        return int(v)
    return T("trunc", v)


def tabs(v):
    p = tm.to_poly(v)
    if p:
        lead = sorted(p.items(), key=lambda mc: tm._mkey(mc[0]))[-1][1]
        if lead < 0:
            v = tm.neg(v)
    return T("abs", v)


def _const_binop(op, a, b):
    if isinstance(a, Fraction) and isinstance(b, float):
        b = Fraction(repr(b))
    if isinstance(b, Fraction) and isinstance(a, float):
        a = Fraction(repr(a))
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            r = Fraction(a) / Fraction(b)
            return r
        return a / b
    if op == "//":
        return a // b
    if op == "%":
        return a % b
    if op == "**":
        if abs(b) > 64:
            raise OverflowError
        return a ** b
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    if op == "<<":
        return a << b
    if op == ">>":
        return a >> b
    raise TypeError(op)


# ------------------------------------------------------------------ default models
EXT_MODELS = {}
METH_MODELS = {}


def model(*paths):
    def deco(f):
        for p in paths:
            EXT_MODELS[p] = f
        return f
    return deco


def meth(*names):
    def deco(f):
        for n in names:
            METH_MODELS[n] = f
        return f
    return deco


def _cast_int(it, args, kw, node):
    return it.bi_int(args, kw, node)


def _cast_float(it, args, kw, node):
    v = args[0] if args else 0.0
    if isinstance(v, (bool, int, float)):
        return v
    return v if isinstance(v, (Term, Fraction)) else NotImplemented


for _n in INT_CASTS:
    EXT_MODELS["numpy." + _n] = _cast_int
    EXT_MODELS["numba." + _n] = _cast_int
for _n in FLOAT_CASTS:
    EXT_MODELS["numpy." + _n] = _cast_float
    EXT_MODELS["numba." + _n] = _cast_float


@model("numpy.floor", "math.floor")
def _floor(it, args, kw, node):
    if kw or len(args) != 1:
        return NotImplemented
    v = args[0]
    if isinstance(v, (int, float, Fraction)):
        import math
        return math.floor(v)
    if isinstance(v, Term):
        return v if is_integral(v) else T("floor", v)
    return NotImplemented


@model("numpy.ceil", "math.ceil")
def _ceil(it, args, kw, node):
    if kw or len(args) != 1:
        return NotImplemented
    v = args[0]
    if isinstance(v, (int, float, Fraction)):
        import math
        return math.ceil(v)
    if isinstance(v, Term):
        return v if is_integral(v) else T("ceil", v)
    return NotImplemented


@model("numpy.sqrt", "math.sqrt")
def _sqrt(it, args, kw, node):
    if kw or len(args) != 1 or isinstance(args[0], Inst):
        return NotImplemented
    if isinstance(args[0], (int, float, Fraction)):
        r = float(args[0]) ** 0.5
        return int(r) if r == int(r) else r
    return tm.power(tm.freeze(args[0]), Fraction(1, 2))


@model("numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs")
def _abs(it, args, kw, node):
    if kw or len(args) != 1 or isinstance(args[0], Inst):
        return NotImplemented
    return it.bi_abs(args, kw, node)


@model("numpy.logical_and")
def _land(it, args, kw, node):
    if kw or len(args) != 2 or any(isinstance(a, Inst) for a in args):
        return NotImplemented
    return tm.land(*[tm.freeze(a) for a in args])


@model("numpy.logical_or")
def _lor(it, args, kw, node):
    if kw or len(args) != 2 or any(isinstance(a, Inst) for a in args):
        return NotImplemented
    return tm.lor(*[tm.freeze(a) for a in args])


@model("numpy.logical_not", "numpy.invert")
def _lnot(it, args, kw, node):
    if kw or len(args) != 1 or any(isinstance(a, Inst) for a in args):
        return NotImplemented
    return tm.lnot(tm.freeze(args[0]))


@model("numpy.minimum", "numpy.fmin")
def _npmin(it, args, kw, node):
    if kw or len(args) != 2 or any(isinstance(a, Inst) for a in args):
        return NotImplemented
    return tm.minmax("min", [tm.freeze(a) for a in args])


@model("numpy.maximum", "numpy.fmax")
def _npmax(it, args, kw, node):
    if kw or len(args) != 2 or any(isinstance(a, Inst) for a in args):
        return NotImplemented
    return tm.minmax("max", [tm.freeze(a) for a in args])


def _bin(op):
    def f(it, args, kw, node):
        if kw or len(args) != 2 or any(isinstance(a, Inst) and it.is_arraylike(a) for a in args):
            return NotImplemented
        return it.binop(op, args[0], args[1], node)
    return f


for _n, _o in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("power", "**"), ("mod", "%"), ("remainder", "%"), ("floor_divide", "//")):
    EXT_MODELS["numpy." + _n] = _bin(_o)


def _cmp(op):
    def f(it, args, kw, node):
        if kw or len(args) != 2 or any(isinstance(a, Inst) and it.is_arraylike(a) for a in args):
            return NotImplemented
        return it.compare(op, args[0], args[1], node)
    return f


for _n, _o in (("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">="), ("equal", "=="), ("not_equal", "!=")):
    EXT_MODELS["numpy." + _n] = _cmp(_o)


@model("numpy.square")
def _square(it, args, kw, node):
    if kw or len(args) != 1 or isinstance(args[0], Inst):
        return NotImplemented
    return tm.power(tm.freeze(args[0]), 2)


@model("numba.prange")
def _prange(it, args, kw, node):
    return it.bi_range(args, kw, node, par=True)


@model("functools.reduce")
def _reduce(it, args, kw, node):
    f, seq = args[0], it.iterate_list(args[1])
    if seq is None or has_splat(seq):
        return NotImplemented
    if len(args) > 2:
        acc = args[2]
    else:
        if not seq:
            raise PyRaise(Inst(Ext("builtins.TypeError"), {"args": ("reduce of empty sequence",)}), node)
        acc, seq = seq[0], seq[1:]
    for x in seq:
        acc = it.call(f, [acc, x], {}, node)
    return acc


@model("functools.partial")
def _partial(it, args, kw, node):
    return Partial(args[0], tuple(args[1:]), dict(kw))


@model("functools.wraps")
def _wraps(it, args, kw, node):
    return PyFunc(lambda it2, a, k, n: a[0], "wraps")


@model("copy.copy", "copy.deepcopy")
def _copy(it, args, kw, node):
    v = args[0]
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, list):
        return AList(v)
    return NotImplemented


@model("builtins.object.__new__")
def _objnew(it, args, kw, node):
    return Inst(args[0])


@model("warnings.warn")
def _warn(it, args, kw, node):
    return None


@model("numpy.logical_and.reduce", "numpy.logical_or.reduce")
def _lareduce(it, args, kw, node):
    return NotImplemented


@model("itertools.product")
def _product(it, args, kw, node):
    import itertools
    ls = [it.iterate_list(a) for a in args]
    if all(l is not None and not has_splat(l) for l in ls):
        rep = kw.get("repeat", 1)
        if isinstance(rep, int):
            return [tuple(x) for x in itertools.product(*ls, repeat=rep)]
    return NotImplemented


@model("itertools.chain")
def _chain(it, args, kw, node):
    out = AList()
    for a in args:
        l = it.iterate_list(a)
        out.extend(l if l is not None else [T("splat", a)])
    return out


def alloc(kind):
    def f(it, args, kw, node):
        it.nfresh += 1
        shape = args[0] if args else kw.get("shape")
        return T("alloc", it.nfresh, kind, shape, kw.get("dtype", args[1] if len(args) > 1 else None))
    return f


for _n in ("zeros", "empty", "ones"):
    EXT_MODELS["numpy." + _n] = alloc(_n)


def _red(name):
    def f(it, recv, args, kw, node):
        r = it.mkcall(Ext("numpy." + name), [recv] + args, kw)
        return r
    return f


for _n in ("sum", "min", "max", "any", "all", "mean", "cumsum", "argsort", "prod"):
    METH_MODELS[_n] = _red(_n)


@meth("items")
def _items(it, recv, args, kw, node):
    return T("items", recv) if not args else NotImplemented


@meth("keys")
def _keys(it, recv, args, kw, node):
    return T("keys", recv) if not args else NotImplemented


@meth("values")
def _values(it, recv, args, kw, node):
    return T("values", recv) if not args else NotImplemented

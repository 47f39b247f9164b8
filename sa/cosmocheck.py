"""Drives the array domain over every scenario and judges the outcomes."""

import ast
import itertools

from . import terms as tm
from .terms import Term, T, sym
from .interp import AnalysisError, Bound, Cls, Ext, Fn, Inst, PyRaise, Partial, PyFunc
from . import npspec
from .cosmo import World, AArr, Buf, ANY, UNK, MIX, ND, eq, clsname


def label_exponent(W, a):
    """exponent carried by the cosmo_factor label: number/Term, 'none', or UNK"""
    cf = a.attrs.get("cosmo_factor", "unset")
    if cf is None or isinstance(cf, str):
        return "none" if cf is None else "unset"
    if isinstance(cf, Inst) and clsname(cf.cls) == "cosmo_factor":
        x = cf.attrs.get("expr")
        if x is None:
            return "null"
        if isinstance(x, Term) and x.op == "apow":
            return x.args[0]
        if isinstance(x, (int, float)) and x == 1:
            return 0
        return UNK
    if isinstance(cf, (list, tuple, dict)):
        return "container"
    return UNK


def check_label(W, a, what):
    """problem description or None; a is an array in library hands whose buffer is known"""
    e, k = a.buf.e, a.buf.k
    if e is UNK or k is UNK or e is ANY:
        return None
    if "comoving" not in a.attrs:
        return "%s is returned without cosmology labels (%s)" % (what, clsname(a.cls))
    if k is MIX or e is MIX:
        return "%s is built from operands in different frames" % what
    com = a.attrs["comoving"]
    n = label_exponent(W, a)
    sh = lambda x: tm.show(x) if isinstance(x, Term) else str(x)
    if com not in (True, False, None):
        return None
    if com is None:
        return "%s lost its comoving/physical label (comoving=None)" % what
    if n == "container":
        return "%s carries a container instead of a scale-factor dependence" % what
    if n in ("none", "null", "unset"):
        if eq(e, 0) is False:
            return "%s lost its scale-factor dependence (should be a**%s)" % (what, sh(e))
        return None
    if n is UNK:
        return None
    if eq(n, e) is False:
        return "%s is labelled a**%s but scales as a**%s" % (what, sh(n), sh(e))
    want = tm.neg(e) if com else 0
    if eq(k, want) is False:
        return "%s is labelled %s but holds %s numbers" % (what, "comoving" if com else "physical", "physical" if eq(k, 0) else "comoving" if eq(k, tm.neg(e)) else "a**%s-scaled" % sh(k))
    return None


class Scenario:
    def __init__(self, line):
        self.line = line
        self.may_raise = line.startswith("?")
        src = line.lstrip("?")
        e = ast.parse(src, mode="eval").body
        self.call = e
        f = ast.unparse(e.func)
        self.func = f
        names = []
        for n in ast.walk(ast.Module(body=[ast.Expr(a) for a in e.args] + [ast.Expr(k.value) for k in e.keywords], type_ignores=[])):
            if isinstance(n, ast.Name):
                names.append((n.lineno, n.col_offset, n.id))
        seen = []
        for _, _, i in sorted(names):
            if i not in seen:
                seen.append(i)
        self.names = seen
        self.framed = [n for n in seen if n[0] in "XMSR"]
        self.dst = [n for n in seen if n.endswith("D")]

    def writes_into(self, n):
        """is the destination n combined with the other operands (np.put) rather than overwritten (out=)?"""
        return not (n.endswith("D") and "o" in n or "p" in n)

    def build(self, W, frames):
        env = {}
        for n in self.names:
            if n[0] == "N":
                env[n] = AArr(ND, Buf(ANY, 0), (sym("n", "int"),), None, n)
                continue
            digits = "".join(c for c in n[1:] if c.isdigit())
            e = int(digits) if digits else 1
            fr = frames[n]
            shape = (sym("m", "int"), sym("m", "int")) if n[0] == "M" else (sym("m", "int"), sym("k", "int")) if n[0] == "R" else None
            if fr == "U":
                a = W.mk(e, None, scalar=n[0] == "S", label=n, vt=False, shape=shape, nullcf=True)
            elif fr == "V":
                a = W.mk(e, False, scalar=n[0] == "S", label=n, vt=False, shape=shape)
            else:
                a = W.mk(e, fr == "C", scalar=n[0] == "S", label=n, shape=shape, comp="lossy")
            env[n] = a

        def ev(x):
            if isinstance(x, ast.Name):
                return env[x.id]
            if isinstance(x, ast.Constant):
                return x.value
            if isinstance(x, ast.List):
                return [ev(y) for y in x.elts]
            if isinstance(x, ast.Tuple):
                return tuple(ev(y) for y in x.elts)
            if isinstance(x, ast.UnaryOp):
                return -ev(x.operand)
            raise AnalysisError("scenario syntax")

        return env, [ev(a) for a in self.call.args], {k.arg: ev(k.value) for k in self.call.keywords}

    def combos(self, extra=True):
        n = len(self.framed)
        out = [dict(zip(self.framed, c)) for c in itertools.product("CP", repeat=n)]
        if extra and n and not self.may_raise:
            out.append({x: "U" for x in self.framed})
            out.append({x: "V" for x in self.framed})
            if n > 1:
                for i in range(n):
                    out.append({x: ("V" if j == i else "C") for j, x in enumerate(self.framed)})
                    out.append({x: ("U" if j == i else "C") for j, x in enumerate(self.framed)})
        return out


def snap(a):
    return (a.buf.e, a.buf.k, a.buf.writes, a.attrs.get("comoving"), a.attrs.get("valid_transform"), a.attrs.get("compression"), id(a.attrs.get("cosmo_factor")))


def flat_results(v):
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += flat_results(x)
        return out
    return [v]


def ext_of(dotted):
    return Ext("numpy." + dotted)


class Judge:
    """findings: list of dict(rule, construct, message, scenario, frames)"""

    def __init__(self, W):
        self.W = W
        self.findings = []
        self.undecided = []
        self.reasons = {}
        self.stats = {"scenarios": 0, "frame_combinations": 0, "paths": 0, "undecided_paths": 0, "results_checked": 0, "operands_checked": 0}
        self.handlers = {}

    def add(self, rule, construct, msg, sc, frames, where=None):
        key = (rule, construct, msg)
        for f in self.findings:
            if (f["rule"], f["construct"], f["message"]) == key:
                f["n"] += 1
                return
        self.findings.append({"rule": rule, "construct": construct, "message": msg, "scenario": sc, "frames": frames, "where": where, "n": 1})

    def run(self, sc, thunk, construct, frames, env_box, where=None, ufunc=False):
        W, it = self.W, self.W.it
        self.stats["frame_combinations"] += 1
        try:
            paths = it.explore(thunk)
        except AnalysisError as ex:
            self.undecided.append((construct, sc.line, str(ex)))
            self.stats["undecided_paths"] += 1
            return
        for r in paths:
            self.stats["paths"] += 1
            env, before, dsts = r.extra["env"], r.extra["before"], r.extra.get("dst", ())
            fr = "".join(frames[n] for n in sc.framed)
            framed = dict(zip(sc.framed, fr))
            mixed = [e for e in r.events if e.kind == "mixed"]
            unknown = r.guesses
            if r.exc is not None:
                if sc.may_raise:
                    continue
                vals = set(fr)
                if {"V", "C"} <= vals and (sc.func == "block" or any(framed[n] == "C" and sc.writes_into(n) for n in sc.dst)) and r.exc.name in ("InvalidConversionError", "InvalidScaleFactor", "ValueError"):
                    continue   # the destination is comoving and the value cannot be: refusing is right
                if "U" in vals and vals != {"U"}:
                    continue   # refusing is the documented behaviour
                if unknown:
                    self.stats["undecided_paths"] += 1
                    self.why("raise under unknown condition %s" % tm.show(unknown[0][0] if isinstance(unknown[0], tuple) else unknown[0]), sc)
                    continue
                if getattr(r.exc, "name", "") in ("NotImplementedError",):
                    continue
                self.add("refused", construct, "%s: valid call %s raises %s%s" % (construct, sc.line, r.exc.name, self.detail(r.exc)), sc.line, fr, self.exc_where(r.exc) or where)
                continue
            vals = set(fr)
            if mixed:
                m = mixed[0]
                self.add("mixed-frames", construct, "%s evaluates %s on numbers of different %s" % (construct, m.what, "scale-factor dimension" if sc.may_raise else "frames (comoving and physical)"), sc.line, fr, m.where)
                continue
            if "U" in vals and vals != {"U"}:
                read = {framed[n] for n in sc.framed if n not in sc.dst or sc.writes_into(n)}
                if "U" in read and len(read) > 1 and self.is_combining(sc, framed):
                    self.add("unset-frame", construct, "%s accepts operands with unset and set frames together" % construct, sc.line, fr, where)
                continue
            results = [x for x in flat_results(r.ret) if isinstance(x, AArr)]
            lists = flat_results(r.ret)
            if any(isinstance(x, Term) and x.op == "call" for x in lists) or any(e.kind == "kernel" and e.unknown for e in r.events):
                self.stats["undecided_paths"] += 1
                self.why("unmodelled primitive %s" % ([e.name for e in r.events if e.kind == "kernel" and e.unknown] or [x for x in lists if isinstance(x, Term)]), sc)
            multi = len(results) > 1
            for i, a in enumerate(results):
                if clsname(a.cls) == "ndarray":
                    continue
                what = "the result" if not multi else "result #%d" % i
                if vals == {"U"}:
                    if "comoving" in a.attrs and a.attrs["comoving"] in (True, False):
                        self.add("label", construct, "%s: %s of operands with unset frame is labelled %s" % (construct, what, "comoving" if a.attrs["comoving"] else "physical"), sc.line, fr, where)
                    continue
                self.stats["results_checked"] += 1
                p = check_label(W, a, what)
                if p:
                    self.add("label", construct, "%s: %s" % (construct, p), sc.line, fr, where)
                    continue
                if a.buf.e is ANY or a.buf.e is UNK:
                    continue
                if isinstance(a.cls, Cls):
                    cn = a.cls.name
                    if a.shape == () and cn == "cosmo_array" and not self.W_scalar_ok(a):
                        self.add("class", construct, "%s: scalar %s is not a cosmo_quantity" % (construct, what), sc.line, fr, where)
                    if a.shape and cn == "cosmo_quantity":
                        self.add("class", construct, "%s: %s is an array but a cosmo_quantity" % (construct, what), sc.line, fr, where)
                ivals = {framed.get(n) for n in a.buf.src}
                if "V" in ivals:
                    if a.attrs.get("valid_transform") is True:
                        self.add("valid-transform", construct, "%s: %s is marked transformable although an operand is not" % (construct, what), sc.line, fr, where)
                elif "V" not in vals and a.attrs.get("valid_transform") is not True and not isinstance(a.attrs.get("valid_transform"), Term):
                    self.add("valid-transform", construct, "%s: %s lost valid_transform" % (construct, what), sc.line, fr, where)
                if ufunc and len(sc.call.args) == 1 and not sc.call.keywords and len(sc.names) == 1 and len(sc.framed) == 1 and "V" not in vals and a.attrs.get("compression") is None:
                    self.add("compression", construct, "%s: %s lost the compression label of its only operand" % (construct, what), sc.line, fr, where)
            # destinations and out= operands
            for n in sc.dst:
                a = env[n]
                if vals == {"U"}:
                    continue
                self.stats["operands_checked"] += 1
                p = check_label(W, a, "destination %s" % n)
                if p:
                    self.add("out-label", construct, "%s: %s" % (construct, p.replace("destination " + n, "the destination operand")), sc.line, fr, where)
                elif n in [x for x in sc.names] and "o" in n and a.buf.writes == before[n][2]:
                    self.add("out-unwritten", construct, "%s: the out= array is not written (a converted copy is)" % construct, sc.line, fr, where)
            for n in sc.names:
                if n in sc.dst:
                    continue
                a = env[n]
                self.stats["operands_checked"] += 1
                now = snap(a)
                if now != before[n]:
                    what = "numbers" if now[:3] != before[n][:3] else "labels"
                    self.add("mutated-operand", construct, "%s: changes the %s of an operand it should only read" % (construct, what), sc.line, fr, where)

    def why(self, text, sc):
        self.reasons.setdefault(text, [sc.line, 0])[1] += 1

    def W_scalar_ok(self, a):
        return False

    def is_combining(self, sc, framed):
        """do the operands of this call enter one result?"""
        if sc.func == "meshgrid":
            return False
        if sc.func in ("histogram2d", "histogramdd"):
            if any(k.arg == "density" for k in sc.call.keywords):
                return True
            w = {k.value.id for k in sc.call.keywords if k.arg == "weights"}
            axes = {}
            for n, f in framed.items():
                if n not in w:
                    axes.setdefault(n[:2], set()).add(f)
            return any("U" in v and len(v) > 1 for v in axes.values())
        return True

    def contributes(self, sc, frames):
        return True

    def detail(self, exc):
        v = getattr(exc, "val", None)
        try:
            a = v.attrs.get("args")
            if a and isinstance(a[0], str):
                return " (%s)" % a[0]
            m = v.attrs.get("message")
            if isinstance(m, str):
                return " (%s)" % m
        except AttributeError:
            pass
        return ""

    def exc_where(self, exc):
        return getattr(exc, "where", None)


def prepare(W, sc, frames):
    env, args, kw = sc.build(W, frames)
    W.it.scratch["env"] = env
    W.it.scratch["before"] = {n: snap(env[n]) for n in sc.names}
    return env, args, kw


def first_cosmo(v):
    if isinstance(v, AArr) and isinstance(v.cls, Cls):
        return v
    if isinstance(v, (list, tuple)):
        for x in v:
            r = first_cosmo(x)
            if r is not None:
                return r
    if isinstance(v, dict):
        for x in v.values():
            r = first_cosmo(x)
            if r is not None:
                return r
    return None


def array_function(W, func, args, kw, node=None):
    a = first_cosmo([args, kw])
    it = W.it
    f = it.getattr(a, "__array_function__")
    return it.call(f, [func, (a.cls,), tuple(args), dict(kw)], {}, node)


def array_ufunc(W, ufunc, method, args, kw, node=None):
    a = first_cosmo([args, kw])
    it = W.it
    f = it.getattr(a, "__array_ufunc__")
    return it.call(f, [ufunc, method] + list(args), dict(kw), node)


def run_functions(W, J, lines):
    it = W.it
    for line in lines:
        sc = Scenario(line)
        J.stats["scenarios"] += 1
        func = ext_of(sc.func)
        for frames in sc.combos():
            def thunk(it, sc=sc, frames=frames, func=func):
                env, args, kw = prepare(W, sc, frames)
                return array_function(W, func, args, kw)
            J.run(sc, thunk, "numpy." + sc.func, frames, None, J.handlers.get(sc.func))


def run_ufuncs(W, J, lines):
    for line in lines:
        sc = Scenario(line)
        J.stats["scenarios"] += 1
        parts = sc.func.split(".")
        name, method = parts[0], (parts[1] if len(parts) > 1 else "__call__")
        canon = npspec.UFUNC_ALIAS.get(name, name)
        uf = Ext("numpy." + name)
        for frames in sc.combos():
            def thunk(it, sc=sc, frames=frames, uf=uf, method=method):
                env, args, kw = prepare(W, sc, frames)
                return array_ufunc(W, uf, method, args, kw)
            J.run(sc, thunk, "numpy." + sc.func, frames, None, None, True)


def lines_of(text):
    return [l.strip() for l in text.splitlines() if l.strip()]

"""Small client programs of the array classes, interpreted abstractly for every frame of their
operands.  A program is a python expression or a body; operand names follow the scenario
convention (X: array, M: 2-d array, S: scalar quantity, K: plain ndarray whose numbers are
comoving/physical as the frame letter says, digit: exponent).

expect:
  same        result has the labels of the first operand, numbers in the same frame
  consistent  result's labels agree with its numbers
  physical / comoving      as consistent, and the label says so
  plain:same / plain:physical / plain:comoving    ndarray with numbers of that frame
  any         nothing is claimed of the result
raises: frames (one letter per framed operand) in which the program must raise
may:    frames in which raising is acceptable
"""

import ast
import itertools
from fractions import Fraction

from . import terms as tm
from .terms import Term, T, sym
from .interp import AnalysisError, Ext, Inst, Cls, PyRaise, PyFunc, Bound, Fn, is_const
from .cosmo import AArr, Buf, ANY, UNK, MIX, ND, UA, eq, clsname
from .cosmocheck import Scenario, check_label, label_exponent, snap, flat_results


class Prog:
    def __init__(self, body, expect="same", raises="", may="", mutates="", fresh=False, frames="CPVU", construct=None, keepcls=None):
        self.body = body
        self.expect = expect
        self.raises = set(raises.split())
        self.may = set(may.split())
        self.mutates = set(mutates.split())
        self.fresh = fresh
        self.frames = frames
        self.may_raise = False
        self.line = body.strip().replace("\n", "; ")
        tree = ast.parse(body if "\n" in body or "return" in body or "=" in body.split("(")[0] else body)
        names = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id[0] in "XMSKR" and len(n.id) > 1 and n.id[1].isdigit():
                names.append((n.lineno, n.col_offset, n.id))
        self.names = []
        for _, _, i in sorted(names):
            if i not in self.names:
                self.names.append(i)
        self.framed = list(self.names)
        self.dst = []
        b = body.strip()
        if not b.startswith("return ") and "\n" not in b:
            try:
                ast.parse(b, mode="eval")
                b = "return " + b
            except SyntaxError:
                pass
        self.source = "def prog(%s):\n" % ", ".join(self.names) + "\n".join("    " + l for l in b.split("\n")) + "\n"
        self.construct = construct or self.line

    def combos(self):
        per = []
        for n in self.framed:
            fr = self.frames
            if n[0] == "K":
                fr = [f for f in fr if f in "CP"]
            per.append(fr)
        return ["".join(c) for c in itertools.product(*per)]

    def build(self, W, fr):
        env = {}
        for n, f in zip(self.framed, fr):
            digits = "".join(c for c in n[1:] if c.isdigit())
            e = int(digits) if digits else 1
            if n[0] == "K":
                env[n] = AArr(ND, Buf(e, tm.neg(e) if f == "C" else 0, None, (n,)), (sym("n", "int"),), None, n)
                continue
            shape = (sym("m", "int"), sym("m", "int")) if n[0] == "M" else (sym("m", "int"), sym("k", "int")) if n[0] == "R" else None
            sc = n[0] == "S"
            if f == "U":
                a = W.mk(e, None, scalar=sc, label=n, vt=False, shape=shape, nullcf=True, comp="lossy")
            elif f == "V":
                a = W.mk(e, False, scalar=sc, label=n, vt=False, shape=shape, comp="lossy")
            else:
                a = W.mk(e, f == "C", scalar=sc, label=n, shape=shape, comp="lossy")
            env[n] = a
        return env


PRELUDE = """
import copy
import pickle
import numpy as np
import unyt
from unyt import unyt_array, unyt_quantity
from swiftsimio.objects import cosmo_array, cosmo_quantity, cosmo_factor, a, NULL_CF
"""


def install(W):
    """models of copy/pickle for cosmology-aware objects"""
    it = W.it
    base_copy, base_deep = it.models.get("copy.copy"), it.models.get("copy.deepcopy")

    def cp(name, base):
        def f(it, args, kw, node):
            v = args[0]
            if isinstance(v, AArr):
                m = it.getattr(v, name, node)
                return it.call(m, [] if name == "__copy__" else [{}], {}, node)
            return base(it, args, kw, node) if base else NotImplemented
        return f

    it.models["copy.copy"] = cp("__copy__", base_copy)
    it.models["copy.deepcopy"] = cp("__deepcopy__", base_deep)

    def dumps(it, args, kw, node):
        v = args[0]
        if not isinstance(v, AArr):
            return NotImplemented
        m = it.find_method(v.cls, "__reduce_ex__")
        if isinstance(m, Fn):
            r = it.call(Bound(m, v), [4], {}, node)
        else:
            r = it.call(it.getattr(v, "__reduce__", node), [], {}, node)
        it.scratch["pickle"] = r
        it.scratch["pickle-shape"] = v.shape
        return T("pickled", v.uid)

    def loads(it, args, kw, node):
        r = it.scratch.get("pickle")
        if not isinstance(r, tuple) or len(r) < 3:
            raise AnalysisError("pickle protocol not understood")
        o = it.call(r[0], list(r[1]), {}, node)
        m = it.find_method(o.cls, "__setstate__") if isinstance(o, Inst) else None
        if m is None:
            raise AnalysisError("pickle protocol not understood")
        it.call(Bound(m, o) if isinstance(m, Fn) else it.getattr(o, "__setstate__", node), [r[2]], {}, node)
        if not it.scratch.get("unpickled-ok"):
            raise PyRaise(Inst(Ext("builtins.ValueError"), {"args": ("the array's own state does not reach its __setstate__",)}), node)
        o.shape = it.scratch.get("pickle-shape", o.shape)
        return o

    it.models["pickle.dumps"] = dumps
    it.models["pickle.loads"] = loads

    def reconstruct(it, args, kw, node):
        c = W.resolve_cls(args[0])
        if c is None:
            return NotImplemented
        o = AArr(c, Buf(UNK, UNK), (sym("n", "int"),), T("units", "none"))
        o.attrs["name"] = None
        m = it.find_method(c, "__array_finalize__")
        if isinstance(m, Fn):
            it.call(Bound(m, o), [None], {}, node)
        return o

    it.models["numpy._core.multiarray._reconstruct"] = reconstruct


def run(W, J, progs, pick=None):
    it = W.it
    if not getattr(W, "_programs", False):
        install(W)
        W._programs = True
    for p in progs:
        J.stats["scenarios"] += 1
        W.lean = True
        mod = it.client(PRELUDE + p.source, "<client>")
        fn = mod.env.vars["prog"]
        mod.env.vars["u"] = T("units", "given")
        mod.env.vars["s"] = W.s
        mod.env.vars["f"] = 2.5
        mod.env.vars["t"] = sym("t")
        for fr in p.combos():
            J.stats["frame_combinations"] += 1

            def thunk(it, p=p, fr=fr, fn=fn, mod=mod):
                mod.env.vars["cf1"] = W.mkcf(1)
                mod.env.vars["cf2"] = W.mkcf(2)
                env = p.build(W, fr)
                it.scratch["env"] = env
                it.scratch["before"] = {n: snap(env[n]) for n in p.names}
                it.scratch["labels"] = {n: {k: env[n].attrs.get(k) for k in ("comoving", "valid_transform", "compression")} for n in p.names if n[0] != "K"}
                return it.call(fn, [env[n] for n in p.names], {})

            try:
                paths = it.explore(thunk)
            except AnalysisError as ex:
                J.undecided.append((p.construct, p.line, str(ex)))
                J.stats["undecided_paths"] += 1
                continue
            for r in paths:
                judge(W, J, p, fr, r)
    W.lean = False


def judge(W, J, p, fr, r):
    J.stats["paths"] += 1
    env, before = r.extra["env"], r.extra["before"]
    add = lambda rule, msg, where=None: J.add(rule, p.construct, msg, p.line, fr, where)
    if r.exc is not None:
        if fr in p.raises or fr in p.may:
            if fr in p.raises:
                for n in p.names:
                    now = snap(env[n])
                    if now[1] != before[n][1] or now[3] != before[n][3]:
                        add("refused-late", "%s: the operand is changed although the operation is refused" % p.construct)
            return
        if W.uncertain(r.guesses):
            J.stats["undecided_paths"] += 1
            J.why("raise under %s" % [tm.show(g[0]) for g in r.guesses][:2], p)
            return
        add("refused", "%s raises %s%s" % (p.construct, r.exc.name, J.detail(r.exc)), J.exc_where(r.exc))
        return
    if fr in p.raises:
        if W.uncertain(r.guesses):
            J.stats["undecided_paths"] += 1
            return
        add("not-refused", "%s succeeds although no conversion exists" % p.construct)
        return
    mixed = [e for e in r.events if e.kind == "mixed"]
    if mixed:
        add("mixed-frames", "%s evaluates %s on numbers of different frames" % (p.construct, mixed[0].what), mixed[0].where)
        return
    exp = p.expect
    ret = r.ret
    if exp == "any":
        pass
    elif exp in ("true", "false"):
        want = exp == "true"
        if W.uncertain(r.guesses) or not (is_const(ret) or ret is None):
            J.stats["undecided_paths"] += 1
            J.why("answer %s %s" % (tm.show(ret) if isinstance(ret, Term) else ret, [tm.show(g[0]) for g in r.guesses][:2]), p)
        elif bool(ret) != want:
            add("answer", "%s answers %s" % (p.construct, ret))
    elif exp.startswith("answer:"):
        # answer:CP -> True exactly in the frames listed
        if isinstance(ret, Term):
            v = W.it.memo.get(ret.key(), W.fact(ret)) if not isinstance(W.fact(ret), bool) else W.fact(ret)
            ret = v if isinstance(v, bool) else ret
        if W.uncertain(r.guesses):
            J.stats["undecided_paths"] += 1
            J.why("answer under unknown condition", p)
        elif isinstance(ret, bool) or ret is None:
            J.stats["results_checked"] += 1
            if bool(ret) != (fr in exp[7:].split(",")):
                add("answer", "%s answers %s for an operand that is %s" % (p.construct, ret, {"C": "comoving", "P": "physical"}.get(fr, fr)))
        else:
            J.stats["undecided_paths"] += 1
            J.why("answer %s" % (tm.show(ret) if isinstance(ret, Term) else ret), p)
    else:
        arrs = [x for x in flat_results(ret) if isinstance(x, AArr)]
        if not arrs:
            if isinstance(ret, Term):
                J.stats["undecided_paths"] += 1
                J.why("result %s" % tm.show(ret)[:60], p)
            else:
                add("label", "%s does not return an array" % p.construct)
            return
        for a in arrs:
            J.stats["results_checked"] += 1
            if exp.startswith("plain:"):
                if clsname(a.cls) != "ndarray":
                    add("class", "%s returns a %s instead of plain numbers" % (p.construct, clsname(a.cls)))
                    continue
                frame = exp[6:]
                e = a.buf.e
                if a.buf.k is UNK:
                    J.stats["undecided_paths"] += 1
                    continue
                if frame == "same":
                    want = before[p.names[0]][1]
                else:
                    want = 0 if frame == "physical" else tm.neg(e)
                if fr[0] != "U" and eq(a.buf.k, want) is False:
                    add("label", "%s returns numbers in the wrong frame" % p.construct)
                continue
            if clsname(a.cls) not in ("cosmo_array", "cosmo_quantity"):
                add("class", "%s returns a %s: the cosmology labels are lost" % (p.construct, clsname(a.cls)))
                continue
            if a.buf.k is UNK or a.buf.e is UNK:
                J.stats["undecided_paths"] += 1
                J.why("unknown numbers", p)
            if "U" not in fr:
                prob = check_label(W, a, "the result")
                if prob:
                    add("label", "%s: %s" % (p.construct, prob))
                    continue
            com = a.attrs.get("comoving")
            if exp in ("physical", "comoving") and com in (True, False, None) and com is not (exp == "comoving"):
                add("label", "%s: the result is labelled %s" % (p.construct, {True: "comoving", False: "physical", None: "unset"}[com]))
                continue
            if exp == "same" or exp.startswith("keep"):
                src = p.names[0]
                lab = r.extra["labels"].get(src)
                if lab is not None:
                    for k, v in lab.items():
                        if exp == "same" or k != "comoving":
                            now = a.attrs.get(k)
                            if not isinstance(now, Term) and now != v:
                                add("label", "%s: the result has %s=%s, the operand %s=%s" % (p.construct, k, now, k, v))
                    if exp == "same" and env[src].buf.e is not ANY:
                        n1 = label_exponent(W, a)
                        want = env[src].buf.e if "U" not in fr else "null"
                        if n1 is not UNK and ((isinstance(n1, str) or isinstance(want, str)) and n1 != want):
                            add("label", "%s: the result's scale-factor dependence is %s" % (p.construct, n1))
            if a.shape == () and clsname(a.cls) == "cosmo_array":
                add("class", "%s: a scalar result is not a cosmo_quantity" % p.construct)
            if a.shape and clsname(a.cls) == "cosmo_quantity":
                add("class", "%s: an array result is a cosmo_quantity" % p.construct)
            if p.fresh:
                for n in p.names:
                    if env[n].buf is a.buf:
                        add("aliasing", "%s: the result shares its numbers with the operand" % p.construct)
    for n in p.names:
        J.stats["operands_checked"] += 1
        a = env[n]
        if n in p.mutates:
            if "U" in fr or n[0] == "K":
                continue
            prob = check_label(W, a, "the array")
            if prob:
                add("label", "%s: after it, %s" % (p.construct, prob))
            continue
        now = snap(a)
        if now != before[n]:
            what = "numbers" if now[:3] != before[n][:3] else "labels"
            add("mutated-operand", "%s: changes the %s of its operand" % (p.construct, what))


# ------------------------------------------------------------------------------- batteries
def same(*lines, **kw):
    return [Prog(l, "same", **kw) for l in lines]


METHODS = same(
    "X1.astype('f4')", "X1.in_units(u)", "X1.byteswap()", "X1.compress([True, False])", "M1.diagonal()", "M1.flatten()",
    "M1.ravel()", "X1.repeat(2)", "M1.swapaxes(0, 1)", "M1.transpose()", "X1.view()", "X1.copy()", "X1.__copy__()", "X1.__deepcopy__({})",
    "copy.copy(X1)", "copy.deepcopy(X1)", "X1.in_cgs()", "X1.in_base()", "X1.in_mks()", "X1.take([0, 1])", "X1.reshape(1, 2)", "S1.reshape(1)", "S1.reshape((1, 1))", "R1.reshape(-1)", "R1.T", "R1[:, 0]", "R1[0, 0]", "R1.flatten()[0]",
    "X1[0]", "X1[1:2]", "M1[0]", "X1[[True, False]]", "X1.squeeze()", "M1.T", "X1.ua", "X1.unit_array", "X1.to(u)", "X1.to(u, equivalence='thermal')", "X1.to('kpc', comoving=None)",
    "S1.to(u)", "S1.copy()", "copy.deepcopy(S1)", "round(S1)", "S1.in_units(u)",
    "np.copy(X1)" if False else "X1.to()", "pickle.loads(pickle.dumps(X1))", "pickle.loads(pickle.dumps(S1))", "pickle.loads(pickle.dumps(M3))",
    "copy.copy(pickle.loads(pickle.dumps(X1)))[0]", "X1.copy()[0:3].to(u)", )
# multiplication by units (attaches/changes units only)
METHODS += [Prog("X1 * u", "same"), Prog("X1.__mul__(u)", "same"), Prog("X1.__rmul__(u)", "same"), Prog("S1 * u", "same")]
METHODS += [Prog(b, "consistent", frames="CPV") for b in ("X1 * f", "f * X1", "X1 / f", "f / X1", "-X1", "+X1", "abs(X1)", "f * S1")]

CONVERSIONS = [
    Prog("X1.to_physical()", "physical", raises="U", fresh=True),
    Prog("X1.to_physical(u)", "physical", raises="U", fresh=True),
    Prog("X1.to_comoving()", "comoving", raises="U V", fresh=True),
    Prog("X1.to_comoving(u)", "comoving", raises="U V", fresh=True),
    Prog("S3.to_physical()", "physical", raises="U", fresh=True),
    Prog("S3.to_comoving()", "comoving", raises="U V", fresh=True),
    Prog("X1.to(comoving=True)", "comoving", raises="U V", fresh=True),
    Prog("X1.to(comoving=False)", "physical", raises="U", fresh=True),
    Prog("X3.to(u, comoving=True)", "comoving", raises="U V", fresh=True),
    Prog("X3.to(u, comoving=False)", "physical", raises="U", fresh=True),
    Prog("X1.to()", "same", fresh=True),
    Prog("X1.to(u)", "same", fresh=True),
    Prog("X1.to_value(u)", "plain:same"),
    Prog("X1.to_value(u, comoving=True)", "plain:comoving", raises="U V"),
    Prog("X1.to_value(u, comoving=False)", "plain:physical", raises="U"),
    Prog("X2.to_physical_value(u)", "plain:physical", raises="U"),
    Prog("X2.to_comoving_value(u)", "plain:comoving", raises="U V"),
    Prog("X1.value", "plain:same"),
    Prog("X1.to_physical().to_comoving()", "comoving", raises="U V", fresh=True),
    Prog("X1.to_comoving().to_physical()", "physical", raises="U V", fresh=True),
    Prog("X1.to_comoving().to_comoving()", "comoving", raises="U V", fresh=True),
    Prog("X3.to_physical().to_physical()", "physical", raises="U", fresh=True),
    Prog("X1.convert_to_physical()\nreturn X1", "physical", raises="U", mutates="X1"),
    Prog("X1.convert_to_comoving()\nreturn X1", "comoving", raises="U V", mutates="X1"),
    Prog("X1.convert_to_physical(u)\nreturn X1", "physical", raises="U", mutates="X1"),
    Prog("X1.convert_to_comoving(u)\nreturn X1", "comoving", raises="U V", mutates="X1"),
    Prog("X3.convert_to_comoving()\nX3.convert_to_physical()\nreturn X3", "physical", raises="U V", mutates="X3"),
    Prog("X3.convert_to_comoving()\nX3.convert_to_comoving()\nreturn X3", "comoving", raises="U V", mutates="X3"),
    Prog("X1.convert_to_units(u)\nreturn X1", "same", mutates="X1"),
    Prog("X1.to_physical() + X1.to_comoving()", "consistent", raises="U V"),
    Prog("X1.compatible_with_physical()", "answer:P,V", frames="CPV"),
    Prog("X1.compatible_with_comoving()", "answer:C", frames="CPV"),
]

ARITH = [Prog(b, "consistent", frames="CP") for b in (
    "X1 + X1b", "X1 - X1b", "X1 * X3", "X1 / X3", "X1 ** 2", "X1 ** 0.5", "X1 // X1b", "X1 % X1b", "S1 * X3", "X3 / S1", "(X1 + X1b) * X2 / S1",
    "np.sqrt(X1 * X1b + X2)", "(X1 * X3).to_physical()", "(X1 / X3)[0]", "np.concatenate([X1, X1b])[0:2].to_comoving()",
    "X1.dot(X3)", "(X1 - S1) ** 2", "np.sum(X1 * X3)", "np.mean(X1) + S1", "np.sqrt(np.sum((X1 - S1) ** 2))",
)] + [
    Prog("X1 += X1b\nreturn X1", "consistent", frames="CP", mutates="X1"),
    Prog("X1 -= X1b\nreturn X1", "consistent", frames="CP", mutates="X1"),
    Prog("X1 *= X3\nreturn X1", "consistent", frames="CP", mutates="X1"),
    Prog("X1 /= X3\nreturn X1", "consistent", frames="CP", mutates="X1"),
    Prog("X1 *= f\nreturn X1", "consistent", frames="CP", mutates="X1"),
    Prog("X1[0] = S1\nreturn X1", "consistent", frames="CP", mutates="X1"),
    Prog("X1[0:2] = X1b\nreturn X1", "consistent", frames="CP", mutates="X1"),
    Prog("X1[0] = 0.0\nreturn X1", "consistent", frames="CP", mutates="X1"),
]
COMPARE = [Prog(b, "any", frames="CP") for b in ("X1 < X1b", "X1 <= X1b", "X1 > S1", "X1 >= X1b", "X1 == X1b", "X1 != X1b")]

# constructors
def K(body, expect="consistent", **kw):
    return Prog(body, expect, **kw)


CONSTRUCT = []
for _c, _fr in (("True", "C"), ("False", "P")):
    exp = "comoving" if _c == "True" else "physical"
    for args in ("cosmo_factor=cf1", "scale_factor=s, scale_exponent=1"):
        CONSTRUCT.append(Prog("cosmo_array(K1, u, comoving=%s, %s)" % (_c, args), exp, frames=_fr))
        CONSTRUCT.append(Prog("cosmo_array(K1, u, comoving=%s, %s, bypass_validation=True)" % (_c, args), exp, frames=_fr))
        CONSTRUCT.append(Prog("cosmo_quantity(f, u, comoving=%s, %s).comoving" % (_c, args), "true" if _c == "True" else "false", frames=_fr))
CONSTRUCT += [
    Prog("cosmo_array(X1)", "same", may="U", frames="CPU"),
    Prog("cosmo_array(X1, comoving=True)", "comoving", raises="U V", may=""),
    Prog("cosmo_array(X1, comoving=False)", "physical", raises="U"),
    Prog("cosmo_array(X1, comoving=True, cosmo_factor=cf1)", "comoving", raises="U V"),
    Prog("cosmo_array(X1, cosmo_factor=cf2)", "consistent", raises="C P V", may="U", frames="CPV"),
    Prog("cosmo_array(X1, scale_factor=s, scale_exponent=2)", "consistent", raises="C P V", may="U", frames="CPV"),
    Prog("cosmo_array(X1, scale_factor=s, scale_exponent=1)", "consistent", frames="CP"),
    Prog("cosmo_array([S1, S1b])", "consistent", frames="CP"),
    Prog("cosmo_array([S1, S1b], comoving=True)", "comoving", frames="CP"),
    Prog("cosmo_array([S1, S1b], comoving=False)", "physical", frames="CP"),
    Prog("cosmo_array([S1, S2])", "any", frames="CP", raises="CC CP PC PP"),
    Prog("cosmo_array([S1, S1b, S2])", "any", frames="CP", raises=" ".join("".join(c) for c in itertools.product("CP", repeat=3))),
    Prog("cosmo_array([S1, S1b, S1c])", "consistent", frames="CP"),
    Prog("cosmo_quantity(S1)", "same", frames="CP"),
    Prog("cosmo_quantity(S1, comoving=True)", "comoving", frames="CP"),
    Prog("cosmo_quantity(S1, comoving=False)", "physical", frames="CP"),
    Prog("cosmo_array(K1, u, comoving=True, valid_transform=False, cosmo_factor=cf1)", "any", raises="C P", frames="CP"),
    Prog("cosmo_array(X1, comoving=True, valid_transform=False)", "any", raises="C P V U"),
    Prog("cosmo_array(K1, u, comoving=True, scale_factor=s)", "any", raises="C P", frames="CP"),
    Prog("cosmo_array(K1, u, comoving=True, scale_exponent=1)", "any", raises="C P", frames="CP"),
    Prog("cosmo_array(K1, u, comoving=True, cosmo_factor=cf1, scale_factor=s, scale_exponent=2)", "any", raises="C P", frames="CP"),
    Prog("cosmo_array(K1, u, comoving=True, cosmo_factor=cf1, scale_factor=s, scale_exponent=1)", "comoving", frames="C"),
    Prog("cosmo_array(K1, u).valid_transform", "false", frames="CP"),
    Prog("cosmo_array(K1, u).comoving is None", "true", frames="CP"),
    Prog("cosmo_array(K1, u, comoving=False, cosmo_factor=cf1, valid_transform=False).valid_transform", "false", frames="P"),
    Prog("cosmo_array(K1, u, comoving=False, cosmo_factor=cf1, valid_transform=False).to_comoving()", "any", raises="P", frames="P"),
    Prog("cosmo_array(K1, u, comoving=True, cosmo_factor=cf1, compression='z').compression == 'z'", "true", frames="C"),
    Prog("cosmo_array(X1, compression='z').compression == 'z'", "true", frames="CP"),
]
for _m in ("from_astropy", "from_pint"):
    for _c in ("True", "False"):
        CONSTRUCT.append(Prog("cosmo_array.%s(K1, comoving=%s, cosmo_factor=cf1).comoving" % (_m, _c), "true" if _c == "True" else "false", frames="C"))
    CONSTRUCT.append(Prog("cosmo_array.%s(K1, comoving=False, cosmo_factor=cf1, valid_transform=False).valid_transform" % _m, "false", frames="P"))
    CONSTRUCT.append(Prog("cosmo_array.%s(K1, comoving=True, cosmo_factor=cf1).valid_transform" % _m, "true", frames="C"))
    CONSTRUCT.append(Prog("cosmo_array.%s(K1, comoving=True, cosmo_factor=cf1, compression='z').compression == 'z'" % _m, "true", frames="C"))
    CONSTRUCT.append(Prog("cosmo_array.%s(K1, comoving=True, cosmo_factor=cf1).cosmo_factor == cf1" % _m, "true", frames="C"))

# the scale-factor algebra itself
FACTOR = [Prog(b, "true", frames="C") for b in (
    "(cf1 * cf1) == cf2", "(cf2 / cf1) == cf1", "(cf1 ** 2) == cf2", "(cf2 ** 0.5) == cf1", "(cf1 + cf1) == cf1", "(cf2 - cf2) == cf2",
    "cf1 != cf2", "not (cf1 == cf2)", "cosmo_factor.create(s, 2) == cf2", "cosmo_factor.create(s, 1) == cf1", "cf1 == cf1",
    "cf2.a_factor == cosmo_factor.create(s, 2).a_factor", "cf1.redshift == 1.0 / s - 1.0", "NULL_CF.a_factor is None", "NULL_CF.redshift is None",
    "(NULL_CF * NULL_CF).expr is None", "NULL_CF == NULL_CF", "NULL_CF != cf1",
)]
REFUSED = ["cosmo_quantity(f, u, comoving=True, valid_transform=False, cosmo_factor=cf1)", "cf1 + cf2", "cf1 - cf2", "cf1 * NULL_CF", "NULL_CF * cf1", "cf1 / NULL_CF", "cf1 + 1.0", "cf1 * 2.0", "cf1 == 1.0",
           "cf1 + cosmo_factor.create(t, 1)", "cf1 * cosmo_factor.create(t, 1)", "cf1 / cosmo_factor.create(t, 1)"]
for _b in REFUSED:
    _p = Prog(_b, "any")
    _p.raises = {""}
    FACTOR.append(_p)

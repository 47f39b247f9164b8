"""Transfer functions of numpy/unyt primitives on (scale-factor dimension, frame) and the
scenarios each library entry point is judged on.

KERNELS: numpy function name -> homogeneity of every output in its operands, and which
operands must hold numbers of one frame.  This is mathematics of the numpy function, not of
the code under analysis.
"""

import inspect

from . import terms as tm
from .interp import Ext

_UNSET = object()


class K:
    def __init__(self, sig, outs, same=(), dst=None, src=None, special=None):
        self.sig = inspect.signature(eval("lambda %s: 0" % sig, {"UNSET": None}))
        self.outs = outs
        self.same = same
        self.dst = dst
        self.src = src
        self.special = special
        self.name = None

    def run(self, W, b, node):
        what = "numpy.%s" % self.name
        if self.special is not None:
            return self.special(self, W, b, node)
        if self.dst:
            return self.run_dst(W, b, node)
        for grp in self.same:
            W.combine([(x, 1) for n in grp.split() for x in W.flat(b.get(n))], node, what)
        res = []
        for o in self.outs:
            if o == "plain":
                res.append(W.result(None, "plain", node))
                continue
            if o == "raw":
                res.append(True)   # a plain python bool
                continue
            parts = [([b.get(n) for n in names.split()], d) for names, d in o]
            ek = W.prod(parts, node, what)
            if ek[0] is W_ANY():
                res.append(W.result(ek, "plain", node))
            else:
                res.append(W.result(ek, "unyt", node))
            if b.get("out") is not None and len(self.outs) == 1:
                W.write_out(b["out"], ek[0], ek[1], node)
        return res[0] if len(res) == 1 else tuple(res)

    def run_dst(self, W, b, node):
        from .cosmo import AArr, MIX, UNK, ANY, eq
        dst, src = b.get(self.dst), b.get(self.src)
        if isinstance(dst, AArr):
            dst.buf.writes += 1
            W.it.scratch.setdefault("dsts", []).append(dst)
            if isinstance(src, AArr) and src.buf.e is not ANY:
                r1, r2 = eq(src.buf.k, dst.buf.k), eq(src.buf.e, dst.buf.e)
                if r1 is False or r2 is False:
                    W.it.event("mixed", node, what="numpy." + self.name, operands=[dst, src])
                    dst.buf.k = MIX
        return None


def W_ANY():
    from .cosmo import ANY
    return ANY


def bind(sp, args, kw):
    from .interp import Ext as _E
    from .terms import Term
    clean = {k: v for k, v in kw.items() if not (isinstance(v, _E) and v.path == "numpy._NoValue")}
    ba = sp.sig.bind(*args, **clean)
    ba.apply_defaults()
    d = dict(ba.arguments)
    for k, v in list(d.items()):
        if isinstance(v, _E) and v.path == "numpy._NoValue":
            d[k] = None
    if "kw" in d:
        d.update({k: v for k, v in d.pop("kw").items()})
    return d


def _var(K_, W, b, node):
    return W.result(W.prod([([b["a"]], 2)], node, "numpy.var"), "unyt", node)


def _det(K_, W, b, node):
    a = b["a"]
    n = W.shape_of(a)[-1]
    return W.result(W.prod([([a], n)], node, "numpy.linalg.det"), "unyt", node)


def _prod(K_, W, b, node):
    from .cosmo import fresh_int
    a = b["a"]
    if b.get("axis") is None:
        r = None
        N = W.size_of(a)
    else:
        r = None
        N = W.shape_of(a)[b["axis"]] if isinstance(b["axis"], int) else fresh_int(W.it, "nprod")
    ek = W.prod([([a], N)], node, "numpy.prod")
    r = W.result(ek, "unyt", node)
    r.size = tm.div(W.size_of(a), N)
    if b.get("out") is not None:
        W.write_out(b["out"], ek[0], ek[1], node)
    return r


def _hist(K_, W, b, node):
    from .cosmo import AArr
    axes = [b["a"], b.get("bins"), b.get("range")]
    ea = W.combine([(x, 1) for g in axes for x in W.flat(g)], node, "numpy.histogram")
    return (_counts(W, b, [axes], node, "numpy.histogram"), W.result(ea, "unyt", node, shape=(7,)))


def _counts(W, b, axes, node, what):
    dens = b.get("density")
    w = b.get("weights")
    parts = []
    if w is not None and W.flat(w):
        parts.append(([w], 1))
    if dens:
        parts += [(g, -1) for g in axes]
    if not parts:
        return W.result(None, "plain", node)
    return W.result(W.prod(parts, node, what), "unyt", node, shape=(6,))


def _hist2d(K_, W, b, node):
    bins, rng = b.get("bins"), b.get("range")
    bx, by = bins if isinstance(bins, (list, tuple)) and len(bins) == 2 else (bins, bins)
    rx, ry = rng if isinstance(rng, (list, tuple)) and len(rng) == 2 else (rng, rng)
    ax, ay = [b["x"], bx, rx], [b["y"], by, ry]
    ex = W.combine([(x, 1) for x in W.flat(ax)], node, "numpy.histogram2d")
    ey = W.combine([(x, 1) for x in W.flat(ay)], node, "numpy.histogram2d")
    return (_counts(W, b, [ax, ay], node, "numpy.histogram2d"), W.result(ex, "unyt", node, shape=(7,)), W.result(ey, "unyt", node, shape=(7,)))


def _histdd(K_, W, b, node):
    sample = b["sample"]
    bins, rng = b.get("bins"), b.get("range")
    n = len(sample)
    axes = []
    for i, s in enumerate(sample):
        bi = bins[i] if isinstance(bins, (list, tuple)) and len(bins) == n else bins
        ri = rng[i] if isinstance(rng, (list, tuple)) and len(rng) == n else rng
        axes.append([s, bi, ri])
    edges = [W.combine([(x, 1) for x in W.flat(a)], node, "numpy.histogramdd") for a in axes]
    return (_counts(W, b, axes, node, "numpy.histogramdd"), tuple(W.result(e, "unyt", node, shape=(7,)) for e in edges))


def _svd(K_, W, b, node):
    ek = W.prod([([b["a"]], 1)], node, "numpy.linalg.svd")
    s = W.result(ek, "unyt", node, shape=(3,))
    if b.get("compute_uv", True) in (True, None):
        return (W.result(None, "plain", node), s, W.result(None, "plain", node))
    return s


def _average(K_, W, b, node):
    what = "numpy.average"
    W.combine([(x, 1) for x in W.flat(b.get("weights"))], node, what)
    avg = W.result(W.prod([([b["a"]], 1)], node, what), "unyt", node)
    if b.get("returned") is True:
        if W.flat(b.get("weights")):
            ws = W.result(W.prod([([b["weights"]], 1)], node, what), "unyt", node)
        else:
            ws = W.result(None, "plain", node)
        return (avg, ws)
    return avg


def _linspace(K_, W, b, node):
    ek = W.combine([(x, 1) for x in W.flat([b["start"], b["stop"]])], node, "numpy.linspace")
    r = W.result(ek, "unyt", node, shape=(5,))
    if b.get("retstep") is True:
        return (r, W.result(ek, "unyt", node, shape=()))
    return r


def _where(K_, W, b, node):
    if not b["args"]:
        return (W.result(None, "plain", node),)
    ek = W.combine([(x, 1) for x in W.flat(list(b["args"]))], node, "numpy.where")
    return W.result(ek, "unyt", node)


def _einsum(K_, W, b, node):
    ops = b["args"]
    ek = W.prod([([o], 1) for o in ops], node, "numpy.einsum")
    if b.get("out") is not None:
        W.write_out(b["out"], ek[0], ek[1], node)
    return W.result(ek, "unyt", node)


def _mesh(K_, W, b, node):
    out = []
    for x in b["args"]:
        if W.is_cosmo(x):
            out.append(W.view_as(x, W.cls_of("cosmo_array"), node, buf=W.copybuf(x.buf)))
        else:
            out.append(x)
    return tuple(out)


def _npkeep(K_, W, b, node):
    """pure numpy: dispatches through ufuncs / __array_finalize__, labels follow the operand"""
    a = b["a"]
    if not W.is_cosmo(a):
        return tm.T("call", Ext("numpy." + K_.name), a)
    if b.get("out") is not None:
        W.write_out(b["out"], a.buf.e, a.buf.k, node)
    c = W.it.choose(2)
    return W.view_as(a, W.cls_of("cosmo_quantity" if c else "cosmo_array"), node, buf=W.copybuf(a.buf), shape=() if c else (5,))


def _lstsq(K_, W, b, node):
    what = "numpy.linalg.lstsq"
    return (W.result(W.prod([([b["b"]], 1), ([b["a"]], -1)], node, what), "unyt", node, shape=(3,)),
            W.result(W.prod([([b["b"]], 2)], node, what), "unyt", node, shape=(3,)),
            3,
            W.result(W.prod([([b["a"]], 1)], node, what), "unyt", node, shape=(3,)))


def _text(K_, W, b, node):
    return tm.T("text", K_.name)


def P(sig, names, d=1):
    return K(sig, [[(names, d)]])


_AK = "a, *args, **kw"
KERNELS = {
    "dot": K("a, b, out=None", [[("a", 1), ("b", 1)]]),
    "vdot": K("a, b, **kw", [[("a", 1), ("b", 1)]]),
    "inner": K("a, b, **kw", [[("a", 1), ("b", 1)]]),
    "outer": K("a, b, out=None", [[("a", 1), ("b", 1)]]),
    "kron": K("a, b, **kw", [[("a", 1), ("b", 1)]]),
    "cross": K("a, b, *args, **kw", [[("a", 1), ("b", 1)]]),
    "convolve": K("a, v, mode=None", [[("a", 1), ("v", 1)]]),
    "correlate": K("a, v, mode=None", [[("a", 1), ("v", 1)]]),
    "tensordot": K("a, b, *args, **kw", [[("a", 1), ("b", 1)]]),
    "linalg.outer": K("a, b, **kw", [[("a", 1), ("b", 1)]]),
    "matmul": K("a, b, **kw", [[("a", 1), ("b", 1)]]),
    "histogram_bin_edges": P("a, bins=10, range=None, weights=None", "a bins range"),
    "linalg.inv": P(_AK, "a", -1),
    "linalg.tensorinv": P(_AK, "a", -1),
    "linalg.pinv": P(_AK, "a", -1),
    "linalg.svd": K("a, full_matrices=True, compute_uv=True, hermitian=False", [], special=_svd),
    "histogram": K("a, bins=10, range=None, density=None, weights=None", [], special=_hist),
    "histogram2d": K("x, y, bins=10, range=None, density=None, weights=None", [], special=_hist2d),
    "histogramdd": K("sample, bins=10, range=None, density=None, weights=None", [], special=_histdd),
    "concatenate": P("arrays, axis=0, out=None, **kw", "arrays"),
    "vstack": P("arrays, **kw", "arrays"),
    "hstack": P("arrays, **kw", "arrays"),
    "dstack": P("arrays, **kw", "arrays"),
    "column_stack": P("arrays, **kw", "arrays"),
    "stack": P("arrays, axis=0, out=None, **kw", "arrays"),
    "block": P("arrays", "arrays"),
    "intersect1d": P("a, b, *args, **kw", "a b"),
    "union1d": P("a, b", "a b"),
    "setdiff1d": P("a, b, assume_unique=False", "a b"),
    "linalg.norm": P(_AK, "a"),
    "around": P("a, decimals=0, out=None", "a"),
    "sort_complex": P(_AK, "a"),
    "isclose": K("a, b, rtol=None, atol=None, **kw", ["plain"], same=["a b atol"]),
    "allclose": K("a, b, rtol=None, atol=None, **kw", ["raw"], same=["a b atol"]),
    "array_equal": K("a, b, **kw", ["raw"], same=["a b"]),
    "array_equiv": K("a, b", ["raw"], same=["a b"]),
    "isin": K("a, b, *args, **kw", ["plain"], same=["a b"]),
    "searchsorted": K("a, v, *args, **kw", ["plain"], same=["a v"]),
    "digitize": K("x, bins, right=False", ["plain"], same=["x bins"]),
    "linspace": K("start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, device=None", [], special=_linspace),
    "geomspace": P("start, stop, *args, **kw", "start stop"),
    "prod": K("a, *args, out=None, **kw", [], special=_prod),
    "var": K(_AK, [], special=_var),
    "trace": P("a, *args, out=None, **kw", "a"),
    "percentile": P("a, q, *args, out=None, **kw", "a"),
    "quantile": P("a, q, *args, out=None, **kw", "a"),
    "nanpercentile": P("a, q, *args, out=None, **kw", "a"),
    "nanquantile": P("a, q, *args, out=None, **kw", "a"),
    "linalg.det": K("a, **kw", [], special=_det),
    "diff": P("a, n=1, axis=-1, prepend=None, append=None", "a prepend append"),
    "ediff1d": P("a, to_end=None, to_begin=None", "a to_end to_begin"),
    "ptp": P("a, *args, out=None, **kw", "a"),
    "pad": P("a, pad_width, mode=None, constant_values=None, end_values=None, **kw", "a constant_values end_values"),
    "choose": P("a, choices, out=None, mode='raise'", "choices"),
    "insert": P("a, obj, values, axis=None", "a values"),
    "linalg.lstsq": K("a, b, rcond=None", [], special=_lstsq),
    "linalg.solve": K("a, b", [[("b", 1), ("a", -1)]]),
    "linalg.tensorsolve": K("a, b, axes=None", [[("b", 1), ("a", -1)]]),
    "linalg.eig": K("a", [[("a", 1)], "plain"]),
    "linalg.eigh": K("a, UPLO='L'", [[("a", 1)], "plain"]),
    "linalg.eigvals": P(_AK, "a"),
    "linalg.eigvalsh": P(_AK, "a"),
    "select": P("condlist, choicelist, default=0", "choicelist default"),
    "clip": P("a, a_min=None, a_max=None, out=None, min=None, max=None, **kw", "a a_min a_max min max"),
    "where": K("condition, *args", [], special=_where),
    "triu": P(_AK, "a"),
    "tril": P(_AK, "a"),
    "einsum": K("subscripts, *args, out=None, **kw", [], special=_einsum),
    "unwrap": P("a, discont=None, axis=-1, period=None", "a discont period"),
    "interp": K("x, xp, fp, left=None, right=None, period=None", [[("fp left right", 1)]], same=["x xp period"]),
    "trapezoid": K("y, x=None, dx=1.0, axis=-1", [], special=None),
    "take": P("a, indices, axis=None, out=None, mode=None", "a"),
    "average": K("a, axis=None, weights=None, returned=False, keepdims=None", [], special=_average),
    "meshgrid": K("*args, **kw", [], special=_mesh),
    "sinc": K("x", ["plain"]),
    "array2string": K(_AK, [], special=_text),
    "array_repr": K(_AK, [], special=_text),
    "savetxt": K("fname, X, **kw", [], special=_text),
    "copyto": K("dst, src, *args, **kw", [], dst="dst", src="src"),
    "put": K("a, ind, v, *args, **kw", [], dst="a", src="v"),
    "place": K("a, mask, v, *args, **kw", [], dst="a", src="v"),
    "putmask": K("a, mask, v, *args, **kw", [], dst="a", src="v"),
    "put_along_axis": K("a, indices, v, axis=None", [], dst="a", src="v"),
    "fill_diagonal": K("a, v, wrap=False", [], dst="a", src="v"),
}


def _trap(K_, W, b, node):
    if b.get("x") is not None:
        d = [b["x"]]
    else:
        d = [b.get("dx")]
    return W.result(W.prod([([b["y"]], 1), (d, 1)], node, "numpy.trapezoid"), "unyt", node)


KERNELS["trapezoid"].special = _trap
for _n in ("fft", "fft2", "fftn", "hfft", "rfft", "rfft2", "rfftn", "ifft", "ifft2", "ifftn", "ihfft", "irfft", "irfft2", "irfftn", "fftshift", "ifftshift"):
    KERNELS["fft." + _n] = P(_AK, "a")
for _n in ("max", "min", "mean", "median", "sort", "sum", "partition", "nanmax", "nanmin", "nansum", "nanmean", "flip", "roll", "cumsum", "amax", "amin"):
    KERNELS[_n] = K(_AK.replace("*args", "*args, out=None"), [], special=_npkeep)
for _n, _k in KERNELS.items():
    _k.name = _n


def kernel_name(path):
    """dotted external path -> kernel name, or None"""
    if path.startswith("unyt._array_functions."):
        n = path.split(".")[-1]
        if n == "norm":
            return "linalg.norm"
        if n.startswith("linalg_"):
            return "linalg." + n[len("linalg_"):]
        if n.startswith("fft_"):
            return "fft." + n[len("fft_"):]
        return n
    if path.startswith("numpy.") and path.endswith("._implementation"):
        return path[len("numpy."):-len("._implementation")]
    return None


# ---------------------------------------------------------------- ufuncs
def g_same(inputs):
    return [(inputs, 1)]


def g_first(inputs):
    return [([inputs[0]], 1)]


def g_mul(inputs):
    return [([x], 1) for x in inputs]


def g_div(inputs):
    return [([inputs[0]], 1), ([inputs[1]], -1)]


def g_pow(p):
    return lambda inputs: [([inputs[0]], p)]


def g_power(inputs):
    from .cosmo import AArr
    p = inputs[1]
    return [([inputs[0]], p if not isinstance(p, AArr) else 1)]


from fractions import Fraction as _F

UFUNC_ALIAS = {"true_divide": "divide", "mod": "remainder", "abs": "absolute", "conjugate": "conj"}
UFUNCS = {}
for _n in ("add", "subtract", "remainder", "fmod", "hypot", "maximum", "minimum", "fmax", "fmin", "nextafter", "clip"):
    UFUNCS[_n] = (["unyt"], g_same)
for _n in ("negative", "absolute", "fabs", "conj", "positive", "floor", "ceil", "trunc", "spacing", "copysign", "_ones_like"):
    UFUNCS[_n] = (["unyt"], g_first)
for _n in ("multiply", "matmul", "vecdot"):
    UFUNCS[_n] = (["unyt"], g_mul)
UFUNCS["divide"] = (["unyt"], g_div)
UFUNCS["floor_divide"] = (["unyt0"], g_same)
UFUNCS["sqrt"] = (["unyt"], g_pow(_F(1, 2)))
UFUNCS["cbrt"] = (["unyt"], g_pow(_F(1, 3)))
UFUNCS["square"] = (["unyt"], g_pow(2))
UFUNCS["reciprocal"] = (["unyt"], g_pow(-1))
UFUNCS["power"] = (["unyt"], g_power)
UFUNCS["arctan2"] = (["unyt0"], g_same)
UFUNCS["modf"] = (["unyt", "unyt"], g_first)
UFUNCS["divmod"] = (["unyt?", "unyt"], g_same)
UFUNCS["heaviside"] = (["unyt?"], g_same)
UFUNCS["frexp"] = (["plain", "plain"], g_first)
for _n in ("greater", "greater_equal", "less", "less_equal", "not_equal", "equal", "logaddexp", "logaddexp2",
           "logical_and", "logical_or", "logical_xor"):
    UFUNCS[_n] = (["plain"], g_same)
for _n in ("rint", "sign", "exp", "exp2", "log", "log2", "log10", "expm1", "log1p", "sin", "cos", "tan", "sinh",
           "cosh", "tanh", "arcsin", "arccos", "arctan", "arcsinh", "arccosh", "arctanh", "deg2rad", "rad2deg",
           "isreal", "iscomplex", "isfinite", "isinf", "isnan", "signbit", "isnat", "logical_not"):
    UFUNCS[_n] = (["plain"], g_first)

# ---------------------------------------------------------------- scenarios
# X: 1-d array, M: 2-d square array, S: scalar quantity, N: plain ndarray; digit: exponent; trailing letters: identity
# 'D' suffix: destination operand (may be written)
UFUNC_SCENARIOS = """
add(X1, X1b)
add(X1, S1)
add(X1, N)
add(N, X1)
subtract(X1, X1b)
multiply(X1, X3)
multiply(X1, N)
multiply(X1, S3)
multiply(N, X1)
divide(X1, X3)
divide(X1, N)
divide(N, X3)
divide(X2, X2b)
true_divide(X1, X3)
floor_divide(X2, X2b)
negative(X1)
power(X1, 3)
power(X2, -2)
power(X1, 0.5)
remainder(X1, X1b)
mod(X1, X1b)
fmod(X1, X1b)
absolute(X1)
fabs(X1)
conj(X1)
sqrt(X3)
square(X3)
cbrt(X3)
reciprocal(X3)
hypot(X1, X1b)
arctan2(X1, X1b)
greater(X1, X1b)
greater_equal(X1, X1b)
less(X1, X1b)
less_equal(X1, S1)
not_equal(X1, X1b)
equal(X1, X1b)
equal(X1, N)
logical_and(X1, X1b)
maximum(X1, X1b)
minimum(X1, X1b)
maximum(X1, S1)
fmax(X1, X1b)
fmin(X1, X1b)
copysign(X1, X1b)
nextafter(X1, X1b)
modf(X1)
floor(X1)
ceil(X1)
trunc(X1)
spacing(X1)
positive(X1)
matmul(M1, X3)
vecdot(X1, X3)
divmod(X1, X1b)
exp(X0)
isfinite(X1)
isnan(X1)
sign(X1)
rint(X1)
logical_not(X1)
_ones_like(X1)
add.reduce(X1)
add.accumulate(X1)
add.outer(X1, X1b)
multiply.outer(X1, X3)
multiply.reduce(M1)
multiply.reduce(M1, axis=0)
multiply.reduce(M2, axis=1)
multiply.reduce(R1)
multiply.reduce(R1, axis=0)
multiply.reduce(R1, axis=1)
multiply.reduce(R1, axis=-1)
divide.reduce(R1, axis=1)
add.reduce(R1, axis=1)
multiply.reduce(M1, axis=None)
divide.reduce(M1, axis=0)
maximum.reduce(X1)
minimum.reduce(X1)
logical_and.reduce(X1)
logical_or.reduce(X1)
add(X1, X1b, out=(X1oD,))
multiply(X1, X1b, out=(X2oD,))
sqrt(X2, out=(X1oD,))
divide(X1, X3, out=(X1oD,))
maximum(X1, X1b, out=(X1oD,))
modf(X1, out=(X1oD, X1pD))
?add(X1, X2)
?subtract(X2, X1)
?maximum(X1, X2)
?fmax(X1, X2)
?less(X1, X2)
?equal(X1, X2)
?hypot(X1, X2)
?remainder(X1, X2)
?arctan2(X1, X2)
?copysign(X1, X2)
"""

FUNC_SCENARIOS = """
dot(X1, X3)
dot(X1, X3, out=X4oD)
vdot(X1, X3)
inner(X1, X3)
outer(X1, X3)
kron(X1, X3)
cross(X1, X3)
convolve(X1, X3)
correlate(X1, X3)
tensordot(X1, X3, axes=1)
linalg.outer(X1, X3)
dot(X1, N)
dot(N, X3)
histogram_bin_edges(X1)
histogram_bin_edges(X1, bins=4)
histogram_bin_edges(X1, bins=X1b)
histogram_bin_edges(X1, bins=4, range=X1b)
linalg.inv(M3)
linalg.tensorinv(M3)
linalg.pinv(M3)
linalg.svd(M3)
linalg.svd(M3, compute_uv=False)
histogram(X1)
histogram(X1, bins=X1b)
histogram(X1, bins=X1b, density=True)
histogram(X1, bins=X1b, weights=X3)
histogram(X1, bins=X1b, weights=X3, density=True)
histogram(X1, range=X1b)
histogram2d(X1, X3)
histogram2d(X1, X3, bins=[X1b, X3b])
histogram2d(X1, X3, range=[X1b, X3b])
histogram2d(X1, X3, weights=X2)
histogram2d(X1, X3, bins=[X1b, X3b], weights=X2)
histogram2d(X1, X3, density=True)
histogram2d(X1, X3, bins=[X1b, X3b], density=True)
histogram2d(X1, X3, weights=X2, density=True)
histogramdd([X1, X3])
histogramdd([X1, X3], bins=[X1b, X3b])
histogramdd([X1, X3], weights=X2)
histogramdd([X1, X3], density=True)
histogramdd([X1, X3, X2], weights=X5, density=True)
histogramdd([X1, X3], bins=[X1b, X3b], density=True)
concatenate([X1, X1b])
concatenate((X1, X1b, X1c))
concatenate([X1, X1b], axis=0)
vstack([X1, X1b])
hstack([X1, X1b])
dstack([X1, X1b])
column_stack([X1, X1b])
stack([X1, X1b])
block([X1, X1b])
block([[X1, X1b], [X1c, X1d]])
intersect1d(X1, X1b)
union1d(X1, X1b)
setdiff1d(X1, X1b)
linalg.norm(X1)
around(X1)
around(X1, 2)
fft.fft(X1)
fft.fft2(M1)
fft.fftn(M1)
fft.hfft(X1)
fft.rfft(X1)
fft.rfft2(M1)
fft.rfftn(M1)
fft.ifft(X1)
fft.ifft2(M1)
fft.ifftn(M1)
fft.ihfft(X1)
fft.irfft(X1)
fft.irfft2(M1)
fft.irfftn(M1)
fft.fftshift(X1)
fft.ifftshift(X1)
sort_complex(X1)
isclose(X1, X1b)
isclose(X1, X1b, atol=S1)
allclose(X1, X1b)
array_equal(X1, X1b)
array_equiv(X1, X1b)
isin(X1, X1b)
searchsorted(X1, X1b)
digitize(X1, X1b)
linspace(S1, S1b)
linspace(S1, S1b, num=7)
linspace(S1, S1b, retstep=True)
geomspace(S1, S1b)
prod(X1)
prod(M1, axis=0)
prod(R1, axis=1)
prod(R1)
var(X1)
var(M1, axis=0)
trace(M1)
percentile(X1, 30)
quantile(X1, 0.3)
nanpercentile(X1, 30)
nanquantile(X1, 0.3)
linalg.det(M3)
diff(X1)
diff(X1, prepend=S1)
diff(X1, append=S1)
ediff1d(X1)
ediff1d(X1, to_end=S1)
ptp(X1)
pad(X1, 2)
pad(X1, 2, mode="constant", constant_values=S1)
choose(N, [X1, X1b])
insert(X1, 1, S1)
insert(X1, 1, X1b)
linalg.lstsq(M1, X3)
linalg.solve(M1, X3)
linalg.tensorsolve(M1, X3)
linalg.eig(M1)
linalg.eigh(M1)
linalg.eigvals(M1)
linalg.eigvalsh(M1)
select([N, Nb], [X1, X1b], default=S1)
select([N, Nb], [X1, X1b], X1c)
clip(X1, S1, S1b)
clip(X1, a_min=S1, a_max=S1b)
clip(X1, min=S1, max=S1b)
clip(X1, S1, None)
clip(X1, None, S1)
where(N, X1, X1b)
where(N, X1, S1)
where(X1)
triu(M1)
tril(M1)
einsum("ii->i", M1)
einsum("i,j->ij", X1, X1b)
unwrap(X1, period=S1)
interp(X1, X1b, X3)
interp(X1, X1b, X3, left=S3)
interp(X1, X1b, X3, period=S1)
trapezoid(X1, X3)
trapezoid(X1, dx=S3)
trapezoid(X1, x=X3)
take(X1, N)
average(X1)
average(X1, weights=X3)
average(X1, weights=N)
average(X1, weights=X3, returned=True)
max(X1)
min(X1)
mean(X1)
median(X1)
sort(X1)
sum(X1)
partition(X1, 2)
meshgrid(X1, X3)
copyto(X1D, X1b)
copyto(X1D, N)
put(X1D, N, X1b)
put(X1D, N, 3.0)
place(X1D, N, X1b)
putmask(X1D, N, X1b)
put_along_axis(X1D, N, X1b, 0)
fill_diagonal(M1D, S1)
fill_diagonal(M1D, 0)
?concatenate([X1, X2])
?vstack([X1, X2])
?hstack([X1, X2])
?stack([X1, X2])
?column_stack([X1, X2])
?dstack([X1, X2])
?block([X1, X2])
?linspace(S1, S2)
?geomspace(S1, S2)
?union1d(X1, X2)
?intersect1d(X1, X2)
?setdiff1d(X1, X2)
?isclose(X1, X2)
?allclose(X1, X2)
?isin(X1, X2)
?searchsorted(X1, X2)
?insert(X1, 1, X2)
?select([N, Nb], [X1, X2], S1)
?choose(N, [X1, X2])
?clip(X1, S2, S2b)
?where(N, X1, X2)
?copyto(X1D, X2)
?put(X1D, N, X2)
?place(X1D, N, X2)
?putmask(X1D, N, X2)
?put_along_axis(X1D, N, X2, 0)
?fill_diagonal(M1D, S2)
?unwrap(X1, period=S2)
?diff(X1, prepend=S2)
?interp(X1, X2, X3)
?interp(X1, X1b, X3, left=S2)
?histogram(X1, bins=X2)
?histogram(X1, range=X2)
?pad(X1, 2, mode="constant", constant_values=S2)
?ediff1d(X1, to_end=S2)
"""

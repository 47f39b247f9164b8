"""Properties of the visualisation tools."""

import os

from . import prop
from .. import interp as ip, scatter as sc, chunks, terms as tm
from ..interp import Interp, Project, AnalysisError

V = "swiftsimio.visualisation."
ASSUME = [
    "numba compiles the scatter functions with Python semantics; floating point is treated as real arithmetic (casts are the identity)",
    "smoothing lengths are positive, box lengths are positive or exactly zero (not periodic), the resolution is a positive integer",
    "loops over unknown sequences are followed for one abstract iteration; sums over loops are kept as sums",
]


def engine(rep, unroll=1):
    it = Interp(Project(rep.root))
    it.unroll = unroll
    rep.assumptions = ASSUME
    return it


def kernels(it, rep, report=True):
    ks = sc.install_kernels(it, [V + "projection_backends.kernels", V + "slice_backends.sph"])
    if report:
        for key, (d, msg, fn) in sorted(ks.items()):
            rep.count("kernel_functions")
            rep.oblige(True if d else (None if msg.startswith("cannot") else False), "kernel", fn.qual,
                       "%s(r, H) is not the Wendland C2 kernel" % fn.qual, "%s:%s" % (fn.mod.path[len(rep.root):].lstrip("/"), fn.node.lineno), msg)
    return ks


def guarded(rep, what, f):
    """analysis limits on one function leave it undecided"""
    try:
        f()
    except Exception as ex:
        rep.oblige(None, "analysis", what, "%s: %s" % (type(ex).__name__, str(ex)[:200]), what)


R = lambda a: a["res"]
R2, R3 = [R, R], [R, R, R]
RZ = lambda a: tm.T("floor", tm.div(a["res"], a["res_ratio_z"]))
RM = lambda a: tm.minmax("max", (a["xres"], a["yres"]))

PROJECTION = [
    ("fast", dict(limit=1, res=R2)),
    ("histogram", dict(kernel=False, res=R2)),
    ("reference", dict(limit=2, cell=False, res=R2)),
    ("renormalised", dict(limit=1, mode="renormalised", res=R2)),
    ("subsampled", dict(limit=0.25, mode="dither", res=R2)),
    ("subsampled_extreme", dict(limit=0.25, mode="dither", res=R2)),
]


def scatter(rep, it, module, func, d, **kw):
    s = sc.Spec(V + module, func, d, **kw)
    guarded(rep, module + "." + func, lambda: sc.Analysis(rep, rep.root, s, it).run())


@prop("P20", "Trace-partitioned value-flow summaries of every projection backend; polyhedral proofs of bounds, loop coverage and regimes, term identity of the deposited value with mass times kernel; counterexample points confirmed on the extracted terms.")
def p20(rep):
    it = engine(rep)
    kernels(it, rep)
    only = os.environ.get("SA_ONLY")           # development aid
    for name, kw in PROJECTION:
        if only and name != only:
            continue
        scatter(rep, it, "projection_backends." + name, "scatter", 2, **kw)
    rep.floor = 10


@prop("P21", "The thread-parallel drivers followed with their serial sibling intercepted: argument forwarding, chunk partition (exhaustive over small thread and particle counts on the extracted bounds), zero-initialised sum of the right shape; registries paired.")
def p21(rep):
    it = engine(rep)
    sq = lambda a, p: [a["res"], a["res"]]
    for name, kw in PROJECTION:
        guarded(rep, name, lambda: chunks.check(rep, rep.root, it, V + "projection_backends." + name, "scatter_parallel", ["scatter"], sq))
    guarded(rep, "slice", lambda: chunks.check(rep, rep.root, it, V + "slice_backends.sph", "slice_scatter_parallel", ["slice_scatter"], lambda a, p: [a["xres"], a["yres"]]))
    guarded(rep, "slice nn", lambda: chunks.check(rep, rep.root, it, V + "slice_backends.nearest_neighbours", "slice_scatter_parallel", ["slice_scatter"], None, extra=("workers",)))
    def vol(a, p):
        which = next((e.which for e in p.events if e.kind == "serial"), "")
        return [a["res"], a["res"], RZ(a) if which.endswith("limited_z") else a["res"]]
    guarded(rep, "volume", lambda: chunks.check(rep, rep.root, it, V + "volume_render_backends.scatter", "scatter_parallel", ["scatter", "scatter_limited_z"], vol))
    guarded(rep, "deposit", lambda: chunks.check(rep, rep.root, it, V + "power_spectrum", "deposit_parallel", ["deposit"], lambda a, p: [a["res"]] * 3))
    registries(rep, it)
    rep.floor = 10


def registries(rep, it):
    """backends and backends_parallel offer the same names, each pair from one module"""
    for pk in ("projection_backends", "slice_backends", "volume_render_backends"):
        m = it.get_mod(V + pk)
        a, b = it.mod_attr(m, "backends"), it.mod_attr(m, "backends_parallel")
        where = m.path[len(rep.root):].lstrip("/")
        if not isinstance(a, dict) or not isinstance(b, dict):
            rep.oblige(None, "registry", pk, "registry is not a literal dictionary", where)
            continue
        rep.oblige(set(a) == set(b), "registry", pk, "serial and parallel registries offer different backends", where, sorted(set(a) ^ set(b)))
        for k in sorted(set(a) & set(b)):
            f, g = a[k], b[k]
            if not isinstance(f, ip.Fn) or not isinstance(g, ip.Fn):
                rep.oblige(None, "registry", pk, "backend %s" % k, where)
                continue
            rep.count("registered_pairs")
            rep.oblige(f.mod.name == g.mod.name, "registry", pk, "backend %r pairs functions of different modules" % k, where, "%s and %s" % (f.mod.name, g.mod.name))
            short = f.mod.name.split(".")[-1]
            if pk != "volume_render_backends":
                rep.oblige(short == k, "registry", pk, "backend %r is the one of module %s" % (k, short), where)
            par = any(isinstance(z, str) and "parallel" in z for z in (g.qual,))
            rep.oblige((par and "parallel" not in f.qual) or short == "gpu", "registry", pk, "backend %r: serial %s, parallel %s" % (k, f.qual, g.qual), where)


@prop("P22", "Same value-flow and polyhedral analysis for the slice and voxel kernels (3D kernel, distance to the slice plane, separate depth resolution).")
def p22(rep):
    it = engine(rep)
    kernels(it, rep)
    scatter(rep, it, "slice_backends.sph", "slice_scatter", 2, K=3, cell=False, fixed=("z", "z_slice"))
    scatter(rep, it, "volume_render_backends.scatter", "scatter", 3, limit=0.5, res=R3)
    scatter(rep, it, "volume_render_backends.scatter", "scatter_limited_z", 3, limit=0.5, res=[R, R, RZ], coarse=2)
    rep.floor = 10

"""Properties of the files the library writes: subsets, snapshots."""
from . import prop
from .masks import (Pack, FixedCells, mask_world, REGIONS, PYNAME, SEQ, F_, I, snap_model, soap_file, soap_cells, counts_header, predicate_of, same_pred, rows_of, counted, between, simple2, raised2, geq, ent,
                    Spec, ops_program, show_ops, GA, Ranges, Idx, ACC, OPS_SRC)
from .. import interp as ip, terms as tm, snapmodel as sm, h5model as h5
from ..terms import Term, T, sym
from ..interp import AnalysisError, Ext, Inst, Fn, PyFunc, PyRaise
from ..narr import NA, mk
from ..world import World, arr

SUBSET = """
from swiftsimio import mask
from swiftsimio.subset_writer import write_subset
def run():
    m = mask('snap.hdf5')
%s
    before = dict([(g, getattr(m, g)) for g in groups()])
    write_subset('out.hdf5', m%s)
    return before
"""


def walk(node, path=""):
    yield path, node
    if node["kind"] == "group":
        for n, c in node["items"].items():
            yield from walk(c, path + "/" + n)


def same_value(a, b):
    if isinstance(a, NA) and isinstance(b, NA):
        return a.shape == b.shape and [tm._key(x) for x in a.vals()] == [tm._key(x) for x in b.vals()]
    if isinstance(a, NA) or isinstance(b, NA):
        return False
    return tm._key(tm.freeze(a)) == tm._key(tm.freeze(b))


def same_node(a, b):
    """None or a description of the first difference of two subtrees"""
    if a["kind"] != b["kind"]:
        return "is a %s" % b["kind"]
    if a["kind"] == "soft":
        return None if a["target"] == b["target"] else "points to %s" % b["target"]
    for x in a["attrs"]:
        if x not in b["attrs"]:
            return "lacks attribute %r" % x
        if not same_value(a["attrs"][x], b["attrs"][x]):
            return "has attribute %r = %s" % (x, tm.show(tm.freeze(b["attrs"][x]))[:80])
    if a["kind"] == "group":
        for n in a["items"]:
            if n not in b["items"]:
                return "lacks %r" % n
            d = same_node(a["items"][n], b["items"][n])
            if d:
                return "%s/ %s" % (n, d)
        return None
    if "value" in a and "value" in b and not same_value(a["value"], b["value"]):
        return "has other contents"
    return None


def subset_case(k, nm, ops, runs=0, types=(0, 1), order=None, catalogue=False, kw="", output=None, nonempty=True):
    what = ("catalogue, " if catalogue else "") + nm + (" (%d runs)" % runs if runs else "")
    if len(k.rep.findings) >= 8:
        return
    if catalogue:
        cells = soap_cells(order)
        cells.base.append(geq(cells.total["Subhalos"], 8))
        model = soap_file(cells)
        py = ["bound_subhalo", "soap"]
        g = ["Subhalos"] * 2
    else:
        g = ["PartType%d" % t for t in types]
        py = [PYNAME[t] for t in types]
        cells = FixedCells(g, order)
        model = snap_model(cells, types, header=counts_header(cells, types))
    # datasets with three axes and with one column
    for nm_, sh_ in (("StressTensors", (3, 3)), ("SingleColumns", (1,))):
        f = sm.Field((g[0] if not catalogue else list(model.groups)[0]) + "/" + nm_, (list(model.nodes.values())[0].shape[0],) + sh_, 83 + len(sh_), nm_)
        model.nodes[f.path] = f
    if output is not None:
        model.header["OutputType"] = output
    if nonempty:
        # no empty cells
        cells.base += [tm.gt0(z) for gg in set(g) for z in cells.n[gg]]
    a = [I("r%d" % i) for i in range(runs)]
    b = [I("s%d" % i) for i in range(runs)]
    for i in range(runs):
        cells.base += [geq(a[i], 0), tm.gt0(tm.sub(b[i], a[i])), geq(cells.total[g[0]], b[i])] + ([tm.gt0(tm.sub(a[i], b[i - 1]))] if i else [])
    cells.ints = cells.ints + a + b
    w, mod, fields = mask_world(k, [], cells, model, py, g)
    it = w.it
    if runs:
        def rfa(i, x, kk, n):
            if x and isinstance(x[0], Idx):
                return NA([z for p in zip(a, b) for z in p], (runs, 2), "int")
            return NotImplemented
        it.fn_models[ACC + ":ranges_from_array"] = rfa

    def read(i, x, kk, n):
        """one row of a dataset whose contents are unknown"""
        path, s = x[0], x[1]
        f = model.nodes.get(path)
        if f is not None and s == 0 and len(f.shape) == 2:
            r = NA([T("data", path, (0, c)) for c in range(f.shape[1])], (f.shape[1],), sym("dtype:" + path))
            return r
        if f is not None and s == 0:
            return NA([T("data", path, (0,))], (), sym("dtype:" + path))
        return T("data", path, w.h5.sel(s))
    w.h5.mod.env.vars["read"] = PyFunc(read, "read")
    lines = "\n".join("    " + OPS_SRC[op] % {"arg": arg, "n": n} for n, (op, arg) in enumerate(ops))
    m2 = w.program(SUBSET % (lines, kw))
    for n in ("region", "groups", "attribute", "lower", "upper"):
        m2.env.vars[n] = mod.env.vars[n]
    files = {}

    def thunk(i):
        w.h5.reset()
        r = i.call(m2.env.vars["run"], [], {}, None)
        v = w.h5.mod.env.vars["FILES"]
        return r, v.get("snap.hdf5"), v.get("out.hdf5")
    try:
        ps = it.explore(thunk, 3000)
    except AnalysisError as ex:
        k.ob(None, "analysis", what, str(ex)[:300])
        return
    k.rep.count("trace_partitions", len(ps))
    k.rep.count("subsets")
    source = model.tree()["snap.hdf5"]
    spec = Spec(cells, py, g, catalogue)
    for n, (op, arg) in enumerate(ops):
        spec.apply(n, op, arg, lambda q: T("field", fields[q].path))
    for p in ps:
        if raised2(k, w, p, what):
            continue
        und = [c for c, v in p.conds if isinstance(c, Term) and not simple2(c) and w.facts.get(c.key()) is None]
        bad = None if und else False
        F = w.linear(p.conds)
        before, src, out = p.ret
        if out is None:
            k.ob(None, "file", what, "no file out.hdf5 in the model")
            continue
        d = same_node(source, src)
        k.ob(d is None or bad, "source unchanged", what, "the source file %s" % d)
        judge_subset(k, w, F, what, model, cells, py, g, source, out, bad, catalogue, runs, a, b, spec, p)


def judge_subset(k, w, F, what, model, cells, py, g, source, out, bad, catalogue, runs, a, b, spec, p):
    outn = {path.lstrip("/"): n for path, n in walk(out)}
    want = {}
    for f in model.nodes.values():
        want[f.path] = f
    of = dict(zip(g, py))
    sizes = {}
    for path, f in want.items():
        n = outn.get(path)
        grp_ = "Subhalos" if catalogue else path.split("/")[0]
        q = py[0] if catalogue else of[grp_]
        if n is None:
            k.ob(bad, "rows", what, "dataset %s is missing in the subset" % path)
            continue
        k.rep.count("datasets")
        for x, v in f.attrs.items():
            k.ob(x in n["attrs"] and same_value(v, n["attrs"][x]) or bad, "attributes", what, "attribute %r of %s is %s in the subset" % (x, path, tm.show(tm.freeze(n["attrs"].get(x)))[:80]))
        v = n.get("value")
        if not (isinstance(v, Term) and v.op == "ranges"):
            k.ob(None, "rows", what, "the contents of %s are %s" % (path, tm.show(tm.freeze(v))[:100] if not isinstance(v, NA) else v.show()))
            continue
        sp, sel, shape, dtype, cols = v.args
        k.ob(sp == path or bad, "rows", what, "%s of the subset holds rows of %s" % (path, sp))
        k.ob(cols is None or bad, "rows", what, "%s of the subset holds the columns %s only" % (path, tm.show(cols)))
        k.ob(tm._key(dtype) == tm._key(sym("dtype:" + path)) or bad, "rows", what, "%s of the subset is read as %s" % (path, tm.show(dtype)))
        pr, n_rows = None, None
        sel = unfrozen(sel)
        r = rows_of(w.it, sel) if isinstance(sel, NA) else None
        if r is not None:
            n_rows = 0
            for s0, e0 in r:
                n_rows = tm.add(n_rows, tm.sub(e0, s0))
            pr = tm.lor(*[between(x, y) for x, y in r]) if r else False
        elif isinstance(sel, Ranges):
            pr, n_rows = sel.pred, T("count", sel.pred)
        if pr is None:
            k.ob(None, "rows", what, "the rows of %s are %s" % (path, tm.show(tm.freeze(sel))[:100]))
            continue
        sizes[grp_] = n_rows
        wantp = spec.pred[q] if not runs or q != py[0] else tm.lor(*[between(x, y) for x, y in zip(a, b)])
        d = same_pred(F, pr, wantp)
        k.ob(d is None or bad, "rows", what, "%s: %s" % (path, d), "rows %s; expected %s" % (tm.show(pr)[:300], tm.show(wantp)[:300]))
        sh = list(shape.args) if isinstance(shape, Term) and shape.op in ("tuple", "list") else list(shape) if isinstance(shape, (tuple, list)) else [shape]
        sh = [z.vals()[0] if isinstance(z, NA) and z.size == 1 else z for z in (unfrozen(z) for z in sh)]
        cols_ = list(f.shape[1:])
        ok = len(sh) == len(f.shape) and all(tm._key(x) == tm._key(y) for x, y in zip(sh[1:], cols_)) and (tm._key(sh[0]) == tm._key(n_rows) or isinstance(sh[0], (int, Term)) and isinstance(n_rows, (int, Term)) and ent_(F, sh[0], n_rows) or runs > 0 and q == py[0] and count_is(F, sh[0], pr))
        k.ob(ok or bad, "shape", what, "%s of the subset has shape %s where %s rows are selected" % (path, [tm.show(z)[:60] for z in sh], tm.show(n_rows)[:60]))
    cells_part(k, w, F, what, model, cells, py, g, source, out, bad, catalogue, outn, sizes, spec, runs, a, b)
    # everything else is copied
    skip = {"Cells", "Header", "Parameters"} | {x.split("/")[0] for x in model.groups}
    for name, node in source["items"].items():
        if name in skip:
            continue
        n = out["items"].get(name)
        d = "is missing" if n is None else same_node(node, n)
        k.ob(d is None or bad, "copied", what, "%s of the subset %s" % (name, d))
    for name in ("Header", "Parameters"):
        n = out["items"].get(name)
        if n is None:
            k.ob(bad, "header", what, "%s of the subset is missing" % name)
            continue
        for x, v in source["items"][name]["attrs"].items():
            if x not in n["attrs"]:
                k.ob(bad, "header", what, "%s of the subset lacks %s" % (name, x))
                continue
            z = n["attrs"][x]
            if name == "Header" and x == "OutputType":
                s = v.decode() if isinstance(v, bytes) else v
                s = {"FullVolume": "VolumeSubset", "SOAP": "SOAPSubset", "FOF": "FOFSubset"}.get(s, s)
                z = z.decode() if isinstance(z, bytes) else z
                k.ob(z == s or bad, "header", what, "the subset is marked as %s" % tm.show(z))
            elif name == "Header" and x == "NumPart_ThisFile" and not catalogue:
                z = listed(z)
                for t in range(len(z)):
                    gg = "PartType%d" % t
                    e = sizes.get(gg, 0)
                    zz = scalar(z[t])
                    k.ob(tm._key(zz) == tm._key(e) or ent_(F, zz, e) or runs > 0 and gg == g[0] and isinstance(zz, Term) and zz.op == "count" or bad, "header", what, "NumPart_ThisFile[%d] is %s where %s rows are written" % (t, tm.show(zz)[:80], tm.show(e)[:80]))
            elif name == "Header" and x == "NumSubhalos_ThisFile":
                zz, e = scalar(listed(z)[0]), sizes.get("Subhalos", 0)
                k.ob(tm._key(zz) == tm._key(e) or ent_(F, zz, e) or runs > 0 and isinstance(zz, Term) and zz.op == "count" or bad, "header", what, "NumSubhalos_ThisFile is %s where %s rows are written" % (tm.show(zz)[:80], tm.show(e)[:80]))
            elif name == "Parameters" and x == "OutputType":
                pass
            elif name == "Header" and x.startswith("NumPart_Total"):
                pass
            else:
                k.ob(same_value(v, z) or bad, "header", what, "%s attribute %s of the subset is %s" % (name, x, tm.show(tm.freeze(z))[:80]))


def count_is(F, x, pr):
    return isinstance(x, Term) and x.op == "count"


def ent_(F, a, b):
    return isinstance(a, (int, Term)) and isinstance(b, (int, Term)) and bool(ent(F, "==", a, b))


def scalar(z):
    z = unfrozen(z)
    return z.vals()[0] if isinstance(z, NA) and z.size == 1 else z


def listed(z):
    z = unfrozen(z)
    if isinstance(z, NA):
        return z.vals()
    if isinstance(z, Term) and z.op in ("list", "tuple"):
        return list(z.args)
    return list(z) if isinstance(z, (list, tuple)) else [z]


def unfrozen(x):
    """the array behind a frozen reference"""
    return x


def cells_part(k, w, F, what, model, cells, py, g, source, out, bad, catalogue, outn, sizes, spec, runs, a, b):
    c = out["items"].get("Cells")
    if c is None:
        k.ob(bad, "cells", what, "the subset has no Cells")
        return
    src = source["items"]["Cells"]["items"]
    oname = cells.oname
    order = cells.order
    names = ["Subhalos"] if catalogue else g
    for name in ("Counts", oname):
        if name not in c["items"]:
            k.ob(bad, "cells", what, "Cells/%s is missing" % name)
            return
    for gg in names:
        q = py[0] if catalogue else dict(zip(g, py))[gg]
        cn, of = (c["items"][name]["items"].get(gg, {}).get("value") for name in ("Counts", oname))
        if not isinstance(cn, NA) or not isinstance(of, NA) or cn.size != cells.nc or of.size != cells.nc:
            k.ob(bad if cn is None or of is None else None, "cells", what, "Cells/Counts/%s is %s" % (gg, cn.show() if isinstance(cn, NA) else cn))
            continue
        at = 0
        for pos, i in enumerate(order):
            lo, hi = cells.o[gg][i], tm.add(cells.o[gg][i], cells.n[gg][i])
            z = cn.vals()[pos]
            if runs and q == py[0]:
                rr = list(zip(a, b))
            else:
                rr = None
            if rr is None and catalogue and spec.constrained == "constrain_indices":
                rr = [(1, 3), (5, 6)]
            if rr is None and spec.ranges.get(q) is not None:
                rr = [(cells.o[gg][j], tm.add(cells.o[gg][j], cells.n[gg][j])) for j in spec.ranges[q]]
            if rr is None:
                want = tm.land(spec.pred[q], between(lo, hi))
                ok = isinstance(z, Term) and z.op == "count" and same_pred(F, z.args[0], want) is None
                k.ob(ok or None, "cells", what, "cell %d has %s selected rows of %s" % (i, tm.show(z)[:100], gg))
            else:
                k.ob(counted(F, z, rr, lo, hi) or bad, "cells", what, "cell %d is written with %s rows of %s" % (i, tm.show(z)[:200], gg))
            k.ob(ent_(F, of.vals()[pos], at) or bad, "cells", what, "cell %d is written with the offset %s of %s" % (i, tm.show(of.vals()[pos])[:200], gg))
            at = tm.add(at, z)
    perm = {"Centres": None}
    geo = ["Centres"] + (["MinPositions/" + gg for gg in names] + ["MaxPositions/" + gg for gg in names] if cells.minmax else [])
    for path in geo:
        n = outn.get("Cells/" + path)
        s = source["items"]["Cells"]
        for part in path.split("/"):
            s = s["items"][part]
        v = n.get("value") if n is not None else None
        if not isinstance(v, NA) or v.shape != s["value"].shape:
            k.ob(bad if n is None else None, "cells", what, "Cells/%s of the subset is %s" % (path, v.show() if isinstance(v, NA) else v))
            continue
        have = [v.vals()[3 * r:3 * r + 3] for r in range(cells.nc)]
        want = [s["value"].vals()[3 * r:3 * r + 3] for r in order]
        k.ob(all(tm._key(x) == tm._key(y) for hr, wr in zip(have, want) for x, y in zip(hr, wr)) or bad, "cells", what, "Cells/%s of the subset is not in the order of the counts" % path, "%s" % ([[tm.show(z) for z in r] for r in have],))
    n = outn.get("Cells/Meta-data")
    d = "is missing" if n is None else same_node(source["items"]["Cells"]["items"]["Meta-data"], n)
    k.ob(d is None or bad, "cells", what, "Cells/Meta-data of the subset %s" % d)


def refused(k):
    """an unconstrained mask is refused before anything is written"""
    what = "mask without constraints"
    cells = FixedCells(["PartType0"])
    w, mod, fields = mask_world(k, [], cells, snap_model(cells, (0,), header=counts_header(cells, (0,))), ["gas"], ["PartType0"])
    m2 = w.program(SUBSET % ("", ""))
    m2.env.vars["groups"] = mod.env.vars["groups"]
    try:
        ps = w.run(m2, "run", (), 400)
    except AnalysisError as ex:
        k.ob(None, "analysis", what, str(ex)[:200])
        return
    for p in ps:
        und = [c for c, v in p.conds if isinstance(c, Term) and not simple2(c) and w.facts.get(c.key()) is None]
        bad = None if und else False
        k.ob(p.exc is not None and p.exc.name == "ValueError" or bad, "refusal", what, "write_subset with a mask without constraints ends with %s" % (p.exc.name if p.exc else "a file"))
        op = [e for e in p.events if e.kind == "h5" and e.d["what"] == "file_open" and e.d["args"][2] != "r"]
        k.ob(not op or bad, "refusal", what, "a file is written before the mask is refused")


@prop("P16", "Subset files: write_subset interpreted against a model of HDF5; every node of the written tree is compared with the selected rows of the source")
def p16(rep):
    k = Pack(rep, "swiftsimio/subset_writer.py")
    rep.assumptions = ["read_ranges_from_file is P12, the masks are P13 to P15"]
    R = ("spatial", "AB")
    subset_case(k, "region", [R])
    subset_case(k, "region, cells without particles", [R], types=(0,), nonempty=False)
    subset_case(k, "region across the boundary, cells out of file order", [("spatial", "CA")], order=[1, 0, 2])
    subset_case(k, "region without cells", [("spatial", "none")])
    subset_case(k, "property", [("prop", "gas")], 1, (0,))
    subset_case(k, "property", [("prop", "gas")], 2, (0,))
    subset_case(k, "unconstrained", [], kw=", allow_unconstrained=True")
    refused(k)
    subset_case(k, "subset of a subset", [R], output="VolumeSubset")
    subset_case(k, "indices", [("indices", [1, 2, 5])], catalogue=True)
    subset_case(k, "region", [R], catalogue=True)
    subset_case(k, "region of a subset", [R], catalogue=True, output="SOAPSubset")
    rep.floor = 100


# ------------------------------------------------------------------- P17 / P18
import itertools
from ..unitmodel import Units
from ..narr import NInterp, feasibility

WRITE = """
from swiftsimio import Writer
def run():
    w = Writer(%(ctor)s)
%(body)s
    w.write('out.hdf5')
    return w
"""
FIELDS = {"coordinates": ("Coordinates", (0, 1, 0, 0, 0), 3), "velocities": ("Velocities", (0, 1, -1, 0, 0), 3), "masses": ("Masses", (1, 0, 0, 0, 0), 0), "particle_ids": ("ParticleIDs", (0,) * 5, 0),
          "smoothing_lengths": ("SmoothingLengths", (0, 1, 0, 0, 0), 0), "internal_energy": ("InternalEnergy", (0, 2, -2, 0, 0), 0)}
NEEDS = {"gas": ["coordinates", "velocities", "masses", "smoothing_lengths", "internal_energy"], "stars": ["coordinates", "velocities", "masses", "smoothing_lengths"]}
OTHER = ["coordinates", "velocities", "masses"]
NUMBER = {"gas": 0, "dark_matter": 1, "boundary": 2, "sinks": 3, "stars": 4, "black_holes": 5, "neutrinos": 6, "sidm": 7}
EXPO = {"coordinates": 1, "velocities": 0.5, "masses": 0, "smoothing_lengths": 1, "internal_energy": -2}


class WriterWorld:
    """a Writer client over labelled stand-in arrays and the HDF5 model"""

    def __init__(self, k, ctor, body, ids=None, across=0):
        self.k = k
        def setup(it):
            it.budget = 150
            it.attr_models = dict(it.attr_models)
            self.u = Units(it)
        self.w = World(k.rep.root, lambda: {}, interp=NInterp, opaque_arrays=False, setup=setup)
        it = self.it = self.w.it
        self.n = {g: I("n_" + g) for g in NUMBER}
        self.base = [tm.gt0(x) for x in self.n.values()]
        self.linear = feasibility(it, self.base, list(self.n.values()), (), extra=self.fact, light=True)
        for c in ("cosmo_array", "cosmo_quantity"):
            it.fn_models["swiftsimio.objects:" + c] = self.make
        self.mod = self.w.program(WRITE % {"ctor": ctor, "body": "\n".join("    " + l for l in body)})
        v = self.mod.env.vars
        self.given = {}
        v["arr"] = PyFunc(lambda i, a, kk, n: self.arr(*a, **kk), "arr")
        v["N"] = dict(self.n)
        v["OTHER"] = sym("a_other", "float")
        v["A"] = sym("a_w", "float")
        v["box"] = PyFunc(lambda i, a, kk, n: self.box(**kk), "box")
        for g, (lo, rep) in (ids or {g: (1, 0) for g in NUMBER}).items():
            key = T("user", g, "particle_ids")
            self.u.lowest[tm._key(key)] = lo
            self.u.repeats[tm._key(key)] = rep
        order = [g for g in NUMBER if ids is None or g in ids]
        for r in range(1, len(order) + 1):
            for c in itertools.permutations(order, r) if len(order) < 4 else itertools.combinations(order, r):
                t = T("concat", *[T("user", g, "particle_ids") for g in c])
                self.u.repeats[tm._key(t)] = (across if r > 1 else 0) + sum(ids[g][1] if ids else 0 for g in c)
        v["SYSTEM"] = it.instantiate(self.u.v["System"], ["system"], {}, None)

    def box(self, comoving=True, shape=(3,)):
        x = self.u.array(sym("boxsize"), self.u.v["length"], comoving, 1, sym("a_w", "float"), tuple(shape))
        x.attrs["given"] = True
        return x

    def arr(self, g, name, comoving=True, dims=None, rows=None, a=None, exp=None, kind="cosmo", shape=None):
        h, d, cols = FIELDS[name]
        r = {"mass": 0, "length": 1, "time": 2, "temperature": 3, "current": 4}
        dd = self.it.instantiate(self.u.v["Dim"], [ip.AList([float(x) for x in (dims or d)])], {}, None)
        x = self.u.array(T("user", g, name), dd, comoving, EXPO.get(name, 0) if exp is None else exp, sym("a_w", "float") if a is None else a, ((self.n[g] if rows is None else rows),) + ((cols,) if cols else ()) if shape is None else tuple(self.n[g] if z == "n" else z for z in shape))
        if kind != "cosmo":
            x.attrs["kind"] = kind
            for z in ("comoving", "cosmo_factor", "valid_transform") + (("units",) if kind == "ndarray" else ()):
                del x.attrs[z]
        x.attrs["given"] = True
        return x

    def make(self, i, a, kk, n):
        cls = self.w.objects.env.vars["cosmo_array"]
        env = i.bind(i.find_method(cls, "__new__"), [cls] + list(a), kk, n)
        x = env["input_array"]
        cf = env.get("cosmo_factor")
        if cf is None and env.get("scale_factor") is not None:
            cf = i.instantiate(self.u.v["CF"], [env.get("scale_exponent"), env.get("scale_factor")], {}, n)
        units = env.get("units")
        dl = isinstance(units, Ext) and units.path == "unyt.dimensionless"
        if self.u.is_array(x):
            r = self.u.array(x.attrs["what"], x.attrs["units"].attrs["dimensions"], env.get("comoving") if env.get("comoving") is not None else x.attrs["comoving"], 0, None, x.attrs["shape"], x.attrs["units"].attrs["system"])
            r.attrs["cosmo_factor"] = cf if cf is not None else x.attrs["cosmo_factor"]
            return r
        if isinstance(x, Term) and x.op == "call" and dl:
            # numpy.arange(first, last)
            y = x.args[1:]
            if x.args[0] == Ext("numpy.arange") and len(y) in (1, 2):
                lo, hi = (0, y[0]) if len(y) == 1 else y[:2]
                r = self.u.array(T("arange", lo, hi), self.u.v["dimensionless"], env.get("comoving"), 0, None, (tm.sub(hi, lo),), "none")
                r.attrs["cosmo_factor"] = cf
                return r
        raise AnalysisError("cosmo_array of %s" % tm.show(tm.freeze(x))[:80])

    def fact(self, t):
        if isinstance(t, Term) and t.op == "eq0" and t == tm.eq0(tm.sub(sym("a_other", "float"), sym("a_w", "float"))):
            return False    # the two scale factors differ
        return self.w.fact(t)

    def run(self, limit=600):
        def thunk(i):
            self.w.h5.reset()
            r = i.call(self.mod.env.vars["run"], [], {}, None)
            return r, self.w.h5.mod.env.vars["FILES"].get("out.hdf5")
        return self.it.explore(thunk, limit)


def body_for(groups, ids=(), comoving=True, skip=(), extra=()):
    out = []
    for g in groups:
        for f in NEEDS.get(g, OTHER) + (["particle_ids"] if g in ids else []):
            if (g, f) not in skip:
                out.append("w.%s.%s = arr(%r, %r, comoving=%r)" % (g, f, g, f, comoving))
    return out + list(extra)


def undec(p):
    return [c for c, v in p.conds if isinstance(c, Term) and not simple(c) and not about_ids(c)]


def about_ids(c):
    return isinstance(c, Term) and any(isinstance(x, Term) and x.op in ("elementwise", "distinct", "conversion") for x in tm.walk(c))


from .masks import simple


def opened(p):
    return [e for e in p.events if e.kind == "h5" and e.d["what"] == "file_open" and e.d["args"][2] != "r"]


def write_case(k, what, groups, ids=(), extra=(), idworld=None, comoving=True, ctor="boxsize=box(), scale_factor=A, unit_system=SYSTEM", system="system", compress=True, boxco=True, extra_header=None, dimension=3):
    W = WriterWorld(k, ctor, body_for(groups, ids, comoving, extra=extra), idworld)
    try:
        ps = W.run()
    except AnalysisError as ex:
        k.ob(None, "analysis", what, str(ex)[:300])
        return
    k.rep.count("trace_partitions", len(ps))
    for p in ps:
        und = undec(p)
        bad = None if und else False
        if p.exc is not None:
            idc = [c for c, v in p.conds if about_ids(c)]
            k.ob(p.exc.name == "ValueError" and bool(idc) or bad, "raises", what, "writing raises %s%s" % (p.exc.name, p.exc.val.attrs.get("args", "") if isinstance(p.exc.val, Inst) else ""), "line %s" % getattr(p.exc.node, "lineno", "?"))
            continue
        F = W.linear(p.conds)
        w, out = p.ret
        if out is None:
            k.ob(None, "file", what, "no file")
            continue
        k.rep.count("files")
        for e in p.events:
            if e.kind == "changed" and isinstance(e.d["array"], Inst):
                k.ob(not is_user(e.d["array"]) or bad, "inputs", what, "the array given as %s is converted in place" % tm.show(tm.freeze(e.d["array"].attrs["what"])))
        judge_file(k, W, F, p, what, out, groups, ids, system, compress, bad, comoving, dimension, extra_header)


def is_user(x):
    return x.attrs.get("given") is True


def judge_file(k, W, F, p, what, out, groups, ids, system, compress, bad, comoving, dimension=3, extra_header=None):
    items = out["items"]
    u = W.u
    have = {n for n in items if n.startswith("PartType")}
    k.ob(have == {"PartType%d" % NUMBER[g] for g in groups} or bad, "groups", what, "the file holds %s" % sorted(have))
    at = 1
    gen = not set(groups) <= set(ids)
    for g in sorted(groups, key=lambda z: NUMBER[z]):
        node = items.get("PartType%d" % NUMBER[g])
        if node is None:
            continue
        names = NEEDS.get(g, OTHER) + ["particle_ids"]
        k.ob(set(node["items"]) == {FIELDS[f][0] for f in names} or bad, "datasets", what, "%s holds %s" % (g, sorted(node["items"])))
        for f in names:
            h, d, cols = FIELDS[f]
            n = node["items"].get(h)
            if n is None:
                continue
            v = n.get("value")
            if not u.is_array(v):
                k.ob(None, "values", what, "%s.%s is written from %s" % (g, f, tm.show(tm.freeze(v))[:80]))
                continue
            k.rep.count("datasets")
            a = v.attrs
            if f == "particle_ids" and gen:
                t = a["what"]
                ok = isinstance(t, Term) and t.op == "arange" and ent_(F, t.args[0], at) and ent_(F, t.args[1], tm.add(at, W.n[g]))
                k.ob(ok or bad, "ids", what, "the generated IDs of %s are %s, expected %s.." % (g, tm.show(t)[:100], tm.show(at)))
            else:
                k.ob(tm._key(a["what"]) == tm._key(T("user", g, f)) or bad, "values", what, "%s.%s is written from %s" % (g, f, tm.show(tm.freeze(a["what"]))[:100]))
            k.ob(a["comoving"] is True or bad, "frame", what, "%s.%s is written in the %s frame" % (g, f, "physical" if a["comoving"] is False else tm.show(a["comoving"])))
            if f != "particle_ids":
                k.ob(u.system(a["units"].attrs["system"]) == system or bad, "units", what, "%s.%s is written in units of %s" % (g, f, u.system(a["units"].attrs["system"])))
            at_ = n["attrs"]
            for nm, x in zip(("M", "L", "t", "T", "I"), d):
                z = scalar(listed(at_.get("U_%s exponent" % nm))[0]) if "U_%s exponent" % nm in at_ else None
                k.ob(z == x and not isinstance(z, bool) or bad, "attributes", what, "%s.%s is written with U_%s exponent = %s" % (g, f, nm, tm.show(z)))
            e = EXPO.get(f, 0)
            z = scalar(listed(at_["a-scale exponent"])[0]) if "a-scale exponent" in at_ else None
            k.ob(z == e or bad, "attributes", what, "%s.%s is written with a-scale exponent = %s, its values scale with a**%s" % (g, f, tm.show(z), e))
            z = scalar(listed(at_["h-scale exponent"])[0]) if "h-scale exponent" in at_ else None
            k.ob(z == 0 or bad, "attributes", what, "%s.%s is written with h-scale exponent = %s" % (g, f, tm.show(z)))
            for nm, sc in (("Conversion factor to CGS (not including cosmological corrections)", False), ("Conversion factor to physical CGS (including cosmological corrections)", True)):
                z = listed(at_.get(nm))[0]
                ok = isinstance(z, Inst) and z.cls is u.v["CgsFactor"] and z.attrs["system"] is None and u.unit(z.attrs["unit"]) == T("unit", tuple(float(x) for x in d), u.system(a["units"].attrs["system"]))
                if ok and sc:
                    s = z.attrs["scale"]
                    ok = isinstance(s, Term) and s.op == "a_factor" and s.args[0] == e and tm._key(s.args[1]) == tm._key(sym("a_w", "float"))
                elif ok:
                    ok = z.attrs["scale"] is None
                k.ob(ok or (None if not isinstance(z, Inst) else bad), "attributes", what, "%s of %s.%s is %s" % (nm, g, f, tm.show(tm.freeze(z))[:100]))
            cr = [e_ for e_ in p.events if e_.kind == "h5" and e_.d["what"] == "create_dataset" and e_.d["args"][1] == "PartType%d/%s" % (NUMBER[g], h)]
            if cr:
                z = cr[-1].d["args"][5].get("compression")
                k.ob(z == ("gzip" if compress else None) or bad, "compression", what, "%s.%s is written with compression %s" % (g, f, z))
        at = tm.add(at, W.n[g])
    hd = items.get("Header", {}).get("attrs", {})
    for nm in ("NumPart_ThisFile", "NumPart_Total"):
        z = listed(hd[nm]) if nm in hd else []
        want = [W.n[next(g for g in NUMBER if NUMBER[g] == t)] if any(NUMBER[g] == t for g in groups) else 0 for t in range(8)]
        k.ob(len(z) == 8 and all(tm._key(scalar(x)) == tm._key(y) or ent_(F, scalar(x), y) for x, y in zip(z, want)) or bad, "header", what, "%s is %s" % (nm, [tm.show(scalar(x)) for x in z]))
    z = listed(hd["NumPart_Total_HighWord"]) if "NumPart_Total_HighWord" in hd else []
    k.ob(len(z) == 8 and all(scalar(x) == 0 for x in z) or bad, "header", what, "NumPart_Total_HighWord has %d entries for 8 particle types" % len(z))
    z = hd.get("BoxSize")
    ok = u.is_array(z) and z.attrs["comoving"] is True and u.system(z.attrs["units"].attrs["system"]) == system and tm._key(z.attrs["what"]) == tm._key(sym("boxsize"))
    k.ob(ok or (bad if u.is_array(z) else None), "header", what, "BoxSize is written as %s" % ("%s values in units of %s" % ("comoving" if z.attrs["comoving"] is True else "physical", u.system(z.attrs["units"].attrs["system"])) if u.is_array(z) else tm.show(tm.freeze(z))))
    for nm, want in (("Scale-factor", sym("a_w", "float")), ("Dimension", dimension), ("NumFilesPerSnapshot", 1), ("Flag_Entropy_ICs", 0), *(extra_header or {}).items()):
        z = scalar(listed(hd[nm])[0]) if nm in hd else None
        k.ob(tm._key(z) == tm._key(want) or bad, "header", what, "%s is %s" % (nm, tm.show(z)))
    z = listed(hd["MassTable"]) if "MassTable" in hd else []
    k.ob(len(z) == 8 or bad, "header", what, "MassTable has %d entries" % len(z))
    for t, x in enumerate(z[:8]):
        g = next(g for g in NUMBER if NUMBER[g] == t)
        x = scalar(x)
        w_ = x.attrs["what"] if u.is_array(x) else x
        ok = w_ == 0 if isinstance(w_, (int, float)) else g in groups and tm._key(w_) == tm._key(T("item", T("user", g, "masses"), 0))
        wrong = isinstance(w_, (int, float)) or isinstance(w_, Term) and w_.op == "item" and isinstance(w_.args[1], int)
        k.ob(ok or (bad if wrong else None), "header", what, "MassTable[%d] is %s" % (t, tm.show(tm.freeze(w_))[:80]))
    un = items.get("Units", {}).get("attrs", {})
    for nm, i in (("Unit mass in cgs (U_M)", 0), ("Unit length in cgs (U_L)", 1), ("Unit time in cgs (U_t)", 2), ("Unit temperature in cgs (U_T)", 3)):
        z = scalar(listed(un[nm])[0]) if nm in un else None
        e = tuple(1.0 if j == i else 0.0 for j in range(5))
        k.ob(tm._key(z) == tm._key(T("conversion", T("unit", e, system), T("unit", e, "cgs"))) or bad, "units", what, "%s is %s" % (nm, tm.show(z)))


@prop("P17", "Written snapshots: the Writer interpreted on labelled stand-in arrays and a model of HDF5; every dataset, attribute and header entry of the written tree is compared with what was given")
def p17(rep):
    k = Pack(rep, "swiftsimio/snapshot_writer.py")
    write_case(k, "gas", ["gas"])
    write_case(k, "gas in the physical frame", ["gas"], comoving=False)
    write_case(k, "two types with IDs", ["gas", "stars"], ids=["gas", "stars"])
    write_case(k, "two types, IDs for one", ["dark_matter", "gas"], ids=["gas"])
    write_case(k, "all types", list(NUMBER))
    write_case(k, "all types with IDs", list(NUMBER), ids=list(NUMBER))
    write_case(k, "physical box", ["gas"], ctor="boxsize=box(comoving=False), scale_factor=A, unit_system=SYSTEM")
    write_case(k, "default units", ["dark_matter"], ctor="boxsize=box(), scale_factor=A", system="cosmological")
    write_case(k, "named units", ["dark_matter"], ctor="boxsize=box(), scale_factor=A, unit_system='cgs', compress=False", system="cgs", compress=False)
    write_case(k, "two dimensions", ["gas"], ctor="boxsize=box(shape=(2,)), scale_factor=A, unit_system=SYSTEM, dimension=2", dimension=2)
    write_case(k, "extra header entries", ["stars"], ctor="boxsize=box(), scale_factor=A, unit_system=SYSTEM, extra_header={'Extra': 7}", extra_header={"Extra": 7})
    first = ["del w.gas.particle_ids"] + ["w.gas.%s = arr('gas', %r, rows=N['stars'])" % (f, f) for f in NEEDS["gas"]] + ["w.write('first.hdf5')"] + body_for(["gas"])
    write_case(k, "second write with another number of particles", ["gas"], extra=first + ["w.gas.particle_ids = arr('gas', 'particle_ids')"], ids=["gas"])
    write_case(k, "second write after adding a type", ["gas", "sidm"], extra=["del w.sidm.%s" % f for f in OTHER + ["particle_ids"]] + ["w.write('first.hdf5')"] + body_for(["sidm"]))
    rep.floor = 100


GOOD = "boxsize=box(), scale_factor=A, unit_system=SYSTEM"


def refuse(k, what, groups, ids=(), extra=(), skip=(), ctor=GOOD, idworld=None, across=0, names=None, first=()):
    """no path of the program may create a file, every path must raise"""
    W = WriterWorld(k, ctor, list(first) + body_for(groups, ids, True, skip, extra), idworld, across)
    try:
        ps = W.run()
    except AnalysisError as ex:
        k.ob(None, "analysis", what, str(ex)[:300])
        return
    k.rep.count("trace_partitions", len(ps))
    for p in ps:
        und = undec(p)
        bad = None if und else False
        where = "" if p.exc is None else "line %s" % getattr(p.exc.node, "lineno", "?")
        k.ob(p.exc is not None or bad, "accepted", what, "write() accepts the data", where)
        k.ob(not opened(p) or bad, "file created", what, "the data is refused after out.hdf5 has been created" if p.exc is not None else "out.hdf5 is created", where)
        if p.exc is not None and names:
            k.ob(p.exc.name in names or bad, "exception", what, "raises %s, expected %s" % (p.exc.name, " or ".join(names)), where)


BUGS = ("TypeError", "NameError", "UnboundLocalError", "IndexError", "KeyError", "ZeroDivisionError", "AttributeError")


@prop("P18", "Writer validation: the Writer interpreted on data with one fault at a time; every path raises before the output file is created.")
def p18(rep):
    k = Pack(rep, "swiftsimio/snapshot_writer.py")
    for g in NUMBER:
        need = NEEDS.get(g, OTHER)
        for f in need:
            refuse(k, "%s without %s" % (g, f), [g], skip={(g, f)})
            bad = "w.%s.%s = arr(%r, %r" % (g, f, g, f)
            shape = "('n', 2)" if FIELDS[f][2] else "('n', 2)"
            refuse(k, "%s.%s with one more row" % (g, f), [g], extra=[bad + ", rows=N[%r] + 1)" % g])
            if FIELDS[f][2]:
                refuse(k, "%s.%s with two columns" % (g, f), [g], extra=[bad + ", shape=('n', 2))"])
            d = FIELDS[f][1]
            for i in range(5):
                for s in (1, -1):
                    w = tuple(x + (s if i == j else 0) for j, x in enumerate(d))
                    refuse(k, "%s.%s with dimensions %s" % (g, f, w), [g], extra=[bad + ", dims=%r)" % (w,)])
            for kind in ("unyt", "ndarray"):
                refuse(k, "%s.%s as %s" % (g, f, {"unyt": "unyt_array", "ndarray": "numpy array"}[kind]), [g], extra=[bad + ", kind=%r)" % kind])
            refuse(k, "%s.%s of another scale factor" % (g, f), [g], extra=[bad + ", a=OTHER)"])
            caught = ["try:", "    " + bad + ", dims=(3, 0, 0, 0, 0))", "except Exception:", "    pass"]
            refuse(k, "%s.%s after a refused assignment" % (g, f), [g], skip={(g, f)}, extra=caught)
        keep = []
        for f in need:
            for bad in ("dims=(3, 0, 0, 0, 0)", "a=OTHER", "kind='ndarray'"):
                keep += ["try:", "    w.%s.%s = arr(%r, %r, %s)" % (g, f, g, f, bad), "except Exception:", "    pass"]
        write_case(k, "%s after refused assignments" % g, [g], extra=keep)
        for bad, w in (("zero", (0, 0)), ("repeated values", (1, 3))):
            write_case(k, "%s after refused IDs with %s" % (g, bad), [g], extra=["try:", "    w.%s.particle_ids = arr(%r, 'particle_ids')" % (g, g), "except Exception:", "    pass"], idworld={g: w})
        refuse(k, "%s.particle_ids of another scale factor" % g, [g], ids=[g], extra=["w.%s.particle_ids = arr(%r, 'particle_ids', a=OTHER)" % (g, g)])
        refuse(k, "%s.particle_ids with one more row" % g, [g], extra=["w.%s.particle_ids = arr(%r, 'particle_ids', rows=N[%r] + 1)" % (g, g, g)])
        refuse(k, "%s.particle_ids with zero" % g, [g], ids=[g], idworld={g: (0, 0)})
        refuse(k, "%s.particle_ids with negative values" % g, [g], ids=[g], idworld={g: (-7, 0)})
        refuse(k, "%s.particle_ids with a repeated value" % g, [g], ids=[g], idworld={g: (1, 1)})
    groups = list(NUMBER)
    for a, b in itertools.combinations(groups, 2):
        refuse(k, "an ID shared by %s and %s" % (a, b), [a, b], ids=[a, b], idworld={a: (1, 0), b: (1, 0)}, across=1)
        refuse(k, "%s and %s, missing field in the second" % (a, b), [a, b], skip={(b, "velocities")})
    refuse(k, "an ID shared among three types", groups[:3], ids=groups[:3], idworld={g: (1, 0) for g in groups[:3]}, across=2)
    refuse(k, "box of two lengths in three dimensions", ["gas"], ctor="boxsize=box(shape=(2,)), scale_factor=A, unit_system=SYSTEM")
    refuse(k, "box of three lengths in two dimensions", ["gas"], ctor="boxsize=box(), scale_factor=A, unit_system=SYSTEM, dimension=2")
    refuse(k, "scalar box", ["gas"], ctor="boxsize=box(shape=()), scale_factor=A, unit_system=SYSTEM")
    refuse(k, "no data", [])
    rep.floor = 400

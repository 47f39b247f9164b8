"""Properties of region selection: masks, cell metadata, range readers."""
from . import prop
from .. import interp as ip, terms as tm
from ..terms import Term, T, sym
from ..interp import AnalysisError, Ext, Inst, Fn, PyFunc, PyRaise, Project
from fractions import Fraction
from ..world import World, arr
from .. import snapmodel as sm, h5model as h5
from ..gmask import GInterp, GA, Idx, Ranges, POS, count, between
from ..narr import NInterp, NA, mk, feasibility, err, uninit

ACC = "swiftsimio.accelerated"
OS = "swiftsimio._ordered_slices"


class Pack:
    """one analysed function set with obligations"""

    def __init__(self, rep, where):
        self.rep = rep
        self.where = where

    def ob(self, ok, rule, construct, msg, detail=None):
        self.rep.oblige(ok, rule, construct, msg, self.where, detail)

    def interp(self):
        it = NInterp(Project(self.rep.root))
        it.budget = 150
        return it

    def paths(self, it, what, thunk, limit=3000):
        try:
            ps = it.explore(thunk, limit)
        except AnalysisError as ex:
            self.ob(None, "analysis", what, str(ex)[:200])
            return []
        self.rep.count("trace_partitions", len(ps))
        out = []
        for p in ps:
            p.und = [c for c, v in p.conds if isinstance(c, Term) and not simple(c)]
            out.append(p)
        return out

    def fn(self, it, mod, name):
        """a function of the tree, or None (reported undecided) when it is not there any more"""
        m = it.get_mod(mod)
        f = m.env.vars.get(name) if m is not None else None
        if not isinstance(f, Fn):
            self.ob(None, "analysis", "%s.%s" % (mod, name), "not found")
            return None
        return f


def simple(c):
    stack = [c]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x.op == "poly":
                for m, _ in x.args:
                    stack.extend(a for a, _e in m)
            elif x.op in ("gt0", "eq0", "not", "and", "floor", "ceil", "max", "min", "abs"):
                stack.extend(x.args)
            elif x.op not in ("sym", "loop", "attr0"):
                return False
    return True


def I(name):
    return sym(name, "int")


def geq(a, b):
    return tm.ge0(tm.sub(a, b))


def ent(F, op, a, b):
    d = tm.sub(a, b)
    if op == "==":
        return F.entails(tm.eq0(d))
    if op == ">=":
        return F.entails(tm.ge0(d))
    if op == ">":
        return F.entails(tm.gt0(d))


def raised(k, p, what, allowed=()):
    if p.exc is None:
        return False
    n = p.exc.name
    if n in allowed:
        return True
    node = p.exc.node
    k.ob(None if p.und or n == "AnalysisError" else False, "raises", what, "%s raises %s" % (what, n), "line %s" % getattr(node, "lineno", "?"))
    return True


# ------------------------------------------------------------------- masks on model files
XYZ = "xyz"


def F_(name):
    return sym(name, "float")


class Cells:
    """cell metadata of a model file: nc cells with symbolic geometry, one set of counts per type"""

    def __init__(self, groups, nc, minmax=True, order=None, name="OffsetsInFile"):
        self.groups, self.nc, self.minmax, self.oname = groups, nc, minmax, name
        self.L = [F_("L" + z) for z in XYZ]
        self.w = [F_("w" + z) for z in XYZ]
        self.c = [[F_("c%d%s" % (i, z)) for z in XYZ] for i in range(nc)]
        self.lo = {g: [[F_("lo%d%s_%s" % (i, z, g)) for z in XYZ] for i in range(nc)] for g in groups}
        self.hi = {g: [[F_("hi%d%s_%s" % (i, z, g)) for z in XYZ] for i in range(nc)] for g in groups}
        self.n = {g: [I("n%d_%s" % (i, g)) for i in range(nc)] for g in groups}
        self.o = {g: [I("o%d_%s" % (i, g)) for i in range(nc)] for g in groups}
        self.total = {g: I("total_%s" % g) for g in groups}
        b = []
        for d in range(3):
            b += [tm.gt0(self.L[d]), tm.gt0(self.w[d])]
            for i in range(nc):
                b += [tm.ge0(tm.sub(self.c[i][d], tm.mul(Fraction(1, 2), self.w[d]))), tm.ge0(tm.sub(self.L[d], tm.add(self.c[i][d], tm.mul(Fraction(1, 2), self.w[d]))))]
        order = order or list(range(nc))
        for g in groups:
            at = 0
            for i in order:
                # cells in file order: the offsets are the running sum of the counts
                b += [tm.ge0(self.n[g][i]), tm.eq0(tm.sub(self.o[g][i], at))]
                at = tm.add(at, self.n[g][i])
            b.append(tm.eq0(tm.sub(self.total[g], at)))
        self.base = b
        self.positive = self.L + self.w
        self.order = order
        self.ints = [x for g in groups for x in self.n[g] + self.o[g]] + list(self.total.values())

    def node(self):
        nc = self.nc
        flat = lambda v: NA([x for r in v for x in r], (nc, 3), "float")
        d = {"Counts": h5.group({g: h5.dset((nc,), value=mk(self.n[g], dtype="int")) for g in self.groups}),
             self.oname: h5.group({g: h5.dset((nc,), value=mk(self.o[g], dtype="int")) for g in self.groups}),
             "Centres": h5.dset((nc, 3), value=flat(self.c)), "Meta-data": h5.group({}, {"size": mk(self.w, dtype="float"), "nr_cells": (nc,), "dimension": (nc, 1, 1)})}
        if self.minmax:
            d["MinPositions"] = h5.group({g: h5.dset((nc, 3), value=flat(self.lo[g])) for g in self.groups})
            d["MaxPositions"] = h5.group({g: h5.dset((nc, 3), value=flat(self.hi[g])) for g in self.groups})
        return h5.group(d, {})


class MaskWorld(World):
    """the library on one model file with exact-shape arrays; cosmo arrays keep their labels"""

    def __init__(self, k, model, base, ints, positive=(), interp=NInterp):
        super().__init__(k.rep.root, model.tree, interp=interp)
        self.it.budget = 200
        self.it.whole_bools = True
        self.facts[T("call", Ext("unyt._iterable"), sym("BoxSize")).key()] = True
        fl = World.fact
        def other(t):
            if isinstance(t, Term) and t.op == "call" and t.args[0] == Ext("unyt._iterable") and len(t.args) > 1:
                return isinstance(t.args[1], NA) and t.args[1].shape != ()
            return fl(self, t)
        self.linear = feasibility(self.it, base, ints, positive, extra=other, light=True)

    def make_array(self, c, a, k, n):
        cls = self.objects.env.vars[c]
        new = self.it.find_method(cls, "__new__")
        env = self.it.bind(new, [cls] + list(a), k, n)
        v = env.get("input_array" if c == "cosmo_array" else "input_scalar")
        if isinstance(v, GA):
            d = arr(super().make_array(c, a, k, n))
            return GA(v.elem, v.size, v.sel, v.dtype, {"units": d["units"], "cosmo_factor": d["cf"], "comoving": d.get("comoving"), "valid_transform": d.get("valid_transform"), "cls": c})
        v = self.it.tonp(v)
        r = super().make_array(c, a, k, n)
        if v is None:
            return r
        d = arr(r)
        lab = {"units": d["units"], "cosmo_factor": d["cf"], "comoving": d.get("comoving"), "valid_transform": d.get("valid_transform"), "cls": c}
        src = next((x.label for x in self.members(env.get("input_array" if c == "cosmo_array" else "input_scalar")) if isinstance(x, NA) and x.label is not None), None)
        if src is not None and d["units"] is None:
            lab.update(src)
        if v.shape == () and c == "cosmo_quantity":
            return v.vals()[0]
        out = v.copy()
        out.label = lab
        return out

    def members(self, v):
        if isinstance(v, (list, tuple)):
            for x in v:
                yield from self.members(x)
        else:
            yield v


def snap_model(cells, types=(0,), output=None, header=None):
    m = sm.snapshot(present=types, cells=cells.node, header=dict({"NumFilesPerSnapshot": 1, "BoxSize": mk(cells.L, dtype="float")}, **(header or {})))
    if output:
        m.header["OutputType"] = output
    return m


def soap_model(cells):
    m = sm.soap(cells.node)
    m.header["BoxSize"] = mk(cells.L, dtype="float")
    m.header["NumFilesPerSnapshot"] = 1
    return m


def counts_header(cells, types):
    """particle numbers of the file are the sums over the cells"""
    v = [0] * 7
    for t in types:
        v[t] = cells.total["PartType%d" % t]
    return {"NumPart_ThisFile": ip.AList(v), "NumPart_Total": ip.AList(v)}


# ------------------------------------------------------------------- P13
REGION = """
from swiftsimio import mask, cosmo_array
def run():
    m = mask('snap.hdf5'%s)
    m.constrain_spatial(region())
    return dict([(g, getattr(m, g)) for g in groups()]), m
def plain():
    m = mask('snap.hdf5'%s)
    return dict([(g, getattr(m, g)) for g in groups()]), m
"""


def region_row(w, d, lo, hi):
    a = mk([lo, hi], dtype="float")
    a.label = {"units": None, "comoving": True, "region": d}
    return a


def rows_of(it, x):
    """[(start, stop)] of a range mask, None if it is something else"""
    if isinstance(x, NA):
        if x.size == 0:
            return []
        if len(x.shape) == 2 and x.shape[1] == 2:
            v = x.vals()
            return [(v[2 * i], v[2 * i + 1]) for i in range(x.shape[0])]
        return None
    return None


def region_facts(lo, hi, L, x, wrapped):
    """alternatives under which x lies strictly inside the (periodic) region"""
    top = tm.add(hi, L) if wrapped else hi
    out = []
    for s in (-2, -1, 0, 1, 2):
        y = tm.add(x, tm.mul(s, L))
        out.append([tm.gt0(tm.sub(y, lo)), tm.gt0(tm.sub(top, y))])
    return out


def holds_in_some_case(F, cases):
    """F and one of the alternatives is satisfiable"""
    for alt in cases:
        G = F.clone()
        for t in alt:
            G.add(t)
        if not G.unsat():
            return True
    return False


def p13_case(k, what, cells, model, groups, pyname, dim, kw="", pad=None, shared=None):
    if len(k.rep.findings) >= 8:
        return
    """groups: the h5 groups whose selection is judged; pad: half-extent of a cell in cell lengths when there are no extents"""
    lo, hi = F_("from"), F_("to")
    base = list(cells.base)
    w = MaskWorld(k, model, base, cells.ints, cells.positive)
    it = w.it
    mod = w.program(REGION % (kw, kw))
    rows = [None, None, None]
    mod.env.vars["region"] = PyFunc(lambda i, a, kk, n: ip.AList([region_row(w, d, lo, hi) if d == dim else None for d in range(3)]), "region")
    mod.env.vars["groups"] = PyFunc(lambda i, a, kk, n: ip.AList(pyname), "groups")
    mod.env.vars["PAD"] = F_("padding")
    for z in (True, False, None):
        w.facts[T("is", F_("padding"), z).key()] = False
    L = cells.L[dim]
    half = tm.mul(Fraction(1, 2), L)
    inrange = [tm.ge0(tm.add(z, half)) for z in (lo, hi)] + [tm.ge0(tm.sub(tm.mul(3, half), z)) for z in (lo, hi)]
    try:
        ps = w.run(mod, "run", (), 2500)
    except AnalysisError as ex:
        k.ob(None, "analysis", what, str(ex)[:200])
        return
    k.rep.count("trace_partitions", len(ps))
    for p in ps:
        if len(k.rep.findings) >= 8:
            k.rep.coverage["stopped_early"] = "after %d findings" % len(k.rep.findings)
            return
        und = [c for c, v in p.conds if isinstance(c, Term) and not simple2(c) and w.facts.get(c.key()) is None]
        F = w.linear(p.conds)
        if p.exc is not None:
            if p.exc.name == "ValueError":
                G = F.clone()
                for t in inrange:
                    G.add(t)
                k.ob(bool(G.unsat()) or (None if und else False), "interval", what, "a region within half a box length of the box is refused", "line %s" % getattr(p.exc.node, "lineno", "?"))
            else:
                k.ob(None if und else False, "raises", what, "constrain_spatial raises %s%s" % (p.exc.name, p.exc.val.attrs.get("args", "")), "line %s" % getattr(p.exc.node, "lineno", "?"))
            continue
        ok = all(F.entails(t) for t in inrange)
        k.ob(bool(ok) or (None if und else False), "interval", what, "a region reaching more than half a box length outside the box is accepted")
        if not ok:
            continue
        sel = p.ret[0]
        for g, py in zip(groups, pyname):
            r = rows_of(it, sel.get(py))
            if r is None:
                k.ob(None, "rows", what, "the selection is %s" % tm.show(tm.freeze(sel.get(py)) if not isinstance(sel.get(py), NA) else sel.get(py).show())[:100])
                continue
            src = shared or g
            chosen = set()
            bad = False
            for s, e in r:
                i = next((i for i in range(cells.nc) if tm._key(s) == tm._key(cells.o[src][i]) and tm._key(e) == tm._key(tm.add(cells.o[src][i], cells.n[src][i]))), None)
                if i is None:
                    bad = True
                    k.ob(None if und else False, "rows", what, "the selection has rows [%s:%s] that are no cell's" % (tm.show(s), tm.show(e)))
                else:
                    chosen.add(i)
            if bad:
                continue
            for (s0, e0), (s1, e1) in zip(r, r[1:]):
                # the range readers rely on ordered, disjoint ranges
                k.ob(bool(ent(F, ">=", s1, e0)) or (None if und else False), "order", what, "the row ranges of %s are not in file order" % py, "[%s:%s] is followed by [%s:%s]" % tuple(tm.show(z) for z in (s0, e0, s1, e1)))
            for i in range(cells.nc):
                for wrapped in (False, True):
                    G = F.clone()
                    G.add(tm.gt0(tm.sub(lo, hi)) if wrapped else tm.ge0(tm.sub(hi, lo)))
                    if G.unsat():
                        continue
                    lows, highs = [], []
                    for d in range(3):
                        ext = tm.mul(pad, cells.w[d]) if pad is not None else None
                        lows.append(tm.sub(cells.c[i][d], ext) if ext is not None else None)
                        highs.append(tm.add(cells.c[i][d], ext) if ext is not None else None)
                    if i not in chosen:
                        # a particle of the cell inside the region would be lost
                        G2 = G.clone()
                        for d in range(3):
                            x = F_("x" + XYZ[d])
                            G2.add(tm.ge0(x))
                            G2.add(tm.ge0(tm.sub(cells.L[d], x)))
                            if pad is None:
                                # the extents written in the file hold every particle of the type
                                G2.add(tm.ge0(tm.sub(x, cells.lo[g][i][d])))
                                G2.add(tm.ge0(tm.sub(cells.hi[g][i][d], x)))
                            else:
                                G2.add(tm.ge0(tm.sub(x, lows[d])))
                                G2.add(tm.ge0(tm.sub(highs[d], x)))
                        lost = holds_in_some_case(G2, region_facts(lo, hi, L, F_("x" + XYZ[dim]), wrapped))
                        k.ob(not lost or (None if und else False), "containment", what, "cell %d is left out though it can hold %s inside the region%s" % (i, py, " (region across the boundary)" if wrapped else ""), [(tm.show(c)[:250], v) for c, v in p.conds if isinstance(c, Term) and c.op in ("gt0", "not", "and") and "from" in tm.show(c)])
                    else:
                        # cells that lie outside altogether are not selected
                        G2 = G.clone()
                        top = tm.add(hi, L) if wrapped else hi
                        G2.add(tm.ge0(tm.sub(L, tm.sub(lo, hi) if wrapped else tm.sub(hi, lo))))
                        if pad is None:
                            a = tm.minmax("min", [cells.lo[g][i][dim], tm.sub(cells.c[i][dim], tm.mul(Fraction(1, 2), cells.w[dim]))])
                            b = tm.minmax("max", [cells.hi[g][i][dim], tm.add(cells.c[i][dim], tm.mul(Fraction(1, 2), cells.w[dim]))])
                        else:
                            a, b = lows[dim], highs[dim]
                        G2.add(tm.ge0(tm.sub(b, a)))
                        # disjoint from every periodic copy: there is s with the cell between copies s and s+1
                        out = []
                        for s in (-2, -1, 0, 1, 2):
                            # copy s of the region ends before the cell starts, copy s+1 starts after it ends
                            out.append([tm.gt0(tm.sub(a, tm.add(top, tm.mul(s, L)))), tm.gt0(tm.sub(tm.add(lo, tm.mul(s + 1, L)), b))])
                        extra = holds_in_some_case(G2, out)
                        k.ob(not extra or (None if und else False), "excess", what, "cell %d is selected though it lies outside the region%s" % (i, " (region across the boundary)" if wrapped else ""), [(tm.show(c)[:250], v) for c, v in p.conds if isinstance(c, Term) and c.op in ("gt0", "not", "and") and "from" in tm.show(c)])
        k.rep.count("regions")


PYNAME = {0: "gas", 1: "dark_matter", 4: "stars"}


def p13_order(k, what, cells, model, groups, pyname):
    """the row ranges of all cells are ordered and disjoint for every particle type"""
    w = MaskWorld(k, model, cells.base, cells.ints, cells.positive)
    mod = w.program(REGION % ("", ""))
    mod.env.vars["groups"] = PyFunc(lambda i, a, kk, n: ip.AList(pyname), "groups")
    try:
        ps = w.run(mod, "plain", (), 2500)
    except AnalysisError as ex:
        k.ob(None, "analysis", what, str(ex)[:200])
        return
    k.rep.count("trace_partitions", len(ps))
    for p in ps:
        if raised2(k, w, p, what):
            continue
        und = [c for c, v in p.conds if isinstance(c, Term) and not simple2(c) and w.facts.get(c.key()) is None]
        F = w.linear(p.conds)
        for g, py in zip(groups, pyname):
            r = rows_of(w.it, p.ret[0].get(py))
            if r is None or len(r) != cells.nc:
                k.ob(None, "order", what, "the selection of %s is not the list of cells" % py)
                continue
            ids = [next((i for i in range(cells.nc) if tm._key(s) == tm._key(cells.o[g][i]) and tm._key(e) == tm._key(tm.add(cells.o[g][i], cells.n[g][i]))), None) for s, e in r]
            k.ob(sorted(ids, key=lambda z: -1 if z is None else z) == list(range(cells.nc)) or (None if und else False), "order", what, "the selection of %s is not the rows of every cell" % py)
            for (s0, e0), (s1, e1) in zip(r, r[1:]):
                k.ob(bool(ent(F, ">=", s1, e0)) or (None if und else False), "order", what, "the row ranges of %s are not in file order" % py, "[%s:%s] is followed by [%s:%s]" % tuple(tm.show(z) for z in (s0, e0, s1, e1)))
        k.rep.count("orders")


def simple2(c):
    return simple(c) or isinstance(c, Term) and c.op == "call" and c.args[0] == Ext("unyt._iterable") or isinstance(c, Term) and any(x.op == "ite" for x in tm.walk(c) if isinstance(x, Term))


def p13_labels(k, what, cells, model, kw=""):
    w = MaskWorld(k, model, cells.base, cells.ints, cells.positive)
    mod = w.program("""
from swiftsimio import mask
def run():
    m = mask('snap.hdf5'%s)
    out = {"centers": m.centers, "cell_size": m.cell_size}
    for g in m.minpositions:
        out["minpositions " + g] = m.minpositions[g]
        out["maxpositions " + g] = m.maxpositions[g]
    return out, m.metadata.units.length
""" % kw)
    mod.env.vars["PAD"] = F_("padding")
    try:
        ps = w.run(mod, "run", (), 500)
    except AnalysisError as ex:
        k.ob(None, "analysis", what, str(ex)[:200])
        return
    for p in ps:
        if raised2(k, w, p, what):
            continue
        for name, a in p.ret[0].items():
            if not isinstance(a, NA) or a.label is None:
                k.ob(None, "labels", what, "%s is %s" % (name, a.show() if isinstance(a, NA) else tm.show(tm.freeze(a))[:80]))
                continue
            l = a.label
            k.ob(tm._key(l["units"]) == tm._key(w.canon_unit(p.ret[1])), "labels", what, "%s has units %s" % (name, tm.show(l["units"])[:80]))
            k.ob(l["comoving"] is True, "labels", what, "%s is labelled comoving=%s" % (name, tm.show(l["comoving"])))
            k.ob(tm._key(l["cosmo_factor"]) == tm._key(T("cosmo_factor", Ext("A"), sym("afile"))), "labels", what, "%s has scale-factor dependence %s" % (name, tm.show(l["cosmo_factor"])))


def raised2(k, w, p, what, allowed=()):
    if p.exc is None:
        return False
    if p.exc.name in allowed:
        return True
    und = [c for c, v in p.conds if isinstance(c, Term) and not simple2(c) and w.facts.get(c.key()) is None]
    k.ob(None if und else False, "raises", what, "%s raises %s%s" % (what, p.exc.name, p.exc.val.attrs.get("args", "") if isinstance(p.exc.val, Inst) else ""), "line %s" % getattr(p.exc.node, "lineno", "?"))
    return True


@prop("P13", "Spatial masks: value-flow analysis of SWIFTMask on model files with symbolic cells; every left-out cell is shown by the linear domain to hold no particle inside the periodic region, every selected one to touch it")
def p13(rep):
    k = Pack(rep, "swiftsimio/masks.py")
    big = rep.tier == "thorough"
    rep.assumptions = ["cells: Centres +- size/2 inside the box; MinPositions/MaxPositions of a type contain its particles; offsets are running sums of counts",
                       "region bounds are given in the frame and units of the cell positions (conversions are P01-P04)"]
    for dim in range(3):
        c = Cells(("PartType0",), 2 if big or dim == 0 else 1)
        p13_case(k, "snapshot with extents, %s range" % XYZ[dim], c, snap_model(c, (0,)), ("PartType0",), ("gas",), dim)
    c = Cells(("PartType0", "PartType1"), 1)
    p13_case(k, "two types, own extents", c, snap_model(c, (0, 1)), ("PartType0", "PartType1"), ("gas", "dark_matter"), 1)
    c = Cells(("PartType0",), 2, order=[1, 0])
    p13_case(k, "cells out of file order", c, snap_model(c, (0,)), ("PartType0",), ("gas",), 0)
    for types, order in (((0, 1), [1, 0]), ((0,), [1, 2, 0]), ((0, 1), [2, 0, 1])) + ((((0, 1, 4), [1, 0]), ((0, 1), [2, 1, 0])) if big else ()):
        g = ["PartType%d" % t for t in types]
        c = Cells(g, len(order), order=order)
        p13_order(k, "%d types, cells in file order %s" % (len(types), order), c, snap_model(c, types), g, [PYNAME[t] for t in types])
    for kw, pad, nm in (("", Fraction(6, 10), "default padding"), (", safe_padding=True", Fraction(6, 10), "safe_padding=True"), (", safe_padding=False", Fraction(1, 2), "safe_padding=False"),
                        (", safe_padding=PAD", tm.add(Fraction(1, 2), F_("padding")), "given padding")):
        c = Cells(("PartType0",), 2 if big and nm != "given padding" else 1, minmax=False, name="OffsetsInFile" if pad != Fraction(1, 2) else "Offsets")
        c.base.append(tm.ge0(F_("padding")))
        c.base.append(tm.ge0(tm.sub(Fraction(1, 4), F_("padding"))))
        p13_case(k, "snapshot without extents, " + nm, c, snap_model(c, (0,)), ("PartType0",), ("gas",), 2, kw, pad)
    c = Cells(("Subhalos",), 2, minmax=False)
    names = [py for py in soap_model(c).groups.values()]
    p13_case(k, "SOAP catalogue", c, soap_model(c), ("Subhalos",) * len(names[:2]), names[:2], 0, "", Fraction(1, 2), "Subhalos")
    p13_labels(k, "SOAP catalogue", c, soap_model(c))
    c = Cells(("PartType0", "PartType1"), 1)
    p13_labels(k, "snapshot with extents", c, snap_model(c, (0, 1)))
    c = Cells(("PartType0", "PartType1"), 1, minmax=False)
    p13_labels(k, "snapshot without extents", c, snap_model(c, (0, 1)))
    rep.floor = 100


# ------------------------------------------------------------------- P12
DATASET = '''
class Dataset:
    def __init__(self, ndim, chunks, length, remote):
        self.ndim = ndim
        self.chunks = chunks
        self.shape = (length,) + (SYM_COLS,) * (ndim - 1)
        self.dtype = DT
        if remote:
            self.request_slices = self._request
    def read_direct(self, dest, source_sel=None, dest_sel=None):
        note("read", dest, source_sel, dest_sel)
    def _request(self, slices, dest=None):
        note("request", dest, slices, None)
    def __getitem__(self, i):
        return Row()
class Row:
    dtype = DT
'''


def dataset(it, ndim, chunks, length, remote=False):
    m = it.client(DATASET, "<dataset>")
    m.env.vars["note"] = PyFunc(lambda i, a, k, n: i.event("note", n, what=a[0], dest=a[1], a=a[2], b=a[3]) and None, "note")
    m.env.vars["SYM_COLS"] = I("ncol")
    m.env.vars["DT"] = sym("dtype")
    return lambda: it.call(m.env.vars["Dataset"], [ndim, chunks, length, remote], {}, None)


def setup_ranges(n, disjoint=True):
    a = [I("a%d" % i) for i in range(n)]
    b = [I("b%d" % i) for i in range(n)]
    base = []
    for i in range(n):
        base += [geq(a[i], 0), geq(b[i], a[i]), geq(I("L"), b[i])]
        if i and disjoint:
            base.append(geq(a[i], b[i - 1]))
    return a, b, base, a + b + [I("L")]


def offsets(a, b):
    s, out = 0, []
    for x, y in zip(a, b):
        out.append(s)
        s = tm.add(s, tm.sub(y, x))
    return out, s


def check_segments(k, F, what, segs, a, b, rule="rows"):
    """segs: list of (src_lo, src_hi, dst_lo) meaning dst_lo + t holds file row src_lo + t.
    The result must hold, for every range i, file rows a_i..b_i at positions S_i.."""
    S, total = offsets(a, b)
    for i in range(len(a)):
        if F.entails(tm.eq0(tm.sub(b[i], a[i]))):
            continue
        G = F.clone()
        G.add(tm.gt0(tm.sub(b[i], a[i])))
        good = any(ent(G, ">=", a[i], lo) and ent(G, ">=", hi, b[i]) and ent(G, "==", tm.sub(d, lo), tm.sub(S[i], a[i])) for lo, hi, d in segs)
        k.ob(bool(good), rule, what, "the rows of range %d of %d are not delivered at their place" % (i + 1, len(a)), "segments %s" % (["[%s:%s] -> %s" % tuple(tm.show(x) for x in s) for s in segs],))
    q = I("q")
    for lo, hi, d in segs:
        for i in range(len(a)):
            G = F.clone()
            G.integer.add(q.key())
            for t in (geq(q, d), tm.gt0(tm.sub(tm.add(d, tm.sub(hi, lo)), q)), geq(q, S[i]), tm.gt0(tm.sub(tm.add(S[i], tm.sub(b[i], a[i])), q))):
                G.add(t)
            ok = G.unsat() or ent(G, "==", tm.sub(d, lo), tm.sub(S[i], a[i]))
            k.ob(bool(ok), rule, what, "rows of another place land where range %d of %d belongs" % (i + 1, len(a)), "segment [%s:%s] -> %s" % (tm.show(lo), tm.show(hi), tm.show(d)))
        k.ob(bool(F.entails(tm.eq0(tm.sub(hi, lo))) or (ent(F, ">=", d, 0) and ent(F, ">=", total, tm.add(d, tm.sub(hi, lo))))), rule, what, "rows are written outside the result", "segment [%s:%s] -> %s" % (tm.show(lo), tm.show(hi), tm.show(d)))


def sl(x):
    return isinstance(x, Term) and x.op == "slice"


def read_segments(k, p, what, ndim, col, dest=None):
    """the read_direct calls of one path"""
    segs = []
    for e in p.events:
        if e.kind != "note" or e.d["what"] != "read":
            continue
        src, dst, buf = e.d["a"], e.d["b"], e.d["dest"]
        parts = list(src) if isinstance(src, tuple) else [src]
        dparts = list(dst) if isinstance(dst, tuple) else [dst]
        if e.loops or not parts or not sl(parts[0]) or not sl(dparts[0]) or parts[0].args[2] not in (None, 1) or dparts[0].args[2] not in (None, 1):
            return None
        want = [col] if ndim > 1 else []
        whole = lambda x: sl(x) and tuple(x.args) == (None, None, None)
        got = parts[1:]
        k.ob(len(got) <= max(ndim - 1, 0) and (tm._key(tm.freeze(got)) == tm._key(tm.freeze(want)) or (whole(col) and all(whole(x) for x in got))), "columns", what, "the read selects columns %s of a %d-dimensional dataset, asked for %s" % (tm.show(tuple(got)), ndim, tm.show(tuple(want))))
        lo, hi = parts[0].args[0] or 0, parts[0].args[1]
        dl, dh = dparts[0].args[0] or 0, dparts[0].args[1]
        segs.append((lo, hi, dl, dh, buf))
    return segs


def byteorder(it):
    """calls of the byte-order fix are events"""
    it.fn_models[ACC + ":to_native_byteorder_inplace"] = lambda i, a, k, n: i.event("native", n, arr=a[0]) and None


def fixed_order(p, r):
    k = tm._key(tm.freeze(r))
    return any(e.kind == "native" and tm._key(tm.freeze(e.d["arr"])) == k for e in p.events)


def p12_unchunked(k, n, ndim, empty_shape=None):
    it = k.interp()
    f = k.fn(it, ACC, "read_ranges_from_file_unchunked")
    if f is None:
        return
    byteorder(it)
    a, b, base, ints = setup_ranges(n)
    facts = feasibility(it, base, ints)
    ds = dataset(it, ndim, None, I("L"))
    col = T("slice", None, None, None) if ndim == 1 else sym("columns")
    S, total = offsets(a, b)
    shape = (total,)
    what = "read_ranges_from_file_unchunked, %d ranges of a %d-dimensional dataset" % (n, ndim)
    r = NA([x for z in zip(a, b) for x in z], empty_shape or (n, 2), "int")
    for p in k.paths(it, what, lambda i: i.call(f, [ds(), r.copy(), shape, sym("otype"), col], {}, None)):
        if raised(k, p, what):
            continue
        F = facts(p.conds)
        ret = p.ret
        ok = isinstance(ret, Term) and ret.op == "alloc" and tm._key(tm.freeze(ret.args[2])) == tm._key(tm.freeze(shape)) and ret.args[3] == sym("otype")
        if n == 0 and isinstance(ret, NA):
            ok = ret.size == 0
        k.ob(ok or (None if isinstance(ret, Term) else False), "result", what, "the result is %s" % (tm.show(ret)[:100],))
        segs = read_segments(k, p, what, ndim, col)
        if segs is None:
            k.ob(None, "rows", what, "reads are not a sequence of slices")
            continue
        for lo, hi, dl, dh, buf in segs:
            k.ob(bool(ent(F, "==", tm.sub(dh, dl), tm.sub(hi, lo))), "rows", what, "source and destination of a read differ in length")
            k.ob(tm._key(tm.freeze(buf)) == tm._key(tm.freeze(ret)), "rows", what, "a read goes into an array that is not returned")
        check_segments(k, F, what, [s[:3] for s in segs], a, b)
        k.ob(fixed_order(p, ret), "byte-order", what, "the result is not brought to native byte order")
        k.rep.count("range_paths")


def p12_chunk_ranges(k, n):
    it = k.interp()
    f = k.fn(it, ACC, "get_chunk_ranges")
    if f is None:
        return
    a, b, base, ints = setup_ranges(n)
    c = I("chunk")
    facts = feasibility(it, base, ints + [c], [c], ints)
    what = "get_chunk_ranges, %d ranges" % n
    r = NA([x for z in zip(a, b) for x in z], (n, 2), "int")
    for p in k.paths(it, what, lambda i: i.call(f, [r.copy(), c, I("L")], {}, None)):
        if raised(k, p, what):
            continue
        F = facts(p.conds)
        l = p.ret
        if not isinstance(l, NA) or len(l.shape) != 2 or l.shape[1] != 2:
            k.ob(None, "chunks", what, "the result is %s" % tm.show(tm.freeze(l))[:80])
            continue
        v = l.vals()
        ch = [(v[2 * i], v[2 * i + 1]) for i in range(l.shape[0])]
        prev = None
        for lo, hi in ch:
            k.ob(bool(ent(F, ">=", lo, 0) and ent(F, ">=", I("L"), hi)), "chunks", what, "a chunk range [%s:%s] leaves the dataset" % (tm.show(lo), tm.show(hi)))
            if prev is not None:
                k.ob(bool(ent(F, ">=", lo, prev)), "chunks", what, "chunk ranges overlap: rows are read twice")
            prev = hi
        for i in range(n):
            if F.entails(tm.eq0(tm.sub(b[i], a[i]))):
                continue
            G = F.clone()
            G.add(tm.gt0(tm.sub(b[i], a[i])))
            k.ob(any(ent(G, ">=", a[i], lo) and ent(G, ">=", hi, b[i]) for lo, hi in ch), "chunks", what, "range %d of %d lies in no chunk range" % (i + 1, n), "chunk ranges %s" % [(tm.show(x), tm.show(y)) for x, y in ch])
        k.rep.count("range_paths")


def p12_extract(k, n, assign):
    """assign[i] = number of the chunk range holding range i"""
    it = k.interp()
    f = k.fn(it, ACC, "extract_ranges_from_chunks")
    if f is None:
        return
    it.fn_models[ACC + ":expand_ranges"] = lambda i, x, kk, nn: T("expand", tm.freeze(x[0].tolist()) if isinstance(x[0], NA) else tm.freeze(x[0]))
    a, b, base, ints = setup_ranges(n)
    m = max(assign) + 1
    lo = [I("lo%d" % j) for j in range(m)]
    hi = [I("hi%d" % j) for j in range(m)]
    for j in range(m):
        base += [geq(lo[j], 0), geq(hi[j], lo[j])]
        if j:
            base.append(geq(lo[j], tm.add(hi[j - 1], 1)))
    for i, j in enumerate(assign):
        base += [geq(a[i], lo[j]), geq(hi[j], b[i])]
    facts = feasibility(it, base, ints + lo + hi)
    what = "extract_ranges_from_chunks, ranges in chunks %s" % (list(assign),)
    r = NA([x for z in zip(a, b) for x in z], (n, 2), "int")
    c = NA([x for z in zip(lo, hi) for x in z], (m, 2), "int")
    buf = sym("chunk data")
    S, _ = offsets(lo, hi)
    for p in k.paths(it, what, lambda i: i.call(f, [buf, c.copy(), r.copy()], {}, None)):
        if raised(k, p, what):
            continue
        F = facts(p.conds)
        t = p.ret
        if not (isinstance(t, Term) and t.op == "idx" and t.args[0] == buf and isinstance(t.args[1], Term) and t.args[1].op == "expand"):
            k.ob(None, "extract", what, "the result is %s" % tm.show(t)[:100])
            continue
        l = it.iterate_list(t.args[1].args[0])
        rows = [it.iterate_list(x) for x in l] if l is not None else []
        if len(rows) != n or any(x is None or len(x) != 2 for x in rows):
            k.ob(False, "extract", what, "%d ranges become %d" % (n, len(rows)))
            continue
        for i, (x, y) in enumerate(rows):
            j = assign[i]
            G = F.clone()
            G.add(tm.gt0(tm.sub(b[i], a[i])))
            ok = ent(G, "==", tm.sub(y, x), tm.sub(b[i], a[i])) and ent(G, "==", x, tm.add(S[j], tm.sub(a[i], lo[j])))
            k.ob(bool(ok), "extract", what, "range %d of %d is taken from [%s:%s] of the chunk data" % (i + 1, n, tm.show(x), tm.show(y)), "expected to start at %s" % tm.show(tm.add(S[j], tm.sub(a[i], lo[j]))))
            if F.entails(tm.eq0(tm.sub(b[i], a[i]))) or not ok:
                continue
            G = F.clone()
            G.add(tm.eq0(tm.sub(b[i], a[i])))
            if not G.unsat():
                k.ob(bool(ent(G, "==", x, y)), "extract", what, "the empty range %d of %d yields rows" % (i + 1, n))
        k.rep.count("range_paths")


def p12_expand(k, n):
    it = k.interp()
    f = k.fn(it, ACC, "expand_ranges")
    if f is None:
        return
    a, b, base, ints = setup_ranges(n)
    facts = feasibility(it, base, ints)
    S, total = offsets(a, b)
    what = "expand_ranges, %d ranges" % n
    r = NA([x for z in zip(a, b) for x in z], (n, 2), "int")
    for p in k.paths(it, what, lambda i: i.call(f, [r.copy()], {}, None)):
        if raised(k, p, what):
            continue
        F = facts(p.conds)
        if isinstance(p.ret, NA):
            k.ob(p.ret.size == 0 and F.entails(tm.eq0(total)), "expand", what, "the result has %d elements" % p.ret.size)
            continue
        if not (isinstance(p.ret, Term) and p.ret.op == "alloc"):
            k.ob(None, "expand", what, "the result is %s" % tm.show(p.ret)[:80])
            continue
        k.ob(bool(ent(F, "==", tm.freeze(p.ret.args[2]) if not isinstance(p.ret.args[2], tuple) else p.ret.args[2][0], total)), "expand", what, "the result has %s elements" % tm.show(p.ret.args[2]))
        segs = []
        good = True
        for e in p.events:
            if e.kind != "store" or tm._key(tm.freeze(e.d["target"])) != tm._key(p.ret):
                continue
            i, v = e.d["index"], e.d["value"]
            if sl(i) and isinstance(v, Term) and v.op == "call" and v.args[0] == Ext("numpy.arange") and len(v.args) >= 3:
                segs.append((v.args[1], v.args[2], i.args[0] or 0))
                continue
            lps = [x for x in e.loops if x.kind == "range"]
            if len(lps) != 1 or len(e.loops) != 1 or lps[0].step != 1 or not isinstance(i, (Term, int)) or e.d["op"] != "=":
                good = False
                break
            j = lps[0].sym
            at = lambda t, z: tm.subst(tm.freeze(t), lambda x: z if x == j else None)
            if tm.sub(tm.sub(i, v), tm.sub(at(i, 0), at(v, 0))) != 0 or tm.sub(tm.sub(v, j), at(v, 0)) != 0:
                k.ob(False, "expand", what, "element %s is set to %s" % (tm.show(i), tm.show(v)))
                good = None
                break
            segs.append((at(v, lps[0].lo), at(v, lps[0].hi), at(i, lps[0].lo)))
        if good is None:
            continue
        if not good:
            k.ob(None, "expand", what, "stores are not one loop over each range")
            continue
        check_segments(k, F, what, segs, a, b, "expand")
        k.rep.count("range_paths")


def p12_chunked(k, n, ndim):
    """the reader itself, for any chunk ranges and extraction"""
    it = k.interp()
    f = k.fn(it, ACC, "read_ranges_from_file_chunked")
    if f is None or k.fn(it, ACC, "get_chunk_ranges") is None or k.fn(it, ACC, "extract_ranges_from_chunks") is None:
        return
    byteorder(it)
    lo = [I("lo%d" % j) for j in range(n)]
    hi = [I("hi%d" % j) for j in range(n)]
    base = []
    for j in range(n):
        base += [geq(lo[j], 0), geq(hi[j], lo[j])] + ([geq(lo[j], tm.add(hi[j - 1], 1))] if j else [])
    facts = feasibility(it, base, lo + hi + [I("L"), I("ncol")])
    def cr(i, x, kk, nn):
        env = i.bind(it.get_mod(ACC).env.vars["get_chunk_ranges"], list(x), kk, nn)
        i.event("chunks", nn, args=[env[z] for z in ("ranges", "chunk_size", "array_length")] if "ranges" in env and "chunk_size" in env and "array_length" in env else list(x))
        return NA([z for w in zip(lo, hi) for z in w], (n, 2), "int")
    it.fn_models[ACC + ":get_chunk_ranges"] = cr
    def ex(i, x, kk, nn):
        env = i.bind(it.get_mod(ACC).env.vars["extract_ranges_from_chunks"], list(x), kk, nn)
        v = [env[z] for z in ("array", "chunks", "ranges")] if "array" in env and "chunks" in env and "ranges" in env else list(x)
        return T("extract", *[tm.freeze(z.tolist()) if isinstance(z, NA) else tm.freeze(z) for z in v])
    it.fn_models[ACC + ":extract_ranges_from_chunks"] = ex
    ranges = NA([I("r0"), I("r1"), I("r2"), I("r3")], (2, 2), "int")
    ds = dataset(it, ndim, (I("chunk"),) + (I("cc"),) * (ndim - 1), I("L"))
    for shape, col in (((I("N"),), None), (I("N"), None)) if ndim == 1 else (((I("N"), I("ncol"), 3), None), ((I("N"), I("ncol"), 3, 2), None)) if ndim == 3 else (((I("N"), I("ncol")), T("slice", None, None, None)), ((I("N"),), sym("column")), (I("N"), sym("column"))):
        col = col or T("slice", None, None, None)
        S, total = offsets(lo, hi)
        what = "read_ranges_from_file_chunked, %d chunk ranges of a %d-dimensional dataset, output %s" % (n, ndim, tm.show(shape))
        for p in k.paths(it, what, lambda i: i.call(f, [ds(), ranges.copy(), shape, sym("otype"), col], {}, None)):
            if raised(k, p, what):
                continue
            F = facts(p.conds)
            for e in p.events:
                if e.kind == "chunks":
                    x = e.d["args"]
                    k.ob(isinstance(x[0], NA) and x[0].vals() == ranges.vals() and x[1] == I("chunk") and x[2] == I("L"), "chunks", what, "chunk ranges are computed from %s" % (tm.show(tm.freeze([z if not isinstance(z, NA) else z.tolist() for z in x]))[:100],))
            t = p.ret
            if not (isinstance(t, Term) and t.op == "extract"):
                k.ob(None, "extract", what, "the result is %s" % tm.show(tm.freeze(t))[:100])
                continue
            buf, ch, rg = t.args
            fz = lambda z: tm._key(tm.freeze(z))
            k.ob(fz(ch) == fz([[x, y] for x, y in zip(lo, hi)]) and fz(rg) == fz(ranges.tolist()), "extract", what, "the wanted ranges are extracted with chunks %s, ranges %s" % (tm.show(ch)[:60], tm.show(rg)[:60]))
            want = (total,) + shape[1:] if isinstance(shape, tuple) else (total,)
            if isinstance(buf, Term) and buf.op == "alloc":
                got = buf.args[2]
                got = tuple(got.args) if isinstance(got, Term) and got.op == "tuple" else got if isinstance(got, tuple) else (got,)
                k.ob(fz(got) == fz(want) and buf.args[3] == sym("otype"), "result", what, "the chunk buffer has shape %s, type %s" % (tm.show(got), tm.show(buf.args[3])))
            elif n:
                k.ob(None, "result", what, "the chunk buffer is %s" % tm.show(buf)[:80])
            segs = read_segments(k, p, what, ndim, col)
            if segs is None:
                k.ob(None, "rows", what, "reads are not a sequence of slices")
                continue
            for s in segs:
                k.ob(bool(ent(F, "==", tm.sub(s[3], s[2]), tm.sub(s[1], s[0]))), "rows", what, "source and destination of a read differ in length")
                k.ob(fz(s[4]) == fz(buf), "rows", what, "a read goes into an array that is not used")
            check_segments(k, F, what, [s[:3] for s in segs], lo, hi)
            k.ob(fixed_order(p, buf) or not n, "byte-order", what, "compiled code extracts from an array that is not brought to native byte order")
            k.rep.count("range_paths")


def ordered_models(it, buf):
    """numpy.split / numpy.concatenate on the opaque array of delivered rows"""
    def isbuf(x):
        return isinstance(x, Term) and (x == buf or x.op == "alloc")
    old_split, old_cat = it.models["numpy.split"], it.models["numpy.concatenate"]
    def split(i, a, k, n):
        if isbuf(a[0]):
            cuts = i.tonp(a[1])
            if cuts is None:
                return NotImplemented
            out, lo = [], 0
            for c in cuts.vals() + [None]:
                out.append(T("seg", lo, c))
                lo = c
            return out
        return old_split(i, a, k, n)
    def cat(i, a, k, n):
        l = i.iterate_list(a[0])
        if l and all(isinstance(x, Term) and x.op == "seg" for x in l):
            return T("concat", *l)
        return old_cat(i, a, k, n)
    it.models["numpy.split"], it.models["numpy.concatenate"] = split, cat


def p12_hdfstream(k, n, ndim, shape=None):
    it = k.interp()
    f = k.fn(it, ACC, "read_ranges_from_hdfstream")
    if f is None:
        return
    byteorder(it)
    a, b, base, ints = setup_ranges(n, disjoint=False)
    buf = sym("delivered rows")
    ordered_models(it, buf)
    pre = []
    facts = feasibility(it, base, ints)
    ds = dataset(it, ndim, None, I("L"), remote=True)
    col = T("slice", None, None, None) if ndim == 1 else sym("columns")
    _, total = offsets(a, b)
    what = "read_ranges_from_hdfstream, %d ranges of a %d-dimensional dataset" % (n, ndim)
    r = NA([x for z in zip(a, b) for x in z], shape or (n, 2), "int")
    def thunk(i):
        # the ranges do not overlap, in whatever order they come
        for x in range(n):
            for y in range(x):
                if not i.truth(geq(a[x], b[y])) and not i.truth(geq(a[y], b[x])):
                    raise ip._Stop()
        return i.call(f, [ds(), r.copy(), (total,), sym("otype"), col], {}, None)
    for p in k.paths(it, what, thunk):
        if raised(k, p, what):
            continue
        F = facts(p.conds)
        req = [e for e in p.events if e.kind == "note" and e.d["what"] == "request"]
        t = p.ret
        if len(req) > 1:
            k.ob(None, "rows", what, "several requests")
            continue
        if not req:
            k.ob(bool(F.entails(tm.eq0(total))), "rows", what, "no rows are requested though the selection is not empty")
            k.ob(fixed_order(p, t), "byte-order", what, "the result is not brought to native byte order")
            continue
        al = next((x for x in tm.walk(tm.freeze(t)) if isinstance(x, Term) and x.op == "alloc"), req[0].d["dest"])
        k.ob(isinstance(al, Term) and al.op == "alloc" and al.args[3] == sym("otype"), "result", what, "the rows are delivered into %s" % tm.show(tm.freeze(al))[:80])
        k.ob(tm._key(tm.freeze(al)) == tm._key(tm.freeze(req[0].d["dest"])) or not (isinstance(t, Term) and t.op == "alloc"), "rows", what, "the request fills an array that is not returned")
        sls = it.iterate_list(req[0].d["a"])
        slices = []
        D = 0
        prev = None
        for s in sls:
            parts = list(s) if isinstance(s, tuple) else [s]
            if not sl(parts[0]):
                slices = None
                break
            k.ob(tm._key(tm.freeze(parts[1:])) == tm._key(tm.freeze([col] if ndim > 1 else [])), "columns", what, "the request selects columns %s" % tm.show(tuple(parts[1:])))
            lo, hi = parts[0].args[0] or 0, parts[0].args[1]
            k.ob(bool(ent(F, ">", hi, lo)), "request", what, "an empty slice is requested")
            if prev is not None:
                k.ob(bool(ent(F, ">=", lo, prev)), "request", what, "slices are requested out of order")
            prev = hi
            slices.append((lo, hi, D))
            D = tm.add(D, tm.sub(hi, lo))
        if slices is None:
            k.ob(None, "rows", what, "the request is not a list of slices")
            continue
        if isinstance(t, Term) and t.op == "concat":
            pieces = [tuple(x.args) for x in t.args]
        elif isinstance(t, Term) and t.op == "alloc":
            pieces = [(0, None)]
        else:
            k.ob(None, "rows", what, "the result is %s" % tm.show(tm.freeze(t))[:80])
            continue
        # position in the result -> delivered row -> file row
        out, pos = [], 0
        for lo, hi in pieces:
            hi = total if hi is None else hi
            for s0, s1, d in slices:
                # part of the piece inside this slice
                if ent(F, ">=", d, hi) or ent(F, ">=", lo, tm.add(d, tm.sub(s1, s0))):
                    continue
                x = lo if ent(F, ">=", lo, d) else d
                e0 = tm.add(d, tm.sub(s1, s0))
                y = hi if ent(F, ">=", e0, hi) else e0
                out.append((tm.add(s0, tm.sub(x, d)), tm.add(s0, tm.sub(y, d)), tm.add(pos, tm.sub(x, lo))))
            pos = tm.add(pos, tm.sub(hi, lo))
        check_segments(k, F, what, out, a, b)
        k.ob(bool(ent(F, "==", D, total)), "request", what, "the request delivers %s rows for %s wanted" % (tm.show(D), tm.show(total)))
        k.ob(fixed_order(p, t), "byte-order", what, "the result is not brought to native byte order")
        k.rep.count("range_paths")


def p12_ranges_from_array(k, n):
    it = k.interp()
    f = k.fn(it, ACC, "ranges_from_array")
    if f is None:
        return
    x = [I("x%d" % i) for i in range(n)]
    base = [geq(x[0], 0)] if n else []
    base += [geq(x[i + 1], x[i]) for i in range(n - 1)]
    facts = feasibility(it, base, x)
    what = "ranges_from_array, %d indices" % n
    for p in k.paths(it, what, lambda i: i.call(f, [mk(x, dtype="int")], {}, None)):
        if raised(k, p, what):
            continue
        F = facts(p.conds)
        l = p.ret
        if not isinstance(l, NA) or len(l.shape) != 2 or l.shape[1] != 2:
            k.ob(None if isinstance(l, Term) else False, "ranges", what, "the result is %s" % (tm.show(tm.freeze(l))[:80] if not isinstance(l, NA) else "of shape %s" % (l.shape,)))
            continue
        v = l.vals()
        at = 0
        good = True
        for i in range(l.shape[0]):
            s, e = v[2 * i], v[2 * i + 1]
            m = next((m for m in range(0, n - at + 1) if ent(F, "==", tm.sub(e, s), m)), None)
            if m is None or not all(ent(F, "==", x[at + t], tm.add(s, t)) for t in range(m)):
                good = False
                break
            at += m
        k.ob(good and at == n, "ranges", what, "the indices become %s" % (l.show(),), [(tm.show(c), v) for c, v in p.conds][:6])
        k.rep.count("range_paths")


def p12_dispatch(k):
    it = k.interp()
    f = k.fn(it, ACC, "read_ranges_from_file")
    if f is None:
        return
    names = ("read_ranges_from_file_chunked", "read_ranges_from_file_unchunked", "read_ranges_from_hdfstream")
    for nme in names:
        g = k.fn(it, ACC, nme)
        if g is None:
            return
        def mod(i, a, kk, n, g=g, nme=nme):
            env = i.bind(g, list(a), kk, n)
            return T("read", nme, *[env[x.arg] if not isinstance(env[x.arg], NA) else tm.freeze(env[x.arg].tolist()) for x in g.node.args.args])
        it.fn_models[ACC + ":" + nme] = mod
    for n in (0, 1, 2):
        a, b, base, ints = setup_ranges(n)
        feasibility(it, base, ints)
        for chunks in (None, (I("chunk"),)):
            for remote in (False, True):
                for shape0 in ((n, 2), (0,)) if n == 0 else ((n, 2),):
                    ds = dataset(it, 1, chunks, I("L"), remote)
                    r = NA([x for z in zip(a, b) for x in z], shape0, "int")
                    what = "read_ranges_from_file, %d ranges, %s%s" % (n, "chunked" if chunks else "contiguous", ", remote" if remote else "")
                    hold = {}
                    def thunk(i):
                        hold["h"] = ds()
                        return i.call(f, [hold["h"], r.copy(), sym("shape"), sym("otype"), sym("cols")], {}, None)
                    for p in k.paths(it, what, thunk):
                        if raised(k, p, what):
                            continue
                        t = p.ret
                        if not (isinstance(t, Term) and t.op == "read"):
                            k.ob(None, "dispatch", what, "the result is %s" % tm.show(tm.freeze(t))[:80])
                            continue
                        k.ob((t.args[0] == names[2]) == remote, "dispatch", what, "reads through %s" % t.args[0])
                        k.ob(chunks is not None or t.args[0] != names[0], "dispatch", what, "a contiguous dataset is read through %s" % t.args[0])
                        k.ob(tm._key(t.args[2]) == tm._key(tm.freeze(r.tolist())) and t.args[3:] == (sym("shape"), sym("otype"), sym("cols")), "dispatch", what, "arguments are not passed through: %s" % tm.show(t)[:120])
                        k.rep.count("range_paths")


ORDER = '''
class DT:
    def __init__(self, native, names):
        self.isnative, self.names = native, names
    def newbyteorder(self, to):
        return ("relabelled", self, to)
class Arr:
    def __init__(self, label, native, fields):
        self.label = label
        self.f = {}
        for n, nat in fields:
            self.f[n] = Arr(label + "." + n, nat, [])
        self.dtype = DT(native, tuple([n for n, _ in fields]) if len(fields) > 0 else None)
        self.swapped = 0
    def byteswap(self, inplace=False):
        if inplace:
            self.swapped += 1
        return self
    def __getitem__(self, n):
        return self.f[n]
'''


def p12_byteorder(k):
    it = k.interp()
    f = k.fn(it, ACC, "to_native_byteorder_inplace")
    if f is None:
        return
    m = it.client(ORDER, "<order>")
    cases = [("plain native", True, []), ("plain foreign", False, [])]
    for x in (True, False):
        for y in (True, False):
            cases.append(("record %s %s" % (x, y), x and y, [("one", x), ("two", y)]))
    for what, nat, fields in cases:
        what = "to_native_byteorder_inplace, " + what
        hold = {}
        def thunk(i):
            hold["a"] = i.call(m.env.vars["Arr"], ["arr", nat, list(fields)], {}, None)
            i.call(f, [hold["a"]], {}, None)
            a = hold["a"]
            return a.attrs["swapped"], a.attrs["dtype"], {n: x.attrs["swapped"] for n, x in a.attrs["f"].items()}
        for p in k.paths(it, what, thunk):
            if raised(k, p, what):
                continue
            sw, dt, fs = p.ret
            k.ob(sw == (0 if nat or fields else 1), "byte-order", what, "the array is swapped %s times" % sw)
            for (n, fn) in fields:
                k.ob(fs[n] == (0 if fn else 1), "byte-order", what, "field %s is swapped %s times" % (n, fs[n]))
            if not nat:
                k.ob(isinstance(dt, tuple) and dt[0] == "relabelled" and dt[2] in ("native", "=", "N", "n"), "byte-order", what, "the type is not relabelled native")


@prop("P12", "Range readers: trace-partitioned value-flow analysis over row ranges with symbolic bounds; every read, merge, expansion and reordering is checked with the linear domain to deliver file row a_i+j at its place")
def p12(rep):
    rep.assumptions = ["h5py read_direct copies source_sel into dest_sel; numpy operations on small arrays as modelled in sa/narr.py",
                       "range lists of up to 3 ranges (loops carry only running sums, so longer lists repeat the same step)"]
    big = rep.tier == "thorough"
    k = Pack(rep, "swiftsimio/accelerated.py")
    for n in range(0, 4):
        for ndim in (1, 2, 3):
            p12_unchunked(k, n, ndim)
            p12_chunked(k, n, ndim)
    p12_unchunked(k, 0, 1, (0,))
    for n in range(1, 4):
        p12_chunk_ranges(k, n)
    for n in range(0, 4):
        p12_expand(k, n)
    for assign in ((0,), (0, 0), (0, 1), (0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 2)) + (((0, 0, 1, 1), (0, 1, 1, 2), (0, 0, 0, 1), (0, 1, 2, 2)) if big else ()):
        p12_extract(k, len(assign), assign)
    for n in range(0, 5 if not big else 6):
        p12_ranges_from_array(k, n)
    p12_dispatch(k)
    p12_byteorder(k)
    k.where = "swiftsimio/_ordered_slices.py"
    for n in range(0, 4):
        for ndim in (1, 2) if n < 3 else (1,):
            p12_hdfstream(k, n, ndim)
    rep.floor = 300


# ------------------------------------------------------------------- P14 / P15
class FixedCells(Cells):
    """three cells at known places of a box of length 4 (its last quarter is empty), unknown numbers of particles in each"""

    def __init__(self, groups, order=None):
        super().__init__(groups, 3, True, order)
        self.L = [Fraction(4), Fraction(1), Fraction(1)]
        self.w = [Fraction(1)] * 3
        self.c = [[Fraction(2 * i + 1, 2), Fraction(1, 2), Fraction(1, 2)] for i in range(3)]
        self.lo = {g: [[Fraction(i) + Fraction(1, 10), Fraction(1, 10), Fraction(1, 10)] for i in range(3)] for g in groups}
        self.hi = {g: [[Fraction(i) + Fraction(9, 10), Fraction(9, 10), Fraction(9, 10)] for i in range(3)] for g in groups}
        self.positive = []
        keep = {x.key() for x in self.ints}
        self.base = [b for b in self.base if isinstance(b, Term) and {x.key() for x in tm.walk(b) if isinstance(x, Term) and x.op == "sym"} <= keep] + [tm.gt0(x) for x in self.total.values()]


REGIONS = {"A": (Fraction(3, 10), Fraction(7, 10), (0,)), "B": (Fraction(13, 10), Fraction(17, 10), (1,)), "C": (Fraction(23, 10), Fraction(27, 10), (2,)),
           "AB": (Fraction(5, 10), Fraction(15, 10), (0, 1)), "CA": (Fraction(25, 10), Fraction(5, 10), (2, 0)), "none": (Fraction(33, 10), Fraction(35, 10), ()),
           "all": None}


PROPS = {"gas": "Densities", "dark_matter": "Masses", "bound_subhalo": "LxR200"}
OPS_SRC = {"spatial": "m.constrain_spatial(region(%(arg)r))", "union": "m.constrain_spatial(region(%(arg)r), union=True)", "intersect": "m.constrain_spatial(region(%(arg)r), intersect=True)",
           "nounion": "m.constrain_spatial(region(%(arg)r), union=False)",
           "prop": "m.constrain_property(%(arg)r, attribute(%(arg)r), lower(%(n)d), upper(%(n)d))", "mask": "m.constrain_mask(%(arg)r, attribute(%(arg)r), lower(%(n)d), upper(%(n)d))",
           "indices": "m.constrain_indices(%(arg)r)", "index": "m.constrain_index(%(arg)r)", "bool": "m.convert_masks_to_bool()", "ranges": "m.convert_masks_to_ranges()"}


def ops_program(ops):
    src = ["from swiftsimio import mask", "def run():", "    m = mask('snap.hdf5')", "    log = []"]
    for n, (op, arg) in enumerate(ops):
        src += ["    try:", "        " + OPS_SRC[op] % {"arg": arg, "n": n}, "        log.append('ok')", "    except RuntimeError:", "        log.append('refused')"]
    src += ["    return log, dict([(g, getattr(m, g)) for g in groups()]), dict([(g, getattr(m, g + '_size')) for g in groups()]), m.constrained, m.range_mask, dict([(g, getattr(m.metadata, count_of(g))) for g in groups()])"]
    return "\n".join(src) + "\n"


def show_ops(ops):
    return ", ".join(op if arg is None else "%s %s" % (op, arg) for op, arg in ops)


class Spec:
    """what a sequence of mask operations selects"""

    def __init__(self, cells, groups, h5groups, homogeneous):
        self.cells, self.groups, self.h5, self.homogeneous = cells, groups, dict(zip(groups, h5groups)), homogeneous
        self.pred = {g: self.rows(g, range(cells.nc)) for g in groups}
        self.constrained, self.log, self.bool = None, [], False
        self.ranges = {g: list(range(cells.nc)) for g in groups}

    def rows(self, g, which):
        c = self.cells
        src = self.h5[g]
        return tm.lor(*[between(c.o[src][i], tm.add(c.o[src][i], c.n[src][i])) for i in which]) if which else False

    def apply(self, n, op, arg, field):
        if op in ("bool", "ranges"):
            self.bool = op == "bool"
            self.log.append("ok")
            return
        if op in ("prop", "mask"):
            x = field(arg)
            p = tm.land(tm.gt0(tm.sub(x, F_("lower%d" % n))), tm.ge0(tm.sub(F_("upper%d" % n), x)))
            for g in self.groups:
                if g == arg or self.homogeneous:
                    self.pred[g] = tm.land(self.pred[g], p)
                    self.ranges[g] = None
            self.constrained, self.bool = "constrain_property", True
        elif op in ("spatial", "union", "intersect", "nounion"):
            un = op in ("union", "intersect")
            which = REGIONS[arg][2] if REGIONS[arg] else range(self.cells.nc)
            if self.homogeneous:
                # catalogue cells carry no extents: the region touches the cells it overlaps
                which = which
            for g in self.groups:
                r = self.rows(g, which)
                if self.constrained is None:
                    new = r
                elif self.constrained == "constrain_spatial" and un:
                    new = tm.lor(self.pred[g], r)
                else:
                    self.log.append("refused")
                    return
                self.pred[g] = new
                self.ranges[g] = [i for i in range(self.cells.nc) if i in which or un and i in self.ranges.get(g, ())]
            self.constrained = "constrain_spatial"
        else:
            if self.constrained is not None or not self.homogeneous:
                self.log.append("refused")
                return
            at = sorted(arg) if op == "indices" else [arg]
            for g in self.groups:
                self.pred[g] = tm.lor(*[tm.eq0(tm.sub(POS, i)) for i in at]) if at else False
                self.ranges[g] = None
            self.constrained = "constrain_indices" if op == "indices" else "constrain_index"
        self.log.append("ok")


def predicate_of(k, it, x):
    """the rows a stored mask selects, None if it is something else"""
    if isinstance(x, GA) and x.dtype == "bool" and x.sel is None:
        return x.elem
    if isinstance(x, Ranges):
        return x.pred
    r = rows_of(it, x)
    if r is None:
        return None
    return tm.lor(*[between(a, b) for a, b in r]) if r else False


def same_pred(F, p, q):
    """None when p and q agree at every position, else a description"""
    for a, b, nm in ((p, q, "rows are selected that should not be"), (q, p, "rows are left out that should be selected")):
        G = F.clone()
        for t in (a, tm.lnot(b)):
            if t is False:
                break
            if t is not True:
                G.add(t)
        else:
            if not G.unsat():
                return nm
    return None


def mask_world(k, ops, cells, model, groups, h5groups):
    base = list(cells.base) + [tm.ge0(POS)]
    w = MaskWorld(k, model, base, cells.ints + [POS], (), GInterp)
    it = w.it

    def regions(i, a, kk, n):
        r = REGIONS[a[0]]
        return ip.AList([region_row(w, 0, r[0], r[1]) if r and d == 0 else None for d in range(3)])

    def rfa(i, a, kk, n):
        x = a[0] if a else list(kk.values())[0]
        if isinstance(x, Idx):
            return Ranges(x.pred, x.total)
        return NotImplemented
    it.fn_models[ACC + ":ranges_from_array"] = rfa
    mod = w.program(ops_program(ops))
    v = mod.env.vars
    v["region"] = PyFunc(regions, "region")
    v["groups"] = PyFunc(lambda i, a, kk, n: ip.AList(groups), "groups")
    v["count_of"] = PyFunc(lambda i, a, kk, n: "n_" + ("subhalos" if h5groups[0] == "Subhalos" else a[0]), "count_of")
    fields = {g: next(f for f in model.fields[g] if f.path.endswith("/" + PROPS.get(g, "none")) or g not in PROPS) for g in groups}
    v["attribute"] = PyFunc(lambda i, a, kk, n: fields[a[0]].attribute, "attribute")
    v["lower"] = PyFunc(lambda i, a, kk, n: F_("lower%d" % a[0]), "lower")
    v["upper"] = PyFunc(lambda i, a, kk, n: F_("upper%d" % a[0]), "upper")
    return w, mod, fields


def mask_case(k, ops, cells, model, groups, h5groups, homogeneous=False):
    if len(k.rep.findings) >= 8:
        return
    what = ("catalogue: " if homogeneous else "") + show_ops(ops)
    w, mod, fields = mask_world(k, ops, cells, model, groups, h5groups)
    try:
        ps = w.run(mod, "run", (), 400)
    except AnalysisError as ex:
        k.ob(None, "analysis", what, str(ex)[:200])
        return
    k.rep.count("trace_partitions", len(ps))
    k.rep.count("sequences")
    spec = Spec(cells, groups, h5groups, homogeneous)
    for n, (op, arg) in enumerate(ops):
        spec.apply(n, op, arg, lambda g: T("field", fields[g].path))
    for p in ps:
        if raised2(k, w, p, what):
            continue
        und = [c for c, v in p.conds if isinstance(c, Term) and not simple2(c) and w.facts.get(c.key()) is None]
        bad = None if und else False
        F = w.linear(p.conds)
        log, sel, sizes, constrained, rng, totals = p.ret
        log = [x for x in log]
        k.ob(log == spec.log or bad, "order of constraints", what, "the operations are %s, expected %s" % (log, spec.log))
        k.ob((rng is not spec.bool) or bad, "form", what, "after %s the selection is stored as %s" % (what, "ranges" if rng else "booleans"))
        k.ob(constrained == spec.constrained or bad, "order of constraints", what, "the mask is marked as %s, expected %s" % (constrained, spec.constrained))
        for g in groups:
            x = sel.get(g)
            pr = predicate_of(k, w.it, x)
            if pr is None:
                k.ob(None, "selection", what, "the selection of %s is %s" % (g, x.show() if hasattr(x, "show") else x))
                continue
            d = same_pred(F, pr, spec.pred[g])
            k.ob(d is None or bad, "selection", what, "%s of %s" % (d, g), "selected: %s; expected: %s" % (tm.show(pr)[:400], tm.show(spec.pred[g])[:400]))
            yield_size(k, w, F, what, g, x, pr, sizes.get(g), rng, totals.get(g), bad)
        labels(k, w, what, p, fields)


def yield_size(k, w, F, what, g, x, pr, size, rng, total, bad):
    """the stored form agrees with the flag; the stored size is the number of rows the ranges select"""
    if rng is True:
        ok = isinstance(x, Ranges) or isinstance(x, NA) and len(x.shape) == 2 and x.shape[1] == 2
        k.ob(ok or bad, "form", what, "the range selection of %s is stored as an array of shape %s" % (g, x.shape if isinstance(x, NA) else x.show()))
        if isinstance(x, NA):
            r = rows_of(w.it, x) or []
            for (s0, e0), (s1, e1) in zip(r, r[1:]):
                k.ob(bool(ent(F, ">=", s1, e0)) or bad, "form", what, "the row ranges of %s are not in file order" % g)
            n = 0
            for s0, e0 in r:
                n = tm.add(n, tm.sub(e0, s0))
            size = size.vals()[0] if isinstance(size, NA) and size.size == 1 else size
            k.ob(isinstance(size, (int, Term)) and (tm._key(size) == tm._key(n) or bool(ent(F, "==", size, n))) or bad, "size", what, "the number of selected rows of %s is %s, the ranges hold %s" % (g, tm.show(size), tm.show(n)))
        else:
            ok = isinstance(size, Term) and size.op == "count" and same_pred(F, size.args[0], pr) is None or pr is False and size == 0
            k.ob(ok or bad, "size", what, "the number of selected rows of %s is %s" % (g, tm.show(size)))
    elif rng is False:
        ok = isinstance(x, GA) and (tm._key(x.size) == tm._key(total) or bool(ent(F, "==", x.size, total)))
        k.ob(ok or bad, "form", what, "the boolean selection of %s is %s for %s rows" % (g, x.show() if hasattr(x, "show") else x, tm.show(total)))


def labels(k, w, what, p, fields):
    by = {T("field", f.path).key(): f for f in fields.values()}
    for e in p.events:
        if e.kind != "gcmp":
            continue
        for s in (e.d["left"], e.d["right"]):
            if isinstance(s, GA) and isinstance(s.elem, Term) and s.elem.key() in by:
                f = by[s.elem.key()]
                if s.label is None:
                    k.ob(None, "labels", what, "%s is compared without labels" % f.path)
                    continue
                l = s.label
                k.ob(l["comoving"] is (not f.phys), "labels", what, "%s is compared as comoving=%s" % (f.path, tm.show(l["comoving"])))
                k.ob(tm._key(l["cosmo_factor"]) == tm._key(T("cosmo_factor", tm.power(Ext("A"), f.aexp), sym("afile"))), "labels", what, "%s is compared with scale-factor dependence %s" % (f.path, tm.show(l["cosmo_factor"])))
                k.rep.count("compared_fields")


def soap_cells(order=None):
    c = FixedCells(("Subhalos",), order)
    c.minmax = False
    return c


def soap_file(cells):
    m = soap_model(cells)
    m.header["NumSubhalos_ThisFile"] = (cells.total["Subhalos"],)
    return m


SEQ = [
    [("ranges", None)], [("bool", None)], [("spatial", "A"), ("ranges", None)], [("spatial", "A")], [("spatial", "none")], [("spatial", "CA")], [("spatial", "all")],
    [("spatial", "A"), ("union", "C")], [("spatial", "none"), ("union", "B")], [("spatial", "A"), ("spatial", "B")], [("spatial", "A"), ("nounion", "B")], [("union", "A")],
    [("spatial", "A"), ("intersect", "B")], [("spatial", "A"), ("union", "B"), ("union", "C")], [("spatial", "AB"), ("spatial", "C"), ("union", "C")],
    [("prop", "gas")], [("prop", "dark_matter"), ("prop", "gas")], [("prop", "gas"), ("prop", "gas")], [("mask", "gas")], [("mask", "gas"), ("ranges", None)],
    [("spatial", "AB"), ("prop", "gas")], [("spatial", "none"), ("prop", "gas")], [("prop", "gas"), ("spatial", "A")], [("prop", "gas"), ("union", "A")], [("spatial", "A"), ("prop", "gas"), ("union", "B")],
    [("spatial", "A"), ("prop", "gas"), ("ranges", None), ("prop", "dark_matter")], [("spatial", "AB"), ("prop", "gas"), ("ranges", None)],
    [("spatial", "A"), ("bool", None), ("union", "B")], [("bool", None), ("spatial", "A")], [("bool", None), ("spatial", "A"), ("union", "C")], [("spatial", "A"), ("bool", None), ("ranges", None), ("union", "B")],
    [("bool", None), ("ranges", None), ("spatial", "A")], [("spatial", "A"), ("bool", None), ("ranges", None)], [("spatial", "none"), ("bool", None), ("ranges", None)], [("spatial", "none"), ("bool", None), ("union", "A")],
    [("bool", None), ("bool", None), ("spatial", "AB")], [("spatial", "AB"), ("bool", None), ("prop", "gas"), ("ranges", None), ("bool", None)],
    [("indices", [0, 1])], [("index", 0)], [("indices", [0]), ("spatial", "A")], [("spatial", "A"), ("indices", [0])], [("index", 0), ("prop", "gas")],
]
SOAP_SEQ = [
    [("indices", [2, 1])], [("index", 2), ("ranges", None)], [("bool", None)],
    [("indices", [1, 2, 5])], [("indices", [5, 1, 2])], [("index", 3)], [("indices", [4])], [("indices", [2, 1]), ("bool", None)], [("bool", None), ("indices", [1, 4])], [("bool", None), ("indices", [4, 1])],
    [("bool", None), ("index", 2)], [("bool", None), ("indices", [3, 1]), ("ranges", None)],
    [("index", 2), ("indices", [1])], [("indices", [1]), ("index", 2)], [("spatial", "A"), ("indices", [0])], [("indices", [0, 2]), ("spatial", "A")], [("indices", [0]), ("union", "A")],
    [("prop", "bound_subhalo"), ("index", 0)], [("indices", [0, 3]), ("prop", "bound_subhalo")], [("spatial", "AB"), ("prop", "bound_subhalo")], [("spatial", "A"), ("union", "C"), ("prop", "bound_subhalo"), ("ranges", None)],
    [("index", 1), ("index", 1)], [("spatial", "A"), ("bool", None), ("union", "B")],
]


def sequences(k, big, snap=SEQ, soap=SOAP_SEQ):
    if big:
        import itertools
        snap = list(snap)
        alphabet = [("spatial", "A"), ("union", "C"), ("prop", "gas"), ("bool", None), ("ranges", None), ("prop", "dark_matter")]
        have = {str(s) for s in snap}
        for n in (2, 3):
            for s in itertools.product(alphabet, repeat=n):
                if str(list(s)) not in have and any(z[0] == "prop" or z[0] == "bool" for z in s):
                    snap.append(list(s))
    for ops in snap:
        types = (0, 1)
        g = ["PartType%d" % t for t in types]
        c = FixedCells(g)
        mask_case(k, ops, c, snap_model(c, types, header=counts_header(c, types)), [PYNAME[t] for t in types], g)
    for ops in soap:
        c = soap_cells()
        c.base += [geq(c.total["Subhalos"], 8)]
        m = soap_file(c)
        names = ["bound_subhalo", "spherical_overdensity_200_crit"]
        mask_case(k, ops, c, m, names, ("Subhalos",) * 2, True)


@prop("P14", "Mask operations: every sequence of constraints, unions and conversions is interpreted on a file with symbolic particle numbers; the predicate each stored mask selects is compared with the specified one")
def p14(rep):
    k = Pack(rep, "swiftsimio/masks.py")
    rep.assumptions = ["region to cell selection is P13; ranges_from_array is P12 (here: the ranges of an index list cover exactly its rows)"]
    sequences(k, rep.tier == "thorough")
    rep.floor = 400


COUNTS = {
    "cells of a region": "m.constrain_spatial(region('AB'))",
    "no cell": "m.constrain_spatial(region('none'))",
    "region across the boundary": "m.constrain_spatial(region('CA'))",
    "boolean region": "m.constrain_spatial(region('A'))\n    m.convert_masks_to_bool()",
    "boolean, property": "m.constrain_property('gas', attribute('gas'), lower(0), upper(0))",
    "ranges of a property": "m.constrain_property('gas', attribute('gas'), lower(0), upper(0))\n    m.convert_masks_to_ranges()",
}


def counts_case(k, nm, runs=0, types=(0,), order=None):
    """selected rows per cell and their offsets in the masked data"""
    what = "rows per cell, " + nm + (" (%d runs)" % runs if runs else "")
    g = ["PartType%d" % t for t in types]
    py = [PYNAME[t] for t in types]
    cells = FixedCells(g)
    model = snap_model(cells, types, header=counts_header(cells, types))
    w, mod, fields = mask_world(k, [], cells, model, py, g)
    a = [I("r%d" % i) for i in range(runs)]
    b = [I("s%d" % i) for i in range(runs)]
    base = []
    for i in range(runs):
        base += [geq(a[i], 0), tm.gt0(tm.sub(b[i], a[i])), geq(cells.total[g[0]], b[i])] + ([tm.gt0(tm.sub(a[i], b[i - 1]))] if i else [])
    cells.base += base
    w, mod, fields = mask_world(k, [], FixedLike(cells, a + b), model, py, g)
    if runs:
        prev = w.it.fn_models[ACC + ":ranges_from_array"]

        def rfa(i, x, kk, n):
            if x and isinstance(x[0], Idx):
                return NA([z for p in zip(a, b) for z in p], (runs, 2), "int")
            return NotImplemented
        w.it.fn_models[ACC + ":ranges_from_array"] = rfa
    src = "from swiftsimio import mask\ndef run():\n    m = mask('snap.hdf5')\n    %s\n    return m._get_masked_counts_offsets(), dict([(g, getattr(m, g)) for g in groups()])\n" % COUNTS[nm]
    m2 = w.program(src)
    for n in ("region", "groups", "attribute", "lower", "upper"):
        m2.env.vars[n] = mod.env.vars[n]
    try:
        ps = w.run(m2, "run", (), 4000)
    except AnalysisError as ex:
        k.ob(None, "analysis", what, str(ex)[:200])
        return
    k.rep.count("trace_partitions", len(ps))
    for p in ps:
        if p.exc is not None and p.exc.name == "AttributeError":
            k.ob(None, "analysis", what, "no such method")
            continue
        if raised2(k, w, p, what):
            continue
        und = [c for c, v in p.conds if isinstance(c, Term) and not simple2(c) and w.facts.get(c.key()) is None]
        bad = None if und else False
        F = w.linear(p.conds)
        (counts, offs), sel = p.ret
        for g0, py0 in zip(g, py):
            key = py0
            cn, of = counts.get(key), offs.get(key)
            if not isinstance(cn, NA) or not isinstance(of, NA) or cn.size != cells.nc or of.size != cells.nc:
                k.ob(None if und or cn is None else False if isinstance(cn, NA) and isinstance(of, NA) else None, "rows per cell", what, "counts of %s are %s" % (py0, cn.show() if isinstance(cn, NA) else cn))
                continue
            cv, ov = [simp(z) for z in cn.vals()], [simp(z) for z in of.vals()]
            at = 0
            order_ = sorted(range(cells.nc), key=lambda i: cells.order.index(i))
            x = sel.get(py0)
            for pos, i in enumerate(order_):
                lo_, hi_ = cells.o[g0][i], tm.add(cells.o[g0][i], cells.n[g0][i])
                z = cv[pos]
                if isinstance(x, GA):
                    want = tm.land(x.elem, between(lo_, hi_))
                    ok = isinstance(z, Term) and z.op == "count" and same_pred(F, z.args[0], want) is None or z == 0 and same_pred(F, False, want) is None
                else:
                    r = rows_of(w.it, x)
                    ok = r is not None and counted(F, z, r, lo_, hi_)
                    if r is None:
                        ok = None
                k.ob(ok if ok else (None if und else ok), "rows per cell", what, "cell %d of %s is said to hold %s selected rows" % (i, py0, tm.show(z)[:200]))
                k.ob(tm._key(ov[pos]) == tm._key(at) or bool(ent(F, "==", ov[pos], at)) or bad, "offsets", what, "cell %d of %s is said to start at %s of the masked data" % (i, py0, tm.show(ov[pos])[:200]))
                at = tm.add(at, z)
        k.rep.count("cell_counts")


class FixedLike:
    def __init__(self, c, more):
        self.base, self.ints = c.base, c.ints + more


def simp(x):
    return x


def counted(F, z, ranges, lo, hi):
    """z = sum over ranges of the overlap with [lo, hi), decided by cases on the order of the edges"""
    def go(F, rs, acc):
        if F.unsat():
            return True
        if not rs:
            return bool(ent(F, "==", z, acc))
        (s, e), rest = rs[0], rs[1:]
        cases = []
        # empty overlap
        for cond in ([geq(lo, e)], [geq(s, hi)]):
            cases.append((cond, 0))
        inside = [tm.gt0(tm.sub(e, lo)), tm.gt0(tm.sub(hi, s))]
        for c1, st in (([geq(s, lo)], s), ([tm.gt0(tm.sub(lo, s))], lo)):
            for c2, en in (([geq(hi, e)], e), ([tm.gt0(tm.sub(e, hi))], hi)):
                cases.append((inside + c1 + c2, tm.sub(en, st)))
        for cond, v in cases:
            G = F.clone()
            for t in cond:
                G.add(t)
            # an overlap is never negative
            if not go(G, rest, tm.add(acc, v)):
                return False
        return True
    return go(F, [r for r in ranges], 0)


CONVERSIONS = [s for s in SEQ if any(z[0] in ("bool", "ranges", "prop") for z in s)]


@prop("P15", "Forms of a mask: ranges and booleans interpreted through every conversion; shape, order, size, selected predicate and rows per cell compared with the selection")
def p15(rep):
    k = Pack(rep, "swiftsimio/masks.py")
    rep.assumptions = ["ranges_from_array is P12 (here: the ranges of an index list cover exactly its rows)", "rows per cell: up to two runs of selected rows and three cells"]
    sequences(k, rep.tier == "thorough", CONVERSIONS, [s for s in SOAP_SEQ if any(z[0] in ("bool", "ranges") for z in s)])
    for nm in COUNTS:
        if nm == "ranges of a property":
            for n in (1, 2) if True else (1,):
                counts_case(k, nm, n)
        else:
            counts_case(k, nm)
    rep.floor = 300

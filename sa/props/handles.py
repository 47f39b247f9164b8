"""Ownership of file handles: every handle the library opens is closed by it, a caller's handle is left alone."""
from . import prop
from .masks import Pack, FixedCells, mask_world, snap_model, counts_header, soap_file, soap_cells, I, Idx, ACC, geq
from .reading import MASK
from .writing import WriterWorld, body_for
from .. import interp as ip, terms as tm, snapmodel as sm, h5model as h5
from ..terms import Term, T, sym
from ..interp import AnalysisError, Ext, Inst, PyFunc, PyRaise
from ..world import World
from ..narr import NA

SOURCE_FILE = "snap.hdf5"

# how a client comes by the file: its path, a pathlib path, an open handle
GIVEN = {"path": "'snap.hdf5'", "Path": "Path('snap.hdf5')", "handle": "own(h5py.File('snap.hdf5', 'r'))"}

HEAD = '''
import h5py
from pathlib import Path
from swiftsimio import (load, mask, validate_file, SWIFTDataset, SWIFTMask, SWIFTUnits, SWIFTSnapshotMetadata, SWIFTSOAPMetadata, SWIFTFOFMetadata, SWIFTLineOfSightMetadata)
from swiftsimio.subset_writer import write_subset
'''


class Clients:
    """client programs over one model file; quiet(text) marks a point where the client holds no library call"""

    def __init__(self, k, w):
        self.k, self.w = k, w

    def install(self, mod, extra={}):
        v = mod.env.vars
        v["quiet"] = PyFunc(lambda i, a, kk, n: i.event("quiet", n, what=a[0]) and None, "quiet")
        v["sym"] = PyFunc(lambda i, a, kk, n: sym(*a), "sym")
        def own(i, a, kk, n):
            i.event("own", n, handle=a[0])
            return a[0]
        v["own"] = PyFunc(own, "own")
        v["armed"] = PyFunc(lambda i, a, kk, n: setattr(self.w.h5, "armed", True), "armed")
        v["disarmed"] = PyFunc(lambda i, a, kk, n: setattr(self.w.h5, "armed", False), "disarmed")
        def let_go(i, a, kk, n):
            i.event("let_go", n, handle=a[0])
        v["let_go"] = PyFunc(let_go, "let_go")
        v.update(extra)

    def program(self, body, extra={}):
        m = self.w.program(HEAD + "\ndef run():\n" + "\n".join("    " + l for l in body) + "\n")
        self.install(m, extra)
        return m

    def run(self, what, mod, fails=False, writes=(), limit=400, thunk=None, hold=False):
        """the handle obligations of every path; with fails, again with every single access to a file failing"""
        w, k = self.w, self.k
        if len(k.rep.findings) >= 10:
            return
        w.h5.hold = hold
        points = [0]
        for n in iter(lambda: points.pop(0) if points else None, None):
            w.h5.fault = n or None
            w.h5.sites = None if n else {}
            try:
                if thunk:
                    ps = w.it.explore(thunk, limit)
                else:
                    def go(i):
                        w.h5.reset()
                        return i.call(mod.env.vars["run"], [], {}, None)
                    ps = w.it.explore(go, limit)
            except AnalysisError as ex:
                k.ob(None, "analysis", what, str(ex)[:300])
                return
            finally:
                w.h5.fault = None
            for p in ps:
                k.rep.count("trace_partitions")
                self.judge(p, what + (" when access %d fails" % n if n else ""), n, writes)
            if fails and not n:
                # every distinct call path that reaches the file, its first and last access
                for ns in w.h5.sites.values():
                    ns = sorted(ns)
                    points += sorted(set(ns[:k.first] + (ns[-k.last:] if k.last else [])))
                k.rep.count("access_sites", len(w.h5.sites))
                k.rep.count("failing_accesses", len(points))

    def judge(self, p, what, fault, writes):
        k = self.k
        if p.exc is not None and not fault:
            und = [c for c, v in p.conds if self.w.fact(c) is None]
            k.ob(None if und else False, "usable", what, "%s raises %s%s" % (what, p.exc.name, p.exc.val.attrs.get("args", "") if isinstance(p.exc.val, Inst) else ""), where(p))
            return
        live, own, mine = {}, set(), {}
        ok = True
        for e in p.events + [None]:
            if e is None or e.kind == "quiet":
                if fault and not (e is None):
                    continue
                k.rep.count("quiet_points")
                for h, o in live.items():
                    if h not in own:
                        ok = False
                        k.ob(False, "closed", o.where, "%s: the file opened here is still open %s" % (what, "at the end" if e is None else e.what))
                continue
            if e.kind == "own":
                own.add(id(e.handle))
                mine[id(e.handle)] = e.handle
            elif e.kind == "let_go":
                own.discard(id(e.handle))
                live.pop(id(e.handle), None)
            elif e.kind == "h5":
                f = e.args[0] if e.args else None
                if e.what == "file_open":
                    live[id(f)] = e
                    k.rep.count("opens")
                    if e.args[2] != "r" and not (e.args[1] in writes and e.args[2] in ("w", "x", "w-")):
                        ok = False
                        k.ob(False, "read only", e.where, "%s: %s is opened with mode %r" % (what, e.args[1], e.args[2]))
                elif e.what == "file_close":
                    if id(f) in own:
                        ok = False
                        k.ob(False, "caller's handle", e.where, "%s: the caller's handle is closed here" % what)
                    live.pop(id(f), None)
                elif e.what == "use_after_close":
                    ok = False
                    k.ob(False, "use after close", e.where, "%s: a closed file is used here" % what)
                elif e.what in ("attr_write", "data_write", "create_group", "create_dataset", "create_link", "delete"):
                    if isinstance(f, Inst) and f.attrs.get("filename") not in writes:
                        ok = False
                        k.ob(False, "read only", e.where, "%s: the file %s is changed" % (what, f.attrs.get("filename")))
        if ok:
            k.ob(True, "handles", what, "")


def where(p):
    n = getattr(p.exc, "node", None)
    return "line %s" % getattr(n, "lineno", "?")


def small(kind):
    """a file of the given kind with few fields"""
    if kind == "snapshot":
        m = sm.ModelFile()
        m.add("PartType0", "gas", [("Coordinates", 3), ("ElementMassFractions", 3)], sm.COUNT[0], sm.COLUMNS)
        m.add("PartType1", "dark_matter", [("Masses", 0)], sm.COUNT[1], {})
        counts = ip.AList([sm.COUNT[t] if t in (0, 1) else 0 for t in range(7)])
        m.header = {"NumPart_ThisFile": counts, "NumPart_Total": ip.AList(counts), "MassTable": ip.AList([sym("mt%d" % i) for i in range(7)]),
                    "InitialMassTable": ip.AList([sym("imt%d" % i) for i in range(7)])}
        m.extra = sm.subgrid
        return m
    return {"SOAP catalogue": sm.soap, "FOF catalogue": sm.fof, "line-of-sight file": sm.los}[kind]()


CLASS = {"snapshot": "SWIFTSnapshotMetadata", "SOAP catalogue": "SWIFTSOAPMetadata", "FOF catalogue": "SWIFTFOFMetadata", "line-of-sight file": "SWIFTLineOfSightMetadata"}


def world(k, model):
    w = World(k.rep.root, model.tree)
    w.facts[T("call", Ext("unyt._iterable"), sym("BoxSize")).key()] = True
    return w


def reads(model, one=None):
    """expressions that read fields, columns and group attributes of data"""
    out = []
    for g, fs in model.fields.items():
        for f in fs:
            if f.columns:
                out += ["data.%s.%s.%s" % (g, f.attribute, c) for c in f.columns]
            else:
                out.append("data.%s.%s" % (g, f.attribute))
    for g, ats in model.attrs.items():
        out += ["data.%s.%s" % (g, a.attribute) for a in ats]
    return out


def p11_reading(k, kind):
    model = small(kind)
    names = {"GROUPS": tuple(model.fields)}
    rd = reads(model)
    few = [rd[0]] + [x for x in rd if x.count(".") == 3][:1] + ([rd[-1]] if model.attrs else [])
    for given, src in GIVEN.items():
        c = Clients(k, world(k, model))
        how = "%s given as a %s" % (kind, given)
        head = ["f = %s" % src, "quiet('before')"]
        tail = ["x = f['Header'].attrs['BoxSize']", "f.close() if let_go(f) is None else None"] if given == "handle" else []
        # loading, every lazy read, printing, calling the loaders again
        body = head + ["data = load(f)", "quiet('after load')"]
        for e in rd:
            body += ["y = %s" % e, "quiet('after reading %s')" % e]
        for e in few:
            body += ["del %s" % e, "quiet('after deleting')", "y = %s" % e, "quiet('after reading %s again')" % e] if e.count(".") == 2 else []
        body += ["y = str(data)", "y = repr(data)", "y = data.metadata.present_groups", "y = data.metadata.present_group_names", "quiet('after printing')"]
        body += ["data.get_units()", "quiet('after get_units')", "data.get_metadata()", "quiet('after get_metadata')", "data.create_datasets()", "quiet('after create_datasets')", "y = %s" % rd[0], "quiet('after reading')"]
        c.run("using a " + how, c.program(body + tail, names))
        c.run("checking a " + how, c.program(head + ["y = validate_file(f)", "quiet('after validate_file')"] + tail, names), fails=True)
        c.run("loading a " + how, c.program(head + ["data = load(f)", "quiet('after load')"] + tail, names), fails=True)
        for e in few:
            m = c.program(head + ["data = load(f)", "quiet('after load')", "armed()", "y = %s" % e, "quiet('after')"] + tail, names)
            c.run("reading %s of a %s" % (e, how), m, fails=True, hold=True)
        if given == "handle":
            body = head + ["data = load(f)", "let_go(f)", "f.close()", "quiet('after the caller closes its handle')"]
            for e in rd:
                body += ["y = %s" % e, "quiet('after reading %s')" % e]
            c.run("using a %s that is closed afterwards" % how, c.program(body, names))
        # the public classes on their own
        cls = CLASS[kind]
        if given == "handle":
            a = "f.filename, handle=f"
            au = "f.filename, units, handle=f"
        else:
            a, au = "f", "f, units"
        body = head + ["units = SWIFTUnits(%s)" % a, "quiet('after SWIFTUnits')", "m = %s(%s)" % (cls, au), "quiet('after %s')" % cls, "m = %s(%s)" % (cls, a), "quiet('after %s without units')" % cls,
                       "y = m.present_groups", "quiet('after present_groups')", "data = SWIFTDataset(%s)" % a, "quiet('after SWIFTDataset')", "y = %s" % rd[0], "quiet('after reading')", "y = str(data)",
                       "data.get_units()", "quiet('after get_units')", "data.get_metadata()", "quiet('after get_metadata')", "data.create_datasets()", "quiet('after create_datasets')"]
        c.run("the classes on a " + how, c.program(body + tail, names))
        if kind in ("snapshot", "SOAP catalogue"):
            body = head + ["plain = load('snap.hdf5')", "quiet('after load')", "data = load(f, mask=StubMask(plain.metadata, plain.units))", "quiet('after a masked load')"]
            for e in rd:
                body += ["y = %s" % e, "quiet('after reading %s')" % e]
            body += ["data = SWIFTDataset(%s, mask=StubMask(plain.metadata, plain.units))" % a, "quiet('after SWIFTDataset with a mask')", "y = %s" % rd[0], "quiet('after reading')"]
            m = c.w.program(HEAD + MASK + "\ndef run():\n" + "\n".join("    " + l for l in body + tail) + "\n")
            c.install(m, names)
            c.run("masked reading of a " + how, m)


FULL = """
import h5py
from pathlib import Path
from swiftsimio import mask, load
from swiftsimio.subset_writer import write_subset
def run():
    f = %s
    m = mask(f)
    quiet('after mask')
    m.constrain_spatial(region('A'))
    quiet('after constrain_spatial')
%s
    write_subset('out.hdf5', m)
    quiet('after write_subset')
%s
"""


def p11_masks(k, catalogue):
    """masks, property constraints and subsets, undisturbed and with failing accesses"""
    kind = "SOAP catalogue" if catalogue else "snapshot"
    for given, src in GIVEN.items():
        if catalogue:
            cells = soap_cells(None)
            cells.base.append(geq(cells.total["Subhalos"], 8))
            model = soap_file(cells)
            py, g = ["bound_subhalo", "soap"], ["Subhalos"] * 2
        else:
            g, py = ["PartType0"], ["gas"]
            cells = FixedCells(g, None)
            model = snap_model(cells, (0,), header=counts_header(cells, (0,)))
            keep = ("PartType0/Coordinates", "PartType0/Densities", "PartType0/Masses")
            model.nodes = {p: f for p, f in model.nodes.items() if p in keep}
            model.fields = {q: [f for f in fs if f.path in keep] for q, fs in model.fields.items()}
        cells.base += [tm.gt0(z) for gg in set(g) for z in cells.n[gg]]
        a, b = [I("r0"), I("r1")], [I("s0"), I("s1")]
        for i in range(2):
            cells.base += [geq(a[i], 0), tm.gt0(tm.sub(b[i], a[i])), geq(cells.total[g[0]], b[i])] + ([tm.gt0(tm.sub(a[i], b[i - 1]))] if i else [])
        cells.ints = cells.ints + a + b
        w, mod, fields = mask_world(k, [], cells, model, py, g)
        def rfa(i, x, kk, n):
            if x and isinstance(x[0], Idx):
                return NA([z for p in zip(a, b) for z in p], (2, 2), "int")
            return NotImplemented
        w.it.fn_models[ACC + ":ranges_from_array"] = rfa
        def read(i, x, kk, n):
            f = model.nodes.get(x[0])
            if f is not None and x[1] == 0 and len(f.shape) == 2:
                return NA([T("data", x[0], (0, c)) for c in range(f.shape[1])], (f.shape[1],), sym("dtype:" + x[0]))
            if f is not None and x[1] == 0:
                return NA([T("data", x[0], (0,))], (), sym("dtype:" + x[0]))
            return T("data", x[0], w.h5.sel(x[1]))
        w.h5.mod.env.vars["read"] = PyFunc(read, "read")
        c = Clients(k, w)
        end = ["x = f['Header'].attrs['BoxSize']", "let_go(f)", "f.close()"] if given == "handle" else []
        for nm, more in (("region", []), ("property", ["m = mask(f)", "armed()", "m.constrain_property(%r, attribute(%r), lower(0), upper(0))" % (py[0], py[0]), "quiet('after constrain_property')", "disarmed()"])):
            m2 = w.program(FULL % (src, "\n".join("    " + l for l in more), "\n".join("    " + l for l in end)))
            c.install(m2, {n: mod.env.vars[n] for n in ("region", "groups", "attribute", "lower", "upper")})
            c.run("a subset by %s of a %s given as a %s" % (nm, kind, given), m2, fails=given != "Path" and (not catalogue or k.first > 1), hold=nm == "property", writes=("out.hdf5",))


def p11_writer(k):
    W = WriterWorld(k, "boxsize=box(), scale_factor=A, unit_system=SYSTEM", body_for(["gas", "dark_matter"]))
    c = Clients(k, W.w)
    def thunk(i):
        W.w.h5.reset()
        return i.call(W.mod.env.vars["run"], [], {}, None)
    c.run("writing a snapshot", None, fails=True, writes=("out.hdf5",), thunk=thunk)


@prop("P11", "Typestate of file handles: client programs that load, mask, read, check, subset and write model files are interpreted through the library's source with every handle's opens, closes and uses tracked, once undisturbed and once for every single file access failing; opened handles must be closed at every point where the client is in control, a caller's handle never is, and source files are only opened for reading.")
def p11(rep):
    k = Pack(rep, "swiftsimio/_handle_provider.py")
    k.first, k.last = (2, 1) if rep.tier == "thorough" else (1, 0)
    for kind in CLASS:
        p11_reading(k, kind)
    p11_masks(k, False)
    p11_masks(k, True)
    p11_writer(k)
    rep.floor = 100

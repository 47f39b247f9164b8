"""Properties of the lazy reader, the metadata and the file handles."""
from . import prop
from .. import interp as ip, terms as tm, h5model as h5
from ..terms import Term, T, sym
from ..interp import AnalysisError, Ext, Inst, Fn
from ..world import World, arr
from .. import snapmodel as sm

ASSUME = [
    "h5py and pathlib behave as the model in sa/h5model.py; dataset contents, sizes and attribute values are symbols",
    "h5py returns attributes and data of the name they were asked for; numpy/unyt conversions keep values",
]


def where_of(p):
    n = p.exc.node if p.exc is not None else None
    return "line %s" % getattr(n, "lineno", "?")


def merge(t):
    """canonical selection of file data: data(path, sel)"""
    if isinstance(t, Term):
        if t.op == "idx":
            b = merge(t.args[0])
            if isinstance(b, Term) and b.op == "data" and b.args[1] in (T("tuple"), ()):
                s = t.args[1]
                l = list(s.args) if isinstance(s, Term) and s.op == "tuple" else [s]
                full = lambda x: x is Ellipsis or isinstance(x, Term) and x.op == "slice" and x.args[0] in (None, 0) and x.args[1] is None and x.args[2] in (None, 1)
                while l and full(l[-1]):
                    l.pop()
                return T("data", b.args[0], tuple(l))
            return T("idx", b, t.args[1])
        if t.op == "call" and isinstance(t.args[0], Ext) and t.args[0].path in ("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.copy") and len(t.args) >= 2:
            return merge(t.args[1])
    return t


KNOWN = {"poly", "sym", "eq0", "gt0", "not", "and", "cosmo_factor", "nearest", "data", "ranges", "tuple", "list", "slice", "pow", "array", "kv", "dict", "attr0"}


def understood(t, atoms=()):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in atoms or x.op == "nearest":
                continue
            if x.op == "poly":
                for m, _ in x.args:
                    stack.extend(a for a, _e in m)
                continue
            if x.op not in KNOWN:
                return False
            stack.extend(x.args)
    return True


def verdict(got, want, atoms=()):
    if tm._key(tm.freeze(got)) == tm._key(tm.freeze(want)):
        return True
    return False if understood(tm.freeze(got), atoms) else None


def unit_of(f, units):
    u = 1
    for e, b in zip(f.exps, sm.BASE):
        if e:
            u = tm.mul(u, tm.power(units[b], e))
    return u


class Reader:
    def __init__(self, rep, model=None):
        self.rep = rep
        self.model = model or sm.snapshot()
        self.fields = self.model.fields
        rep.assumptions = ASSUME
        self.w = World(rep.root, self.model.tree)
        self.w.facts[T("call", Ext("unyt._iterable"), sym("BoxSize")).key()] = True

    def ob(self, ok, rule, construct, msg, where="swiftsimio/reader.py", detail=None):
        self.rep.oblige(ok, rule, construct, msg, where, detail)

    def label(self, f, k, got, units, masked=None, cname=None):
        """obligations on one array read from field f (column k)"""
        what = f.path + ("" if k is None else " column %d" % k)
        a = arr(got)
        if a is None:
            self.ob(None if isinstance(got, Term) else False, "read", f.path, "reading %s gives %s" % (what, tm.show(got)[:80]))
            return
        v = merge(a["values"])
        if masked is None:
            want = T("data", f.path, () if k is None else (T("slice", None, None, None), k))
        else:
            shape = (masked[1],) + (tuple(f.shape[1:]) if k is None else ())
            want = T("ranges", f.path, masked[0], shape, sym("dtype:" + f.path), k)
        ok = verdict(v, want)
        if ok is None and not (isinstance(v, Term) and v.op in ("data", "ranges")):
            ok = None
        self.ob(ok, "data", f.path, "reading %s returns %s" % (what, tm.show(v)[:120]), detail="expected %s" % tm.show(want))
        self.ob(verdict(a["units"] if a["units"] is not None else 1, unit_of(f, units)), "units", f.path, "%s has units %s" % (what, tm.show(a["units"])[:120]), detail="expected " + tm.show(unit_of(f, units))[:200])
        want = T("cosmo_factor", tm.power(Ext("A"), f.aexp), sym("afile"))
        self.ob(verdict(a["cf"], want), "scale-dependence", f.path, "%s has scale-factor dependence %s" % (what, tm.show(a["cf"])[:120]), detail="expected " + tm.show(want))
        self.ob(verdict(a["comoving"], not f.phys), "frame", f.path, "%s is labelled comoving=%s though the file stores it %s" % (what, tm.show(a["comoving"]), "physical" if f.phys else "comoving"))
        self.ob(verdict(a["valid_transform"], bool(f.conv)), "transformability", f.path, "%s has valid_transform=%s, the file says %s" % (what, tm.show(a["valid_transform"]), bool(f.conv)))
        want = f.comp if f.compressed else "Not compressed."
        self.ob(verdict(a["compression"], want), "compression", f.path, "%s has compression %r, the file says %r" % (what, a["compression"], want))
        nm = a["name"]
        s = nm if isinstance(nm, str) else "".join(x for x in nm.args if isinstance(x, str)) if isinstance(nm, Term) and nm.op == "fstr" else None
        self.ob(None if s is None else f.desc in s, "description", f.path, "%s is described as %s" % (what, tm.show(nm)[:100]))

    def group_attr(self, a, got, units):
        what = "%s.%s" % (a.group, a.name)
        t = got
        while isinstance(t, Term) and t.op == "method":
            t = t.args[1]
        d = arr(t)
        if d is None:
            self.ob(None if isinstance(got, Term) else False, "group-attribute", what, "reading %s gives %s" % (what, tm.show(got)[:80]))
            return
        self.ob(verdict(strip(d["values"]), strip(a.value)), "group-attribute", what, "the attribute %s reads as %s" % (what, tm.show(d["values"])[:100]))
        u = 1
        for e, b in zip(a.units, sm.BASE):
            if e:
                u = tm.mul(u, tm.power(units[b], e))
        self.ob(verdict(d["units"] if d["units"] is not None else 1, u), "group-attribute", what, "the attribute %s has units %s" % (what, tm.show(d["units"])[:100]), detail="expected " + tm.show(u)[:100])
        want = T("cosmo_factor", tm.power(Ext("A"), a.exponent), sym("afile"))
        self.ob(verdict(d["cf"], want), "group-attribute", what, "the attribute %s has scale-factor dependence %s" % (what, tm.show(d["cf"])[:100]), detail="expected " + tm.show(want)[:100])
        self.ob(verdict(d["comoving"], a.comoving), "group-attribute", what, "the attribute %s is labelled comoving=%s" % (what, tm.show(d["comoving"])))

    def each_path(self, mod, name, what):
        try:
            ps = self.w.run(mod, name)
        except AnalysisError as ex:
            self.ob(None, "analysis", what, str(ex)[:200])
            return []
        out = []
        for p in ps:
            self.rep.count("trace_partitions")
            if p.exc is not None:
                conds = [(c, v) for c, v in p.conds if self.w.fact(c) is None]
                und = any(not understood(c) for c, v in conds)
                self.ob(None if und else False, "raises", what, "%s raises %s%s" % (what, p.exc.name, p.exc.val.attrs.get("args", "") if isinstance(p.exc.val, Inst) else ""), where_of(p), [(tm.show(c)[:100], v) for c, v in conds][:6])
            else:
                out.append(p)
        return out


MASK = '''
class StubMask:
    def __init__(self, metadata, units):
        self.metadata, self.units, self.filename, self._handle = metadata, units, metadata.filename, None
        self.converted = False
    def convert_masks_to_ranges(self):
        self.converted = True
    def __getattr__(self, name):
        if name.endswith("_size"):
            return sym("mask size of " + name[:-5])
        if name in GROUPS and self.converted:
            return sym("mask of " + name)
        raise AttributeError(name)
'''


def programs(r, masked):
    src = ["from swiftsimio import load, SWIFTDataset", MASK, "def run():"]
    if masked:
        src += ["    plain = load('snap.hdf5')", "    data = load('snap.hdf5', mask=StubMask(plain.metadata, plain.units))"]
    else:
        src += ["    data = load('snap.hdf5')"]
    src += ["    mark('loaded')", "    u = data.metadata.units", "    out = {}"]
    exp = []
    for g, fs in r.fields.items():
        for f in fs:
            at = f.attribute
            if f.columns:
                for k, c in enumerate(f.columns):
                    e = "data.%s.%s.%s" % (g, at, c)
                    src.append("    out[%r] = %s" % (e, e))
                    exp.append((e, f, k, g))
            else:
                e = "data.%s.%s" % (g, at)
                src.append("    out[%r] = %s" % (e, e))
                exp.append((e, f, None, g))
    for g, ats in r.model.attrs.items():
        for a in ats:
            e = "data.%s.%s" % (g, a.attribute)
            src.append("    out[%r] = %s" % (e, e))
            exp.append((e, None, a, g))
    src.append("    return {'current': u.current, 'length': u.length, 'mass': u.mass, 'temperature': u.temperature, 'time': u.time}, out")
    m = r.w.program("\n".join(src))
    m.env.vars["mark"] = ip.PyFunc(lambda i, a, k, n: i.event("mark", n, what=a[0]) and None, "mark")
    m.env.vars["sym"] = ip.PyFunc(lambda i, a, k, n: sym(*a), "sym")
    m.env.vars["GROUPS"] = tuple(r.fields)
    return m, exp


def strip(t):
    """values without reshaping of a scalar"""
    while True:
        if isinstance(t, Term) and t.op == "method" and t.args[0] == "squeeze":
            t = t.args[1]
        elif isinstance(t, Term) and t.op == "call" and isinstance(t.args[0], Ext) and t.args[0].path in ("numpy.atleast_1d", "numpy.array", "numpy.asarray", "numpy.squeeze"):
            t = t.args[1]
        elif isinstance(t, (tuple, list)) and len(t) == 1:
            t = t[0]
        elif isinstance(t, Term) and t.op in ("tuple", "list") and len(t.args) == 1:
            t = t.args[0]
        elif isinstance(t, Inst) and t.cls.name == "ndarray":
            t = t.attrs["v"]
        else:
            return t


@prop("P09", "Whole-library value flow: client programs that load a model snapshot, SOAP catalogue, FOF catalogue and line-of-sight file are interpreted through the library's source; the terms reaching each returned array (data, units, scale-factor dependence, frame, transformability, compression, description) are compared with the file's own record for that field.")
def p09(rep):
    for kind, model in (("snapshot", sm.snapshot()), ("SOAP catalogue", sm.soap()), ("FOF catalogue", sm.fof()), ("line-of-sight file", sm.los())):
        r = Reader(rep, model)
        for masked in (False, True):
            if masked and kind in ("FOF catalogue", "line-of-sight file"):
                continue
            m, exp = programs(r, masked)
            for p in r.each_path(m, "run", "reading a %s%s" % ("masked " if masked else "", kind)):
                units, out = p.ret
                for e, f, k, g in exp:
                    rep.count("fields_read")
                    if f is None:
                        r.group_attr(k, out.get(e), units)
                    else:
                        r.label(f, k, out.get(e), units, (sym("mask of " + g), sym("mask size of " + g)) if masked else None)
                # lazy: nothing of the particles is read while loading
                mark = [e.seq for e in p.events if e.kind == "mark"]
                for e in p.events:
                    if e.kind == "h5" and e.what == "touch" and e.args[1] == "read" and e.args[2] in model.nodes and e.seq < mark[0]:
                        r.ob(False, "lazy", e.args[2], "loading a %s reads %s" % (kind, e.args[2]), e.where)
                        break
                else:
                    r.ob(True, "lazy", "load", "", "")
    history(Reader(rep), "data.gas", "masses", "element_mass_fractions", "data.dark_matter", "densities", {"PartType0/Masses": 2, "PartType0/ElementMassFractions": 2})
    history(Reader(rep, sm.los()), "data.los_0000", "xpos", None, "data.los_0003", "masses", {})
    rep.floor = 100


HISTORY = '''
from swiftsimio import load
def run():
    data = load('snap.hdf5')
    g = %(group)s
    a = g.%(field)s
    b = g.%(field)s
    other = %(other)s.%(field)s
    %(columns)s
    del g.%(field)s
    f = g.%(field)s
    g.%(field)s = 'mine'
    h = g.%(field)s
    o2 = %(other)s.%(field)s
    i = g.%(sibling)s
    return a, b, c, d, e, f, h, other, o2, i
'''


def history(r, group, field, columns, other, sibling, counts):
    """read, read again, delete, assign: caching per field, per column and per group"""
    c = "c = d = 1; e = 2"
    if columns:
        c = "c = g.%s.helium; d = g.%s.helium; e = g.%s.carbon" % (columns, columns, columns)
    m = r.w.program(HISTORY % {"group": group, "field": field, "other": other, "sibling": sibling, "columns": c})
    for p in r.each_path(m, "run", "reading %s twice" % field):
        a, b, c, d, e, f, h, other, o2, i = p.ret
        reads = [x.args[2] for x in p.events if x.kind == "h5" and x.what == "touch" and x.args[1] == "read" and x.args[2] in r.model.nodes]
        gets = [x.args[3] for x in p.events if x.kind == "h5" and x.what == "touch" and x.args[1] == "attr" and isinstance(x.args[3], str) and x.args[3].lower() == field]
        for path, n in counts.items():
            r.ob(reads.count(path) == n, "cached", path, "reading %s, or two of its columns, twice (and once after deletion) reads the file %d times instead of %d" % (path, reads.count(path), n))
        if not counts:
            r.ob(len(gets) == 3, "cached", field, "the group attribute %s is fetched %d times from the file instead of 3" % (field, len(gets)))
        same = lambda x, y: tm._key(tm.freeze(x)) == tm._key(tm.freeze(y))
        r.ob(same(a, b) and same(a, f), "cached", field, "reading %s again returns something else" % field)
        r.ob(same(c, d) and not same(c, e), "cached", "named columns", "columns share or lose their cached value")
        r.ob(h == "mine", "assignable", field, "a value assigned to %s is not returned" % field)
        r.ob(same(other, o2) and not same(other, a), "independent", field, "the %s of different groups share their value" % field)
        r.ob(not same(i, a), "independent", field, "different fields share their value")


# ------------------------------------------------------------------------------------------------ P10
def quantity(t):
    """(value, unit) of a unyt quantity or array term"""
    if isinstance(t, Term) and t.op == "call" and isinstance(t.args[0], Ext) and t.args[0].path.split(".")[-1] in ("unyt_quantity", "unyt_array"):
        pos = [a for a in t.args[1:] if not (isinstance(a, Term) and a.op == "kw")]
        kw = {a.args[0]: a.args[1] for a in t.args[1:] if isinstance(a, Term) and a.op == "kw"}
        v = pos[0] if pos else kw.get("input_scalar", kw.get("input_array"))
        u = pos[1] if len(pos) > 1 else kw.get("units", 1)
        return v, u
    return None


ORDER = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos", "sidm"]
META = """
from swiftsimio import load
def run():
    m = load('snap.hdf5').metadata
    out = {}
    for k in NAMES:
        out[k] = getattr(m, k, 'no such attribute')
    for table in ('mass_table', 'initial_mass_table'):
        for p in ORDER:
            out[table + '.' + p] = getattr(getattr(m, table), p, 'no such attribute')
    for g in GROUPS:
        out[g + ':fields'] = getattr(m, g + '_properties').field_names
        out[g + ':paths'] = getattr(m, g + '_properties').field_paths
        out[g + ':columns'] = getattr(m, g + '_properties').named_columns
    out['groups'] = m.present_groups
    out['group names'] = m.present_group_names
    out['class'] = type(m).__name__
    u = m.units
    return {'current': u.current, 'length': u.length, 'mass': u.mass, 'temperature': u.temperature, 'time': u.time}, out, m
"""


class Meta(Reader):
    def __init__(self, rep, model, what):
        super().__init__(rep, model)
        self.what = what

    def paths(self, names):
        m = self.w.program(META)
        m.env.vars["NAMES"] = tuple(names)
        m.env.vars["ORDER"] = tuple(ORDER)
        m.env.vars["GROUPS"] = tuple(self.fields)
        return self.each_path(m, "run", "loading the metadata of %s" % self.what)

    def eq(self, rule, name, got, want, atoms=()):
        self.ob(verdict(plain(got), plain(want), atoms), rule, name, "%s: %s is %s" % (self.what, name, tm.show(plain(got))[:120]), "swiftsimio/metadata/objects.py", "expected " + tm.show(plain(want))[:160])

    def qty(self, name, got, value, unit):
        q = quantity(got)
        if q is None:
            a = arr(got)
            q = (a["values"], a["units"]) if a else None
        if q is None:
            self.ob(None if isinstance(got, Term) else False, "header", name, "%s: %s is %s" % (self.what, name, tm.show(plain(got))[:100]))
            return
        self.eq("header", name, q[0], value)
        self.eq("header", name + " units", q[1], unit)


def plain(t):
    """model arrays as lists, one-element containers kept"""
    if isinstance(t, Inst) and t.cls.name == "ndarray":
        t = t.attrs["v"]
    if isinstance(t, (list, tuple)):
        return [plain(x) for x in t]
    if isinstance(t, dict):
        return {k: plain(v) for k, v in t.items()}
    if isinstance(t, Term) and t.op in ("list", "tuple"):
        return [plain(x) for x in t.args]
    return t


def cgs(units):
    pass


CGS = {"current": "A", "length": "cm", "mass": "g", "temperature": "K", "time": "s"}
HEADER = ["scale_factor", "a", "redshift", "z", "time", "t", "dimension", "boxsize", "num_part", "num_files_per_snapshot", "output_type", "run_name", "select_output", "system_name",
          "photon_group_edges", "reduced_lightspeed", "gas_gamma", "code", "cosmology_raw", "header", "gravity_scheme", "hydro_scheme", "internal_code_units", "parameters", "policy",
          "runtime_pars", "subgrid_scheme", "stars_scheme", "unused_parameters", "cosmology", "named_columns", "n_subhalos", "num_group", "partial_snapshot"] + ["n_" + p for p in ORDER]
RAW = {"code": "Code", "gravity_scheme": "GravityScheme", "hydro_scheme": "HydroScheme", "internal_code_units": "InternalCodeUnits", "parameters": "Parameters", "policy": "Policy",
       "runtime_pars": "RuntimePars", "subgrid_scheme": "SubgridScheme", "stars_scheme": "StarsScheme", "unused_parameters": "UnusedParameters"}


def header_obligations(r, p, boxsize_array, present, length, bare=False):
    units, o, m = p.ret
    g = lambda k: o.get(k)
    for d, s in zip(sm.BASE, sm.SYMB):
        want = T("nearest", T("call", Ext("unyt.unyt_quantity"), sym("U_" + s), T("kw", "units", Ext("unyt." + CGS[d]))), d)
        u = units[d]
        q = quantity(u.args[0]) if isinstance(u, Term) and u.op == "nearest" else None
        ok = None if q is None else (tm._key(q[0]), tm._key(q[1]), u.args[1]) == (tm._key(sym("U_" + s)), tm._key(Ext("unyt." + CGS[d])), d)
        r.ob(ok, "units", d, "%s: the %s unit is %s" % (r.what, d, tm.show(u)[:120]), "swiftsimio/metadata/objects.py")
    for k in ("scale_factor", "a"):
        r.eq("header", k, g(k), sym("afile"))
    for k in ("redshift", "z"):
        r.eq("header", k, g(k), sym("zfile"))
    r.eq("header", "dimension", g("dimension"), sym("ndim"))
    for k in ("time", "t"):
        r.qty(k, g(k), sym("tfile"), units["time"])
    b = arr(g("boxsize"))
    if b is None:
        r.ob(False if quantity(g("boxsize")) else None, "header", "boxsize", "%s: the box size is %s" % (r.what, tm.show(g("boxsize"))[:80]))
    else:
        r.eq("header", "boxsize", b["values"], sym("BoxSize"))
        r.eq("header", "boxsize units", b["units"], units["length"])
        r.eq("header", "boxsize scale-factor dependence", b["cf"], T("cosmo_factor", Ext("A"), sym("afile")))
        r.eq("header", "boxsize frame", b["comoving"], True)
        r.eq("header", "boxsize class", b["class"], "cosmo_array" if boxsize_array else "cosmo_quantity")
        r.ob(b["valid_transform"] is not False, "header", "boxsize transform", "the box size cannot be converted to physical")
    if length is not None:
        counts = [sm.COUNT[t] if t in present else 0 for t in range(length)]
        r.eq("header", "num_part", g("num_part"), counts)
        for t, name in enumerate(ORDER):
            r.eq("header", "n_" + name, g("n_" + name), counts[t] if t < length else 0)
            for table, s in (("mass_table", "mt%d"), ("initial_mass_table", "imt%d")):
                k = table + "." + name
                if bare:
                    q = quantity(g(k))
                    r.ob(None if q is None else verdict(q[1], units["mass"]), "mass-table", k, "%s: %s is %s" % (r.what, k, tm.show(g(k))[:80]))
                elif t < length:
                    r.qty(k, g(k), sym(s % t), units["mass"])
                else:
                    r.ob(g(k) is None, "mass-table", k, "%s: %s is %s although the table is shorter" % (r.what, k, tm.show(g(k))[:80]))
    for k, h in RAW.items():
        d = g(k)
        if bare and k != "hydro_scheme" and k != "code" and k != "parameters":
            continue
        if not isinstance(d, dict):
            r.ob(None if isinstance(d, Term) else False, "groups", k, "%s: metadata.%s is %s" % (r.what, k, tm.show(d)[:80]))
        else:
            r.eq("groups", k, d.get("the " + h), sym("value of " + h))


@prop("P10", "Whole-library value flow: the metadata object of model files of every kind (snapshots with different header lengths, with and without the optional groups and attributes, SOAP, FOF, line of sight) is built by interpreting the library; every reported value is a term compared with the header entry it must come from.")
def p10(rep):
    for boxarr in (True, False):
        for length, present in ((7, (0, 1, 4, 5)), (6, (1,)), (8, (0, 7, 6, 2, 3))):
            model = sm.snapshot(present, length)
            r = Meta(rep, model, "a snapshot (%d particle types)" % length)
            r.w.facts[T("call", Ext("unyt._iterable"), sym("BoxSize")).key()] = boxarr
            for p in r.paths(HEADER):
                units, o, m = p.ret
                header_obligations(r, p, boxarr, present, length)
                r.eq("header", "run_name", o["run_name"], "run")
                r.eq("header", "select_output", o["select_output"], "Default")
                r.eq("header", "system_name", o["system_name"], "sys")
                r.eq("header", "output_type", o["output_type"], "FullVolume")
                r.eq("header", "gas_gamma", o["gas_gamma"], sym("gamma"))
                r.eq("header", "cosmology", o["cosmology"], None)
                r.eq("subgrid", "photon_group_edges", merge(o["photon_group_edges"]), tm.div(T("data", "SubgridScheme/PhotonGroupEdges", ()), units["time"]))
                r.eq("subgrid", "named_columns", o["named_columns"], {"ElementMassFractions": ["Hydrogen", "Helium", "Carbon"], "SpeciesFractions": ["HI", "HII"]})
                want = tm.mul(T("data", "SubgridScheme/ReducedLightspeed", (0,)), tm.div(units["length"], units["time"]))
                r.eq("subgrid", "reduced_lightspeed", o["reduced_lightspeed"], want)
                r.groups(o, ["PartType%d" % t for t in sorted(present)], [sm.PT[t] for t in sorted(present)], "SWIFTSnapshotMetadata")
    bare_snapshot(rep)
    for kind, model, cls in (("a SOAP catalogue", sm.soap(), "SWIFTSOAPMetadata"), ("a FOF catalogue", sm.fof(), "SWIFTFOFMetadata"), ("a line-of-sight file", sm.los(), "SWIFTLineOfSightMetadata")):
        r = Meta(rep, model, kind)
        for p in r.paths(HEADER):
            header_obligations(r, p, True, (), None, bare=True)
            o = p.ret[1]
            if cls == "SWIFTSOAPMetadata":
                r.eq("header", "n_subhalos", o["n_subhalos"], 733)
            if cls == "SWIFTFOFMetadata":
                r.eq("header", "num_group", o["num_group"], (517,))
            r.groups(o, list(model.groups), list(model.groups.values()), cls)
    discriminator(rep)
    mapping_tables(rep)
    nearest_unit(rep)
    cosmology(rep)
    dates(rep)
    info_strings(rep)
    rep.floor = 100


def groups_ob(self, o, h5, py, cls):
    self.eq("groups", "present_groups", o["groups"], h5)
    self.eq("groups", "present_group_names", o["group names"], py)
    self.eq("file-type", "class", o["class"], cls)
    for g in py:
        fs = self.fields[g]
        self.eq("fields", g + " names", sorted(plain(o[g + ":fields"])), sorted(f.attribute for f in fs))
        pairs = dict(zip(plain(o[g + ":fields"]), plain(o[g + ":paths"])))
        for f in fs:
            self.eq("fields", f.path, pairs.get(f.attribute), f.path)
            self.eq("named-columns", f.path, o[g + ":columns"].get(f.path), f.columns)


Meta.groups = groups_ob


def bare_snapshot(rep):
    """a file without the optional groups and attributes"""
    model = sm.snapshot((0, 1), 7, extra=lambda: {}, header={k: None for k in ("MassTable", "InitialMassTable", "RunName", "SelectOutput", "System", "SnapshotDate", "OutputType", "NumPart_Total")})
    drop = ("GravityScheme", "Policy", "RuntimePars", "StarsScheme", "UnusedParameters", "HydroScheme", "Cosmology")
    for f in model.nodes.values():
        f.columns = None
        for k in ("a-scale exponent", "h-scale exponent", "Value stored as physical", "Property can be converted to comoving", "Description", "Lossy compression filter", "Is Compressed", "Masked",
                  "Mask Datasets", "Mask Threshold"):
            f.attrs.pop(k, None)
    tree = model.tree
    def bare():
        t = tree()
        for d in drop:
            t["snap.hdf5"]["items"].pop(d)
        return t
    model.tree = bare
    r = Meta(rep, model, "a snapshot without optional entries")
    for p in r.paths(HEADER):
        units, o, m = p.ret
        for k in ("gravity_scheme", "policy", "runtime_pars", "stars_scheme", "unused_parameters", "hydro_scheme", "cosmology_raw", "cosmology", "gas_gamma", "photon_group_edges", "reduced_lightspeed"):
            r.eq("optional", k, o[k], None)
        for k in ("run_name", "select_output", "system_name"):
            r.eq("optional", k, o[k], "")
        r.eq("optional", "named_columns", o["named_columns"], {})
        for name in ORDER:
            for table in ("mass_table", "initial_mass_table"):
                q = quantity(o[table + "." + name])
                z = q[0] if q else None
                if isinstance(z, Term) and z.op == "idx":
                    z = z.args[0]
                zero = z == 0 or isinstance(z, Term) and z.op == "call" and isinstance(z.args[0], Ext) and z.args[0].path == "numpy.zeros"
                if isinstance(z, Term) and z.op == "alloc":
                    zero = z.args[1] == "zeros"
                r.ob(True if zero else False if isinstance(z, Term) and z.op in ("call", "alloc") or isinstance(z, (int, float)) else None, "optional", table, "the missing %s holds %s" % (table, tm.show(z)[:60]))
                r.ob(None if q is None else verdict(q[1], units["mass"]), "optional", table, "the missing %s has units %s" % (table, tm.show(q[1])[:60] if q else None))
        r.groups(o, ["PartType0", "PartType1"], ["gas", "dark_matter"], "SWIFTSnapshotMetadata")
    src = ["from swiftsimio import load", "def run():", "    data = load('snap.hdf5')", "    out = {}"]
    for g, fs in r.fields.items():
        for f in fs:
            src.append("    out[%r] = data.%s.%s" % (f.path, g, f.attribute))
    src.append("    return out")
    m = r.w.program("\n".join(src))
    for p in r.each_path(m, "run", "reading a snapshot without optional entries"):
        for path in r.model.nodes:
            a = arr(p.ret[path])
            if a is None:
                r.ob(None, "optional", path, "reading %s gives %s" % (path, tm.show(p.ret[path])[:60]))
                continue
            r.eq("optional", path + " scale-factor dependence", a["cf"], T("cosmo_factor", 1, sym("afile")))
            r.eq("optional", path + " frame", a["comoving"], True)
            r.eq("optional", path + " transformability", a["valid_transform"], True)


DATES = [({"SnapshotDate": b"12:00:00 2020-01-01 UTC"}, "12:00:00 2020-01-01 UTC"), ({"SnapshotDate": "12:00:01 2020-01-01 UTC"}, "12:00:01 2020-01-01 UTC"),
         ({"SnapshotDate": None, "Snapshot date": b"12:00:02 2020-01-01 UTC"}, "12:00:02 2020-01-01 UTC"), ({"SnapshotDate": None, "Snapshot date": "12:00:03 2020-01-01 UTC"}, "12:00:03 2020-01-01 UTC"),
         ({"SnapshotDate": b"12:00:04 2020-01-01 UTC", "Snapshot date": b"other"}, "12:00:04 2020-01-01 UTC")]


def dates(rep):
    for header, want in DATES:
        r = Meta(rep, sm.snapshot(header=header), "a snapshot written at %s" % want)
        for p in r.paths(["snapshot_date"]):
            d = p.ret[1]["snapshot_date"]
            s = [z for z in tm.walk(d) if isinstance(z, (str, bytes))] if isinstance(d, Term) else [d]
            r.ob(True if want in s else False if isinstance(d, (str, bytes)) or any(isinstance(z, (str, bytes)) and z[:3] in ("12:", b"12:", "", b"", "oth") for z in s) else None,
                 "header", "snapshot_date", "the snapshot date %s is read as %s" % (want, tm.show(d)[:80]), "swiftsimio/metadata/objects.py")
    for field in ("Time", "Redshift", "Dimension"):
        r = Meta(rep, sm.snapshot(header={field: None}), "a snapshot without %s" % field)
        for p in r.paths(HEADER):
            units, o, m = p.ret
            for f, names, v in (("Time", ("time", "t"), None), ("Redshift", ("redshift", "z"), sym("zfile")), ("Dimension", ("dimension",), sym("ndim")), ("Scale", ("a", "scale_factor"), sym("afile"))):
                for k in names:
                    if f == field:
                        r.eq("optional", k, o[k], "no such attribute")
                    elif v is not None:
                        r.eq("optional", k, o[k], v)
                    else:
                        r.qty(k, o[k], sym("tfile"), units["time"])
    r = Meta(rep, sm.snapshot(header={"Scale-factor": None}), "a snapshot without a scale factor")
    for p in r.paths(HEADER):
        for k in ("a", "scale_factor"):
            r.eq("optional", k, p.ret[1][k], 1.0)
    for n in (1, 4):
        r = Meta(rep, sm.snapshot(header={"NumFilesPerSnapshot": n}), "a snapshot in %d files" % n)
        for p in r.paths(HEADER):
            r.eq("header", "partial_snapshot", p.ret[1]["partial_snapshot"], n > 1)
            r.eq("header", "num_files_per_snapshot", p.ret[1]["num_files_per_snapshot"], n)
    # particle types that may be present but are empty in this file
    model = sm.snapshot((0, 1, 4), header={"CanHaveTypes": ip.AList([1, 1, 0, 0, 1, 0, 0]), "NumPart_ThisFile": ip.AList([sm.COUNT[0], 0, 0, 0, 0, 0, 0])})
    r = Meta(rep, model, "a snapshot with empty types")
    for p in r.paths(HEADER):
        r.groups(p.ret[1], ["PartType0", "PartType1", "PartType4"], ["gas", "dark_matter", "stars"], "SWIFTSnapshotMetadata")


def info_strings(rep):
    names = ["Code", "Git Branch", "Git Revision", "Git Date", "Compiler Name", "Compiler Version", "MPI library", "FFTW library version", "GSL library version", "HDF5 library version"]
    model = sm.snapshot()
    extra = model.extra
    model.extra = lambda: dict(extra(), Code=h5.group({}, {k: ("<%s>" % k).encode() for k in names}))
    r = Meta(rep, model, "a snapshot")
    m = r.w.program("from swiftsimio import load\ndef run():\n    m = load('snap.hdf5').metadata\n    return m.code_info, m.compiler_info, m.library_info")
    for p in r.each_path(m, "run", "reading the code information"):
        for s, ks in zip(p.ret, (names[:4], names[4:7], names[7:])):
            for k in ks:
                r.ob(None if not isinstance(s, str) else "<%s>" % k in s, "info", k, "the entry %s is missing from %r" % (k, s), "swiftsimio/metadata/objects.py")


def discriminator(rep):
    KIND = {"FullVolume": "SWIFTSnapshotMetadata", "VolumeSubset": "SWIFTSnapshotMetadata", "LineOfSight": "SWIFTLineOfSightMetadata", "SOAP": "SWIFTSOAPMetadata",
            "SOAPSubset": "SWIFTSOAPMetadata", "FOF": "SWIFTFOFMetadata", "FOFSubset": "SWIFTFOFMetadata", None: "SWIFTSnapshotMetadata", "Bogus": None}
    for kind, cls in KIND.items():
        model = {"SOAP": sm.soap, "FOF": sm.fof, "LineO": sm.los}.get((kind or "")[:5].replace("Subse", ""), sm.snapshot)()
        if kind and kind.startswith("SOAP"):
            model = sm.soap()
        if kind and kind.startswith("FOF"):
            model = sm.fof()
        for enc in (True, False):
            model.header["OutputType"] = kind.encode() if enc and kind else kind
            r = Meta(rep, model, "a file of type %s" % kind)
            for how in ("'snap.hdf5'", "h5py.File('snap.hdf5', 'r')"):
                m = r.w.program("import h5py\nfrom swiftsimio import load\ndef run():\n    return type(load(%s).metadata).__name__" % how)
                if cls is None:
                    for p in r.w.run(m):
                        r.ob(p.exc is not None and p.exc.name == "ValueError", "file-type", str(kind), "a file of unknown type is loaded as %s" % (p.ret if p.exc is None else p.exc.name))
                else:
                    for p in r.each_path(m, "run", "loading a file of type %s" % kind):
                        r.eq("file-type", str(kind), p.ret, cls)


def mapping_tables(rep):
    def extra():
        d = sm.subgrid()
        s = d["SubgridScheme"]["items"]
        s["NamedColumns"]["items"]["DustMassFractions"] = h5.dset((2,), value=ip.AList([b"Graphite", b"Silicate"]))
        s["DustToElementMapping"] = h5.dset((2, 3))
        s["GrainToElementMapping"] = h5.dset((2, 3))
        s["OtherTable"] = h5.dset((2, 3))
        return d
    r = Meta(rep, sm.snapshot(extra=extra), "a snapshot with mapping tables")
    m = r.w.program("""
from swiftsimio import load
def run():
    m = load('snap.hdf5').metadata
    out = {}
    for t in ('dust_to_element_mapping', 'grain_to_element_mapping'):
        for x in ('graphite', 'silicate'):
            for y in ('hydrogen', 'helium', 'carbon'):
                out[t + '.' + x + '_to_' + y] = getattr(getattr(m, t), x + '_to_' + y)
    return out
""")
    for p in r.each_path(m, "run", "reading mapping tables"):
        for t, path in (("dust_to_element_mapping", "DustToElementMapping"), ("grain_to_element_mapping", "GrainToElementMapping")):
            for i, x in enumerate(("graphite", "silicate")):
                for j, y in enumerate(("hydrogen", "helium", "carbon")):
                    k = "%s.%s_to_%s" % (t, x, y)
                    base = T("data", "SubgridScheme/" + path, ())
                    got = flat_idx(p.ret[k])
                    r.ob(None if got is None else got == ("SubgridScheme/" + path, i, j), "mapping-table", k, "%s is %s" % (k, tm.show(p.ret[k])[:80]))


def flat_idx(t):
    idx = []
    while isinstance(t, Term) and t.op == "idx":
        s = t.args[1]
        idx = (list(s.args) if isinstance(s, Term) and s.op == "tuple" else [s]) + idx
        t = t.args[0]
    if isinstance(t, Term) and t.op == "data":
        sel = t.args[1]
        idx = list(sel.args if isinstance(sel, Term) else sel) + idx
        return (t.args[0],) + tuple(idx)
    return None


def nearest_unit(rep):
    r = Reader(rep, sm.snapshot())
    w = World(rep.root, r.model.tree, nearest=False)
    m = w.program("from swiftsimio.metadata.unit.unit_types import find_nearest_base_unit as f, possible_base_units as b\ndef run(u, d):\n    return f(u, d), b[d]")
    for d in sm.BASE:
        u = T("call", Ext("unyt.unyt_quantity"), sym("value"), T("kw", "units", Ext("unyt." + CGS[d])))
        try:
            ps = w.run(m, "run", (u, d))
        except AnalysisError as ex:
            r.ob(None, "base-unit", d, str(ex)[:100])
            continue
        for p in ps:
            if p.exc is not None:
                r.ob(None, "base-unit", d, "finding the base unit of a %s raises %s" % (d, p.exc.name))
                continue
            got, bases = p.ret
            q = quantity(got)
            if q is None:
                r.ob(None, "base-unit", d, "the base unit is %s" % tm.show(got)[:100])
                continue
            uses = [z for z in tm.walk(q[0]) if isinstance(z, Term) and z.op in ("mcall", "method", "call") and tm.show(z).startswith(("method('to'", "to(", "call(attr"))]
            rep.count("base_units")
            s = tm.show(q[0])
            r.ob(True if tm.show(q[1]) in s and "value" in s and "to" in s else None, "base-unit", d, "the base unit's value %s does not convert the given unit to its unit %s" % (s[:100], tm.show(q[1])[:60]))


# entries of the group that do not enter the conversion (values at the time of the output, derived quantities)
PRESENT = ("w", "Omega_nu", "Omega_nu_0", "Omega_k", "Omega_cdm", "Omega_g", "Omega_gas", "h", "H [internal units]", "Redshift", "Scale-factor", "T_CMB_0 [internal units]", "T_nu_0 [eV]", "T_nu_0 [internal units]", "Critical density [internal units]",
           "Critical density at redshift zero [internal units]", "Growth factor", "Hubble time [internal units]", "Universe age [internal units]", "Lookback time [internal units]", "N_nu", "M_nu_min", "a_beg", "a_end", "time_beg [internal units]", "time_end [internal units]")


def cosmology(rep):
    KEYS = {"H0 [internal units]": "H0", "Omega_b": "Ob", "Omega_lambda": "Ode", "Omega_r": "Or", "Omega_m": "Om", "w_0": "w0", "w_a": "wa", "T_CMB_0 [K]": "Tcmb", "N_eff": "Neff",
            "M_nu_eV": "Mnu", "deg_nu": "deg", "N_ur": "Nur"}
    model = sm.snapshot()
    extra = model.extra
    model.extra = lambda: dict(extra(), Cosmology=h5.group({}, dict({k: (sym("cosmo_" + v),) for k, v in KEYS.items()}, **dict({k: (sym("present_" + k),) for k in PRESENT}, **{"Cosmological run": 1}))))
    r = Meta(rep, model, "a cosmological snapshot")
    NU = "swiftsimio.conversions:swift_neutrinos_to_astropy"
    def nu(i, a, k, n):
        return T("neutrinos", *r.w.bound(NU, a, k, n))
    r.w.it.fn_models[NU] = nu
    r.w.facts[T("eq0", sym("cosmo_Tcmb")).key()] = False
    m = r.w.program("from swiftsimio import load\ndef run():\n    m = load('snap.hdf5').metadata\n    return m.cosmology, m.units.time")
    for p in r.each_path(m, "run", "loading a cosmological snapshot"):
        c, time = p.ret
        if not (isinstance(c, Term) and c.op == "call" and isinstance(c.args[0], Ext) and c.args[0].path.endswith("w0waCDM")):
            r.ob(False if c is None else None, "cosmology", "cosmology", "the cosmology of a cosmological run is %s" % tm.show(c)[:80])
            continue
        kw = {a.args[0]: a.args[1] for a in c.args[1:] if isinstance(a, Term) and a.op == "kw"}
        for name, a in zip(("H0", "Om0", "Ode0", "w0", "wa", "Tcmb0", "Neff", "m_nu", "Ob0"), [a for a in c.args[1:] if not (isinstance(a, Term) and a.op == "kw")]):
            kw[name] = a
        for name, s in (("Om0", "Om"), ("Ode0", "Ode"), ("w0", "w0"), ("wa", "wa"), ("Tcmb0", "Tcmb"), ("Neff", "Neff"), ("Ob0", "Ob")):
            r.ob(verdict(kw.get(name), sym("cosmo_" + s)) if name in kw else False, "cosmology", name, "%s of the cosmology is %s" % (name, tm.show(kw.get(name))[:80]), "swiftsimio/conversions.py")
        h = [z for z in tm.walk(kw.get("H0")) if quantity(z)]
        ok = None
        if h:
            v, u = quantity(h[0])
            ok = verdict(v, sym("cosmo_H0")) and verdict(u, tm.div(1, time))
        r.ob(ok, "cosmology", "H0", "H0 of the cosmology is %s" % tm.show(kw.get("H0"))[:120], "swiftsimio/conversions.py")
        f = kw.get("m_nu")
        ok = None
        if isinstance(f, Term) and f.op == "neutrinos":
            ok = [tm._key(strip(x)) for x in f.args] == [tm._key(sym("cosmo_" + x)) for x in ("Neff", "Nur", "Mnu", "deg")]
        r.ob(ok, "cosmology", "m_nu", "the neutrino masses come from %s" % tm.show(f)[:120], "swiftsimio/conversions.py")

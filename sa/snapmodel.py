"""Model files: a snapshot, a SOAP catalogue, a FOF catalogue and a line-of-sight file.

Shapes and names are concrete; every number that matters is either a symbol or distinct per field, so that
a value taken from the wrong place is never equal to the right one."""
from .terms import T, sym
from . import interp as ip
from . import h5model as h5
from .h5model import group, dset, soft

PT = {0: "gas", 1: "dark_matter", 2: "boundary", 3: "sinks", 4: "stars", 5: "black_holes", 6: "neutrinos", 7: "sidm"}
EXPS = [(0.0, 1.0, 0.0, 0.0, 0.0), (0.0, 0.0, 1.0, 0.0, 0.0), (0.0, 1.0, 0.0, 0.0, -1.0), (0.0, 2.0, 0.0, 0.0, -2.0), (0.0, -3.0, 1.0, 0.0, 0.0),
        (0.0, 0.0, 0.0, 1.0, 0.0), (0.0, 0.0, 0.0, 0.0, 0.0), (1.0, -1.0, 0.5, 0.0, -0.5), (0.0, -1.0, 1.0, 0.0, -2.0), (0.0, 0.0, 0.0, 0.0, 1.0),
        (2.0, 0.0, -1.0, 1.0, 3.0)]
UNITS = ["U_I exponent", "U_L exponent", "U_M exponent", "U_T exponent", "U_t exponent"]
BASE = ["current", "length", "mass", "temperature", "time"]
SYMB = ["I", "L", "M", "T", "t"]
COUNT = [1013 + 97 * t for t in range(8)]
SNAKE = {"Coordinates": "coordinates", "Velocities": "velocities", "Masses": "masses", "Densities": "densities", "ElementMassFractions": "element_mass_fractions",
         "SpeciesFractions": "species_fractions", "HIIRegionsLastRebuild": "hiiregions_last_rebuild", "ParticleIDs": "particle_ids", "SmoothingLengths": "smoothing_lengths",
         "BirthScaleFactors": "birth_scale_factors", "DynamicalMasses": "dynamical_masses", "TotalMass": "total_mass", "CentreOfMass": "centre_of_mass", "LxR200": "lx_r200",
         "HaloCentre": "halo_centre", "HostFOFId": "host_fofid", "Centres": "centres", "GroupIDs": "group_ids", "Sizes": "sizes", "U": "u", "NoutputSteps": "noutput_steps",
         "CoolingTime": "cooling_time", "StressTensors": "stress_tensors"}


class Field:
    """one dataset of the model file and what its labels have to be"""

    def __init__(self, path, shape, n, attribute, columns=None, value=None):
        self.path, self.shape, self.n, self.attribute = path, shape, n, attribute
        self.exps = EXPS[n % len(EXPS)]
        self.phys = n % 2
        self.conv = (n // 2) % 2
        self.aexp = sym("aexp:" + path)
        self.desc = "Description of %s." % path
        self.comp = "filter-%d" % n
        self.compressed = n % 5 != 4
        self.masked = n % 3 == 1
        self.columns = columns
        self.value = value
        enc = (lambda s: s.encode()) if n % 4 < 2 else (lambda s: s)
        self.attrs = {u: (e,) for u, e in zip(UNITS, self.exps)}
        self.attrs.update({"a-scale exponent": (self.aexp,), "h-scale exponent": (0.0,), "Value stored as physical": (self.phys,),
                           "Property can be converted to comoving": (self.conv,), "Description": enc(self.desc), "Lossy compression filter": enc(self.comp),
                           "Is Compressed": self.compressed, "Masked": self.masked})
        if self.masked:
            self.attrs["Mask Datasets"] = ip.AList(["DsetA%d" % n, "DsetB%d" % n])
            self.attrs["Mask Threshold"] = 100 + n

    def node(self):
        return dset(self.shape, self.attrs, self.value)


class GroupAttr:
    def __init__(self, group, name, attribute, value, units=(0, 0, 0, 0, 0), comoving=False, exponent=0.0):
        self.group, self.name, self.attribute, self.value, self.units, self.comoving, self.exponent = group, name, attribute, value, units, comoving, exponent


class ModelFile:
    """a tree, the fields a user reaches ({python group name: [Field]}) and the group attributes"""

    def __init__(self, name="snap.hdf5"):
        self.name, self.n = name, 0
        self.fields, self.attrs, self.groups, self.nodes = {}, {}, {}, {}
        self.header, self.extra, self.gattrs = {}, {}, {}

    def add(self, h5group, pygroup, names, rows, columns={}):
        self.groups[h5group] = pygroup
        fs = self.fields.setdefault(pygroup, [])
        for name, cols in names:
            self.n += 1
            f = Field(h5group + "/" + name, (rows,) + (cols if isinstance(cols, tuple) else (cols,) if cols else ()), self.n, SNAKE[name], columns.get(name))
            fs.append(f)
            self.nodes[f.path] = f

    def tree(self):
        items = dict(self.extra() if callable(self.extra) else self.extra)
        hd = {"BoxSize": sym("BoxSize"), "NumFilesPerSnapshot": (1,), "OutputType": "FullVolume", "Scale-factor": (sym("afile"),), "Redshift": (sym("zfile"),),
              "Time": (sym("tfile"),), "Dimension": (sym("ndim"),), "RunName": b"run", "SelectOutput": b"Default", "System": b"sys",
              "SnapshotDate": b"12:00:00 2020-01-01 UTC"}
        hd.update(self.header)
        items["Header"] = group({}, {k: v for k, v in hd.items() if v is not None})
        items["Units"] = group({}, {"Unit %s in cgs (U_%s)" % (b, s): (sym("U_" + s),) for b, s in zip(BASE, SYMB)})
        for name in ("InternalCodeUnits", "GravityScheme", "Policy", "RuntimePars", "StarsScheme", "UnusedParameters"):
            items.setdefault(name, group({}, {"the " + name: sym("value of " + name)}))
        items.setdefault("HydroScheme", group({}, {"Adiabatic index": sym("gamma"), "the HydroScheme": sym("value of HydroScheme")}))
        items.setdefault("Cosmology", group({}, {"Cosmological run": 0}))
        items.setdefault("Parameters", group({}, {"OutputType": b"FullVolume", "the Parameters": sym("value of Parameters")}))
        items.setdefault("Code", group({}, {"Code": b"SWIFT", "the Code": sym("value of Code")}))
        for g in self.groups:
            self.place(items, g, group({}, self.gattrs.get(g, {})))
        for path, f in self.nodes.items():
            self.place(items, path, f.node())
        return {self.name: group(items, {})}

    def place(self, items, path, node):
        parts = path.split("/")
        for p in parts[:-1]:
            items = items.setdefault(p, group({}, {}))["items"]
        if parts[-1] in items:
            node["items"].update(items[parts[-1]]["items"])
        items[parts[-1]] = node


NAMES = {0: [("Coordinates", 3), ("Velocities", 3), ("Masses", 0), ("Densities", 0), ("ElementMassFractions", 3), ("SpeciesFractions", 2), ("HIIRegionsLastRebuild", 0),
             ("ParticleIDs", 0), ("SmoothingLengths", 0), ("U", 0), ("NoutputSteps", 0)],
         1: [("Coordinates", 3), ("Velocities", 3), ("Masses", 0), ("ParticleIDs", 0)],
         4: [("Coordinates", 3), ("Masses", 0), ("ElementMassFractions", 3), ("BirthScaleFactors", 0), ("StressTensors", (3, 3))],
         5: [("Coordinates", 3), ("DynamicalMasses", 0)], 6: [("Coordinates", 3), ("Masses", 0)], 2: [("Coordinates", 3)], 3: [("Coordinates", 3)], 7: [("Coordinates", 3)]}
COLUMNS = {"ElementMassFractions": ["hydrogen", "helium", "carbon"], "SpeciesFractions": ["HI", "HII"]}


def subgrid():
    return {"SubgridScheme": group({"NamedColumns": group({"ElementMassFractions": dset((3,), value=ip.AList([b"Hydrogen", b"Helium", b"Carbon"])),
                                                           "SpeciesFractions": dset((2,), value=ip.AList([b"HI", b"HII"]))}),
                                    "PhotonGroupEdges": dset((3,)), "ReducedLightspeed": dset((1,))}, {"the SubgridScheme": sym("value of SubgridScheme")}),
            "GasParticles": soft("/PartType0")}


def snapshot(present=(0, 1, 4, 5), length=7, cells=None, header=None, extra=subgrid):
    m = ModelFile()
    for t in present:
        m.add("PartType%d" % t, PT[t], NAMES[t], COUNT[t], COLUMNS)
    counts = ip.AList([COUNT[t] if t in present else 0 for t in range(length)])
    m.header = {"NumPart_ThisFile": counts, "NumPart_Total": ip.AList(counts), "MassTable": ip.AList([sym("mt%d" % i) for i in range(length)]),
                "InitialMassTable": ip.AList([sym("imt%d" % i) for i in range(length)])}
    m.header.update(header or {})

    def ex():
        d = dict(extra())
        if cells:
            d["Cells"] = cells()
        return d
    m.extra = ex
    return m


def soap(cells=None):
    m = ModelFile()
    types = [("BoundSubhalo", "bound_subhalo"), ("SO/200_crit", "spherical_overdensity_200_crit"), ("ExclusiveSphere/30kpc", "exclusive_sphere_30kpc"),
             ("InclusiveSphere/50kpc", "inclusive_sphere_50kpc"), ("InputHalos", "input_halos"), ("InputHalos/HBTplus", "input_halos_hbtplus"), ("SOAP", "soap"),
             ("ProjectedAperture/30kpc/projx", "projected_aperture_30kpc_projx")]
    for i, (g, py) in enumerate(types):
        m.add(g, py, [("HaloCentre", 3), ("HostFOFId", 0)] if i in (4, 5) else [("TotalMass", 0), ("CentreOfMass", 3)] if i % 2 else [("CentreOfMass", 3), ("LxR200", 0)], 733)
    m.header = {"OutputType": "SOAP", "SubhaloTypes": ip.AList([g for g, _ in types]), "NumSubhalos_ThisFile": (733,), "NumPart_ThisFile": ip.AList([0] * 7)}
    m.extra = (lambda: {"Cells": cells()}) if cells else {}
    return m


def fof():
    m = ModelFile()
    m.add("Groups", "fof_groups", [("Centres", 3), ("GroupIDs", 0), ("Masses", 0), ("Sizes", 0)], 517)
    m.header = {"OutputType": "FOF", "NumGroup_ThisFile": (517,), "NumPart_ThisFile": ip.AList([0] * 7)}
    return m


def los():
    m = ModelFile()
    m.header = {"OutputType": b"LineOfSight", "NumPart_ThisFile": ip.AList([0] * 7)}
    for i in (0, 3):
        g, py = "LOS_%04d" % i, "los_%04d" % i
        m.add(g, py, [("Coordinates", 3), ("Masses", 0), ("ElementMassFractions", 3)], 211 + i, COLUMNS)
        L = (0, 1, 0, 0, 0)
        m.attrs[py] = [GroupAttr(g, "Xpos", "xpos", (sym("xpos%d" % i),), L, True, 1.0), GroupAttr(g, "Ypos", "ypos", (sym("ypos%d" % i),), L, True, 1.0),
                       GroupAttr(g, "Zaxis", "zaxis", (sym("zaxis%d" % i),)), GroupAttr(g, "NumParts", "num_parts", (sym("np%d" % i),))]
        m.gattrs[g] = {a.name: a.value for a in m.attrs[py]}
    m.extra = subgrid
    return m


def cells(groups, ncell=8, minmax=True, offsets="OffsetsInFile"):
    """Cells group of a file: counts, offsets, extents, all unknown arrays"""
    def make():
        per = lambda shape: group({g: dset(shape) for g in groups})
        d = {"Counts": per((ncell,)), offsets: per((ncell,)), "Centres": dset((ncell, 3)), "Meta-data": group({}, {"size": sym("cell size"), "nr_cells": (ncell,)})}
        if minmax:
            d["MinPositions"] = per((ncell, 3))
            d["MaxPositions"] = per((ncell, 3))
        return group(d, {})
    return make

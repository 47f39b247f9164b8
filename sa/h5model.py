"""A model of the HDF5 file API, written in the analysed language itself.

Client programs of the library are interpreted against model files: a tree of groups and datasets of
concrete shape whose contents, attributes and sizes are symbols.  Every access is an event, the model
raises what h5py raises (missing names, closed files)."""
import copy

from . import terms as tm
from .terms import Term, T, sym
from . import interp as ip
from .interp import Inst, PyFunc, Ext, Cls
from .narr import NA

SOURCE = '''
class ndarray:
    def __getattr__(self, name):
        return unmodelled(self, name)
    # a one-dimensional array of known length
    def __init__(self, v):
        self.v = list(v)
    def __len__(self):
        return len(self.v)
    def __iter__(self):
        return self.v
    def __getitem__(self, i):
        if isinstance(i, int):
            return self.v[i]
        if isinstance(i, slice):
            return ndarray(self.v[i])
        if isinstance(i, (ndarray, list)):
            if len(i) > 0 and isinstance(i[0], bool):
                return ndarray([x for x, k in zip(self.v, i) if k])
            return ndarray([self.v[k] for k in i])
        return self.v[i]
    def __setitem__(self, i, x):
        self.v[i] = x
    def _z(self, o):
        return list(o) if isinstance(o, (ndarray, list, tuple)) else [o] * len(self.v)
    def __eq__(self, o):
        return ndarray([a == b for a, b in zip(self.v, self._z(o))])
    def __ne__(self, o):
        return ndarray([a != b for a, b in zip(self.v, self._z(o))])
    def __gt__(self, o):
        return ndarray([a > b for a, b in zip(self.v, self._z(o))])
    def __ge__(self, o):
        return ndarray([a >= b for a, b in zip(self.v, self._z(o))])
    def __lt__(self, o):
        return ndarray([a < b for a, b in zip(self.v, self._z(o))])
    def __le__(self, o):
        return ndarray([a <= b for a, b in zip(self.v, self._z(o))])
    def __add__(self, o):
        return ndarray([a + b for a, b in zip(self.v, self._z(o))])
    def __sub__(self, o):
        return ndarray([a - b for a, b in zip(self.v, self._z(o))])
    def __mul__(self, o):
        return ndarray([a * b for a, b in zip(self.v, self._z(o))])
    def astype(self, t, **kw):
        return self
    def tolist(self):
        return self.v
    def copy(self):
        return ndarray(self.v)
    def sum(self):
        s = 0
        for x in self.v:
            s = s + x
        return s
    @property
    def size(self):
        return len(self.v)
    @property
    def shape(self):
        return (len(self.v),)
    @property
    def ndim(self):
        return 1


def np_array(x, *a, **kw):
    if isinstance(x, ndarray):
        return x
    return ndarray(x)


def np_where(c):
    return (ndarray([i for i, k in enumerate(c) if k]),)


class Pattern:
    def __getattr__(self, name):
        return unmodelled(self, name)
    def __init__(self, p):
        self.pattern = p
    def match(self, s):
        return re_do("match", self.pattern, s)
    def search(self, s):
        return re_do("search", self.pattern, s)
    def fullmatch(self, s):
        return re_do("fullmatch", self.pattern, s)
    def sub(self, r, s):
        return re_do("sub", self.pattern, r, s)


class Match:
    def __getattr__(self, name):
        return unmodelled(self, name)
    def __init__(self, all, groups):
        self.all, self.g = all, groups
    def group(self, *i):
        if len(i) == 0:
            return self.all
        if len(i) > 1:
            return tuple([self.group(k) for k in i])
        return self.all if i[0] == 0 else self.g[i[0] - 1]
    def groups(self):
        return self.g
    def __getitem__(self, i):
        return self.group(i)


class Path:
    def __getattr__(self, name):
        return unmodelled(self, name)
    def __init__(self, p):
        self.p = p.p if isinstance(p, Path) else p
        self.name = self.p
    def samefile(self, o):
        return _pstr(o) == self.p
    def __str__(self):
        return self.p
    def __fspath__(self):
        return self.p
    def exists(self):
        return self.p in FILES
    def is_file(self):
        return self.p in FILES
    def resolve(self):
        return self
    def absolute(self):
        return self
    def __eq__(self, o):
        return isinstance(o, Path) and o.p == self.p


def _pstr(x):
    return x.p if isinstance(x, Path) else x


class AttributeManager:
    def __getattr__(self, name):
        return unmodelled(self, name)
    def __init__(self, node, file, path):
        self._n, self._f, self._p = node, file, path
    def _touch(self, what, k=None):
        self._f._touch(what, self._p, k)
    def __getitem__(self, k):
        self._touch("attr", k)
        if k in self._n["attrs"]:
            return attrval(self._n["attrs"][k])
        raise KeyError(k)
    def get(self, k, default=None):
        self._touch("attr", k)
        if k in self._n["attrs"]:
            return attrval(self._n["attrs"][k])
        return default
    def __setitem__(self, k, v):
        self._touch("setattr", k)
        self._n["attrs"][k] = v
        record("attr_write", self._f, self._p, k, v)
    def create(self, k, v, *a, **kw):
        self[k] = v
    def modify(self, k, v):
        self[k] = v
    def __contains__(self, k):
        self._touch("attr", k)
        return k in self._n["attrs"]
    def keys(self):
        self._touch("attr")
        return list(self._n["attrs"].keys())
    def values(self):
        return [self[k] for k in self.keys()]
    def items(self):
        return [(k, self[k]) for k in self.keys()]
    def __iter__(self):
        return self.keys()
    def __len__(self):
        return len(self._n["attrs"])


class Node:
    def __getattr__(self, name):
        return unmodelled(self, name)
    @property
    def attrs(self):
        self.file._touch("attrs", self._path, None)
        return AttributeManager(self._node, self.file, self._path)
    @property
    def name(self):
        return "/" + self._path


class Dataset(Node):
    def __init__(self, node, file, path):
        self._node, self.file, self._path = node, file, path
    @property
    def shape(self):
        self.file._touch("shape", self._path, None)
        return self._node["shape"]
    @property
    def ndim(self):
        self.file._touch("shape", self._path, None)
        return len(self._node["shape"])
    @property
    def size(self):
        self.file._touch("shape", self._path, None)
        s = 1
        for x in self._node["shape"]:
            s = s * x
        return s
    @property
    def dtype(self):
        self.file._touch("dtype", self._path, None)
        return sym("dtype:" + self._path)
    @property
    def chunks(self):
        return self._node.get("chunks", None)
    def __len__(self):
        return self._node["shape"][0]
    def __getitem__(self, sel):
        self.file._touch("read", self._path, sel)
        if too_many(sel, self._node["shape"]):
            raise ValueError("too many indices")
        if "value" in self._node:
            v = self._node["value"]
            if whole(sel):
                return fresh(v)
            return v[sel]
        return read(self._path, sel)
    def __setitem__(self, sel, v):
        self.file._touch("write", self._path, sel)
        record("data_write", self.file, self._path, sel, v)
        if whole(sel):
            self._node["value"] = v
        else:
            partial(self._node, self._path, sel, v)
    def read_direct(self, dest, source_sel=None, dest_sel=None):
        self.file._touch("read", self._path, source_sel)
        record("read_direct", self, dest, source_sel, dest_sel)


class Group(Node):
    def __init__(self, node, file, path):
        self._node, self.file, self._path = node, file, path
    def _wrap(self, node, path):
        if node["kind"] == "group":
            return Group(node, self.file, path)
        if node["kind"] == "soft":
            return self.file._lookup(node["target"])
        return Dataset(node, self.file, path)
    def _lookup(self, path):
        node, full = self._node, self._path
        for part in path.split("/"):
            if part == "":
                continue
            if node["kind"] == "soft":
                node = self.file._find(node["target"])
            if node["kind"] != "group" or part not in node["items"]:
                raise KeyError(path)
            node = node["items"][part]
            full = full + "/" + part if full else part
        return self._wrap(node, full)
    def _find(self, path):
        node = self._node
        for part in path.split("/"):
            if part == "":
                continue
            if node["kind"] != "group" or part not in node["items"]:
                raise KeyError(path)
            node = node["items"][part]
        return node
    def __getitem__(self, path):
        self.file._touch("open", self._path, path)
        if path.startswith("/"):
            return self.file._lookup(path)
        return self._lookup(path)
    def get(self, path, default=None, getclass=False, getlink=False):
        self.file._touch("open", self._path, path)
        try:
            if getlink:
                node = self._find(path)
                if node["kind"] == "soft":
                    return SoftLink(node["target"])
                return HardLink()
            return self[path]
        except KeyError:
            return default
    def __contains__(self, path):
        self.file._touch("open", self._path, path)
        try:
            self._lookup(path)
        except KeyError:
            return False
        return True
    def keys(self):
        self.file._touch("keys", self._path, None)
        return list(self._node["items"].keys())
    def values(self):
        return [self[k] for k in self.keys()]
    def items(self):
        return [(k, self[k]) for k in self.keys()]
    def __iter__(self):
        return self.keys()
    def __len__(self):
        return len(self._node["items"])
    def _make(self, path, node):
        parts = [p for p in path.split("/") if p]
        cur, full = self._node, self._path
        for part in parts[:-1]:
            if part not in cur["items"]:
                cur["items"][part] = {"kind": "group", "items": {}, "attrs": {}}
            cur = cur["items"][part]
            full = full + "/" + part if full else part
        if parts[-1] in cur["items"]:
            raise ValueError("name already exists: " + path)
        cur["items"][parts[-1]] = node
        full = full + "/" + parts[-1] if full else parts[-1]
        return full
    def create_group(self, path):
        self.file._touch("create", self._path, path)
        node = {"kind": "group", "items": {}, "attrs": {}}
        full = self._make(path, node)
        record("create_group", self.file, full)
        return Group(node, self.file, full)
    def require_group(self, path):
        if path in self:
            return self[path]
        return self.create_group(path)
    def create_dataset(self, path, shape=None, dtype=None, data=None, **kw):
        self.file._touch("create", self._path, path)
        node = {"kind": "dataset", "shape": (sym("rows:" + path),), "attrs": {}, "value": data}
        full = self._make(path, node)
        record("create_dataset", self.file, full, shape, dtype, data, kw)
        return Dataset(node, self.file, full)
    def __setitem__(self, path, v):
        self.file._touch("create", self._path, path)
        if isinstance(v, SoftLink):
            node = {"kind": "soft", "target": v.path, "attrs": {}}
            full = self._make(path, node)
            record("create_link", self.file, full, v.path)
        else:
            self.create_dataset(path, data=v)
    def __delitem__(self, path):
        self.file._touch("delete", self._path, path)
        record("delete", self.file, self._path, path)
        parts = [p for p in path.split("/") if p]
        node = self._node
        for part in parts[:-1]:
            node = node["items"][part]
        del node["items"][parts[-1]]
    def copy(self, src, dst, name=None, **kw):
        self.file._touch("copy", self._path, None)
        record("copy", self.file, self._path, src, dst, name)
        if isinstance(src, str):
            src = self[src]
        target = dst
        if isinstance(dst, str):
            target, name = self, dst
        if name is None:
            name = src._path.split("/")[-1]
        target._make(name, clone(src._node))
    def visit(self, f):
        self._visit(f, "", False)
    def visititems(self, f):
        self._visit(f, "", True)
    def _visit(self, f, prefix, obj):
        for k in self.keys():
            node = self._node["items"][k]
            if node["kind"] == "soft":
                continue
            p = prefix + "/" + k if prefix else k
            o = self[k]
            if obj:
                f(p, o)
            else:
                f(p)
            if isinstance(o, Group):
                o._visit(f, p, obj)


class SoftLink:
    def __init__(self, path):
        self.path = path


class HardLink:
    pass


class File(Group):
    def __init__(self, filename, mode="r", **kw):
        name = _pstr(filename)
        self._isopen = True
        self.file = self
        self.mode = mode
        self.filename = name
        self._path = ""
        self._opened = True
        if mode in ("r", "r+", "a"):
            if name in FILES:
                self._node = FILES[name]
            elif mode == "a":
                FILES[name] = {"kind": "group", "items": {}, "attrs": {}}
                self._node = FILES[name]
            else:
                raise FileNotFoundError(name)
        else:
            FILES[name] = {"kind": "group", "items": {}, "attrs": {}}
            self._node = FILES[name]
        record("file_open", self, name, mode)
    def _touch(self, what, path, k):
        record("touch", self, what, path, k)
        if not self._isopen:
            record("use_after_close", self, what, path, k)
            raise ValueError("Invalid location identifier (closed file)")
    def close(self):
        record("file_close", self)
        self._isopen = False
    def flush(self):
        pass
    def __bool__(self):
        return self._isopen
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()
'''


ND = """T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy cumprod cumsum data diagonal dot dtype
dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real
repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace
transpose var view"""
GR = """attrs build_virtual_dataset clear copy create_dataset create_dataset_like create_group create_virtual_dataset file get id items keys move name parent pop
popitem ref regionref require_dataset require_group setdefault track_order update values visit visit_links visititems visititems_links"""
REAL = {"ndarray": ND.split(), "Group": GR.split(), "File": GR.split() + "close driver filename flush libver mode swmr_mode userblock_size meta_block_size".split(),
        "Dataset": """asstr astype attrs chunks compression compression_opts dims dtype external fields file fillvalue fletcher32 flush id is_scale is_virtual
            iter_chunks len make_scale maxshape name nbytes ndim parent read_direct ref refresh regionref resize scaleoffset shape shuffle size virtual_sources
            write_direct""".split(),
        "AttributeManager": "clear create get get_id items keys modify pop popitem setdefault update values".split(),
        "Pattern": "findall finditer flags fullmatch groupindex groups match pattern scanner search split sub subn".split(),
        "Match": "end endpos expand group groupdict groups lastgroup lastindex pos re regs span start string".split(),
        "Path": """absolute anchor as_posix as_uri chmod cwd drive exists expanduser glob group home is_absolute is_dir is_file is_symlink iterdir joinpath
            match mkdir name open owner parent parents parts read_bytes read_text relative_to rename replace resolve rglob root samefile stat stem suffix suffixes
            touch unlink with_name with_stem with_suffix write_bytes write_text""".split()}


def grp(attrs=None, **items):
    return {"kind": "group", "items": dict(items), "attrs": dict(attrs or {})}


def group(items=None, attrs=None):
    return {"kind": "group", "items": dict(items or {}), "attrs": dict(attrs or {})}


def dset(shape, attrs=None, value=None, **kw):
    d = {"kind": "dataset", "shape": tuple(shape), "attrs": dict(attrs or {})}
    if value is not None:
        d["value"] = value
    d.update(kw)
    return d


def soft(target):
    return {"kind": "soft", "target": target, "attrs": {}}


def clone(x):
    if isinstance(x, NA):
        return x.copy()
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, ip.AList):
        return ip.AList([clone(v) for v in x])
    if isinstance(x, list):
        return ip.AList([clone(v) for v in x])
    if isinstance(x, tuple):
        return tuple(clone(v) for v in x)
    return x


class H5:
    """installs the model in an interpreter; files() builds the tree anew for every trace partition"""

    def __init__(self, it, files, read=None):
        self.it, self.files = it, files
        m = it.client(SOURCE, "<h5>")
        self.mod = m
        v = m.env.vars

        self.fault, self.accesses, self.hold, self.armed, self.sites = None, 0, False, True, None     # the access to a file that fails, for P11

        def record(i, args, kw, node):
            i.event("h5", node, what=args[0], args=args[1:])
            if args[0] == "touch" and self.armed:
                self.accesses += 1
                if self.sites is not None:
                    self.sites.setdefault(tuple((f.fn.qual, getattr(f, "at", None)) for f in i.stack), set()).add(self.accesses)
                if self.accesses == self.fault:
                    raise ip.PyRaise(Inst(Ext("builtins.OSError"), {"args": ("the access fails",)}), node)
            return None
        v["record"] = PyFunc(record, "record")
        v["sym"] = PyFunc(lambda i, a, k, n: sym(a[0]), "sym")
        v["read"] = PyFunc(read or (lambda i, a, k, n: T("data", a[0], self.sel(a[1]))), "read")
        v["fresh"] = PyFunc(lambda i, a, k, n: a[0].copy() if isinstance(a[0], NA) else a[0], "fresh")
        v["whole"] = PyFunc(lambda i, a, k, n: self.whole(a[0]), "whole")
        v["clone"] = PyFunc(lambda i, a, k, n: clone(a[0]), "clone")
        def unmodelled(i, a, k, n):
            if a[1].startswith("__") or a[1] not in REAL.get(a[0].cls.name, ()):
                raise ip.PyRaise(Inst(Ext("builtins.AttributeError"), {"args": (a[1],)}), n)
            raise ip.AnalysisError("no model of %s.%s" % (a[0].cls.name, a[1]))
        v["unmodelled"] = PyFunc(unmodelled, "unmodelled")
        def partial(i, a, k, n):
            raise ip.AnalysisError("assignment to a part of the dataset " + a[1])
        v["partial"] = PyFunc(partial, "partial")
        v["too_many"] = PyFunc(lambda i, a, k, n: self.too_many(*a), "too_many")
        v["attrval"] = PyFunc(lambda i, a, k, n: a[0], "attrval")
        for n in ("File", "Dataset", "Group", "SoftLink", "AttributeManager"):
            self.model("h5py." + n, v[n])
        self.model("pathlib.Path", v["Path"])
        ND = v["ndarray"]
        def known(x):
            return isinstance(x, Inst) and x.cls is ND or isinstance(x, (list, tuple)) and all(isinstance(z, (int, float, bool, str, bytes)) for z in x)
        def nd(name):
            def f(i, a, k, n):
                if a and known(a[0]):
                    return i.call(v[name], list(a), {}, n)
                return NotImplemented
            return f
        for q in ("array", "asarray", "atleast_1d", "ascontiguousarray"):
            it.models.setdefault("numpy." + q, nd("np_array"))
        def where(i, a, k, n):
            if len(a) == 1 and isinstance(a[0], Inst) and a[0].cls is ND:
                return i.call(v["np_where"], list(a), {}, n)
            return NotImplemented
        it.models.setdefault("numpy.where", where)
        import re
        def re_do(i, a, k, n):
            kind = a[0]
            if not all(isinstance(x, (str, bytes)) for x in a):
                return T("re." + kind, *a[1:])
            r = getattr(re, kind)(*a[1:])
            if isinstance(r, re.Match):
                return i.instantiate(v["Match"], [r.group(0), tuple(r.groups())], {}, n)
            return r
        v["re_do"] = PyFunc(re_do, "re_do")
        for q in ("sub", "match", "search", "fullmatch", "split", "findall"):
            it.models["re." + q] = lambda i, a, k, n, q=q: re_do(i, [q] + list(a), k, n)
        it.models["re.compile"] = lambda i, a, k, n: i.instantiate(v["Pattern"], [a[0]], {}, n)

    def too_many(self, sel, shape):
        l = sel if isinstance(sel, tuple) else sel.args if isinstance(sel, Term) and sel.op == "tuple" else (sel,)
        return len(l) > len(shape) and all(isinstance(x, (int, slice)) or isinstance(x, Term) and x.op == "slice" for x in l)

    def model(self, path, cls):
        self.it.models[path] = lambda i, a, k, n: i.instantiate(cls, list(a), k, n)

    def whole(self, s):
        if isinstance(s, tuple):
            return all(self.whole(x) for x in s)
        if s is Ellipsis:
            return True
        t = tm.freeze(s)
        if isinstance(s, slice):
            return s.start in (None, 0) and s.stop is None and s.step in (None, 1)
        return isinstance(t, Term) and t.op == "slice" and t.args[0] in (None, 0) and t.args[1] is None and t.args[2] in (None, 1)

    def sel(self, s):
        """canonical selection: trailing full slices dropped"""
        if isinstance(s, tuple) or (isinstance(s, Term) and s.op == "tuple"):
            l = list(s if isinstance(s, tuple) else s.args)
        else:
            l = [s]
        if Ellipsis in [x for x in l if x is Ellipsis]:
            l = [x for x in l if x is not Ellipsis] if len(l) == 1 or l[-1] is Ellipsis else l
        while l and self.whole(l[-1]):
            l.pop()
        return tuple(sl(x) for x in l)

    def reset(self):
        self.accesses, self.armed = 0, not self.hold
        self.mod.env.vars["FILES"] = clone(self.files())


def sl(x):
    if isinstance(x, slice):
        return T("slice", x.start, x.stop, x.step)
    return x

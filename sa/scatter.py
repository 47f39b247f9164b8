"""Deposition kernels: value-flow summaries of the particle loops, checked against the mathematics.

Every trace partition of a scatter function is summarised by its stores into the image (index terms,
value term, enclosing loops) and its path condition.  Obligations:
  zeroed, accumulate   the image starts at zero and is only ever added to
  bounds               guards and loop bounds imply 0 <= index < dimension on every axis (polyhedra)
  value                the stored term equals mass times the kernel at the distance between that pixel's
                       centre and the (shifted) particle, or mass over the cell size in the particle's cell
  coverage             no path drops a pixel where the kernel is non-zero, every cell loop reaches them all
  shifts               all periodic copies that can reach the image are visited
  particles            the particle loop visits every particle once
"""
import math
import random
from fractions import Fraction

from . import terms as tm
from .terms import Term, T, sym
from . import interp as ip
from .interp import Interp, Project, Fn, Ext, AnalysisError
from .evalterm import ev, same, close, Unknown
from .lin import Facts

GAMMA = {2: 1.897367, 3: 1.936492}
NORM = {2: 7.0 / math.pi, 3: 21.0 / (2.0 * math.pi)}


def W(d, r, H):
    q = r / H
    return NORM[d] * (1 - q) ** 4 * (1 + 4 * q) / H ** d if q < 1 else 0.0


CALLS = {"K2": lambda r, H: W(2, r, H), "K3": lambda r, H: W(3, r, H)}


# ------------------------------------------------------------------ kernels
def kernel_paths(it, fn):
    r, H = sym("r"), sym("H")
    return it.explore(lambda i: i.call(fn, [r, H], {}, None))


def kernel_dim(it, fn, tol=2e-5):
    """2 or 3 when fn(r, H) is the Wendland C2 kernel of that dimension; else (message, None)"""
    try:
        paths = kernel_paths(it, fn)
    except AnalysisError as ex:
        return None, str(ex)
    rng = random.Random(3)
    pts = []
    for _ in range(60):
        H = rng.uniform(0.05, 3.0)
        pts.append((rng.uniform(0, 1.6) * H, H))
    pts += [(0.0, 0.7), (0.0, 1.3)]
    vals = []
    for r, H in pts:
        env = {sym("r").key(): r, sym("H").key(): H}
        got = None
        for p in paths:
            try:
                if all(bool(ev(c, env)) == v for c, v in p.conds):
                    if p.exc is not None:
                        return None, "raises"
                    got = ev(tm.freeze(p.ret), env)
                    break
            except Unknown as ex:
                return None, "cannot evaluate %s" % ex
        if got is None:
            return None, "no path covers r=%.3g H=%.3g" % (r, H)
        vals.append(got)
    for d in (2, 3):
        if all(abs(v - W(d, r, H)) <= tol * max(1e-9, W(d, 0.0, H)) for v, (r, H) in zip(vals, pts)):
            return d, None
    # describe the nearest
    best = None
    for d in (2, 3):
        bad = [(abs(v - W(d, r, H)) / W(d, 0.0, H), r, H, v, W(d, r, H)) for v, (r, H) in zip(vals, pts)]
        b = max(bad)
        if best is None or b[0] < best[0]:
            best = b
    return None, "at r=%.4g H=%.4g it gives %.6g, the Wendland C2 kernel %.6g" % best[1:]


def is_kernel_like(fn):
    a = fn.node.args
    return isinstance(fn, Fn) and len(a.args) == 2 and not a.vararg and not a.kwonlyargs and [x.arg for x in a.args] == ["r", "H"]


def install_kernels(it, modnames):
    """intercept functions that are the kernel; returns {qualname: (dim, message)} for kernel-like ones"""
    out = {}
    for mn in modnames:
        m = it.get_mod(mn)
        if m is None:
            continue
        for name, v in sorted(m.env.vars.items()):
            if isinstance(v, ip.Lazy):
                continue
            if isinstance(v, Fn) and v.mod.name == mn and len(v.node.args.args) == 2 and is_kernel_like(v):
                key = v.mod.name + ":" + v.qual
                if key in out:
                    continue
                d, msg = kernel_dim(it, v)
                out[key] = (d, msg, v)
    for key, (d, msg, v) in out.items():
        if d:
            def model(i, args, kw, node, d=d, v=v):
                b = i.bind(v, args, kw, node)
                return T("K%d" % d, *[b[a.arg] for a in v.node.args.args])
            it.fn_models[key] = model
    return out


# ------------------------------------------------------------------ summaries
class Spec:
    def __init__(self, module, func, d, K=None, limit=None, cell=True, kernel=True, res=None, mode="plain", out=None, fixed=None, coarse=0):
        self.module, self.func, self.d = module, func, d      # d: image axes
        self.K = K or d                                        # kernel dimension
        self.limit = limit                                     # kernel narrower than this many pixels: whole-cell deposit
        self.cell, self.kernel = cell, kernel
        self.res = res
        self.mode = mode
        self.out = out
        self.coarse = coarse                                   # axis with the largest pixels
        self.fixed = fixed                                     # (coordinate, parameter): not an image axis


AX = "xyz"


def is_box0(conds, box):
    """True / False / None: does the path assume box == 0"""
    e = tm.eq0(box)
    for c, v in conds:
        if isinstance(c, Term) and c == e:
            return v
        if isinstance(c, Term) and c == tm.gt0(box):
            return not v
    return None


class Analysis:
    def __init__(self, rep, root, spec, it=None):
        self.rep, self.spec = rep, spec
        self.it = it
        self.fn = it.mod_attr(it.get_mod(spec.module), spec.func)
        if not isinstance(self.fn, Fn):
            raise AnalysisError("anchor vanished: %s:%s" % (spec.module, spec.func))
        self.name = spec.module.split("visualisation.")[-1] + "." + self.fn.qual
        self.where = "%s:%s" % (self.fn.mod.path[len(root):].lstrip("/"), self.fn.node.lineno)
        self.params = [a.arg for a in self.fn.node.args.args + self.fn.node.args.kwonlyargs]
        self.args = {}
        for p in self.params:
            self.args[p] = sym(p, "int") if "res" in p else sym(p)

    def ob(self, ok, rule, msg, ev_=None, detail=None):
        self.rep.oblige(ok, rule, self.name, msg, (ev_.where if ev_ is not None else self.where), detail)

    # -------------------------------------------------------------- run
    def explore(self):
        it = self.it
        missing = [p for p in ("x", "y", "m") if p not in self.args]
        if missing:
            raise AnalysisError("%s has no parameter %s" % (self.name, missing))
        return it.explore(lambda i: i.call(self.fn, [], dict(self.args), None))

    def facts(self, conds, loops=(), positive=True):
        pos = [self.args[p] for p in self.args if "res" in p]
        ints = list(pos)
        for p in self.args:
            if p.startswith("box_") or p == "fold":
                if is_box0(conds, self.args[p]) is not True:
                    pos.append(self.args[p])
        h = self.args.get("h")
        pos += [a for a in self.hatoms]
        f = Facts(pos + self.extra_pos, ints)
        if self.spec.coarse:
            # the coarse axis has at most as many pixels as any other (res_ratio >= 1)
            for D in self.shape or ():
                d = tm.sub(D, self.shape[self.spec.coarse])
                if isinstance(d, Term):
                    f.add(tm.ge0(d), True)
                    for h_ in self.hatoms:
                        f.con_raw(tm.to_poly(tm.mul(h_, d)), False)
        for c, v in conds:
            f.add(c, v)
        for l in loops:
            self.loop_fact(f, l)
        return f

    extra_pos = ()

    def loop_fact(self, f, l):
        if l.kind == "range" and l.step == 1:
            for z in comps(l.lo, "max"):
                f.add(tm.ge0(tm.sub(l.sym, z)), True)
            for z in comps(l.hi, "min"):
                f.add(tm.gt0(tm.sub(z, l.sym)), True)
        elif l.kind == "iter":
            f.add(tm.ge0(l.sym), True)

    # -------------------------------------------------------------- sampling
    def sampler(self, conds, loops, pins=()):
        """random environment satisfying loops in order (conditions are checked by the caller)"""
        def make(rng):
            env = {"calls": CALLS}
            for p, t in self.args.items():
                if "res" in p:
                    env[t.key()] = rng.randint(2, 7)
                elif p.startswith("box_"):
                    b0 = is_box0(conds, t)
                    env[t.key()] = 0.0 if b0 is True else rng.choice([0.35, 0.5, 0.8, 1.0, 1.3, 2.2])
                elif p == "fold":
                    env[t.key()] = float(rng.choice([1, 2, 4]))
                elif p == "res_ratio_z":
                    env[t.key()] = rng.randint(1, 2)
                else:
                    env[t.key()] = rng.uniform(0.05, 0.95)
            if "res_ratio_z" in self.args and "res" in self.args:
                rr = rng.randint(1, 3)
                env[self.args["res_ratio_z"].key()] = rr
                env[self.args["res"].key()] = rr * rng.randint(1, 4)
            rmin = min([env[t.key()] for p, t in self.args.items() if "res" in p and p != "res_ratio_z"] or [4])
            for key, kind in self.atoms.items():
                if kind in AX:
                    env[key] = rng.uniform(-0.3, 1.3)
                elif kind == "h":
                    env[key] = rng.choice([0.02, 0.1, 0.3, 0.6, 0.95, 1.4]) * rng.uniform(0.6, 1.1) / rmin
                elif kind == "m":
                    env[key] = rng.uniform(0.5, 2.0)
            for l in loops:
                if l.sym.key() in env:
                    continue
                if l.kind == "range":
                    try:
                        lo, hi = ev(l.lo, env), ev(l.hi, env)
                        step = ev(l.step, env)
                    except Unknown:
                        lo, hi, step = -1, 4, 1
                    if hi <= lo:
                        env["empty"] = True
                        env[l.sym.key()] = int(lo)
                    else:
                        env[l.sym.key()] = int(lo) + int(step) * rng.randrange(max(1, -int(-(hi - lo) // step)))
                else:
                    env[l.sym.key()] = rng.randint(0, 5)
            return env
        return make

    def witness(self, conds, loops, goal, n=6000, seed=11, extra=()):
        """an environment in which the path condition holds and goal (callable) is violated; None when none found"""
        mk = self.sampler(conds, loops)
        rng = random.Random(seed)
        for _ in range(n):
            env = mk(rng)
            if env.pop("empty", False):
                continue
            try:
                if not all(bool(ev(c, env)) == v for c, v in conds):
                    continue
                if not all(bool(ev(c, env)) == v for c, v in extra):
                    continue
                if goal(env):
                    return env
            except Unknown:
                continue
        return None

    def showenv(self, env):
        return ", ".join("%s=%.4g" % (short(k), v) for k, v in sorted(env.items()) if isinstance(v, (int, float)))[:400]

    # -------------------------------------------------------------- main
    def run(self):
        sp, rep = self.spec, self.rep
        self.atoms, self.hatoms = {}, []
        paths = self.explore()
        self.paths = paths
        rep.count("trace_partitions", len(paths))
        rep.count("scatter_functions")
        img = None
        for p in paths:
            if p.exc is not None:
                continue
            r = p.ret
            while isinstance(r, Term) and r.op == "idx":
                r = r.args[0]
            if isinstance(r, Term) and r.op == "alloc":
                img = r
        if img is None:
            self.ob(False if any(p.exc is None and p.ret is None for p in paths) else None, "image", "the returned image could not be identified")
            return
        self.img = img
        zero = img.args[1] == "zeros"
        self.ob(True if zero else (False if img.args[1] in ("empty", "ones") else None), "zeroed", "the image is not allocated with zeros")
        shape = img.args[2]
        self.shape = list(shape.args) if isinstance(shape, Term) and shape.op in ("tuple", "list") else None
        if self.shape is None or len(self.shape) != sp.d:
            self.ob(None, "image", "image shape %s" % tm.show(shape))
            return
        self.extra_pos = [s for s in self.shape if isinstance(s, Term) and s.op not in ("sym", "poly")]
        self.check_out()
        for p in paths:
            self.find_atoms(p)
        self.learn_cells()
        live = {}
        for p in paths:
            if p.exc is not None:
                ok = p.exc.name in ("TypeError", "NameError", "UnboundLocalError")
                self.ob(False if ok else None, "raises", "a path raises %s" % p.exc.name, self.last(p), [(tm.show(c)[:60], v) for c, v in p.conds][-3:])
                continue
            key = tuple((a, is_box0(p.conds, t)) for a, t in sorted(self.args.items()) if a.startswith("box_"))
            live.setdefault(key, []).append(bool(self.stores(p)))
            self.check_path(p)
            self.check_leave(p)
        for key, v in live.items():
            self.ob(any(v), "coverage", "nothing is ever deposited when %s" % ", ".join("%s is%s 0" % (a, "" if z else " not") for a, z in key if z is not None))
        self.check_shifts()

    def check_out(self):
        sp = self.spec
        if sp.res is not None:
            for k, want in enumerate(sp.res):
                want = want(self.args)
                got = self.shape[k]
                eq = same(got, want, lambda rng: {t.key(): rng.choice([2, 3, 4, 6, 8, 12]) for t in self.args.values()})
                self.ob(True if eq is True else (None if eq is None else False), "shape", "image axis %d has %s pixels, expected %s" % (k, tm.show(got), tm.show(want)))
        want = sp.out
        if want is not None:
            for p in self.paths:
                if p.exc is None:
                    ok = want(self.args, p.ret, self.img)
                    self.ob(ok, "returned", "the function returns %s" % tm.show(p.ret)[:200])
                    break

    def find_atoms(self, p):
        names = {self.args[a].key(): a for a in self.args}
        def scan(t):
            for z in tm.walk(t):
                if isinstance(z, Term) and z.op == "idx" and isinstance(z.args[0], Term) and z.args[0].key() in names:
                    a = names[z.args[0].key()]
                    if a in ("x", "y", "z", "m", "h"):
                        self.atoms[z.key()] = a
                        if a == "h" and z not in self.hatoms:
                            self.hatoms.append(z)
        for c, v in p.conds:
            scan(c)
        for e in p.events:
            if e.kind == "store":
                scan(e.value)
                scan(e.index)

    def particle_atom(self, name, stuff):
        for t in stuff:
            for z in tm.walk(t):
                if isinstance(z, Term) and z.op == "idx" and z.args[0] == self.args[name]:
                    return z
        return None

    def stores(self, p):
        out = []
        for e in p.events:
            if e.kind == "store" and isinstance(e.target, Term) and e.target == self.img:
                out.append(e)
            elif e.kind == "call" and e.name in ("numba.cuda.atomic.add",) and e.args and e.args[0] == self.img:
                e.d["op"], e.d["index"], e.d["value"] = "+", e.args[1], e.args[2]
                out.append(e)
        return out

    def learn_cells(self):
        """loop numbering of the cell loops (same prefix of decisions gives the same numbering)"""
        self.shiftloops = {}

    # -------------------------------------------------------------- geometry of one path
    def shift_syms(self, p, terms, loops):
        """axis -> shift symbol (or 0) for this path"""
        out = {}
        for k in range(3):
            b = self.args.get("box_" + AX[k])
            if b is None:
                continue
            if is_box0(p.conds, b) is True:
                out[k] = 0
                continue
            s = None
            for t in list(terms) + [c for c, v in p.conds]:
                for z in tm.walk(t):
                    if isinstance(z, Term) and z.op == "poly":
                        for m, c in z.args:
                            keys = {a.key() for a, e in m if isinstance(a, Term)}
                            if b.key() in keys:
                                for l in loops:
                                    if l.sym.key() in keys:
                                        s = l
            out[k] = s
        return out

    def position(self, p, k, atom, sh):
        b = self.args.get("box_" + AX[k])
        s = sh.get(k, 0)
        if b is None or s == 0 or s is None:
            return atom
        return tm.add(atom, tm.mul(s.sym, b))

    # -------------------------------------------------------------- one path
    def check_path(self, p):
        sp = self.spec
        st = self.stores(p)
        live = []
        for e in st:
            if e.d.get("op") != "+":
                w = e.value
                if e.d.get("op") is None and isinstance(e.index, Term) and e.index.op == "slice" and w == 0:
                    continue
                self.ob(False, "accumulate", "the image is overwritten instead of added to", e)
                continue
            self.ob(True, "accumulate", "", e)
            if not (isinstance(e.value, (int, float, Fraction)) and e.value == 0):
                live.append(e)
        loops_all = self.path_loops(p)
        if not live:
            if sp.mode not in ("histogram",) or True:
                self.check_skip(p, loops_all, st)
            return
        for e in live:
            idx = e.index
            idx = list(idx.args) if isinstance(idx, Term) and idx.op in ("tuple", "list") else (list(idx) if isinstance(idx, (tuple, list)) else [idx])
            if len(idx) != sp.d:
                self.ob(None, "bounds", "index %s" % tm.show(e.index), e)
                continue
            self.check_bounds(p, e, idx)
            self.check_value(p, e, idx)
            self.check_repeat(p, e)
        if len(live) > 1:
            keys = [(tm._key(e.index)) for e in live]
            if len(set(keys)) < len(keys):
                self.ob(False, "deposit-once", "one (particle, copy, cell) is deposited more than once on a path", live[1])

    def check_repeat(self, p, e):
        """a loop around the deposit that the deposit does not depend on repeats it"""
        zero = {t for a, t in self.args.items() if a.startswith("box_") and is_box0(p.conds, t) is True}
        rw = lambda z: 0 if isinstance(z, Term) and z in zero else None
        used = set()
        for t in (tm.freeze(e.value), tm.freeze(e.index)):
            for z in tm.walk(tm.subst(t, rw)):
                if isinstance(z, Term):
                    used.add(z)
        for l in e.loops:
            if l.sym in used:
                continue
            lo, hi = l.lo, l.hi
            if l.kind == "range" and l.step == 1:
                n = tm.sub(tm.subst(hi, rw) if isinstance(hi, Term) else hi, tm.subst(lo, rw) if isinstance(lo, Term) else lo)
                if isinstance(n, (int, Fraction)):
                    self.ob(n <= 1, "deposit-once", "the same deposit is repeated by an enclosing loop", e, "loop over [%s, %s)" % (tm.show(lo), tm.show(hi)))
                    continue
            self.ob(None, "deposit-once", "a loop around the deposit does not enter it: %s" % l, e)

    def path_loops(self, p):
        seen, out = set(), []
        for e in p.events:
            if e.kind == "loop":
                l = e.loop
                if l.sym.key() not in seen:
                    seen.add(l.sym.key())
                    out.append(l)
        return out

    def check_bounds(self, p, e, idx):
        f = self.facts(e.guards, e.loops)
        for k, i in enumerate(idx):
            i = tm.freeze(i)
            D = self.shape[k]
            ok = f.entails(tm.ge0(i)) and f.entails(tm.gt0(tm.sub(D, i)))
            if ok:
                self.ob(True, "bounds", "", e)
                continue
            w = self.witness(e.guards, e.loops, lambda env: not (0 <= ev(i, env) < ev(D, env)))
            if w is not None:
                self.ob(False, "bounds", "index %d of the image can leave its axis" % k, e, "index %s with %s" % (tm.show(i)[:120], self.showenv(w)))
            else:
                self.ob(None, "bounds", "index %s not proved to lie in its axis" % tm.show(i)[:120], e)

    def check_value(self, p, e, idx):
        sp = self.spec
        stuff = [tm.freeze(e.value), tm.freeze(e.index)] + [c for c, v in e.guards]
        m = self.particle_atom("m", stuff)
        P = {k: self.particle_atom(AX[k], stuff) for k in range(3) if AX[k] in self.args}
        h = self.particle_atom("h", stuff) if "h" in self.args else None
        sh = self.shift_syms(p, [tm.freeze(e.value), tm.freeze(e.index)], e.loops)
        value = unfold(tm.freeze(e.value), e, p)
        if m is None or any(P[k] is None for k in range(sp.d)):
            missing = "mass" if m is None else "coordinates"
            self.ob(False if not has_unknown(stuff) else None, "value", "the deposited value or cell does not depend on the particle's %s" % missing, e)
            return
        self.note_shifts(p, e, sh)
        self.check_particles(e, [m] + [P[k] for k in P if P[k] is not None] + ([h] if h is not None else []))
        cellvol = 1
        for D in self.shape:
            cellvol = tm.mul(cellvol, D)
        pos = {k: self.position(p, k, P[k], sh) for k in P if P[k] is not None}
        own = [T("floor", tm.mul(self.shape[k], pos[k])) for k in range(sp.d)]
        kinds = []
        # --- whole mass in the particle's own cell
        cond = e.guards
        smp = self.cond_sampler(cond, e.loops)
        at_own = [same(tm.freeze(idx[k]), own[k], smp) for k in range(sp.d)]
        if all(a is True for a in at_own):
            self.kind_cell(p, e, value, m, h, cellvol, smp, pos)
            return
        if sp.mode == "dither" and self.kind_dither(p, e, value, m, h, cellvol, smp, pos, idx):
            return
        if not sp.kernel:
            bad = [k for k, a in enumerate(at_own) if isinstance(a, tuple)]
            if bad:
                k = bad[0]
                self.ob(False, "value", "axis %d of the image is not indexed by the cell of the particle's %s" % (k, AX[k]), e, "index %s, cell %s at %s" % (at_own[k][1], at_own[k][2], self.showenv(at_own[k][0])))
            else:
                self.ob(None, "value", "index %s" % tm.show(e.index)[:100], e)
            return
        self.kind_kernel(p, e, value, m, h, pos, idx, smp)

    def cond_sampler(self, conds, loops):
        mk = self.sampler(conds, loops)
        def f(rng):
            for _ in range(400):
                env = mk(rng)
                if env.pop("empty", False):
                    continue
                try:
                    if all(bool(ev(c, env)) == v for c, v in conds):
                        return env
                except Unknown:
                    pass
            return mk(rng)
        return f

    def kind_cell(self, p, e, value, m, h, cellvol, smp, pos):
        sp = self.spec
        want = tm.mul(m, cellvol)
        eq = same(value, want, smp, tol=1e-5)
        self.ob(True if eq is True else (None if eq is None else False), "value",
                "a particle deposited whole in its cell does not contribute mass / cell size", e,
                None if not isinstance(eq, tuple) else "stored %.6g, expected %.6g at %s" % (eq[1], eq[2], self.showenv(eq[0])))
        if not sp.cell:
            self.ob(None, "regime", "unexpected whole-cell deposit", e)
            return
        if sp.limit is None or h is None:
            return
        f = self.facts(e.guards, e.loops)
        g = Fraction(repr(GAMMA[sp.K]))
        lim = tm.sub(Fraction(sp.limit) * Fraction(1001, 1000), tm.mul(g, tm.mul(h, self.shape[sp.coarse])))
        ok = f.entails(tm.gt0(lim))
        if sp.mode == "dither":
            inside = all(f.entails(tm.ge0(tm.sub(tm.sub(pos[k], tm.mul(g * Fraction(999, 1000), h)), tm.div(T("floor", tm.mul(self.shape[k], pos[k])), self.shape[k])))) and
                         f.entails(tm.ge0(tm.sub(tm.div(tm.add(1, T("floor", tm.mul(self.shape[k], pos[k]))), self.shape[k]), tm.add(pos[k], tm.mul(g * Fraction(999, 1000), h))))) for k in range(sp.d))
            if inside:
                self.ob(True, "regime", "", e)
                return
            def bad(env):
                for k in range(sp.d):
                    D, x, w = ev(self.shape[k], env), ev(pos[k], env), GAMMA[sp.K] * ev(h, env) * .999
                    c = math.floor(D * x)
                    if x - w < c / D or x + w > (c + 1) / D:
                        return True
                return False
            wit = self.witness(e.guards, e.loops, bad, n=20000)
            self.ob(False if wit is not None else None, "regime", "a particle is deposited whole in one cell although its kernel overlaps a neighbouring cell", e, None if wit is None else self.showenv(wit))
            return
        if ok:
            self.ob(True, "regime", "", e)
            return
        wit = self.witness(e.guards, e.loops, lambda env: GAMMA[sp.K] * ev(h, env) * ev(self.shape[sp.coarse], env) > sp.limit * 1.001)
        self.ob(False if wit is not None else None, "regime", "a particle whose kernel spans more than %s pixel is deposited whole in one cell" % sp.limit, e, None if wit is None else self.showenv(wit))

    def kind_dither(self, p, e, value, m, h, cellvol, smp, pos, idx):
        """deposit of mass times an entry of a table normalised to mass / cell size"""
        tabs = [z for z in tm.walk(value) if isinstance(z, Term) and z.op == "idx" and isinstance(z.args[0], Term) and z.args[0].op in ("alloc", "poly", "mul")]
        tabs = [z for z in tm.walk(value) if isinstance(z, Term) and z.op == "idx" and any(isinstance(y, Term) and y.op == "alloc" for y in tm.walk(z.args[0]))]
        if len(set(tabs)) != 1:
            return False
        tab = tabs[0]
        al = [y for y in tm.walk(tab.args[0]) if isinstance(y, Term) and y.op == "alloc"][0]
        rest = tm.div(value, tab)
        eq = same(rest, m, smp)
        self.ob(True if eq is True else (None if eq is None else False), "value", "a dithered particle does not deposit mass times the table entry", e)
        # normalisation of the table
        scale = tm.div(tab.args[0], al)
        norm = None
        for z in p.events:
            if z.kind == "inplace" and z.op in ("*", "/") and z.target == al:
                norm = z.value if z.op == "*" else tm.inv(z.value)
        if norm is None and scale != 1:
            norm = scale
        if norm is None:
            self.ob(None, "normalised", "table normalisation not found", e)
        else:
            S = T("call", Ext("numpy.sum"), al)
            eq = same(tm.mul(norm, sym("TSUM")), cellvol, lambda rng: None) if False else None
            n2 = tm.subst(norm, lambda t: sym("TSUM") if isinstance(t, Term) and t.op == "call" and len(t.args) == 2 and t.args[1] == al and str(getattr(t.args[0], "path", "")) == "numpy.sum" else None)
            prod = tm.mul(n2, sym("TSUM"))
            def sm(rng):
                env = smp(rng)
                env[sym("TSUM").key()] = rng.uniform(.5, 3)
                return env
            eq = same(prod, cellvol, sm, tol=1e-6)
            self.ob(True if eq is True else (None if eq is None else False), "normalised", "the dithering table does not sum to the inverse cell size", e)
        # the table index: loops over the whole table, and offsets within the kernel
        ti = tab.args[1]
        ti = list(ti.args) if isinstance(ti, Term) and ti.op in ("tuple", "list") else [ti]
        sh = list(al.args[2].args) if isinstance(al.args[2], Term) else []
        byloop = {l.sym.key(): l for l in e.loops}
        for k in range(len(ti)):
            l = byloop.get(ti[k].key()) if isinstance(ti[k], Term) else None
            if l is None or k >= len(sh):
                self.ob(None, "dither", "table index %s" % tm.show(ti[k]), e)
                continue
            ok = l.lo == 0 and l.hi == sh[k] and l.step == 1
            known = all(isinstance(z, (int, Fraction)) for z in (l.lo, l.hi, sh[k]))
            self.ob(True if ok else (False if known else None), "dither", "the dithering loop over axis %d does not visit the whole table" % k, e)
            # sampled offset: index k = floor(res*(pos + off)), off within the kernel width
            def off_bad(env):
                D, x, w = ev(self.shape[k], env), ev(pos[k], env), GAMMA[self.spec.K] * ev(h, env)
                j = ev(l.sym, env)
                n = ev(sh[k], env)
                c = ev(tm.freeze(idx[k]), env)
                lo, hi = x - w + 2 * w * j / n, x - w + 2 * w * (j + 1) / n
                return not (math.floor(D * lo - 1e-9) <= c <= math.floor(D * hi + 1e-9))
            wit = self.witness(e.guards, e.loops, off_bad, n=3000)
            self.ob(False if wit is not None else True, "dither", "a table entry is deposited away from the place it was computed for (axis %d)" % k, e, None if wit is None else self.showenv(wit))
        return True

    def kind_kernel(self, p, e, value, m, h, pos, idx, smp):
        sp = self.spec
        if h is None:
            self.ob(None, "value", "no smoothing length in the deposited value", e)
            return
        H = tm.mul(Fraction(repr(GAMMA[sp.K])), h)
        Q = 0
        for k in range(sp.d):
            c = tm.div(tm.add(tm.freeze(idx[k]), Fraction(1, 2)), self.shape[k])
            Q = tm.add(Q, tm.power(tm.sub(c, pos[k]), 2))
        if sp.fixed:
            kf = AX.index(sp.fixed[0])
            Q = tm.add(Q, tm.power(tm.sub(pos[kf], self.args[sp.fixed[1]]), 2))
        K = lambda q: T("K%d" % sp.K, tm.power(q, Fraction(1, 2)), H)
        want = tm.mul(m, K(Q))
        cells = [l for l in e.loops]
        sums = [z for z in tm.walk(value) if isinstance(z, Term) and z.op == "sum"]
        if sp.mode == "renormalised":
            self.renorm(p, e, value, m, Q, K, sums, H, pos, idx, smp)
        elif sp.mode in ("dither",) and sums:
            self.subsample(p, e, value, m, sums, H, pos, idx, smp)
        else:
            eq = same(value, want, smp, tol=1e-4)
            self.ob(True if eq is True else (None if eq is None else False), "value",
                    "the deposited value is not mass times the kernel at the distance between pixel centre and particle", e,
                    None if not isinstance(eq, tuple) else "stored %.6g, expected %.6g at %s" % (eq[1], eq[2], self.showenv(eq[0])))
        # regime: a kernel narrower than the limit may miss every pixel centre
        if sp.cell and sp.limit:
            f = self.facts(e.guards, e.loops)
            lim = tm.sub(tm.mul(H, self.shape[sp.coarse]), Fraction(sp.limit) * Fraction(999, 1000))
            if f.entails(tm.ge0(lim)):
                self.ob(True, "regime", "", e)
            else:
                wit = self.witness(e.guards, e.loops, lambda env: ev(H, env) * ev(self.shape[sp.coarse], env) < sp.limit * .999)
                self.ob(False if wit is not None else None, "regime", "a kernel narrower than %s pixel is sampled at pixel centres and may miss all of them" % sp.limit, e, None if wit is None else self.showenv(wit))
        self.reach(p, e, H, pos, idx, [l for l in e.loops if self.is_cell_loop(l, idx)])

    def is_cell_loop(self, l, idx):
        return any(isinstance(z, Term) and z == l.sym for i in idx for z in tm.walk(tm.freeze(i)))

    def inside_kernel(self, k, c, x, H):
        """linear facts: pixel c of axis k has its centre within the kernel of a particle at x"""
        D = self.shape[k]
        d = tm.sub(tm.add(c, Fraction(1, 2)), tm.mul(D, x))
        w = tm.mul(D, H)
        return [(tm.gt0(tm.sub(w, d)), True), (tm.gt0(tm.add(w, d)), True)]

    def reach(self, p, e, H, pos, idx, loops, rule="coverage", what="a pixel inside the kernel is not visited"):
        """each cell loop contains every in-image pixel whose centre is inside the kernel"""
        sp = self.spec
        extra = []
        for k in range(sp.d):
            c = tm.freeze(idx[k])
            extra += self.inside_kernel(k, c, pos[k], H)
            if rule == "coverage":
                extra += [(tm.ge0(c), True), (tm.gt0(tm.sub(self.shape[k], c)), True)]
        f = self.facts(e.guards)
        for t, v in extra:
            f.add(t, v)
        for l in loops:
            if l.kind != "range" or l.step != 1:
                self.ob(None, rule, "cell loop %s" % l, e)
                continue
            goals = [tm.ge0(tm.sub(l.sym, z)) for z in comps(l.lo, "max")] + [tm.gt0(tm.sub(z, l.sym)) for z in comps(l.hi, "min")]
            for g in goals:
                if f.entails(g):
                    self.ob(True, rule, "", e)
                    continue
                free = [ip.Loop(z.sym, "range", None, -9, 14, 1) if z in loops else z for z in e.loops]
                wit = self.witness(e.guards, free, lambda env: not ev(g, env), n=30000, extra=extra)
                self.ob(False if wit is not None else None, rule, what, e, None if wit is None else "loop bounds [%s, %s): %s" % (tm.show(l.lo)[:80], tm.show(l.hi)[:80], self.showenv(wit)))

    def renorm(self, p, e, value, m, Q, K, sums, H, pos, idx, smp):
        sp = self.spec
        tops = [z for z in sums if z.args[4].op == "sum"] if sums else []
        tops = tops or sums
        cellvol = 1
        for D in self.shape:
            cellvol = tm.mul(cellvol, D)
        if len(set(tops)) != 1:
            self.ob(None, "value", "normalisation sum not identified", e)
            return
        S = tops[0]
        want = tm.div(tm.mul(tm.mul(m, K(Q)), cellvol), S)
        eq = same(value, want, smp, tol=1e-4)
        self.ob(True if eq is True else (None if eq is None else False), "value", "the renormalised value is not mass * kernel / (cell size * sum of kernels)", e,
                None if not isinstance(eq, tuple) else "stored %.6g, expected %.6g at %s" % (eq[1], eq[2], self.showenv(eq[0])))
        # the sum runs over every pixel inside the kernel, in or out of the image
        loops, body = [], S
        while isinstance(body, Term) and body.op == "sum":
            s, lo, hi, step, body = body.args
            loops.append(ip.Loop(s, "range", None, lo, hi, step))
        if len(loops) != sp.d:
            self.ob(None, "normalised", "normalisation sum has %d loops" % len(loops), e)
            return
        q = 0
        for k in range(sp.d):
            q = tm.add(q, tm.power(tm.sub(tm.div(tm.add(loops[k].sym, Fraction(1, 2)), self.shape[k]), pos[k]), 2))
        def smp2(rng):
            env = smp(rng)
            for l in loops:
                env[l.sym.key()] = rng.randint(-2, 6)
            return env
        eq = same(body, K(q), smp2, tol=1e-4)
        self.ob(True if eq is True else (None if eq is None else False), "normalised", "the normalisation does not sum the kernel at pixel centres", e)
        class E:
            pass
        e2 = ip.Event("store", {}, e.node, e.fn, e.mod, e.guards, tuple(l for l in e.loops if not self.is_cell_loop(l, idx)) + tuple(loops), e.seq)
        self.reach(p, e2, H, pos, [l.sym for l in loops], loops, "normalised", "the normalisation sum misses a pixel inside the kernel, so the deposited total exceeds the mass")

    def subsample(self, p, e, value, m, sums, H, pos, idx, smp):
        sp = self.spec
        tops = [z for z in set(sums) if isinstance(z.args[4], Term) and (z.args[4].op == "sum")]
        if len(tops) != 1:
            self.ob(None, "value", "subsampling sums not identified", e)
            return
        S = tops[0]
        loops, body = [], S
        while isinstance(body, Term) and body.op == "sum":
            s, lo, hi, step, body = body.args
            loops.append(ip.Loop(s, "range", None, lo, hi, step))
        n = loops[0].hi
        ok = len(loops) == sp.d and all(l.lo == 0 and l.hi == n and l.step == 1 for l in loops)
        if not ok:
            self.ob(None, "value", "subsampling loops %s" % loops, e)
            return
        q = 0
        for k in range(sp.d):
            c = tm.div(tm.add(tm.freeze(idx[k]), tm.div(tm.add(loops[k].sym, Fraction(1, 2)), n)), self.shape[k])
            q = tm.add(q, tm.power(tm.sub(c, pos[k]), 2))
        def smp2(rng):
            env = smp(rng)
            for l in loops:
                env[l.sym.key()] = rng.randint(0, 3)
            return env
        eq = same(body, T("K%d" % sp.K, tm.power(q, Fraction(1, 2)), H), smp2, tol=1e-4)
        self.ob(True if eq is True else (None if eq is None else False), "value", "the kernel is not evaluated at the centres of the subpixels", e,
                None if not isinstance(eq, tuple) else "%.6g, expected %.6g at %s" % (eq[1], eq[2], self.showenv(eq[0])))
        eq = same(tm.div(value, S), tm.mul(m, tm.power(n, -sp.d)), smp, tol=1e-5)
        self.ob(True if eq is True else (None if eq is None else False), "value", "the deposited value is not the mean of the kernel over the subpixels times the mass", e)

    # -------------------------------------------------------------- paths without a deposit
    def check_skip(self, p, loops, st):
        sp = self.spec
        conds = p.conds
        if not conds:
            return
        stuff = [c for c, v in conds]
        P = {k: self.particle_atom(AX[k], stuff) for k in range(3) if AX[k] in self.args}
        h = self.particle_atom("h", stuff) if "h" in self.args else None
        # zero-store paths: the kernel branch said zero
        sh = self.shift_syms(p, [], loops)
        axes = [k for k in range(sp.d) if P.get(k) is not None]
        if not axes and h is None:
            return
        pos = {k: self.position(p, k, P[k], sh) for k in P if P[k] is not None}
        f0 = self.facts(conds)
        g = Fraction(repr(GAMMA[sp.K]))
        if sp.kernel and h is not None:
            H = tm.mul(g, h)
            cells = {k: sym("cell_" + AX[k], "int") for k in range(sp.d)}
            extra = []
            for k in range(sp.d):
                x = pos.get(k)
                c = cells[k]
                extra += [(tm.ge0(c), True), (tm.gt0(tm.sub(self.shape[k], c)), True)]
                if x is not None:
                    extra += self.inside_kernel(k, c, x, H)
            lim = Fraction(sp.limit or 0) * Fraction(1001, 1000)
            if sp.mode == "dither":
                lim = Fraction(251, 1000)
            extra.append((tm.gt0(tm.sub(tm.mul(H, self.shape[sp.coarse]), lim)), True))
            if sp.fixed and pos.get(AX.index(sp.fixed[0])) is not None:
                kf = AX.index(sp.fixed[0])
                dz = tm.sub(pos[kf], self.args[sp.fixed[1]])
                extra.append((tm.gt0(tm.sub(tm.power(H, 2), tm.power(dz, 2))), True))
            f = f0.clone()
            for c in cells.values():
                f.integer.add(c.key())
            for t, v in extra:
                f.add(t, v)
            if f.unsat():
                self.ob(True, "coverage", "")
            else:
                free = loops + [ip.Loop(c, "range", None, 0, 7, 1) for c in cells.values()]
                wit = self.witness(conds, free, lambda env: self.kernel_inside(env, cells, pos, H, sp), n=30000, extra=extra)
                self.ob(False if wit is not None else None, "coverage", "a path skips a particle copy although its kernel covers a pixel of the image", self.last(p),
                        "path %s; %s" % ([(tm.show(c)[:60], v) for c, v in conds][-3:], "" if wit is None else self.showenv(wit)))
        if sp.cell and (sp.limit is None or h is not None) and len(axes) == sp.d or (sp.cell and sp.limit is None and axes):
            extra = []
            for k in axes:
                c = T("floor", tm.mul(self.shape[k], pos[k]))
                extra += [(tm.ge0(c), True), (tm.gt0(tm.sub(self.shape[k], c)), True)]
            if sp.limit is not None:
                lim = Fraction(sp.limit) * Fraction(999, 1000)
                extra.append((tm.gt0(tm.sub(lim, tm.mul(tm.mul(g, h), self.shape[0]))), True))
                for D in self.shape[1:]:
                    if D != self.shape[0]:
                        extra.append((tm.gt0(tm.sub(lim, tm.mul(tm.mul(g, h), D))), True))
            f = f0.clone()
            for t, v in extra:
                f.add(t, v)
            if sp.mode == "dither":
                return
            if f.unsat():
                self.ob(True, "coverage", "")
            else:
                missing = [k for k in range(sp.d) if k not in axes]
                wit = None if missing and sp.limit is not None else self.witness(conds, loops, lambda env: True, n=30000, extra=extra)
                self.ob(False if wit is not None else None, "coverage", "a path drops a small particle that lies inside the image", self.last(p), None if wit is None else self.showenv(wit))

    def kernel_inside(self, env, cells, pos, H, sp):
        q = 0.0
        for k in range(sp.d):
            if k not in pos:
                continue
            q += ((env[cells[k].key()] + .5) / ev(self.shape[k], env) - ev(pos[k], env)) ** 2
        if sp.fixed and AX.index(sp.fixed[0]) in pos:
            q += (ev(pos[AX.index(sp.fixed[0])], env) - env[self.args[sp.fixed[1]].key()]) ** 2
        return q < (ev(H, env) * .999) ** 2

    def check_leave(self, p):
        """no path leaves the particle or shift loops early, except for particles the function declines"""
        sp = self.spec
        for e in p.events:
            if e.kind == "break" or (e.kind == "return" and e.loops):
                h = self.particle_atom("h", [c for c, v in e.guards]) if "h" in self.args else None
                ok = False
                if not sp.cell and sp.limit and h is not None:
                    f = self.facts(e.guards, e.loops)
                    lim = tm.sub(Fraction(sp.limit) * Fraction(1001, 1000), tm.mul(Fraction(repr(GAMMA[sp.K])), tm.mul(h, self.shape[sp.coarse])))
                    ok = f.entails(tm.gt0(lim))
                self.ob(True if ok else False, "coverage", "a loop over particles, copies or pixels is left early", e, [(tm.show(c)[:60], v) for c, v in e.guards][-2:])

    def last(self, p):
        es = [e for e in p.events if e.kind in ("store", "call", "loop")]
        return es[-1] if es else None

    # -------------------------------------------------------------- shifts and particles
    def note_shifts(self, p, e, sh):
        for k in range(3):
            b = self.args.get("box_" + AX[k])
            if b is None:
                continue
            s = sh.get(k)
            b0 = is_box0(e.guards, b)
            if s == 0:
                continue
            key = (k, None if s is None else (tm._key(s.lo), tm._key(s.hi), tm._key(s.step)))
            self.shiftloops.setdefault(key, (k, s, e, b))

    def check_shifts(self):
        for key, (k, s, e, b) in sorted(self.shiftloops.items(), key=lambda z: str(z[0])):
            if s is None:
                if AX[k] == "z" and self.spec.d == 2 and not self.spec.fixed:
                    continue
                self.ob(False if not has_unknown([tm.freeze(e.value)]) else None, "shifts", "periodic copies along %s are never deposited although box_%s is not zero" % (AX[k], AX[k]), e)
                continue
            if s.kind != "range" or s.step not in (1, -1):
                self.ob(None, "shifts", "shift loop %s" % s, e)
                continue
            bad = None
            try:
                for box in (0.21, 0.35, 0.5, 0.51, 0.77, 0.999, 1.0, 1.2, 1.7, 2.0, 3.4):
                    env = {b.key(): box}
                    for p_, t in self.args.items():
                        env.setdefault(t.key(), 3.7 if not p_.startswith("box") else 1.9)
                    lo, hi = ev(s.lo, env), ev(s.hi, env)
                    if s.step == -1:
                        lo, hi = hi + 1, lo + 1
                    if lo > -1 or hi < math.ceil(1 / box) + 1:
                        bad = (box, lo, hi)
                        break
                self.ob(bad is None, "shifts", "not all periodic copies along %s that can reach the image are visited" % AX[k], e,
                        None if bad is None else "box_%s=%.3g: copies %s..%s, needed -1..%d" % (AX[k], bad[0], bad[1], bad[2] - 1, math.ceil(1 / bad[0])))
            except Unknown as ex:
                self.ob(None, "shifts", "shift range %s" % ex, e)

    def check_particles(self, e, atoms):
        ix = {tm._key(a.args[1]) for a in atoms}
        if len(ix) != 1:
            self.ob(False, "particles", "the deposited value mixes properties of different particles", e)
            return
        i = atoms[0].args[1]
        l = next((l for l in e.loops if l.sym == i), None)
        if l is None:
            self.ob(None, "particles", "particle index %s" % tm.show(i), e)
            return
        if l.kind == "iter":
            self.ob(True, "particles", "", e)
            return
        names = [self.args[a] for a in ("x", "y", "z", "m", "h") if a in self.args]
        good = False
        for a in names:
            for n in (T("attr", a, "size"), T("len", a), T("idx", T("attr", a, "shape"), 0)):
                if l.hi == n:
                    good = True
        if l.lo == 0 and good and l.step == 1:
            self.ob(True, "particles", "", e)
        else:
            d0 = tm.sub(l.lo, 0)
            off = any(isinstance(tm.sub(l.hi, n), int) and tm.sub(l.hi, n) != 0 for a in names for n in (T("attr", a, "size"), T("len", a), T("idx", T("attr", a, "shape"), 0)))
            self.ob(False if (isinstance(d0, int) and d0 != 0) or off else None, "particles", "the particle loop runs over [%s, %s)" % (tm.show(l.lo), tm.show(l.hi)), e)


def short(k):
    return k.replace("sym(", "").replace("'", "").replace(",int", "").rstrip(")")[:24]


def comps(t, op):
    if isinstance(t, Term) and t.op == op:
        return list(t.args)
    return [t]


def has_unknown(ts):
    return any(isinstance(z, Term) and z.op in ("call", "fold", "phi", "phiout") for t in ts for z in tm.walk(t))


def unfold(t, e, p):
    """fold(loop, init, phi, phi + g) -> init + sum(loop, lo, hi, step, g)"""
    bounds = {}
    for z in p.events:
        if z.kind == "loop":
            bounds[z.loop.sym.key()] = z.loop
    def rw(x):
        if isinstance(x, Term) and x.op == "fold":
            s, v0, ph, cur = x.args
            v0, cur = tm.subst(v0, rw), tm.subst(cur, rw)
            g = tm.sub(cur, ph)
            if any(isinstance(y, Term) and y == ph for y in tm.walk(g)):
                return Term("fold", (s, v0, ph, cur))
            l = bounds.get(s.key())
            if l is None or l.kind != "range":
                return Term("fold", (s, v0, ph, cur))
            return tm.add(v0, Term("sum", (s, l.lo, l.hi, l.step, g)))
        return None
    prev = None
    while prev != t:
        prev = t
        t = tm.subst(t, rw)
    return t

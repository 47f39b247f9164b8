"""Parallel drivers: each one splits the particles over threads and sums what the serial function returns.

The driver is followed symbolically with its serial sibling intercepted.  Obligations, per configuration:
  forward    every argument reaches the serial function unchanged, particle arrays by one common slice
  partition  the slices of threads 0..N-1 are adjacent, start at 0 and end at the number of particles
  sum        the result is zeros of the serial shape plus the serial result of every thread, nothing else
"""
import random
from fractions import Fraction

from . import terms as tm
from .terms import Term, T, sym
from . import interp as ip
from .interp import Fn, AnalysisError
from .evalterm import ev, Unknown

PARTICLE = ("x", "y", "z", "m", "h")


def slices(t):
    """(lo, hi) of a basic slice index"""
    if isinstance(t, slice):
        lo, hi, st = t.start, t.stop, t.step
    elif isinstance(t, Term) and t.op == "slice":
        lo, hi, st = t.args
    else:
        return None
    if st not in (None, 1):
        return None
    return (0 if lo is None else lo, hi)


def size_atoms(t, arrays):
    """replace any spelling of the number of particles by one symbol"""
    N = sym("NPART", "int")
    def rw(z):
        if isinstance(z, Term):
            if z.op == "attr" and z.args[0] in arrays and z.args[1] == "size":
                return N
            if z.op == "len" and z.args[0] in arrays:
                return N
            if z.op == "idx" and isinstance(z.args[0], Term) and z.args[0].op == "attr" and z.args[0].args[0] in arrays and z.args[0].args[1] == "shape" and z.args[1] == 0:
                return N
        return None
    return tm.subst(t, rw)


def check(rep, root, it, module, par, serials, shape, extra=()):
    """serials: names of the serial functions in module that the driver may sum; shape(args) -> expected shape (list of terms) or None"""
    m = it.get_mod(module)
    f = it.mod_attr(m, par)
    if not isinstance(f, Fn):
        raise AnalysisError("anchor vanished: %s:%s" % (module, par))
    name = module.split("visualisation.")[-1] + "." + f.qual
    where = "%s:%s" % (f.mod.path[len(root):].lstrip("/"), f.node.lineno)
    rep.count("parallel_functions")

    def ob(ok, rule, msg, e=None, detail=None):
        rep.oblige(ok, rule, name, msg, e.where if e is not None else where, detail)

    fns = {}
    saved = {}
    for s in serials:
        sf = it.mod_attr(m, s)
        if not isinstance(sf, Fn):
            raise AnalysisError("anchor vanished: %s:%s" % (module, s))
        key = sf.mod.name + ":" + sf.qual
        def model(i, a, k, n, sf=sf, key=key):
            b = i.bind(sf, a, k, n)
            i.event("serial", n, bound=b, which=key)
            return T("serial", key, tuple((x, b[x]) for x in sorted(b)))
        saved[key] = it.fn_models.get(key)
        it.fn_models[key] = model
        fns[key] = sf
    args = {}
    for a in f.node.args.args + f.node.args.kwonlyargs:
        args[a.arg] = sym(a.arg, "int") if "res" in a.arg else sym(a.arg)
    try:
        paths = it.explore(lambda i: i.call(f, [], dict(args), None))
    finally:
        for k, v in saved.items():
            if v is None:
                it.fn_models.pop(k, None)
            else:
                it.fn_models[k] = v
    arrays = {args[p] for p in PARTICLE if p in args}
    groups = {}
    for p in paths:
        if p.exc is not None:
            ob(False if p.exc.name in ("TypeError", "NameError", "UnboundLocalError") else None, "forward", "the driver raises %s" % p.exc.name, None, [(tm.show(c)[:80], v) for c, v in p.conds])
            continue
        rep.count("trace_partitions")
        se = [e for e in p.events if e.kind == "serial"]
        if len(se) > 1:
            ob(False if len({e.which for e in se}) == 1 and len({e.loops for e in se}) == 1 else None, "sum", "one thread adds the serial result %d times" % len(se), se[1])
            continue
        if not se:
            if any(l for l in p.events if l.kind == "loop"):
                ob(None, "sum", "a path sums nothing")
            else:
                ob(False, "sum", "a path does not call the serial function", None, [(tm.show(c)[:80], v) for c, v in p.conds])
            continue
        e = se[0]
        b = {k: tm.freeze(v) for k, v in e.bound.items()}
        loop = e.loops[0] if e.loops else None
        cut = None
        good = True
        for k in sorted(b):
            want = args.get(k)
            got = b[k]
            if want is None:
                if k in extra:
                    continue
                dflt = True
                continue
            if k in PARTICLE and loop is not None:
                s = slices(got.args[1]) if isinstance(got, Term) and got.op == "idx" and got.args[0] == want else None
                if s is None:
                    wrong = isinstance(got, Term) and (got == want or (got.op == "idx" and got.args[0] in arrays))
                    ob(False if wrong else None, "forward", "parameter %s of the serial function receives %s" % (k, "the whole array" if got == want else tm.show(got)[:80]), e)
                    good = False
                    continue
                if cut is None:
                    cut = s
                elif tuple(map(tm._key, s)) != tuple(map(tm._key, cut)):
                    ob(False, "forward", "the particle arrays of one thread are cut differently", e, "%s: %s" % (k, tm.show(got)[:160]))
                    good = False
                    continue
                ob(True, "forward", "", e)
            else:
                ok = tm._key(tm.freeze(got)) == tm._key(want)
                ob(True if ok else (False if isinstance(got, (int, float, Fraction)) or (isinstance(got, Term) and got.op == "sym") else None), "forward", "parameter %s of the serial function receives %s" % (k, tm.show(got)[:80]), e)
                good = good and ok
        # ---- the sum
        r = p.ret
        if loop is None:
            ok = isinstance(r, Term) and r.op == "serial"
            ob(True if ok else None, "sum", "the result is not what the serial function returns", e)
            continue
        if not (isinstance(r, Term) and r.op == "fold"):
            zero = r is None or (isinstance(r, Term) and r.op == "alloc")
            ob(False if zero else None, "sum", "the result is %s" % tm.show(r)[:120], e)
            continue
        s, init, ph, cur = r.args
        if isinstance(init, Term) and init.op == "alloc":
            ob(True if init.args[1] == "zeros" else (False if init.args[1] in ("ones", "empty") else None), "sum", "the running sum does not start at zero", e)
            want = shape(args, p) if shape else None
            if want is not None:
                sh = init.args[2]
                got = list(sh.args) if isinstance(sh, Term) and sh.op in ("tuple", "list") else list(sh) if isinstance(sh, tuple) else None
                if got is None or len(got) != len(want):
                    ob(None if got is None else False, "shape", "the running sum has shape %s" % tm.show(sh), e)
                else:
                    for k in range(len(want)):
                        eq = same_int(got[k], want[k], p.conds)
                        ob(eq, "shape", "axis %d of the running sum has %s elements, the serial result %s" % (k, tm.show(got[k]), tm.show(want[k])), e)
        else:
            ob(None, "sum", "running sum starts at %s" % tm.show(init)[:100], e)
        d = tm.sub(cur, ph)
        if isinstance(d, Term) and d.op == "serial":
            ob(True, "sum", "", e)
        else:
            const = isinstance(cur, Term) and cur.op == "serial"
            ob(False if const or (isinstance(d, Term) and d.op == "poly" and all(any(isinstance(a, Term) and a.op == "serial" for a, _ in mm) or mm == tm.ONE for mm, c in d.args)) else None, "sum", "a thread's contribution is %s" % tm.show(d)[:100], e)
        if cut is None or not good:
            continue
        lcond, gcond = [], []
        for c, v in p.conds:
            (lcond if any(isinstance(z, Term) and z == loop.sym for z in tm.walk(c)) else gcond).append((c, v))
        key = (e.which, tuple(sorted((c.key(), v) for c, v in gcond if isinstance(c, Term))))
        groups.setdefault(key, []).append((lcond, gcond, loop, tuple(size_atoms(z, arrays) for z in cut), e))
    for key, g in groups.items():
        partition(ob, g)


def same_int(a, b, conds=()):
    if tm._key(tm.freeze(a)) == tm._key(tm.freeze(b)):
        return True
    rng = random.Random(5)
    atoms = {}
    def leaves(t):
        if isinstance(t, Term):
            if t.op in ("sym", "ext") or t.op == "attr":
                atoms[t.key()] = t
            else:
                for z in t.args:
                    leaves(z)
        elif isinstance(t, tuple):
            for z in t:
                leaves(z)
    for t in [a, b] + [c for c, v in conds]:
        leaves(t)
    n = 0
    for _ in range(400):
        env = {k: rng.randint(1, 12) for k in atoms}
        try:
            if not all(bool(ev(c, env)) == v for c, v in conds if not any(isinstance(z, Term) and z.op in ("loop", "phi") for z in tm.walk(c))):
                continue
            n += 1
            if ev(a, env) != ev(b, env):
                return False
        except Unknown:
            return None
    return True if n > 5 else None


def partition(ob, g):
    """g: alternatives (conditions on the thread, other conditions, loop, (lo, hi), event) of one configuration"""
    loop, e = g[0][2], g[0][4]
    N = sym("NPART", "int")
    if any(z[2].lo != loop.lo or z[2].hi != loop.hi for z in g) or loop.kind != "range" or loop.lo != 0 or loop.step not in (1,):
        ob(None, "partition", "thread loop %s" % loop, e)
        return
    # exhaustive over small numbers of threads and particles; the terms are piecewise linear in both
    bad = None
    unknown = None
    try:
        for nt in list(range(1, 9)) + [16]:
            for n in list(range(0, 26)) + [64, 100]:
                env = {N.key(): n}
                at = 0
                hi_ = evx(loop.hi, env, nt)
                for t in range(int(hi_)):
                    env[loop.sym.key()] = t
                    cut = None
                    for lc, gc, l, c, ev_ in g:
                        if all(bool(evx(z, env, nt)) == v for z, v in lc):
                            lo, hi = evx(c[0], env, nt), n if c[1] is None else evx(c[1], env, nt)
                            lo, hi = (max(0, lo + n) if lo < 0 else min(lo, n)), (max(0, hi + n) if hi < 0 else min(hi, n))
                            cut = (lo, max(lo, hi), ev_)
                            break
                    if cut is None:
                        raise Unknown("no alternative for thread %d" % t)
                    if cut[0] != cut[1] and cut[0] != at:
                        bad = bad or (cut[2], "with %d threads and %d particles thread %d takes [%d, %d) after %d" % (nt, n, t, cut[0], cut[1], at))
                    at = max(at, cut[1])
                if at != n:
                    bad = bad or (cut[2] if hi_ else e, "with %d threads and %d particles the last one taken is %d" % (nt, n, at))
                if bad:
                    raise StopIteration
    except StopIteration:
        pass
    except Unknown as ex:
        unknown = str(ex)
    if bad:
        ob(False, "partition", "the threads do not take every particle exactly once", bad[0], bad[1])
    elif unknown:
        ob(None, "partition", "cannot evaluate the chunks: %s" % unknown, e)
    else:
        ob(True, "partition", "", e)


def evx(t, env, nt):
    """evaluate with every external configuration constant taken as the number of threads"""
    def rw(z):
        if isinstance(z, ip.Ext):
            return nt
        return None
    t = tm.subst(t, rw) if isinstance(t, Term) else (nt if isinstance(t, ip.Ext) else t)
    return ev(t, env)

"""Polyhedral domain: linear inequalities over value-flow monomials, decided by Fourier-Motzkin.

A constraint is (poly, strict): poly > 0 (strict) or poly >= 0.  Monomials are the columns; integer
columns (floor, ceil, trunc, loop counters, declared integers) sharpen strict bounds.
"""
from fractions import Fraction
from math import gcd

from . import terms as tm
from .terms import Term, T, ONE


GAVE_UP = [0]          # decisions left open because the case budget ran out
_MEMO = {}
_ATOMS = {}


def _con_atoms(p):
    if len(_ATOMS) > 300000:
        _ATOMS.clear()
    h = _ATOMS.get(id(p))
    if h is None or h[0] is not p:
        h = _ATOMS[id(p)] = (p, frozenset(tm._key(a) for m in p for a, e in m))
    return h[1]


def _case_atoms(alts):
    h = _ATOMS.get(id(alts))
    if h is None or h[0] is not alts:
        ks = set()
        for alt in alts:
            for t, v in alt:
                for x in tm.walk(t):
                    if isinstance(x, Term) and x.op not in ("poly", "gt0", "eq0", "not", "and", "ge"):
                        ks.add(tm._key(x))
        h = _ATOMS[id(alts)] = (alts, frozenset(ks))
    return h[1]


class Facts:
    def __init__(self, positive=(), integer=(), nonneg=()):
        self.positive = {p.key() for p in positive}     # atoms known > 0
        self.integer = {p.key() for p in integer}
        self.nonneg = {p.key() for p in nonneg}
        self.cons = []
        self.seen = set()
        self.cases = []        # lists of alternative constraint lists
        self.queue = []

    def clone(self):
        f = Facts()
        f.positive, f.integer, f.nonneg = set(self.positive), set(self.integer), set(self.nonneg)
        f.cons = list(self.cons)
        f.seen = set(self.seen)
        f.cases = list(self.cases)
        return f

    def is_int_atom(self, a):
        return isinstance(a, Term) and (a.op in ("floor", "ceil", "trunc", "loop", "len") or a.key() in self.integer
                                        or (a.op in ("max", "min") and all(self.is_int(z) for z in a.args)))

    def is_int(self, x):
        p = tm.to_poly(x)
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and self.is_int_atom(a) for a, e in m) for m, c in p.items())

    def pos_atom(self, a):
        return isinstance(a, Term) and a.key() in self.positive

    def norm(self, p):
        """multiply by positive monomials so that no positive atom has a negative exponent, divide by common ones"""
        exps = {}
        for m in p:
            for a, e in m:
                if self.pos_atom(a):
                    exps.setdefault(a.key(), (a, []))
        f = []
        for k, (a, _) in exps.items():
            lo = min(next((e for b, e in m if isinstance(b, Term) and b.key() == k), Fraction(0)) for m in p)
            if lo < 0 or (lo > 0 and len(p) > 1):
                f.append((a, -lo))
        if f:
            mono = tuple(sorted(f, key=lambda ae: tm._key(ae[0])))
            p = {tm.mono_mul(m, mono): c for m, c in p.items()}
        return p

    # ------------------------------------------------------------ adding facts
    def add(self, t, val=True):
        """assume boolean term t has the given truth value (unusable facts are ignored)"""
        if isinstance(t, bool):
            if t != val:
                self.cons.append(({ONE: Fraction(-1)}, False))
            return
        if not isinstance(t, Term):
            return
        if t.op == "not":
            return self.add(t.args[0], not val)
        if t.op == "and":
            if val:
                for a in t.args:
                    self.add(a, True)
            else:
                self.cases.append([[(a, False)] for a in t.args])
            return
        if t.op == "gt0":
            p = tm.to_poly(t.args[0])
            if val:
                self.con(p, True)
            else:
                self.con({m: -c for m, c in p.items()}, False)
        elif t.op == "eq0":
            p = tm.to_poly(t.args[0])
            if val:
                self.con(p, False)
                self.con({m: -c for m, c in p.items()}, False)
            else:
                self.cases.append([[(T("gt0", t.args[0]), True)], [(T("gt0", tm.neg(t.args[0])), True)]])

    def con(self, p, strict):
        p = self.norm(p)
        key = (tuple(sorted((tm._mkey(m), c) for m, c in p.items())), strict)
        if key in self.seen:
            return
        self.seen.add(key)
        self.cons.append((p, strict))
        for m in p:
            for a, e in m:
                self.atom(a)

    def scale(self, p):
        return p

    def atom(self, a):
        if not isinstance(a, Term):
            return
        k = ("atom", a.key())
        if k in self.seen:
            return
        self.seen.add(k)
        if a.key() in self.positive:
            self.con({((a, Fraction(1)),): Fraction(1)}, True)
            if a.key() in self.integer:
                self.con({((a, Fraction(1)),): Fraction(1), ONE: Fraction(-1)}, False)
        if a.key() in self.nonneg or (a.op == "len"):
            self.con({((a, Fraction(1)),): Fraction(1)}, False)
        if a.op == "floor":
            d = tm.sub(a.args[0], a)
            self.con(tm.to_poly(d), False)
            self.con(tm.to_poly(tm.sub(1, d)), True)
            if self.obviously_nonneg(a.args[0]):
                self.con(tm.to_poly(a), False)
        elif a.op == "ceil":
            d = tm.sub(a, a.args[0])
            self.con(tm.to_poly(d), False)
            self.con(tm.to_poly(tm.sub(1, d)), True)
        elif a.op == "trunc":
            d = tm.sub(a.args[0], a)
            if self.obviously_nonneg(a.args[0]):
                self.con(tm.to_poly(d), False)
                self.con(tm.to_poly(tm.sub(1, d)), True)
                self.con(tm.to_poly(a), False)
            else:
                self.con(tm.to_poly(tm.add(1, d)), True)
                self.con(tm.to_poly(tm.sub(1, d)), True)
        elif a.op in ("max", "min"):
            sg = 1 if a.op == "max" else -1
            alts = []
            for z in a.args:
                d = tm.mul(sg, tm.sub(a, z))
                self.con(tm.to_poly(d), False)
                alts.append([(T("ge", tm.mul(sg, tm.sub(z, a))), True)])
            self.cases.append(alts)
        elif a.op == "ite":
            q, x, y = a.args
            e = lambda z: [(T("eq0", tm.sub(a, z)), True)]
            self.cases.append([[(q, True)] + e(x), [(q, False)] + e(y)])
        elif a.op == "abs" and self.obviously_nonneg(a.args[0]):
            self.con(tm.to_poly(tm.sub(a, a.args[0])), False)
            self.con(tm.to_poly(tm.sub(a.args[0], a)), False)
        elif a.op == "abs":
            self.con(tm.to_poly(tm.sub(a, a.args[0])), False)
            self.con(tm.to_poly(tm.add(a, a.args[0])), False)
            self.cases.append([[(T("ge", tm.sub(a.args[0], a)), True)], [(T("ge", tm.sub(tm.neg(a.args[0]), a)), True)]])
        elif a.op == "mod":
            if self.obviously_pos(a.args[1]):
                self.con(tm.to_poly(a), False)
                self.con(tm.to_poly(tm.sub(a.args[1], a)), True)

    def obviously_nonneg(self, x):
        p = tm.to_poly(x)
        return all(c > 0 and all(self.pos_atom(a) or (isinstance(a, Term) and (a.key() in self.nonneg or e % 2 == 0 or a.op == "mod")) for a, e in m) for m, c in p.items())

    def obviously_pos(self, x):
        p = tm.to_poly(x)
        return bool(p) and all(c > 0 and all(self.pos_atom(a) for a, e in m) for m, c in p.items())

    # ------------------------------------------------------------ deciding
    def unsat(self, extra=()):
        f = self.clone()
        for t, v in extra:
            if isinstance(t, Term) and t.op == "ge":
                f.con(tm.to_poly(t.args[0]), False)
            else:
                f.add(t, v)
        f.products()
        return f._unsat(0)

    def products(self):
        """multiply atom bounds by positive cofactors so that they meet the monomials they appear in"""
        monos = set()
        for p, s in self.cons:
            monos.update(p)
        for m in list(monos):
            atoms = [(a, e) for a, e in m if isinstance(a, Term)]
            if len(atoms) < 2:
                continue
            for a, e in atoms:
                if e == 1 and not self.pos_atom(a):
                    rest = [(b, f) for b, f in atoms if b is not a]
                    if rest and all(self.pos_atom(b) for b, f in rest):
                        cof = tuple(sorted(rest, key=lambda ae: tm._key(ae[0])))
                        for p, s in list(self.cons):
                            if ((a, Fraction(1)),) in p and len(p) <= 4 and not any(len(mm) > 1 and any(b is a for b, _ in mm) for mm in p):
                                q = {tm.mono_mul(mm, cof): c for mm, c in p.items()}
                                self.con_raw(q, s)

    def con_raw(self, p, strict):
        key = ("raw", tuple(sorted((tm._mkey(m), c) for m, c in p.items())), strict)
        if key in self.seen:
            return
        self.seen.add(key)
        self.cons.append((p, strict))

    def assume(self, alt):
        f = self.clone()
        for t, v in alt:
            if isinstance(t, Term) and t.op == "ge":
                f.con(tm.to_poly(t.args[0]), False)
            else:
                f.add(t, v)
        return f

    def part(self, cons, cases):
        f = self.clone()
        f.cons, f.cases = cons, cases
        return f

    def components(self):
        """independent sub-problems: constraints and cases connected through atoms"""
        parent = {}
        def find(x):
            while parent.setdefault(x, x) != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x
        def join(ks):
            r = None
            for k in ks:
                k = find(k)
                if r is None:
                    r = k
                elif k != r:
                    parent[k] = r
            return r
        cks = [join(_con_atoms(p)) for p, s in self.cons]
        aks = [join(_case_atoms(alts)) for alts in self.cases]
        out = {}
        for k, c in zip(cks, self.cons):
            out.setdefault(find(k) if k is not None else None, ([], []))[0].append(c)
        for k, c in zip(aks, self.cases):
            out.setdefault(find(k) if k is not None else None, ([], []))[1].append(c)
        return list(out.values())

    def _unsat(self, depth, left=None):
        left = left if left is not None else [400]
        for cons, cases in self.components():
            key = (frozenset((id(p), s) for p, s in cons), frozenset(id(c) for c in cases))
            hit = _MEMO.get(key)
            if hit is None:
                hit = (self.part(cons, cases)._solve(left), cons, cases)
                if len(_MEMO) > 20000:
                    _MEMO.clear()
                _MEMO[key] = hit
            if hit[0]:
                return True
        return False

    def _solve(self, left):
        """unsatisfiable?  case splitting with unit propagation"""
        f = self
        f.products()
        if fm_unsat(f.tight()):
            return True
        changed = True
        alive_of = {}
        while changed and f.cases:
            changed = False
            alive_of = {}
            for i, alts in enumerate(f.cases):
                rest = [c for j, c in enumerate(f.cases) if j != i]
                alive = []
                done = False
                for alt in alts:
                    g = f.assume(alt)
                    if len(g.cons) == len(f.cons) and len(g.cases) == len(f.cases):
                        done = True
                        break
                    g.products()
                    if not fm_unsat(g.tight()):
                        alive.append((alt, g))
                if done:
                    f = f.part(f.cons, rest)
                    changed = True
                    break
                if not alive:
                    return True
                if len(alive) == 1:
                    g = alive[0][1]
                    f = g.part(g.cons, rest + g.cases[len(f.cases):])
                    changed = True
                    break
                alive_of[i] = alive
        if not f.cases:
            return False
        left[0] -= 1
        if left[0] < 0:
            GAVE_UP[0] += 1
            return False
        i = min(alive_of, key=lambda z: len(alive_of[z]))
        n = len(f.cases)
        for alt, g in alive_of[i]:
            h = g.part(g.cons, [c for j, c in enumerate(f.cases) if j != i] + g.cases[n:])
            if not h._unsat(0, left):
                return False
        return True

    def tight(self):
        out = []
        for p, s in self.cons:
            if s and len(p) and all(m == ONE or all(e.denominator == 1 and e > 0 and self.is_int_atom(a) for a, e in m) for m in p):
                den = 1
                for c in p.values():
                    den = den * c.denominator // gcd(den, c.denominator)
                q = {m: c * den for m, c in p.items()}
                q[ONE] = q.get(ONE, Fraction(0)) - 1
                out.append(({m: c for m, c in q.items() if c != 0}, False))
            else:
                out.append((p, s))
        return out

    def entails(self, t, val=True):
        """the facts imply that boolean term t has the given truth value"""
        if isinstance(t, bool):
            return t == val or self.unsat()
        if t.op == "not":
            return self.entails(t.args[0], not val)
        if t.op == "and" and val:
            return all(self.entails(a) for a in t.args)
        if t.op == "eq0" and val:
            return self.entails(tm.ge0(t.args[0])) and self.entails(tm.ge0(tm.neg(t.args[0])))
        return self.unsat([(t, not val)])


def fm_unsat(cons, limit=4000):
    """Fourier-Motzkin: is the conjunction infeasible over the rationals (columns independent)?"""
    rows = []
    for p, s in cons:
        q = {}
        for m, c in p.items():
            q[tm._mkey(m) if m != ONE else ""] = q.get(tm._mkey(m) if m != ONE else "", Fraction(0)) + c
        rows.append(({k: c for k, c in q.items() if c != 0}, s))
    def clash(r):
        q, s = r
        return not any(k for k in q) and (q.get("", 0) < 0 or (s and q.get("", 0) <= 0))
    def clean(rows):
        best = {}
        for q, s in rows:
            vs = sorted(k for k in q if k)
            if not vs:
                if clash((q, s)):
                    return None
                continue
            sc = abs(q[vs[0]])
            key = tuple((k, q[k] / sc) for k in vs)
            c = q.get("", Fraction(0)) / sc
            cur = best.get(key)
            if cur is None or (c, not s) < (cur[0], not cur[1]):
                best[key] = (c, s)
        return [({**dict(k), **({"": c} if c else {})}, s) for k, (c, s) in best.items()]
    rows = clean(rows)
    if rows is None:
        return True
    while rows:
        cnt = {}
        for q, s in rows:
            for k, c in q.items():
                if k:
                    u = cnt.setdefault(k, [0, 0])
                    u[c > 0] += 1
        if not cnt:
            return False
        k = min(cnt, key=lambda z: cnt[z][0] * cnt[z][1] - cnt[z][0] - cnt[z][1])
        up = [r for r in rows if r[0].get(k, 0) > 0]
        dn = [r for r in rows if r[0].get(k, 0) < 0]
        rest = [r for r in rows if k not in r[0]]
        for a, sa in up:
            for b, sb in dn:
                ca, cb = a[k], -b[k]
                q = {}
                for kk, c in a.items():
                    q[kk] = q.get(kk, Fraction(0)) + c * cb
                for kk, c in b.items():
                    q[kk] = q.get(kk, Fraction(0)) + c * ca
                q.pop(k, None)
                rest.append(({z: c for z, c in q.items() if c != 0}, sa or sb))
        rows = clean(rest)
        if rows is None:
            return True
        if len(rows) > limit:
            return False
    return False

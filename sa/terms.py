"""Value-flow terms: the Herbrand/value-numbering domain of the abstract interpreter.

A Term is an immutable, canonicalised expression.  Two program expressions that denote
the same value by congruence + commutative-ring algebra get the *same* Term, which is
what lets the rules judge what the code computes and not how it is spelled.
"""
from fractions import Fraction
import numbers


class Term:
    __slots__ = ("op", "args", "_h", "_k")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._h = None
        self._k = None

    def key(self):
        if self._k is None:
            self._k = self.op + "(" + ",".join(_key(x) for x in self.args) + ")"
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, other):
        if self is other:
            return True
        return isinstance(other, Term) and self.key() == other.key()

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return show(self)


def _key(x):
    if isinstance(x, Term):
        return x.key()
    if isinstance(x, bool) or x is None:
        return repr(x)
    if isinstance(x, (int, Fraction)):
        return "n" + str(x)
    if isinstance(x, float):
        return "f" + repr(x)
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, (tuple, list)):
        return "[" + ",".join(_key(y) for y in x) + "]"
    if isinstance(x, dict):
        return "{" + ",".join(_key(k) + ":" + _key(v) for k, v in x.items()) + "}"
    if isinstance(x, (set, frozenset)):
        return "<" + ",".join(sorted(_key(y) for y in x)) + ">"
    k = getattr(x, "akey", None)
    if k is not None:
        return k() if callable(k) else str(k)
    return repr(x)


def T(op, *args):
    return Term(op, tuple(freeze(a) for a in args))


def freeze(x):
    if isinstance(x, list):
        return Term("list", tuple(freeze(y) for y in x))
    if isinstance(x, tuple):
        return Term("tuple", tuple(freeze(y) for y in x))
    if isinstance(x, dict):
        return Term(
            "dict", tuple(Term("kv", (freeze(k), freeze(v))) for k, v in x.items())
        )
    if isinstance(x, (set, frozenset)):
        return Term("set", tuple(sorted((freeze(y) for y in x), key=_key)))
    return x


def sym(name, *extra):
    return Term("sym", (name,) + extra)


def isnum(x):
    return isinstance(x, numbers.Number) and not isinstance(x, (bool, complex))


def _num(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None
        return Fraction(repr(x))
    return None


# ------------------------------------------------------------------ polynomials
# poly: dict monomial -> Fraction; monomial: tuple of (atom Term-or-obj, Fraction exp)
ONE = ()


def to_poly(x):
    n = _num(x) if not isinstance(x, Term) else None
    if n is not None:
        return {ONE: n} if n else {}
    if isinstance(x, Term) and x.op == "poly":
        return {m: c for m, c in x.args}
    return {((x, Fraction(1)),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return 0
    if len(p) == 1:
        (m, c), = p.items()
        if m == ONE:
            return int(c) if c.denominator == 1 else c
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: (_mkey(mc[0]), str(mc[1]))))
    t = Term("poly", items)
    return t


def _mkey(m):
    return "*".join(_key(a) + "^" + str(e) for a, e in m)


def mono_mul(m1, m2):
    d = {}
    order = {}
    for a, e in m1 + m2:
        k = _key(a)
        d[k] = d.get(k, Fraction(0)) + e
        order[k] = a
    return tuple((order[k], d[k]) for k in sorted(d) if d[k] != 0)


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, Fraction(0)) + s * c
        if r[m] == 0:
            del r[m]
    return r


MAXTERMS = 400


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, Fraction(0)) + c1 * c2
    return {m: c for m, c in r.items() if c != 0}


def _ok(x):
    return isinstance(x, Term) or _num(x) is not None or hasattr(x, "akey")


def add(a, b):
    return from_poly(padd(to_poly(a), to_poly(b)))


def sub(a, b):
    return from_poly(padd(to_poly(a), to_poly(b), -1))


def mul(a, b):
    p, q = to_poly(a), to_poly(b)
    if len(p) * len(q) > MAXTERMS:
        return T("mul", *sorted((a, b), key=_key))
    return from_poly(pmul(p, q))


def inv(a):
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    if not p:
        return T("div0")
    # canonical scale: make leading coefficient 1
    lead = sorted(p.items(), key=lambda mc: _mkey(mc[0]))[0][1]
    q = from_poly({m: c / lead for m, c in p.items()})
    return from_poly({((q, Fraction(-1)),): 1 / lead})


def div(a, b):
    return mul(a, inv(b))


def neg(a):
    return mul(-1, a)


def power(a, n):
    nn = _num(n) if not isinstance(n, Term) else None
    if nn is None:
        na = _num(a) if not isinstance(a, Term) else None
        if na == 1:
            return 1
        return T("pow", a, n)
    if nn == 0:
        return 1
    p = to_poly(a)
    if nn.denominator == 1 and nn > 0 and len(p) ** int(nn) <= 64:
        r = {ONE: Fraction(1)}
        for _ in range(int(nn)):
            r = pmul(r, p)
        return from_poly(r)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 or nn.denominator == 1:
            return from_poly(
                {tuple((x, e * nn) for x, e in m): c ** int(nn) if nn.denominator == 1 else Fraction(1)}
            )
        f = float(c) ** float(nn)
        return from_poly({tuple((x, e * nn) for x, e in m): Fraction(repr(f))})
    if not p:
        return 0
    if nn.denominator == 1 and nn < 0:
        return inv(power(a, -nn))
    if nn < 0:
        return inv(power(a, -nn))
    return from_poly({((from_poly(p), nn),): Fraction(1)})


def show(x, depth=0):
    if depth > 12:
        return "..."
    if not isinstance(x, Term):
        if hasattr(x, "show"):
            return x.show()
        return str(x) if isinstance(x, Fraction) else repr(x)
    s = lambda y: show(y, depth + 1)
    if x.op == "poly":
        out = []
        for m, c in x.args:
            f = []
            if c != 1 or m == ONE:
                f.append(str(c) if abs(c.denominator) < 1000 else "%.6g" % float(c))
            for a, e in m:
                sa = s(a)
                if isinstance(a, Term) and a.op == "poly":
                    sa = "(" + sa + ")"
                f.append(sa if e == 1 else f"{sa}^{e}")
            out.append("*".join(f))
        return " + ".join(out)
    if x.op == "sym":
        return str(x.args[0])
    if x.op == "attr":
        return f"{s(x.args[0])}.{x.args[1]}"
    if x.op == "idx":
        return f"{s(x.args[0])}[{s(x.args[1])}]"
    if x.op == "call":
        return f"{s(x.args[0])}({', '.join(s(y) for y in x.args[1:])})"
    if x.op == "kw":
        return f"{x.args[0]}={s(x.args[1])}"
    if x.op in ("tuple", "list"):
        return "(" + ", ".join(s(y) for y in x.args) + ")"
    return f"{x.op}({', '.join(s(y) for y in x.args)})"


def walk(x):
    """All sub-terms (and leaf objects) of x, pre-order."""
    stack = [x]
    while stack:
        y = stack.pop()
        yield y
        if isinstance(y, Term):
            if y.op == "poly":
                for m, _ in y.args:
                    for a, _e in m:
                        stack.append(a)
            else:
                stack.extend(y.args)
        elif isinstance(y, (list, tuple)):
            stack.extend(y)
        elif isinstance(y, dict):
            stack.extend(y.values())


def contains(x, pred):
    return any(pred(y) for y in walk(x))


def subst(x, f):
    """Bottom-up rewrite with canonicalisation: f(sub) returns replacement or None."""
    r = f(x)
    if r is not None:
        return r
    if isinstance(x, Term):
        if x.op == "poly":
            tot = 0
            for m, c in x.args:
                t = c
                for a, e in m:
                    t = mul(t, power(subst(a, f), e))
                tot = add(tot, t)
            return tot
        return rebuild(x.op, tuple(subst(a, f) for a in x.args))
    return x


def rebuild(op, args):
    if op == "gt0":
        return gt0(args[0])
    if op == "ge0":
        return ge0(args[0])
    if op == "eq0":
        return eq0(args[0])
    if op in ("min", "max"):
        return minmax(op, args)
    return Term(op, args)


# ------------------------------------------------------------------ comparisons
def _scale(p):
    """positive rescale so that canonical; returns poly"""
    lead = sorted(p.items(), key=lambda mc: _mkey(mc[0]))[-1][1]
    return {m: c / abs(lead) for m, c in p.items()}


def gt0(d):
    p = to_poly(d)
    if not p:
        return False
    if set(p) == {ONE}:
        return p[ONE] > 0
    return Term("gt0", (from_poly(_scale(p)),))


def ge0(d):
    p = to_poly(d)
    if not p:
        return True
    if set(p) == {ONE}:
        return p[ONE] >= 0
    # a >= b  is  not (b > a): single canonical form through gt0
    return Term("not", (gt0(neg(from_poly(p))),))


def eq0(d):
    p = to_poly(d)
    if not p:
        return True
    if set(p) == {ONE}:
        return False
    lead = sorted(p.items(), key=lambda mc: _mkey(mc[0]))[-1][1]
    return Term("eq0", (from_poly({m: c / lead for m, c in p.items()}),))


def lnot(t):
    if isinstance(t, bool):
        return not t
    if isinstance(t, Term) and t.op == "not":
        return t.args[0]
    return Term("not", (t,))


def land(*ts):
    out = []
    for t in ts:
        if t is True:
            continue
        if t is False:
            return False
        if isinstance(t, Term) and t.op == "and":
            out.extend(t.args)
        else:
            out.append(t)
    out = sorted(set(out), key=_key)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Term("and", tuple(out))


def lor(*ts):
    return lnot(land(*[lnot(t) for t in ts]))


def minmax(op, args):
    flat = []
    for a in args:
        if isinstance(a, Term) and a.op == op:
            flat.extend(a.args)
        else:
            flat.append(a)
    nums = [_num(a) for a in flat if not isinstance(a, Term) and _num(a) is not None]
    rest = [a for a in flat if isinstance(a, Term) or _num(a) is None]
    if nums:
        n = min(nums) if op == "min" else max(nums)
        rest.append(int(n) if n.denominator == 1 else n)
    rest = sorted(set(rest), key=_key)
    if len(rest) == 1:
        return rest[0]
    return Term(op, tuple(rest))

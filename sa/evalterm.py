"""Random interpretation of terms: evaluating an extracted value-flow term at sample points.

Used for two things only: identity testing of a term against the term of a specification
(random interpretation of the two value-flow graphs), and confirming an abstract
counterexample before it is reported.  Program code is never executed.
"""
import math
import random
from fractions import Fraction

from . import terms as tm
from .terms import Term, T


class Unknown(Exception):
    pass


def ev(x, env):
    """env: dict Term-key -> number, plus 'calls': {name: f(args)}, 'bounds': {loop key: (lo, hi, step)}"""
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, float)):
        return x
    if isinstance(x, Fraction):
        return float(x) if x.denominator != 1 else int(x)
    if not isinstance(x, Term):
        raise Unknown(repr(x))
    k = x.key()
    if k in env:
        return env[k]
    op = x.op
    if op == "poly":
        tot = 0
        for m, c in x.args:
            p = int(c) if c.denominator == 1 else float(c)
            for a, e in m:
                v = ev(a, env)
                if e == 1:
                    p = p * v
                elif e.denominator == 1:
                    if v == 0 and e < 0:
                        raise Unknown("division by zero")
                    p = p * ((Fraction(v) if isinstance(v, (int, Fraction)) else float(v)) ** int(e) if e < 0 else v ** int(e))
                else:
                    if v < 0:
                        if v < -1e-9:
                            raise Unknown("root of a negative number")
                        v = 0.0
                    if v == 0 and e < 0:
                        raise Unknown("division by zero")
                    p = p * float(v) ** float(e)
            tot = tot + p
        return tot
    if op == "floor":
        return math.floor(ev(x.args[0], env))
    if op == "ceil":
        return math.ceil(ev(x.args[0], env))
    if op == "trunc":
        return math.trunc(ev(x.args[0], env))
    if op == "abs":
        return abs(ev(x.args[0], env))
    if op == "max":
        return max(ev(a, env) for a in x.args)
    if op == "min":
        return min(ev(a, env) for a in x.args)
    if op == "mod":
        a, b = ev(x.args[0], env), ev(x.args[1], env)
        if b == 0:
            raise Unknown("modulo zero")
        return a % b
    if op == "pow":
        return ev(x.args[0], env) ** ev(x.args[1], env)
    if op == "gt0":
        return ev(x.args[0], env) > 0
    if op == "eq0":
        return ev(x.args[0], env) == 0
    if op == "not":
        return not ev(x.args[0], env)
    if op == "and":
        return all(ev(a, env) for a in x.args)
    if op == "ite":
        return ev(x.args[1], env) if ev(x.args[0], env) else ev(x.args[2], env)
    if op == "sum":                       # sum over loop symbol
        s, lo, hi, step, body = x.args
        lo, hi, step = ev(lo, env), ev(hi, env), ev(step, env)
        if hi - lo > 400:
            raise Unknown("long sum")
        tot = 0
        e2 = dict(env)
        for i in range(int(lo), int(hi), int(step)):
            e2[s.key()] = i
            tot = tot + ev(body, e2)
        return tot
    calls = env.get("calls")
    if calls and op in calls:
        return calls[op](*[ev(a, env) for a in x.args])
    if op == "call" and calls:
        n = tm.show(x.args[0])
        if n in calls:
            return calls[n](*[ev(a, env) for a in x.args[1:]])
    if op == "sym" and "default" in env:
        return env["default"](x)
    raise Unknown(tm.show(x)[:80])


def close(a, b, tol=1e-6):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    return abs(a - b) <= tol * max(1e-12, abs(a), abs(b))


def same(a, b, sampler, n=25, tol=1e-6, seed=7):
    """identity test of two terms.  True: equal at every sampled point; False: (point, va, vb)
    found where they differ; None: could not be evaluated."""
    if not isinstance(a, Term) and not isinstance(b, Term):
        try:
            return True if close(ev(a, {}), ev(b, {}), tol) else ({}, a, b)
        except Unknown:
            return None
    if isinstance(a, Term) and isinstance(b, Term) and a == b:
        return True
    rng = random.Random(seed)
    done = 0
    for _ in range(n * 4):
        env = sampler(rng)
        try:
            va, vb = ev(a, env), ev(b, env)
        except Unknown as ex:
            if "zero" in str(ex) or "root" in str(ex):
                continue
            return None
        done += 1
        if not close(va, vb, tol):
            return (env, va, vb)
        if done >= n:
            return True
    return True if done >= 5 else None

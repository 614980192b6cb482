"""sympy expressions whose integer leaves are solver terms.

A SymInt that meets sympy becomes a *placeholder*: an integer-valued symbol
standing for the z3 term.  Expressions with placeholders are read back as
polynomials in the user's symbols whose coefficients are z3 terms; sympy's
``solve`` is replaced on such systems by its contract for linear systems
(Gaussian elimination with the solver deciding every pivot and every
consistency condition) and otherwise run for real on concretised values.
"""
import functools
import math
import operator

import sympy
from sympy.core.add import Add
from sympy.core.basic import Basic
from sympy.core.expr import Expr
from sympy.core.mul import Mul
from sympy.core.numbers import Integer, Rational
from sympy.core.power import Pow
from sympy.core.symbol import Symbol

import importlib

from engine import core
from engine.core import SymBool, SymInt, mkbool, mkint, z3


_sympify_mod = importlib.import_module("sympy.core.sympify")


class PH(Symbol):
    """Placeholder; not a symbol as far as user code is concerned."""

    __slots__ = ()

    @property
    def free_symbols(self):
        return set()


def placeholder(term):
    term = core.simp(term)
    if z3.is_int_value(term):
        return Integer(term.as_long())
    return PH(core.ctx().token(term), integer=True)


def _term(ph):
    return core.ctx().token_names[ph.name[1:-1]][0]


def install():
    """Make sympy convert SymInt leaves to placeholders (worker process only)."""

    def conv(a):
        if type(a) is SymInt:
            return placeholder(a.z)
        if type(a) is SymBool:
            return sympy.true if bool(a) else sympy.false
        return Integer(a)

    _sympify_mod._external_converter[int] = conv
    _sympify_mod._external_converter[SymInt] = conv

    # ``Integer`` has shortcuts for ``int`` that would need the value.
    for name in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__",
                 "__mod__", "__rmod__", "__floordiv__", "__rfloordiv__"):
        native = getattr(Integer, name, None)
        if native is not None:
            setattr(Integer, name, _no_shortcut(native))


def _no_shortcut(native):
    @functools.wraps(native)
    def method(self, other):
        if type(other) is SymInt:
            other = placeholder(other.z)
        return native(self, other)

    return method


def has_placeholder(e):
    if type(e) is PH:
        return True
    return any(has_placeholder(a) for a in e.args)


def placeholder_only(e):
    return not e.free_symbols


# -- polynomials: {monomial: coefficient term}, plus one common denominator ---


class NotPoly(Exception):
    pass


def _c(v):
    return z3.IntVal(v)


def _padd(p, q):
    out = dict(p)
    for m, c in q.items():
        out[m] = out[m] + c if m in out else c
    return out


def _pscale(p, k):
    return {m: core.simp(c * k) for m, c in p.items()}


def _mono(m, n):
    d = dict(m)
    for s, e in n:
        d[s] = d.get(s, 0) + e
    return tuple(sorted(d.items(), key=lambda t: t[0].name))


def _pmul(p, q):
    out = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mono(m, n)
            t = c * d
            out[k] = out[k] + t if k in out else t
    return _clean(out)


def _clean(p):
    out = {}
    for m, c in p.items():
        c = core.simp(c)
        if not (z3.is_int_value(c) and c.as_long() == 0):
            out[m] = c
    return out


def poly(e):
    """(polynomial with integer terms, positive integer denominator)."""
    if type(e) is SymInt:
        return {(): e.z}, 1
    if type(e) in (int, bool):
        return ({(): _c(int(e))} if e else {}), 1
    if isinstance(e, Integer):
        return ({(): _c(int(e))} if int(e) else {}), 1
    if isinstance(e, Rational):
        return {(): _c(int(e.p))}, int(e.q)
    if type(e) is PH:
        return {(): _term(e)}, 1
    if isinstance(e, Symbol):
        return {((e, 1),): _c(1)}, 1
    if isinstance(e, Add):
        parts = [poly(a) for a in e.args]
        den = functools.reduce(math.lcm, [d for _p, d in parts], 1)
        out = {}
        for p, d in parts:
            out = _padd(out, _pscale(p, den // d))
        return _clean(out), den
    if isinstance(e, Mul):
        out, den = {(): _c(1)}, 1
        for a in e.args:
            p, d = poly(a)
            out, den = _pmul(out, p), den * d
        return out, den
    if isinstance(e, Pow) and isinstance(e.exp, Integer) and 0 <= int(e.exp) <= 8:
        p, d = poly(e.base)
        out = {(): _c(1)}
        for _ in range(int(e.exp)):
            out = _pmul(out, p)
        return out, d ** int(e.exp)
    raise NotPoly(str(e))


def _poly(e):
    from engine.runtime import NeedConcrete

    try:
        return poly(e)
    except NotPoly:
        raise NeedConcrete("not a polynomial: %s" % e)


def _diff(a, b):
    p, d = _poly(a)
    q, f = _poly(b)
    return _clean(_padd(_pscale(p, f), _pscale(q, -d))), d * f


def equal(a, b):
    for x in (a, b):
        if not isinstance(x, Expr) and type(x) not in (int, SymInt):
            return False
    try:
        p, _d = _diff(a, b)
    except core.Inconclusive:
        return equal_conc(a, b)
    return mkbool(z3.And(*[c == 0 for c in p.values()])) if p else True


def equal_conc(a, b):
    return concretise(a) == concretise(b)


def compare(a, b, op):
    from engine.runtime import NeedConcrete

    for x in (a, b):
        if isinstance(x, Expr) and x.free_symbols:
            raise NeedConcrete("ordering of symbolic expressions")
    p, _d = _diff(a, b)
    return mkbool(op(p.get((), _c(0)), 0))


def rational(e):
    _poly(e)
    return True


def integral(e):
    p, d = _poly(e)
    if d == 1:
        return True
    return core.ctx().branch(p.get((), _c(0)) % d == 0)


def to_int(e):
    from engine.runtime import NeedConcrete

    if e.free_symbols:
        raise TypeError("Cannot convert symbols to int")
    p, d = _poly(e)
    num = p.get((), _c(0))
    if d == 1:
        return mkint(num)
    return mkint(z3.If(num >= 0, num / d, -((-num) / d)))


def concretise(e):
    """Fork over the values of all placeholders in ``e``."""
    if type(e) is SymInt:
        return Integer(e.conc())
    if not isinstance(e, Basic):
        return e
    phs = sorted(e.atoms(PH), key=lambda s: s.name)
    if not phs:
        return e
    return e.subs({p: Integer(core.ctx().pick(_term(p))) for p in phs})


# -- calls into sympy ---------------------------------------------------------

_TRANSPARENT = {
    "subs", "symbols", "Symbol", "sympify", "Integer", "expand", "xreplace",
    "Add", "Mul", "Pow", "Eq", "atoms", "has", "__add__", "__sub__",
    "__radd__", "__rsub__", "__mul__", "__rmul__", "__neg__",
}


def _contains(x, depth=0):
    if isinstance(x, Basic):
        return has_placeholder(x)
    if type(x) in (SymInt, SymBool):
        return True
    if isinstance(x, (tuple, list, set, frozenset)):
        return depth < 5 and any(_contains(e, depth + 1) for e in x)
    if isinstance(x, dict):
        return any(_contains(e, depth + 1) for kv in x.items() for e in kv)
    return False


def _deep_concretise(x):
    if isinstance(x, Basic) or type(x) is SymInt:
        return concretise(x)
    if type(x) is SymBool:
        return bool(x)
    if type(x) in (tuple, list, set, frozenset):
        return type(x)(_deep_concretise(e) for e in x)
    if isinstance(x, dict):
        return {_deep_concretise(k): _deep_concretise(v) for k, v in x.items()}
    return x


def guarded_call(f, args, kw):
    owner = getattr(f, "__self__", None)
    name = getattr(f, "__name__", "")
    if not (
        any(_contains(a) for a in args)
        or any(_contains(a) for a in kw.values())
        or (isinstance(owner, Basic) and has_placeholder(owner))
    ):
        return f(*args, **kw)
    if f is sympy.solve:
        return solve(*args, **kw)
    if name == "simplify":
        target = args[0] if args else owner
        return sympy.expand(target)
    if name in _TRANSPARENT:
        return f(*args, **kw)
    # Anything else runs for real, on concretised values.
    if isinstance(owner, Basic):
        f = getattr(concretise(owner), name)
    return f(*[_deep_concretise(a) for a in args],
             **{k: _deep_concretise(v) for k, v in kw.items()})


def solve(equations, *symbols, **flags):
    ctx = core.ctx()

    def real():
        return sympy.solve(
            _deep_concretise(equations), *[_deep_concretise(s) for s in symbols], **flags
        )

    if flags != {"dict": True} or isinstance(equations, Basic):
        return real()
    eqs = sorted(equations, key=str)
    try:
        polys = [poly(e)[0] for e in eqs]
    except NotPoly:
        return real()
    if not all(isinstance(e, Expr) for e in eqs):
        return real()
    solved = []  # (symbol, poly of the rest, integer divisor)
    nontrivial = False
    while polys:
        # Decide vanishing coefficients first.
        for p in polys:
            for m in list(p):
                c = p[m]
                if not z3.is_int_value(c) and (m != ()):
                    v = ctx.pick(c)
                    if v == 0:
                        del p[m]
                    else:
                        p[m] = _c(v)
        consts = [p for p in polys if all(m == () for m in p)]
        for p in consts:
            if p and not ctx.branch(p[()] == 0):
                return []
            polys.remove(p)
        if not polys:
            break
        nontrivial = True
        hit = None
        for p in polys:
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1:
                    x = m[0][0]
                    if all(x not in dict(n) for n in p if n != m):
                        hit = (p, m, x, c.as_long())
                        break
            if hit:
                break
        if hit is None:
            return real()
        p, m, x, a = hit
        rest = {n: c for n, c in p.items() if n != m}
        solved.append((x, rest, a))
        nxt = []
        for q in polys:
            if q is p:
                continue
            nxt.append(_eliminate(q, x, rest, a))
        polys = nxt
    if not nontrivial:
        return real()
    values = {}
    for x, rest, a in reversed(solved):
        value = _back(rest) * Rational(-1, a)
        values[x] = sympy.expand(value.subs(values)) if values else sympy.expand(value)
    return [values]


def _eliminate(q, x, rest, a):
    """q with x := -rest/a, scaled by a power of a."""
    deg = max([dict(m).get(x, 0) for m in q] or [0])
    if deg == 0:
        return dict(q)
    neg = _pscale(rest, -1)
    out = {}
    for m, c in q.items():
        e = dict(m).get(x, 0)
        n = tuple((s, k) for s, k in m if s != x)
        t = {n: c * (a ** (deg - e))}
        for _ in range(e):
            t = _pmul(t, neg)
        out = _padd(out, t)
    return _clean(out)


def _back(p):
    out = Integer(0)
    for m, c in p.items():
        t = placeholder(c)
        for s, e in m:
            t = t * s ** e
        out = out + t
    return out

"""Logical connectives usable on plain booleans and on solver terms alike, so
one oracle serves the symbolic run and the concrete replay."""
from engine.core import SymBool, SymInt, mkbool, z3, zb, zi, mkint


def land(*xs):
    terms = []
    for x in xs:
        if type(x) is SymBool:
            terms.append(x.z)
        elif not x:
            return False
    return mkbool(z3.And(*terms)) if terms else True


def lor(*xs):
    terms = []
    for x in xs:
        if type(x) is SymBool:
            terms.append(x.z)
        elif x:
            return True
    return mkbool(z3.Or(*terms)) if terms else False


def lnot(x):
    return mkbool(z3.Not(x.z)) if type(x) is SymBool else not x


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        return mkbool(zb(a) == zb(b))
    return bool(a) == bool(b)


def ite(c, a, b):
    """Integer if-then-else."""
    if type(c) is SymBool:
        return mkint(z3.If(c.z, zi(a), zi(b)))
    return a if c else b


def iteb(c, a, b):
    return lor(land(c, a), land(lnot(c), b))


def eq(a, b):
    """Equality of ints / tuples of ints."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return land(*[eq(x, y) for x, y in zip(a, b)])
    return a == b


def same(a, b):
    """Equality of strings (or None)."""
    if type(a) is str and type(b) is str:
        from engine import core

        if core.OPEN in a or core.OPEN in b:
            return core.ctx().str_eq(a, b)
    return a == b

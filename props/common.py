"""Independent oracles shared by the properties."""
from engine.ops import land, lor, lnot, implies, iff, eq, ite

E = Ellipsis


def dim_ok(p, d):
    """One pattern integer against one dimension."""
    return lor(land(p == -1, d > 0), p == d)


def shape_matches(pattern, dims):
    """The documented pattern language: a literal is that size, -1 is any
    positive size, ``...`` is any run of positive sizes (possibly empty).
    ``None`` means the annotation constrains no shape."""
    if pattern is None:
        return True
    memo = {}

    def m(i, j):
        if (i, j) in memo:
            return memo[i, j]
        if i == len(pattern):
            r = j == len(dims)
        elif pattern[i] is E:
            r = m(i + 1, j)
            if j < len(dims):
                r = lor(r, land(dims[j] > 0, m(i, j + 1)))
        elif j < len(dims):
            r = land(dim_ok(pattern[i], dims[j]), m(i + 1, j + 1))
        else:
            r = False
        memo[i, j] = r
        return r

    return m(0, 0)


def skeletons(maxlen, minlen=1):
    """All pattern skeletons ('i' = integer, '.' = ellipsis) without two
    adjacent ellipses."""
    out = []

    def go(s):
        if minlen <= len(s):
            out.append(s)
        if len(s) < maxlen:
            go(s + "i")
            if not s.endswith("."):
                go(s + ".")

    go("")
    return [s for s in out if s]


def subscript(pattern):
    """``X[pattern]`` as a user writes it."""
    return pattern[0] if len(pattern) == 1 else tuple(pattern)


# -- the three families of types ------------------------------------------------

FAMILIES = ("array", "torch", "tf")


def load_for(env, *fams, **kw):
    return env.load(torch="torch" in fams, tf="tf" in fams, **kw)


def family_type(asta, fam):
    return {"array": "Array", "torch": "Tensor", "tf": "TFTensor"}[fam] and getattr(
        asta, {"array": "Array", "torch": "Tensor", "tf": "TFTensor"}[fam]
    )


def make_value(env, fam, dims, dtype=None, attrs=None):
    """An array or tensor of this family; ``dtype`` names a 32/64-bit type."""
    if fam == "array":
        return env.array(dims, dtype or "float64", attrs)
    if fam == "torch":
        return env.ttensor(dims, getattr(env.torch, dtype or "float32"), attrs)
    return env.tensor(dims, getattr(env.tf, dtype or "float32"), attrs)


def default_dtype(fam):
    return "float64" if fam == "array" else "float32"


CONFIG = {"on": "yes", "raise-errors": "yes", "print-passes": "no", "check-non-asta-types": "no",
          "check-all-sequence-elements": "yes"}


def typed(asta, annotations, body=None, names=None, defaults=()):
    """A decorated function of ``names`` (default: the annotated parameters)."""
    names = [n for n in annotations if n != "return"] if names is None else names
    ns = {"_body": body or (lambda *a: None)}
    exec("def fn(%s):\n    return _body(%s)" % (", ".join(names), ", ".join(names)), ns)
    fn = ns["fn"]
    fn.__annotations__ = dict(annotations)
    fn.__module__ = "user"
    return asta.typechecked(fn)


# -- systems of equations ---------------------------------------------------------


class Lin:
    """a*X + b*Y + ... + c with integer coefficients."""

    def __init__(self, c=0, **coef):
        self.c, self.coef = c, {k: v for k, v in coef.items() if v}

    def expr(self, syms):
        e = self.c
        for k, v in sorted(self.coef.items()):
            e = v * getattr(syms, k) + e
        return e

    def at(self, values):
        r = self.c
        for k, v in self.coef.items():
            r = v * values[k] + r
        return r


class Const(Lin):
    """An expression without symbols."""

    def expr(self, syms):
        return getattr(syms, "X") - getattr(syms, "X") + self.c


def solvable(eqs):
    """Whether ``lin == value`` for all pairs in ``eqs`` has a (rational)
    solution; the values may be symbolic."""
    rows = [(dict(l.coef), v - l.c) for l, v in eqs]
    conds = []
    while rows:
        coef, rhs = rows.pop(0)
        coef = {k: v for k, v in coef.items() if v}
        if not coef:
            conds.append(rhs == 0)
            continue
        x, a = sorted(coef.items())[0]
        new = []
        for c2, r2 in rows:
            b = c2.get(x, 0)
            if b:
                c2 = {k: a * c2.get(k, 0) - b * coef.get(k, 0) for k in set(c2) | set(coef)}
                r2 = a * r2 - b * rhs
            new.append((c2, r2))
        rows = new
    return land(*conds)


def placements(pattern, dims):
    """Every way to lay ``pattern`` over ``dims``: (condition, equations)."""
    out = []

    def go(i, j, cond, eqs):
        if i == len(pattern):
            if j == len(dims):
                out.append((land(*cond), eqs))
            return
        p = pattern[i]
        if p is E:
            run = list(cond)
            for k in range(j, len(dims) + 1):
                go(i + 1, k, run, eqs)
                if k < len(dims):
                    run = run + [dims[k] > 0]
        elif j < len(dims):
            if isinstance(p, Lin):
                go(i + 1, j + 1, cond, eqs + [(p, dims[j])])
            else:
                go(i + 1, j + 1, cond + [dim_ok(p, dims[j])], eqs)

    go(0, 0, [], [])
    return out


def lin_matches(pattern, dims, extra=()):
    """Some placement whose equations, with ``extra``, are solvable."""
    return lor(*[land(c, solvable(list(eqs) + list(extra))) for c, eqs in placements(pattern, dims)])


def as_subscript(pattern, syms):
    return tuple(p.expr(syms) if isinstance(p, Lin) else p for p in pattern)

"""Path-exhaustive symbolic execution core.

Values flowing through the real code are proxies (SymInt, SymBool) that carry a
z3 term.  Every time the code under test needs a concrete truth value, the
proxy asks the current ``Ctx`` which, with the solver, decides which of the two
outcomes are feasible under the path condition, follows one and schedules the
other.  A scenario is exhausted when no scheduled prefix is left, so the set of
explored paths partitions the whole (bounded) input space.
"""
import re
import sys
import time

from engine.z3load import z3


class Control(BaseException):
    """Base of engine control flow; BaseException so code under test that
    catches ``Exception``/``TypeError`` cannot swallow it."""


class Inconclusive(Control):
    """The solver (or the encoding) could not decide something."""


class Infeasible(Control):
    """The current path turned out to be infeasible."""


OPEN, CLOSE = "\u27e6", "\u27e7"


_CANON = re.compile(r"0|-?[1-9][0-9]*")
_UNIT = re.compile("%s[^%s]*%s|-?[0-9]+|(?:(?!-?[0-9])[^%s])+" % (OPEN, CLOSE, CLOSE, OPEN), re.S)


def digity(s):
    """Does splitting/replacing on ``s`` depend on the digits of a token?"""
    return any(ch.isdigit() or ch in "-" for ch in s)


def truth(x):
    return bool(x)


CTX = None  # the active exploration context (one per process)


def ctx():
    if CTX is None:
        raise RuntimeError("symbolic value used outside an exploration")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------------
# Conversions


_KEEP = {}


def simp(term):
    """Simplified term.  Terms are kept for the whole exploration: z3 orders
    arguments by age, and re-executions of a path must see the same terms."""
    for t in (term, z3.simplify(term)):
        _KEEP.setdefault(t.get_id(), t)
    return t


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    """Anything int-like -> z3 Int term."""
    if type(x) is SymInt:
        return x.z
    if type(x) is SymBool:
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if is_z3(x):
        return x
    return z3.IntVal(int(x))


def zb(x):
    """Anything bool-like -> z3 Bool term."""
    if type(x) is SymBool:
        return x.z
    if type(x) is SymInt:
        return x.z != 0
    if is_z3(x):
        return x
    return z3.BoolVal(bool(x))


def And(*xs):
    return z3.And(*[zb(x) for x in xs]) if xs else z3.BoolVal(True)


def Or(*xs):
    return z3.Or(*[zb(x) for x in xs]) if xs else z3.BoolVal(False)


def Not(x):
    return z3.Not(zb(x))


def Iff(a, b):
    return zb(a) == zb(b)


def Implies(a, b):
    return z3.Implies(zb(a), zb(b))


# --------------------------------------------------------------------------
# Exploration context


class Stats:
    FIELDS = (
        "paths",
        "branches",
        "queries",
        "solver_s",
        "assertion_queries",
        "concretizations",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Ctx:
    """Explores all paths of ``fn(ctx)``; see ``explore``."""

    def __init__(self, max_paths=200000, deadline=None, enum_limit=128):
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.max_paths = max_paths
        self.deadline = deadline
        self.enum_limit = enum_limit
        self.stats = Stats()
        self.inputs = {}  # name -> (term, kind)
        self.str_mode = "token"
        self.hash_mode = "structural"
        self.alive = {}  # decided terms, so that their identities stay the same
        self.tokens = {}
        self.token_terms = []
        self.token_names = {}
        self._reset_path([])
        self.work = []

    # -- path bookkeeping
    def _reset_path(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.known = {}

    def check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.queries += 1
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive("solver returned unknown: " + self.solver.reason_unknown())
        return r == z3.sat

    def assume(self, cond):
        cond = zb(cond)
        self.solver.add(cond)

    def branch(self, cond):
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = False
        if z3.is_not(cond):
            cond = cond.arg(0)
            neg = True
        key = cond.get_id()
        self.alive[key] = cond
        hit = self.known.get(key)
        if hit is not None:
            return hit[1] != neg
        pos = len(self.trail)
        if pos < len(self.prefix):
            tag, taken, at = self.prefix[pos]
            if tag != "b" or at != key:
                raise Inconclusive("nondeterministic re-execution")
        else:
            self.stats.branches += 1
            if self.deadline is not None and time.time() > self.deadline:
                raise Inconclusive("time budget of the scenario exhausted")
            can_true = self.check(cond)
            if can_true:
                can_false = self.check(z3.Not(cond))
                taken = True
                if can_false:
                    self.work.append(self.trail + [("b", False, key)])
            else:
                taken = False
        self.trail.append(("b", taken, key))
        self.solver.add(cond if taken else z3.Not(cond))
        self.known[key] = (cond, taken)
        return taken != neg

    def pick(self, term):
        """Concretise: fork over every feasible value of an Int term."""
        term = simp(term)
        if z3.is_int_value(term):
            return term.as_long()
        pos = len(self.trail)
        key = term.get_id()
        self.alive[key] = term
        excluded = []
        if pos < len(self.prefix):
            tag, val, at = self.prefix[pos]
            if tag not in "vx" or at != key:
                raise Inconclusive("nondeterministic re-execution")
            if tag == "v":
                self.trail.append(("v", val, key))
                self.solver.add(term == val)
                return val
            excluded = list(val)
        for v in excluded:
            self.solver.add(term != v)
        if not self.check():
            raise Infeasible()
        v = self.solver.model().eval(term, model_completion=True).as_long()
        self.stats.concretizations += 1
        nxt = excluded + [v]
        if self.check(term != v):
            if len(nxt) >= self.enum_limit:
                raise Inconclusive("concretisation of an unbounded value")
            self.work.append(self.trail + [("x", tuple(nxt), key)])
        self.trail.append(("v", v, key))
        self.solver.add(term == v)
        return v

    # -- strings that stand for symbolic values
    def token(self, term):
        term = simp(term)
        if z3.is_int_value(term):
            return str(term.as_long())
        return self._token(term, None)

    def choice_token(self, term, options):
        """A string that is ``options[i]`` exactly when ``term == i``."""
        return self._token(term, tuple(options))

    def _token(self, term, options):
        key = (term.get_id(), options)
        if key not in self.tokens:
            name = _letters(len(self.token_terms))
            self.tokens[key] = name
            self.token_terms.append((name, term, options))
            self.token_names[name] = (term, options)
        return OPEN + self.tokens[key] + CLOSE

    def _single(self, s):
        """(term, options) when ``s`` is exactly one token."""
        if len(s) > 2 and s[0] == OPEN and s[-1] == CLOSE and s.count(OPEN) == 1:
            return self.token_names.get(s[1:-1])
        return None

    def has_choice(self, s):
        """Whether part of the text is one of several strings."""
        return any(self.token_names[part.split(CLOSE, 1)[0]][1] is not None for part in s.split(OPEN)[1:])

    def choices(self, s):
        """What the parts of the text may be that are one of several strings."""
        hits = [self.token_names[part.split(CLOSE, 1)[0]][1] for part in s.split(OPEN)[1:]]
        return {o for options in hits for o in options or ()}

    def token_int(self, s):
        hit = self._single(s)
        return hit[0] if hit and hit[1] is None else None

    def str_conc(self, s):
        """The concrete string, forking over the tokens it contains."""
        if OPEN not in s:
            return s
        out = []
        rest = s
        while OPEN in rest:
            head, rest = rest.split(OPEN, 1)
            name, rest = rest.split(CLOSE, 1)
            term, options = self.token_names[name]
            v = self.pick(term)
            out += [head, str(v) if options is None else options[v]]
        return "".join(out) + rest

    def str_eq(self, a, b):
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            hit = self._single(x)
            if hit is None:
                continue
            term, options = hit
            if OPEN not in y:
                if options is None:
                    try:
                        v = int(y)
                    except ValueError:
                        return False
                    return mkbool(term == v) if str(v) == y else False
                return mkbool(
                    z3.Or(*[term == i for i, o in enumerate(options) if o == y])
                )
            other = self._single(y)
            if other is not None and other[1] is None and options is None:
                return mkbool(term == other[0])
        units = self._units(a), self._units(b)
        if None not in units:
            if len(units[0]) != len(units[1]):
                return False
            terms = []
            for x, y in zip(*units):
                if type(x) is str and type(y) is str:
                    if x != y:
                        return False
                elif type(x) is str or type(y) is str:
                    # A number written as one would print it, or a text.
                    text, term = (x, y) if type(x) is str else (y, x)
                    if not _CANON.fullmatch(text):
                        return False
                    terms.append(term == int(text))
                else:
                    terms.append(x == y)
            return mkbool(z3.And(*terms)) if terms else True
        return self.str_conc(a) == self.str_conc(b)

    def _units(self, s):
        """``s`` as maximal numbers (terms or digits) and the texts between
        them; None when a token touches a digit, a sign or another token."""
        out = []
        last = None  # what the previous unit was
        for m in _UNIT.finditer(s):
            part = m.group()
            if part[0] == OPEN:
                term, options = self.token_names[part[1:-1]]
                if options is not None or last not in (None, "text"):
                    return None
                out.append(term)
                last = "token"
            elif part[-1].isdigit():
                if last == "token":
                    return None
                out.append(part)
                last = "digits"
            else:
                out.append(part)
                last = "minus" if part[-1] == "-" else "text"
        return out

    def model(self, *extra, prefer_small=True):
        """A model of the path condition plus ``extra`` as {input: value}."""
        terms = [t for (t, _k) in self.inputs.values()]
        cands = []
        if prefer_small:
            for lim in (3, 9, 40):
                cands.append([z3.And(t <= lim, t >= -lim) for t in terms if z3.is_int(t)])
        cands.append([])
        for cand in cands:
            self.solver.push()
            try:
                self.solver.add(*extra)
                self.solver.add(*cand)
                if self.check():
                    m = self.solver.model()
                    out = {}
                    for name, (t, kind) in self.inputs.items():
                        v = m.eval(t, model_completion=True)
                        out[name] = z3.is_true(v) if kind == "bool" else v.as_long()
                    return out
            finally:
                self.solver.pop()
        return None

    def explore(self, fn, on_path):
        """Run ``fn`` over all paths, calling ``on_path`` at the end of each
        (with the solver holding that path's condition)."""
        self.work = [[]]
        _KEEP.clear()
        while self.work:
            if self.stats.paths >= self.max_paths:
                raise Inconclusive("path limit reached")
            if self.deadline is not None and time.time() > self.deadline:
                raise Inconclusive("time budget of the scenario exhausted")
            prefix = self.work.pop()
            self._reset_path(prefix)
            self.inputs = {}
            self.str_mode = "token"
            self.solver.push()
            set_ctx(self)
            try:
                try:
                    result = fn()
                except Infeasible:
                    continue
                self.stats.paths += 1
                if on_path(result) == "stop":
                    return
            finally:
                set_ctx(None)
                self.solver.pop()


def _letters(n):
    s = ""
    while True:
        s = chr(ord("a") + n % 26) + s
        n //= 26
        if n == 0:
            return s


# --------------------------------------------------------------------------
# Proxies


def _intlike(x):
    return type(x) in (int, bool, SymInt, SymBool)


class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ctx().branch(self.z)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(self.z == zb(o))
        if type(o) in (int, SymInt):
            return mkbool(zi(self) == zi(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else negate(r)

    def __and__(self, o):
        return mkbool(z3.And(self.z, zb(o))) if type(o) in (bool, SymBool) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, zb(o))) if type(o) in (bool, SymBool) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zb(o))) if type(o) in (bool, SymBool) else NotImplemented

    __rxor__ = __xor__

    def __add__(self, o):
        return mkint(zi(self) + zi(o)) if _intlike(o) else NotImplemented

    __radd__ = __add__

    def __mul__(self, o):
        return mkint(zi(self) * zi(o)) if _intlike(o) else NotImplemented

    __rmul__ = __mul__

    def __sub__(self, o):
        return mkint(zi(self) - zi(o)) if _intlike(o) else NotImplemented

    def __rsub__(self, o):
        return mkint(zi(o) - zi(self)) if _intlike(o) else NotImplemented

    def __lt__(self, o):
        return mkbool(zi(self) < zi(o)) if _intlike(o) else NotImplemented

    def __le__(self, o):
        return mkbool(zi(self) <= zi(o)) if _intlike(o) else NotImplemented

    def __gt__(self, o):
        return mkbool(zi(self) > zi(o)) if _intlike(o) else NotImplemented

    def __ge__(self, o):
        return mkbool(zi(self) >= zi(o)) if _intlike(o) else NotImplemented

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return repr(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymInt:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return int

    def conc(self):
        return ctx().pick(self.z)

    # comparisons -----------------------------------------------------------
    def __eq__(self, o):
        if _intlike(o):
            return mkbool(self.z == zi(o))
        if type(o) is float or (type(o).__module__ == "numpy" and hasattr(o, "item")):
            try:
                f = o.item() if hasattr(o, "item") else o
            except Exception:
                return NotImplemented
            if isinstance(f, (int, float)) and f == int(f):
                return mkbool(self.z == int(f))
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else negate(r)

    def __lt__(self, o):
        return mkbool(self.z < zi(o)) if _intlike(o) else NotImplemented

    def __le__(self, o):
        return mkbool(self.z <= zi(o)) if _intlike(o) else NotImplemented

    def __gt__(self, o):
        return mkbool(self.z > zi(o)) if _intlike(o) else NotImplemented

    def __ge__(self, o):
        return mkbool(self.z >= zi(o)) if _intlike(o) else NotImplemented

    def __hash__(self):
        return hash(self.conc())

    def __bool__(self):
        return ctx().branch(self.z != 0)

    # arithmetic ------------------------------------------------------------
    def __add__(self, o):
        return mkint(self.z + zi(o)) if _intlike(o) else NotImplemented

    def __radd__(self, o):
        return mkint(zi(o) + self.z) if _intlike(o) else NotImplemented

    def __sub__(self, o):
        return mkint(self.z - zi(o)) if _intlike(o) else NotImplemented

    def __rsub__(self, o):
        return mkint(zi(o) - self.z) if _intlike(o) else NotImplemented

    def __mul__(self, o):
        if _intlike(o):
            return mkint(self.z * zi(o))
        if isinstance(o, (str, tuple, list, bytes)):
            return o * self.conc()
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._div(self, o, "floordiv") if _intlike(o) else NotImplemented

    def __rfloordiv__(self, o):
        return self._div(o, self, "floordiv") if _intlike(o) else NotImplemented

    def __mod__(self, o):
        return self._div(self, o, "mod") if _intlike(o) else NotImplemented

    def __rmod__(self, o):
        return self._div(o, self, "mod") if _intlike(o) else NotImplemented

    @staticmethod
    def _div(a, b, what):
        a, b = zi(a), zi(b)
        if ctx().branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if not ctx().branch(b > 0):
            a, b2 = -a, -b
            # floor(a/b) == floor((-a)/(-b)); a mod b == -((-a) mod (-b))
            return mkint(a / b2) if what == "floordiv" else mkint(-(a % b2))
        return mkint(a / b) if what == "floordiv" else mkint(a % b)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return self.conc() / (o.conc() if type(o) is SymInt else o)

    def __rtruediv__(self, o):
        return o / self.conc()

    def __pow__(self, o, mod=None):
        if mod is None and type(o) is int and 0 <= o <= 4:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.z
            return mkint(r)
        if _intlike(o):
            return pow(self.conc(), int(o), mod)
        return NotImplemented

    def __rpow__(self, o):
        return o ** self.conc() if _intlike(o) else NotImplemented

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z < 0, -self.z, self.z))

    def __and__(self, o):
        return self.conc() & (o.conc() if type(o) is SymInt else o)

    __rand__ = __and__

    def __or__(self, o):
        return self.conc() | (o.conc() if type(o) is SymInt else o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.conc() ^ (o.conc() if type(o) is SymInt else o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self.conc() << int(o)

    def __rshift__(self, o):
        return self.conc() >> int(o)

    def __invert__(self):
        return mkint(-self.z - 1)

    def __index__(self):
        return self.conc()

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.conc())

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    __ceil__ = __floor__

    def bit_length(self):
        return self.conc().bit_length()

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def is_integer(self):
        return True

    # text ------------------------------------------------------------------
    def __repr__(self):
        c = ctx()
        if c.str_mode == "concretize":
            return repr(self.conc())
        return c.token(self.z)

    __str__ = __repr__

    def __format__(self, spec):
        spec = spec.rstrip("dn")
        return format(repr(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # sympy -----------------------------------------------------------------
    def _sympy_(self):
        from engine import exprs

        return exprs.placeholder(self.z)


def mkint(z):
    if type(z) is int:
        return z
    z = simp(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


def mkbool(z):
    if type(z) is bool:
        return z
    z = simp(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def negate(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.z))
    return not x


def is_sym(x):
    return type(x) in (SymInt, SymBool)

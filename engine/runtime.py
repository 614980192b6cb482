"""What the instrumented source calls instead of the raw operations.

Each helper is observationally the native operation on ordinary values; only
values that carry solver terms (SymInt, SymBool, token strings, sympy
expressions with placeholders) are treated specially.
"""
import builtins
import functools
import operator
import os
import pathlib
import re

from engine import core
from engine.core import SymBool, SymInt, mkbool, mkint, negate, z3
from engine import exprs
from sympy.core.basic import Basic
from sympy.core.expr import Expr
from sympy.core.numbers import Integer, Number, Rational
from sympy.core.symbol import Symbol

FUNCS = set()  # names of /repo functions entered through instrumented calls


class NeedConcrete(core.Inconclusive):
    """Code used an operation the symbolic encoding has no rule for."""


# -- helpers ----------------------------------------------------------------

_SYM = (SymInt, SymBool)


def symbolic(x, depth=0):
    t = type(x)
    if t in _SYM:
        return True
    if t is str:
        return core.OPEN in x
    if t in (int, bool, float, type(None)):
        return False
    if isinstance(x, (tuple, list)) and t.__module__ != "typing":
        return depth < 6 and any(symbolic(e, depth + 1) for e in x)
    if isinstance(x, Expr):
        return exprs.has_placeholder(x)
    return False


def _eq(a, b):
    """``a == b`` with the result merged into one term where possible."""
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        if core.OPEN in a or core.OPEN in b:
            return core.ctx().str_eq(a, b)
        return a == b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if (isinstance(a, tuple) and isinstance(b, tuple)) or (
            isinstance(a, list) and isinstance(b, list)
        ):
            if not (symbolic(a) or symbolic(b)):
                return a == b
            if len(a) != len(b):
                return False
            terms = []
            for x, y in zip(a, b):
                r = True if x is y else _eq(x, y)
                if type(r) is SymBool:
                    terms.append(r.z)
                elif r is False:
                    return False
                elif r is not True:
                    if not r:
                        return False
            return mkbool(z3.And(*terms)) if terms else True
        return a == b
    if (isinstance(a, Expr) and exprs.has_placeholder(a)) or (
        isinstance(b, Expr) and exprs.has_placeholder(b)
    ):
        return exprs.equal(a, b)
    return a == b


def eq(a, b):
    return _eq(a, b) if (symbolic(a) or symbolic(b)) else a == b


def ne(a, b):
    if symbolic(a) or symbolic(b):
        r = _eq(a, b)
        return negate(r)
    return a != b


_INTS = (SymInt, int)


def is_(a, b):
    """Identity: CPython keeps one object for each int in [-5, 256]."""
    if a is b:
        return True
    s, t = type(a), type(b)
    if s not in _SYM and t not in _SYM:
        return False
    if s in _INTS and t in _INTS:
        x, y = core.zi(a), core.zi(b)
        if z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
            return True
        return mkbool(z3.And(x == y, x >= -5, x <= 256))
    if s in (SymBool, bool) and t in (SymBool, bool):
        return mkbool(core.zb(a) == core.zb(b))
    return False


def is_not(a, b):
    return negate(is_(a, b))


def _order(a, b, op):
    if isinstance(a, Expr) or isinstance(b, Expr):
        if symbolic(a) or symbolic(b):
            return exprs.compare(a, b, op)
    return op(a, b)


def lt(a, b):
    return _order(a, b, operator.lt)


def le(a, b):
    return _order(a, b, operator.le)


def gt(a, b):
    return _order(a, b, operator.gt)


def ge(a, b):
    return _order(a, b, operator.ge)


def in_(x, coll):
    if isinstance(coll, (tuple, list)):
        if symbolic(x) or symbolic(coll):
            terms = []
            for e in coll:
                r = True if e is x else _eq(e, x)
                if type(r) is SymBool:
                    terms.append(r.z)
                elif r:
                    return True
            return mkbool(z3.Or(*terms)) if terms else False
        return x in coll
    if isinstance(coll, (set, frozenset)):
        if any(symbolic(e) for e in coll) or symbolic(x):
            terms = []
            for e in coll:
                r = True if e is x else _eq(e, x)
                if type(r) is SymBool:
                    terms.append(r.z)
                elif r:
                    return True
            return mkbool(z3.Or(*terms)) if terms else False
        return x in coll
    if type(coll) is range and type(x) is SymInt:
        if not len(coll):
            return False
        lo, hi = sorted((coll[0], coll[-1]))
        return mkbool(z3.And(x.z >= lo, x.z <= hi, (x.z - lo) % abs(coll.step) == 0))
    if type(coll) is str and type(x) is str and (core.OPEN in coll or core.OPEN in x):
        c = core.ctx()
        return c.str_conc(x) in c.str_conc(coll)
    return key(x) in coll


def key(x):
    """What is looked up in a mapping: the text itself, not its token."""
    if type(x) is str and core.OPEN in x:
        return core.ctx().str_conc(x)
    return x


def text(x):
    """A string whose choice is made, where the text matters (truth, length)."""
    if type(x) is str and core.OPEN in x and core.ctx().has_choice(x):
        return core.ctx().str_conc(x)
    return x


def mod(a, b):
    if type(a) is str and ("%d" in a or "%i" in a):
        args = b if type(b) is tuple else (b,)
        if any(type(x) is SymInt for x in args):
            a = a.replace("%d", "%s").replace("%i", "%s")
    return a % b


def not_in(x, coll):
    return negate(in_(x, coll))


# -- builtins ---------------------------------------------------------------


def s_isinstance(x, t):
    if isinstance(x, Expr) and exprs.has_placeholder(x):
        return any(_expr_isinstance(x, c) for c in _flat(t))
    return isinstance(x, t)


def _flat(t):
    if isinstance(t, tuple):
        for e in t:
            yield from _flat(e)
    else:
        yield t


def _expr_isinstance(x, c):
    if c is object or c in (Basic, Expr):
        return True
    if not (isinstance(c, type) and issubclass(c, Basic)):
        return False if c is not int else False
    if exprs.placeholder_only(x):
        if c in (Number, Rational):
            return exprs.rational(x)
        if c is Integer:
            return bool(exprs.integral(x))
        if issubclass(c, (Number, Symbol)):
            if c is Symbol:
                return False
            raise NeedConcrete("isinstance(%s, %s)" % (x, c))
        if c in (Expr, Basic):
            return True
        raise NeedConcrete("isinstance(%s, %s)" % (x, c))
    if c is Symbol or issubclass(c, Number):
        return False
    raise NeedConcrete("isinstance(%s, %s)" % (x, c))


def s_type(x):
    t = type(x)
    if t is SymInt:
        return int
    if t is SymBool:
        return bool
    real = getattr(t, "_engine_real_type_", None)
    if real is not None:
        return real
    if isinstance(x, Expr) and exprs.has_placeholder(x):
        if exprs.placeholder_only(x):
            return Integer if exprs.integral(x) else Rational
        return t
    return t


def s_int(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return mkint(core.zi(x))
        if type(x) is str and core.OPEN in x:
            term = core.ctx().token_int(x.strip())
            if term is not None:
                return mkint(term)
            return int(core.ctx().str_conc(x))
        if isinstance(x, Expr) and exprs.has_placeholder(x):
            return exprs.to_int(x)
    return int(*args, **kw)


def s_index(x):
    return s_int(x) if type(x) in (SymInt, SymBool) else operator.index(x)


def s_bool(*args):
    if len(args) == 1 and type(args[0]) is SymBool:
        return args[0]
    if len(args) == 1 and type(args[0]) is SymInt:
        return mkbool(args[0].z != 0)
    return bool(*args)


def _skeleton(x):
    """What remains of ``x`` when all numbers and expressions are ignored."""
    if type(x) is tuple or type(x).__name__ == "Size" and isinstance(x, tuple):
        return tuple(_skeleton(e) for e in x)
    if type(x) in (int, bool, SymInt, SymBool) or isinstance(x, Expr):
        return 0
    return x


def s_hash(x):
    if isinstance(x, tuple) and core.ctx().hash_mode == "structural":
        # More collisions than in a real run: containers then compare the
        # members, which is what decides.  (C05 asks for real hashes.)
        return hash(_skeleton(x))
    if type(x) is SymInt:
        # CPython: hash(n) == n for small n, except hash(-1) == -2.
        return mkint(z3.If(x.z == -1, z3.IntVal(-2), x.z))
    if type(x) is str and core.OPEN in x:
        return hash(core.ctx().str_conc(x))
    if isinstance(x, tuple) and symbolic(x):
        return hash(tuple(s_conc(e) for e in x))
    return hash(x)


def s_conc(x):
    if type(x) is SymInt:
        return x.conc()
    if type(x) is SymBool:
        return bool(x)
    if type(x) is str and core.OPEN in x:
        return core.ctx().str_conc(x)
    if type(x) is tuple:
        return tuple(s_conc(e) for e in x)
    return x


def s_map(f, *its):
    return map(lambda *a: call(f, *a), *its)


def s_filter(f, it):
    return filter(f if f is None else (lambda a: call(f, a)), it)


def s_any(it):
    """Merged disjunction when every element is already a boolean."""
    terms = []
    for e in it:
        if type(e) is SymBool:
            terms.append(e.z)
        elif e:
            return True
    return mkbool(z3.Or(*terms)) if terms else False


def s_all(it):
    terms = []
    for e in it:
        if type(e) is SymBool:
            terms.append(e.z)
        elif not e:
            return False
    return mkbool(z3.And(*terms)) if terms else True


def s_max(*args, **kw):
    seq = list(args[0]) if len(args) == 1 else list(args)
    if kw or not any(type(e) is SymInt for e in seq):
        return max(*args, **kw)
    r = core.zi(seq[0])
    for e in seq[1:]:
        r = z3.If(core.zi(e) > r, core.zi(e), r)
    return mkint(r)


def s_min(*args, **kw):
    seq = list(args[0]) if len(args) == 1 else list(args)
    if kw or not any(type(e) is SymInt for e in seq):
        return min(*args, **kw)
    r = core.zi(seq[0])
    for e in seq[1:]:
        r = z3.If(core.zi(e) < r, core.zi(e), r)
    return mkint(r)


def _present(path):
    """Symbolic existence of a file the scenario declared, else None."""
    presence = getattr(core.CTX, "presence", None)
    if not presence:
        return None
    try:
        return presence.get(os.path.realpath(os.fspath(path)))
    except TypeError:
        return None


def s_isfile(path):
    p = _present(path)
    return os.path.isfile(path) if p is None else p


def s_exists(path):
    p = _present(path)
    return os.path.exists(path) if p is None else p


def s_open(path, *args, **kw):
    p = _present(path)
    if p is not None and not p:
        raise FileNotFoundError(2, "No such file or directory", path)
    return open(path, *args, **kw)


SPECIAL = {
    operator.index: s_index,
    os.path.isfile: s_isfile,
    os.path.exists: s_exists,
    open: s_open,
    any: s_any,
    all: s_all,
    max: s_max,
    min: s_min,
    isinstance: s_isinstance,
    int: s_int,
    bool: s_bool,
    hash: s_hash,
    map: s_map,
    filter: s_filter,
    operator.eq: eq,
    operator.ne: ne,
    operator.contains: lambda c, x: in_(x, c),
}


def _method(f):
    owner = getattr(f, "__self__", None)
    return owner, getattr(f, "__name__", "")


def call(f, /, *args, **kw):
    try:
        special = SPECIAL.get(f)
    except TypeError:
        special = None
    if special is not None:
        return special(*args, **kw)
    if f is type:
        if len(args) == 1 and not kw:
            return s_type(args[0])
        return type(*args, **kw)
    tf = type(f)
    if tf is _BUILTIN:
        owner = f.__self__
        if type(owner) in (set, frozenset, list, tuple):
            r = _container_method(owner, f.__name__, args)
            if r is not _NATIVE:
                return r
        elif type(owner) is str and core.OPEN in owner:
            return _str_method(owner, f, args, kw)
        elif isinstance(owner, dict):
            if f.__name__ in ("get", "pop", "setdefault", "__contains__", "__getitem__") and args:
                args = (key(args[0]),) + args[1:]
        elif owner is builtins and f not in _KEEP_TEXT:
            args = tuple(text(a) for a in args)
    elif tf is type:
        if f.__module__ == "builtins" and f not in _KEEP_TEXT and not issubclass(f, BaseException):
            args = tuple(text(a) for a in args)
    elif tf is _METHOD and isinstance(f.__self__, pathlib.PurePath):
        if f.__name__ in ("exists", "is_file"):
            p = _present(f.__self__)
            if p is not None:
                return p
    elif tf is functools.partial and _needs(f):
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    elif tf is _UNBOUND and f.__objclass__ is str and args and type(args[0]) is str and core.OPEN in args[0]:
        return _str_method(args[0], getattr(args[0], f.__name__), args[1:], kw)
    mod = getattr(f, "__module__", None)
    if type(mod) is str and mod.startswith("sympy"):
        return exprs.guarded_call(f, args, kw)
    if mod in _READERS or (tf is _BUILTIN and type(f.__self__) is re.Pattern):
        args, kw = tuple(text(a) for a in args), {k: text(v) for k, v in kw.items()}
    return f(*args, **kw)


def _needs(p):
    try:
        return p.func in SPECIAL
    except TypeError:
        return False


_BUILTIN = type(len)
_UNBOUND = type(str.strip)
_READERS = {"re", "json", "json.decoder", "ast", "shlex", "fnmatch", "string", "textwrap", "locale", "difflib", "unicodedata"}
_KEEP_TEXT = {print, str, repr, format, isinstance, type, id, callable, setattr, getattr, hasattr, object, property, staticmethod, classmethod, super, iter, next, zip, enumerate, reversed}
_METHOD = type(core.Ctx().check)
_NATIVE = object()


def _container_method(owner, name, args):
    if name in ("remove", "discard") and type(owner) is set:
        x = args[0]
        if symbolic(x) or any(symbolic(e) for e in owner):
            # In the real run semantically equal members are one member.
            hit = [e for e in list(owner) if e is x or core.truth(_eq(e, x))]
            if not hit and name == "remove":
                raise KeyError(x)
            for e in hit:
                owner.discard(e)
            return None
    elif name in ("index", "count", "remove") and type(owner) in (tuple, list) and len(args) == 1:
        x = args[0]
        if symbolic(x) or symbolic(owner):
            if name == "count":
                n = z3.IntVal(0)
                for e in owner:
                    r = True if e is x else _eq(e, x)
                    n = n + z3.If(core.zb(r), z3.IntVal(1), z3.IntVal(0))
                return mkint(n)
            for i, e in enumerate(owner):
                if e is x or core.truth(_eq(e, x)):
                    if name == "index":
                        return i
                    del owner[i]
                    return None
            raise ValueError("%r is not in sequence" % (x,))
    return _NATIVE


_STR_SAFE = {"split", "join", "strip", "lstrip", "rstrip", "replace", "format",
             "startswith", "endswith", "partition", "rpartition", "splitlines",
             "lower", "upper", "encode"}


def _apart(name, options, args):
    """Whether the method works on the text around these parts only."""
    if name in ("strip", "lstrip", "rstrip"):
        return all(o and o == o.strip(*args) for o in options)
    if name in ("split", "rsplit", "partition", "rpartition", "replace"):
        chars = set(args[0]) if args and args[0] else None
        return all(not (set(o) & chars if chars else name == "replace" or not o or len(o.split()) != 1 or o != o.strip()) for o in options)
    if name == "splitlines":
        return all(o and "\n" not in o and len(o.splitlines()) == 1 for o in options)
    if name == "format":
        return not any("{" in o or "}" in o for o in options)
    return name == "join"


def _str_method(owner, f, args, kw):
    name = f.__name__
    c = core.ctx()
    if c.has_choice(owner):
        if any(type(a) is str and core.OPEN in a for a in args) and name != "join":
            return getattr(c.str_conc(owner), name)(*[c.str_conc(a) if type(a) is str else a for a in args], **kw)
        hit = c._single(owner)
        if hit is not None and name not in ("join", "format"):
            term, options = hit
            results = [getattr(o, name)(*args, **kw) for o in options]
            if all(type(r) is str for r in results):
                return owner if results == list(options) else c.choice_token(term, results)
            if all(type(r) is bool for r in results):
                return mkbool(z3.Or(*[term == i for i, r in enumerate(results) if r]))
            return getattr(c.str_conc(owner), name)(*args, **kw)
        if not _apart(name, c.choices(owner), args):
            return getattr(c.str_conc(owner), name)(*args, **kw)
    if name in ("split", "replace", "join", "strip", "format", "partition",
                "rpartition", "splitlines", "rsplit", "lstrip", "rstrip"):
        if any(type(a) is str and core.digity(a) for a in args):
            return getattr(c.str_conc(owner), name)(*args, **kw)
        return f(*args, **kw)
    return getattr(c.str_conc(owner), name)(*args, **kw)

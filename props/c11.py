"""C11: decorated functions are transparent."""
import itertools
from typing import Any, Dict, Iterator, List, Tuple

from engine.scenario import SIZES, Scenario
from engine.ops import iff, implies, land
from props.common import CONFIG, E, FAMILIES, default_dtype, family_type, load_for, make_value, shape_matches

HI = SIZES
BOUNDS = {
    "quick": "functions of 0..3, 5 and 7 parameters of one-, two- and zero-dimensional array or tensor types with literal, wildcard and ellipsis sizes in [-1, 4000] and 2 element types, with and without a return annotation; bodies that return the argument, another object, None or raise one of 8 exception types; up to 4 calls of the same function with other objects; other annotations (List, Dict, Tuple, Any, Iterator, int) next to them; both values of raise-errors do not apply (see C17)",
    "thorough": "functions of up to 4 parameters and every family for every scenario",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "async functions and string annotations are outside the claim",
]
VALIDATE = 40


class Custom(Exception):
    pass


class Base(BaseException):
    pass


ERRORS = [ValueError, TypeError, KeyError, AssertionError, StopIteration, Custom, Base, AttributeError]
CODES = ["", "i", "ii", "w.", ".i"]


def shape_of(env, code, tag):
    return tuple(E if c == "." else -1 if c == "w" else env.int("%s%d" % (tag, i), 0 if c == "n" else -1, HI) for i, c in enumerate(code))


def make(asta, anns, body, name="my_function", module="some.module", names=None):
    names = [n for n in anns if n != "return"] if names is None else names
    ns = {"_body": body}
    exec("def %s(%s):\n    'Doc.'\n    return _body(%s)" % (name, ", ".join(names), ", ".join(names)), ns)
    fn = ns[name]
    fn.__annotations__ = dict(anns)
    fn.__module__ = module
    fn.__qualname__ = "Outer.<locals>." + name
    return asta.typechecked(fn)


def call(fam, codes, ranks, ret, what):
    """what: 'arg' (return the first argument), 'other', 'none', 'raise'"""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        T = family_type(asta, fam)
        hi = 40 if fam == "tf" else HI
        n = len(codes)
        shapes = [shape_of(env, c, "p%d_" % i) for i, c in enumerate(codes)]
        dims = [tuple(env.int("d%d_%d" % (i, j), 0, hi) for j in range(r)) for i, r in enumerate(ranks)]
        dts = [None] * n
        if n and what == "arg":
            dts[0] = env.pick("dt", [None, "float32", "float64"])
        lib = {"array": __import__("numpy"), "torch": env.torch, "tf": env.tf}[fam]
        anns, vals = {}, []
        for i in range(n):
            item = ([getattr(lib, dts[i])] if dts[i] else []) + [shapes[i]]
            anns["x%d" % i] = T[tuple(item)] if len(item) > 1 else T[item[0]]
            vals.append(make_value(env, fam, dims[i]))
        ok = land(*[land(dts[i] in (None, default_dtype(fam)), shape_matches(shapes[i], dims[i])) for i in range(n)])
        other_dims = (env.int("r0", 0, hi),)
        other = make_value(env, fam, other_dims)
        ret_ok = True
        if ret:
            rs = shape_of(env, ret, "q")
            anns["return"] = T[rs]
            ret_ok = shape_matches(rs, other_dims) if what == "other" else shape_matches(rs, dims[0]) if what == "arg" else False
        error = env.pick("error", ERRORS)("boom") if what == "raise" else None
        log = []

        def body(*args):
            log.append(args)
            if error is not None:
                raise error
            return args[0] if what == "arg" else other if what == "other" else None

        fn = make(asta, anns, body)
        env.require("keeps the name and module", (fn.__name__, fn.__module__) == ("my_function", "some.module"))
        result, caught = None, None
        split = n - env.pick("by keyword", sorted({0, min(n, 1), n}))
        try:
            result = fn(*vals[:split], **{"x%d" % i: vals[i] for i in range(split, n)})
        except BaseException as err:  # noqa: B902
            if type(err).__module__.startswith("engine"):
                raise
            caught = err
        env.require("runs exactly when all arguments match", iff(len(log) == 1, ok))
        env.require("never runs twice", len(log) <= 1)
        if log:
            env.require("with the objects passed", len(log[0]) == n and all(a is b for a, b in zip(log[0], vals)))
            if error is not None:
                env.require("the body's exception arrives unchanged", caught is error)
                env.witness("raised")
            else:
                env.require("returns exactly when the result matches", iff(caught is None, ret_ok))
                if caught is None:
                    want = vals[0] if what == "arg" else other if what == "other" else None
                    env.require("returns the very object", result is want)
                    env.witness("returned")
                else:
                    env.require("a bad result raises TypeError", type(caught) is TypeError)
                    env.witness("bad result")
        else:
            env.require("a bad argument raises TypeError", type(caught) is TypeError)
            env.witness("rejected")

    return run


def repeated(fam, calls):
    """The same function called again and again with other objects."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        T = family_type(asta, fam)
        hi = 40 if fam == "tf" else HI
        p, q = env.int("p", 0, hi), env.int("q", 0, hi)
        log, results = [], []

        def body(*args):
            log.append(args)
            if isinstance(results[-1], Exception):
                raise results[-1]
            return results[-1]

        fn = make(asta, {"x": T[p], "y": T, "return": T[q]}, body)
        for k in range(calls):
            d, r = env.int("d%d" % k, 0, hi), env.int("r%d" % k, 0, hi)
            x, y = make_value(env, fam, (d,)), make_value(env, fam, (2,))
            error = k == 1 and env.bool("raise")
            results.append(Custom("boom") if error else make_value(env, fam, (r,)))
            got = env.attempt(fn, x, y)
            env.require("runs once exactly when the arguments match", iff(len(log) == 1, d == p))
            if log:
                env.require("with the objects of this call", len(log) == 1 and log[0][0] is x and log[0][1] is y)
                if error:
                    env.require("the body's exception arrives", not got.returned and got.error is results[-1])
                else:
                    env.require("returns exactly when the result matches", iff(got.returned, r == q))
                    env.require("returns the object of this call", not got.returned or got.value is results[-1])
            else:
                env.require("a bad argument raises TypeError", got.raised(TypeError))
            env.witness("returned" if got.returned else "raised")
            del log[:]

    return run


def others(fam):
    """Objects of other annotated types are passed through untouched."""

    def run(env):
        asta = load_for(env, fam, config={**CONFIG, "check-non-asta-types": env.pick("non_asta", ["no", "yes"])})
        T = family_type(asta, fam)
        a, b = make_value(env, fam, (env.int("d0", 0, 40),)), make_value(env, fam, (env.int("d1", 0, 40),))
        p = env.int("p", 0, 40)

        def gen():
            for k in (1, 2):
                started.append(k)
                yield k

        started = []
        lst, dct, tup, it, num = [a, b], {"k": a, 3: b}, (a, 1), gen(), 7
        before = (list(lst), dict(dct))
        anns = {"l": List[T[-1]] if env.bool("typed_list") else list, "d": Dict[Any, T[-1]], "t": Tuple[T[p], int], "i": Iterator[int],
                "n": int, "o": Any, "f": T, "return": Any}
        obj = object()
        log = []

        def body(*args):
            log.append(args)
            return it

        fn = make(asta, anns, body)
        args = (lst, dct, tup, it, num, obj, b)
        split = env.pick("by position", [7, 0, 3])
        names = [n for n in anns if n != "return"]
        got = env.attempt(fn, *args[:split], **dict(zip(names[split:], args[split:])))
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("nothing is consumed", not started)
        env.require("nothing is modified", len(lst) == 2 and lst[0] is before[0][0] and lst[1] is before[0][1]
                    and list(dct) == list(before[1]) and all(dct[k] is before[1][k] for k in dct))
        env.require("runs once or not at all", len(log) == (1 if got.returned else 0))
        if got.returned:
            env.require("the same objects", all(x is y for x, y in zip(log[0], args)))
            env.require("the same result", got.value is it)
            env.require("the generator still yields everything", list(it) == [1, 2])
        env.witness("accept" if got.returned else "reject")

    return run


def unannotated(env):
    """A function without annotations or parameters."""
    asta = load_for(env, "array", config=CONFIG)
    value = env.pick("value", [None, 3, [1], object()])
    log = []

    def body(*a):
        log.append(a)
        return value

    fn = make(asta, {}, body)
    got = env.attempt(fn)
    env.require("runs and returns", got.returned and got.value is value and len(log) == 1)
    d = env.int("d", 0, HI)
    p = env.int("p", 0, HI)
    fn = make(asta, {"return": asta.Array[p]}, lambda: env.array((d,)))
    got = env.attempt(fn)
    env.require("only the result is checked", iff(got.returned, p == d))
    fn = make(asta, {"return": None}, lambda: value)
    got = env.attempt(fn)
    env.require("None is the only None", iff(got.returned, value is None))
    env.witness("done")


def scenarios(tier):
    out = []
    quick = tier == "quick"
    singles = [((c,), (r,)) for c in CODES for r in range(3) if not quick or r in (len(c), len(c.replace(".", "")))]
    multi = [(("i", "w."), (1, 1)), (("i", "i"), (1, 1)), (("ii", "i"), (2, 1)), (("", "i"), (0, 1)), ((".i", "i", "i"), (1, 1, 1)), (("i", "i"), (1, 0)), (("i", "w.", "ii", ".i", "i"), (1, 1, 2, 1, 1)), (("n",) * 7, (1,) * 7)]
    if not quick:
        multi += [(("i", "w.", "ii", ".i"), (1, 2, 2, 2)), (("ii", ".i", "i"), (1, 2, 1))]
    for fam in FAMILIES:
        tf = fam == "tf"
        for codes, ranks in [((), ())] + singles + multi:
            if fam != "array" and quick and codes not in (("i",), ("i", "i"), ("w.",)):
                continue
            for ret in ("", "i", ".i"):
                for what in ("arg", "other", "none", "raise"):
                    if what == "raise" and quick and (ret == ".i" or (ret == "i" and codes != ("i",)) or len(codes) == 1 and codes[0] not in ("i", ".i")):
                        continue
                    if what == "raise" and len(codes) > 3:
                        continue
                    if what == "arg" and not codes or quick and len(codes) > 2 and ret == ".i":
                        continue
                    wit = {"raise": ["raised"], "none": ["bad result"] if ret else ["returned"], "arg": [], "other": ["returned"]}[what]
                    if codes and ranks[0] != len(codes[0].replace(".", "")) and "." not in codes[0] or (codes, ranks) == (("i", "i"), (1, 0)):
                        wit = ["rejected"]
                    out.append(Scenario("%s (%s) ranks %s -> '%s' returning %s" % (fam, ", ".join(codes), ranks, ret, what),
                                        call(fam, codes, ranks, ret, what), tf=tf, witness=wit, budget=8 if what == "raise" else 3))
        for calls in (2, 4):
            out.append(Scenario("%s %d calls" % (fam, calls), repeated(fam, calls), tf=tf, witness=["returned", "raised"], budget=9))
        out.append(Scenario("%s among other types" % fam, others(fam), tf=tf, witness=["accept", "reject"], budget=4))
    out.append(Scenario("nothing to check", unannotated, witness=["done"]))
    return out

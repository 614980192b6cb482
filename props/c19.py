"""C19: ordinary types."""
import collections
import enum
import inspect
import io
import typing
from typing import IO, Any, BinaryIO, Callable, Dict, Generic, List, Literal, NamedTuple, Optional, Protocol, Sequence, Set, TextIO, Tuple, Type, TypedDict, TypeVar, Union

from engine.scenario import SIZES, Scenario
from engine.ops import eq, iff, implies, land, lnot, lor
from props.common import CONFIG, FAMILIES, dim_ok, family_type, load_for, make_value, typed

HI = SIZES
BOUNDS = {
    "quick": "30 ordinary annotations (builtins, user classes and subclasses of builtins, enums, protocols, Literal, Type, Callable of 0..3 parameters, IO, Generic, Any, None, object, unions), each against 44 values including symbolic integers and arrays with sizes in [0, 4000]; each inside List, Sequence, Set, Dict keys and values, Tuple, NamedTuple, TypedDict, Union, Optional and two of them nested, with 1..2 elements of which one is any value, and 28 with 8 elements or depth 5; check-non-asta-types yes and no, as argument, default, keyword and return value",
    "thorough": "the same with all pairs of elements and all the families of arrays",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "bytes also stands for bytearray, as in PEP 484; values and literals of different types that are equal (1 and True) and callables with mandatory keyword-only parameters may be accepted or rejected",
    "type variables, NewType, string annotations, and the elements of collection types other than the ones listed are outside the claim",
]
VALIDATE = 30
T = TypeVar("T")


class A:
    def __init__(self, x=0):
        pass

    def __repr__(self):
        return "A()"


class B(A):
    pass


class F(float):
    pass


class C(complex):
    pass


class I(int):  # noqa: E742
    pass


class S(str):
    pass


class L(list):
    pass


class D(dict):
    pass


class TU(tuple):
    pass


class Color(enum.Enum):
    RED = 1
    BLUE = 2


class G(Generic[T]):
    pass


class HasRun(Protocol):
    def run(self):
        ...


@typing.runtime_checkable
class HasRunR(Protocol):
    def run(self):
        ...


@typing.runtime_checkable
class HasX(Protocol):
    x: int


class Runs:
    def run(self):
        return 1


class WithX:
    def __init__(self):
        self.x = 3


class Calls:
    def __call__(self, a, b=1):
        return a


class Meta(type):
    pass


class M(metaclass=Meta):
    pass


def f0():
    return 0


def f1(a):
    return a


def f2(a, b):
    return a


def f12(a, b=1):
    return a


def fv(*a):
    return a


def f1v(a, *b):
    return a


def fk(a, *, k):
    return a


def fk0(a, *, k=1):
    return a


INST = {
    "int": int, "bool": bool, "float": float, "complex": complex, "str": str, "bytes": (bytes, bytearray), "bytearray": bytearray, "object": object,
    "A": A, "B": B, "F": F, "C": C, "I": I, "S": S, "L": L, "D": D, "TU": TU, "Color": Color, "G": G, "G[int]": G, "HasRunR": HasRunR,
    "M": M, "Meta": Meta, "clstype": type, "tuple": tuple, "None": type(None), "TextIO": io.TextIOBase, "BinaryIO": (io.RawIOBase, io.BufferedIOBase), "IO": io.IOBase,
    "range": range, "Exception": Exception, "frozenset": frozenset,
}
ANNOTATION = {
    **INST, "bytes": bytes, "None": None, "G[int]": G[int], "TextIO": TextIO, "BinaryIO": BinaryIO, "IO": IO, "Any": Any, "HasRun": HasRun, "HasX": HasX,
}
ALWAYS = ("None", "TU", "tuple")  # enforced whatever the option says (TU: or not)


def annotation(spec, w):
    if isinstance(spec, str):
        if spec == "arr":
            return w.T[w.p]
        return ANNOTATION[spec]
    kind, rest = spec[0], spec[1:]
    if kind == "lit":
        return Literal[tuple(w.lit if x == "n" else x for x in rest)]
    if kind == "call":
        return Callable[..., int] if rest[0] is None else Callable[[int] * rest[0], int]
    if kind == "callable":
        return Callable
    if kind == "type":
        return {None: Type, "any": Type[Any]}[rest[0]] if rest[0] in (None, "any") else Type[tuple_or(rest)]
    subs = [annotation(s, w) for s in rest]
    if kind == "list":
        return List[subs[0]]
    if kind == "seq":
        return Sequence[subs[0]]
    if kind == "set":
        return Set[subs[0]]
    if kind == "dict":
        return Dict[subs[0], subs[1]]
    if kind == "tup":
        return Tuple[tuple(subs)]
    if kind == "vtup":
        return Tuple[subs[0], ...]
    if kind == "union":
        return Union[tuple(subs)]
    if kind == "opt":
        return Optional[subs[0]]
    if kind == "nt":
        return NamedTuple("NT", [("f%d" % i, a) for i, a in enumerate(subs)])
    if kind == "td":
        return TypedDict("TD", {"k%d" % i: a for i, a in enumerate(subs)})


def tuple_or(rest):
    return ANNOTATION[rest[0]] if len(rest) == 1 else Union[tuple(ANNOTATION[r] for r in rest)]


FREE = "either"


def both(xs):
    """Conjunction of answers that may be FREE."""
    if any(x is False for x in xs):
        return False
    hard = land(*[x for x in xs if x is not FREE])
    return FREE if hard is not False and any(x is FREE for x in xs) else hard


def some(xs):
    if any(x is True for x in xs):
        return True
    if any(x is FREE for x in xs):
        return FREE
    return lor(*xs)


def accepts(spec, v, w):
    """Whether the value must be accepted: a condition, or FREE."""
    on = w.non
    if isinstance(spec, str):
        if spec == "arr":
            return dim_ok(w.p, v.shape[0]) if w.is_array(v) and len(v.shape) == 1 else False
        if spec == "Any":
            return True
        if spec == "None":
            return v is None
        if spec in ("tuple", "TU") and not on:
            return True if isinstance(v, INST[spec]) else FREE
        if not on:
            return True
        if spec == "HasRun":
            return True if isinstance(v, Runs) else FREE
        if spec == "HasX":
            return isinstance(v, WithX)
        if spec == "HasRunR":
            return isinstance(v, Runs) or inspect.isclass(v) and issubclass(v, Runs)
        return w.isinstance(v, INST[spec])
    kind, rest = spec[0], spec[1:]
    if kind == "lit":
        if not on:
            return True
        out = []
        for x in rest:
            x = w.lit if x == "n" else x
            same_type = w.type(x) is w.type(v)
            if same_type:
                out.append(eq(x, v))
            elif isinstance(x, (int, float, complex)) and isinstance(v, (int, float, complex)) or isinstance(x, str) and isinstance(v, str):
                out.append(FREE)
        return some(out or [False])
    if kind in ("call", "callable"):
        if not on:
            return True
        if not callable(v):
            return False
        if kind == "callable" or rest[0] is None:
            return True
        try:
            sig = inspect.signature(v)
        except (TypeError, ValueError):
            return True
        if any(p.kind is p.KEYWORD_ONLY and p.default is p.empty for p in sig.parameters.values()):
            return FREE
        try:
            sig.bind(*[None] * rest[0])
            return True
        except TypeError:
            return False
    if kind == "type":
        if not on:
            return True
        if not inspect.isclass(v):
            return False
        return True if rest[0] in (None, "any") else any(issubclass(v, INST[r]) for r in rest)
    if kind == "list":
        return both([accepts(rest[0], x, w) for x in v]) if isinstance(v, list) else False
    if kind == "seq":
        return both([accepts(rest[0], x, w) for x in v]) if isinstance(v, collections.abc.Sequence) else False
    if kind == "set":
        return both([accepts(rest[0], x, w) for x in v]) if isinstance(v, (set, frozenset)) else False
    if kind == "dict":
        return both([accepts(rest[0], k, w) for k in v] + [accepts(rest[1], x, w) for x in v.values()]) if isinstance(v, dict) else False
    if kind == "tup":
        return both([accepts(s, x, w) for s, x in zip(rest, v)]) if isinstance(v, tuple) and len(v) == len(rest) else False
    if kind == "vtup":
        return both([accepts(rest[0], x, w) for x in v]) if isinstance(v, tuple) else False
    if kind == "union":
        return some([accepts(s, v, w) for s in rest])
    if kind == "opt":
        return some([v is None, accepts(rest[0], v, w)])
    if kind == "nt":
        return both([accepts(s, getattr(v, "f%d" % i), w) for i, s in enumerate(rest)]) if isinstance(v, w.nt) else False
    if kind == "td":
        return both([accepts(s, v["k%d" % i], w) for i, s in enumerate(rest)]) if isinstance(v, dict) and set(v) == {"k%d" % i for i in range(len(rest))} else False


class World:
    def __init__(self, env, fam, non):
        self.env, self.fam, self.non = env, fam, non
        self.asta = load_for(env, fam, config={**CONFIG, "check-non-asta-types": "yes" if non else "no"})
        self.T = family_type(self.asta, fam)
        self.p = env.int("p", 0, HI)
        self.lit = 4
        self.nt = ()
        self.n = 0

    def is_array(self, v):
        return v is not None and hasattr(v, "shape")

    def type(self, v):
        from engine import runtime

        return runtime.s_type(v)

    def isinstance(self, v, t):
        return isinstance(v, t)

    def values(self):
        """Every leaf value, by name."""
        env = self.env
        self.n += 1
        return {
            "n": lambda: env.int("z%d" % self.n, -3, 30), "True": lambda: True, "2.5": lambda: 2.5, "1j": lambda: 1j, "a": lambda: "a", "": lambda: "", "b'a'": lambda: b"a",
            "bytearray": lambda: bytearray(b"a"), "None": lambda: None, "A": A, "B": B, "F": lambda: F(1.5), "C": lambda: C(1), "I": lambda: I(4), "S": lambda: S("a"),
            "L": L, "D": D, "TU": TU, "RED": lambda: Color.RED, "G": G, "Runs": Runs, "WithX": WithX, "Calls": Calls, "M()": M,
            "f0": lambda: f0, "f1": lambda: f1, "f2": lambda: f2, "f12": lambda: f12, "fv": lambda: fv, "f1v": lambda: f1v, "fk": lambda: fk, "fk0": lambda: fk0,
            "len": lambda: len, "cls int": lambda: int, "cls bool": lambda: bool, "cls A": lambda: A, "cls B": lambda: B, "cls M": lambda: M, "cls str": lambda: str, "text": io.StringIO,
            "binary": io.BytesIO, "()": tuple, "[]": list, "{}": dict, "arr1": lambda: make_value(env, self.fam, (env.int("d%d" % self.n, 0, HI),)),
            "raw": io.RawIOBase, "rw": lambda: io.BufferedRandom(io.BytesIO()), "wrapped": lambda: io.TextIOWrapper(io.BytesIO()), "io": io.IOBase,
            "arr0": lambda: make_value(env, self.fam, ()), "err": lambda: ValueError("x"), "range": lambda: range(3), "sentinel": object, "frozenset": frozenset, "class runs": lambda: Runs,
        }


LEAVES = ["n", "True", "2.5", "1j", "a", "", "b'a'", "bytearray", "None", "A", "B", "F", "C", "I", "S", "L", "D", "TU", "RED", "G", "Runs", "WithX", "Calls", "M()", "f0", "f1", "f2",
          "f12", "fv", "f1v", "fk", "fk0", "len", "cls int", "cls bool", "cls A", "cls B", "cls M", "cls str", "text", "binary", "raw", "rw", "wrapped", "io", "()", "[]", "{}", "arr1", "arr0", "err", "range",
          "sentinel", "frozenset", "class runs"]
FEW = ["n", "True", "2.5", "a", "None", "B", "F", "f1", "cls B", "arr1", "[]"]
HASHABLE = [x for x in FEW if x not in ("arr1", "[]")]

# A value that the annotation accepts, to fill the other places of a container.
GOOD = {"int": "n", "bool": "True", "float": "2.5", "complex": "1j", "str": "a", "A": "B", "None": "None", "Any": "A", "object": "A", "F": "F", "arr": "arr1", "HasRunR": "Runs"}


def outcome(env, w, spec, v, how):
    ann = annotation(spec, w)
    if how == "return":
        return env.attempt(typed(w.asta, {"return": ann}, lambda: v))
    if how == "keyword":
        return env.attempt(typed(w.asta, {"x": ann}), x=v)
    if how == "default":
        def fn(x=v):
            return None

        fn.__annotations__ = {"x": ann}
        fn.__module__ = "user"
        return env.attempt(w.asta.typechecked(fn))
    return env.attempt(typed(w.asta, {"x": ann}), v)


def judge(env, w, spec, v, got):
    ok = accepts(spec, v, w)
    env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
    if ok is not FREE:
        env.require("accepted exactly when it is an instance", iff(got.returned, ok))
    env.witness("accept" if got.returned else "reject")


def leaf(fam, spec, pool, how, non):
    def run(env):
        w = World(env, fam, non)
        v = w.values()[env.pick("value", pool)]()
        judge(env, w, spec, v, outcome(env, w, spec, v, how))

    return run


def holder(fam, spec, build, how, non):
    """``build(w, get)`` makes the value; ``get(tag, pool)`` picks one leaf."""

    def run(env):
        w = World(env, fam, non)

        def get(tag, pool):
            made = w.values()
            return made[env.pick(tag, pool)]()

        if spec[0] == "nt":
            w.nt = annotation(spec, w)
            ann = w.nt
            v = build(w, get)
            got = env.attempt(typed(w.asta, {"x": ann}), v)
        else:
            v = build(w, get)
            got = outcome(env, w, spec, v, how)
        judge(env, w, spec, v, got)

    return run


LEAF_SPECS = list(ANNOTATION) + [
    ("lit", "a"), ("lit", "n"), ("lit", "a", "n", None), ("lit", True), ("lit", b"a", 7), ("lit", Color.RED), ("call", 0), ("call", 1), ("call", 2), ("call", 3), ("call", None), ("callable",),
    ("type", None), ("type", "any"), ("type", "int"), ("type", "A"), ("type", "B"), ("type", "A", "int"), ("union", "int", "str"), ("union", "float", "None"),
    ("union", ("lit", "a"), ("type", "A")), ("union", ("call", 1), "F"), ("opt", "A"), ("opt", ("call", 2)), ("union", "A", "Any"), ("union", "bool", "C"), "arr",
    ("union", "arr", "int"), ("union", "str", "arr", "None"), ("opt", "arr"),
]

CONTAINERS = []
for e in ("int", "str", "float", "A", "None", "F", "Any", "arr", ("lit", "a", "n"), ("call", 1), ("type", "A"), ("union", "int", "str"), ("opt", "float"), ("union", "arr", "str"), "HasRunR"):
    good = GOOD.get(e) if isinstance(e, str) else {"lit": "a", "call": "f1", "type": "cls B", "union": "a", "opt": "None"}[e[0]]
    CONTAINERS += [
        (("list", e), lambda w, get: [get("v", FEW)]),
        (("list", e), lambda w, get, g=good: [get("g", [g]), get("v", FEW)]),
        (("list", e), lambda w, get, g=good: [get("v", FEW), get("g", [g])]),
        (("seq", e), lambda w, get, g=good: (get("g", [g]), get("v", FEW))),
        (("dict", "str", e), lambda w, get, g=good: {"k": get("g", [g]), "l": get("v", FEW)}),
        (("dict", e, "int"), lambda w, get: {get("v", HASHABLE): 3}),
        (("set", e), lambda w, get: {get("v", HASHABLE)}),
        (("tup", "int", e), lambda w, get: (get("u", ["n", "a"]), get("v", FEW))),
        (("tup", e, "str"), lambda w, get: (get("v", FEW), get("u", ["n", "a"]))),
        (("vtup", e), lambda w, get, g=good: (get("g", [g]), get("v", FEW))),
        (("nt", "str", e), lambda w, get: w.nt(get("u", ["n", "a"]), get("v", FEW))),
        (("td", e, "int"), lambda w, get: {"k0": get("v", FEW), "k1": get("u", ["n", "a"])}),
        (("list", ("list", e)), lambda w, get: [[], [get("v", FEW)]]),
        (("dict", "int", ("list", e)), lambda w, get: {3: [get("v", FEW)]}),
        (("tup", ("list", e), ("dict", "str", "int")), lambda w, get: ([get("v", FEW)], {"a": get("u", ["n", "a"])})),
        (("union", ("list", e), ("tup", e, "int"), "str"), lambda w, get: [get("v", FEW)]),
        (("union", ("list", e), ("tup", e, "int"), "str"), lambda w, get: (get("v", FEW), get("u", ["n", "a"]))),
        (("opt", ("list", ("opt", e))), lambda w, get: [None, get("v", FEW)]),
    ]
def filled(n, at, kind):
    """``n`` elements, the one at ``at`` is any value."""

    def build(w, get):
        vals = [get("v", FEW) if i == at else get("g%d" % i, ["a"]) for i in range(n)]
        return dict(zip("abcdefghijkl", vals)) if kind == "dict" else tuple(vals) if kind in ("tup", "vtup") else w.nt(*vals) if kind == "nt" else \
            {"k%d" % i: v for i, v in enumerate(vals)} if kind == "td" else vals

    return build


for at in (0, 4, 7):
    CONTAINERS += [(spec, filled(8, at, spec[0])) for spec in (
        ("list", "str"), ("seq", "str"), ("dict", "str", "str"), ("vtup", "str"), ("tup",) + ("str",) * 8, ("nt",) + ("str",) * 8, ("td",) + ("str",) * 8,
        ("list", ("union", "int", "float", "str", "A", "F", ("lit", True), "None")))]
CONTAINERS += [
    (("list", ("dict", "str", ("tup", ("list", ("set", "int")), "str"))), lambda w, get: [{"a": ([{get("v", HASHABLE)}], get("u", ["n", "a"]))}]),
    (("list", ("list", ("list", ("list", ("list", "int"))))), lambda w, get: [[[[[get("v", FEW)]]]]]),
    (("union", "int", "float", "A", "F", ("list", "int"), ("lit", "b")), lambda w, get: get("v", LEAVES)),
    (("lit", 1.5, "b", 7, None, b"c", "a"), lambda w, get: get("v", LEAVES)),
]
SHAPES = [("list", "int"), ("seq", "str"), ("set", "int"), ("dict", "str", "int"), ("tup", "int", "str"), ("vtup", "int"), ("nt", "int"), ("td", "int"), ("list", "Any"), ("dict", "Any", "Any")]


def scenarios(tier):
    out = []
    quick = tier == "quick"
    for fam in FAMILIES:
        tf = fam == "tf"
        leaves = LEAF_SPECS if fam == "array" or not quick else ["arr", "int", ("union", "arr", "int"), ("opt", "arr"), ("lit", "a", "n", None)]
        for spec in leaves:
            for non in (True, False):
                for how in ("arg", "return") if fam == "array" and (non or not quick) else ("arg",):
                    out.append(Scenario("%s %s %s %s" % (fam, spec, how, "on" if non else "off"), leaf(fam, spec, LEAVES, how, non), tf=tf))
        if fam == "array":
            for spec in ["int", "float", "A", "None", ("lit", "a", "n"), "arr"]:
                for how in ("keyword", "default"):
                    out.append(Scenario("%s %s %s" % (fam, spec, how), leaf(fam, spec, FEW, how, True), tf=tf))
        for k, (spec, build) in enumerate(CONTAINERS):
            if quick and fam != "array" and "arr" not in str(spec):
                continue
            if quick and fam != "array" and k % 3:
                continue
            for non in (True, False):
                if quick and not non and k % 2:
                    continue
                how = "return" if k % 5 == 0 else "arg"
                out.append(Scenario("%s %d %s %s %s" % (fam, k, spec, how, "on" if non else "off"), holder(fam, spec, build, how, non), tf=tf))
        if fam == "array" or not quick:
            for spec in SHAPES:
                for non in (True, False):
                    wrong = lambda w, get: get("v", LEAVES)  # noqa: E731
                    out.append(Scenario("%s wrong %s %s" % (fam, spec, "on" if non else "off"), holder(fam, spec, wrong, "arg", non), tf=tf))
    return out

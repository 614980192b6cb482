"""C24: checking changes nothing."""
import collections
import collections.abc
import io
import os
import types
from typing import Any, Callable, Dict, Generator, Iterable, Iterator, List, Literal, NamedTuple, NotRequired, Optional, Sequence, Set, TextIO, Tuple, Type, TypedDict, Union

from engine.scenario import SIZES, Scenario
from props.common import CONFIG, E, FAMILIES, family_type, load_for, make_value, subscript, typed

HI = SIZES
BOUNDS = {
    "quick": "decorated calls with 27 kinds of annotations (arrays, lists, sequences, deques, dicts, defaultdicts, typed dictionaries with missing keys, sets, tuples, named tuples, unions, generators, iterators, files, classes, callables, instances of user classes), one or two arrays in each with sizes in [0, 4000] matching or not, an element of another type at a chosen place, raise-errors and check-non-asta-types yes and no; 2 calls of one function; placeholders set or unset; isinstance, ==, hash and repr of types with a shape of 2 literals, a dtype and a dictionary of 2 attributes",
    "thorough": "the same for all three families with both values of every option",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "arrays have no contents: symbolic arrays have no elements and the replays use read-only arrays, so that writing to one raises",
    "objects whose own __getattr__, __eq__ or __iter__ changes them are outside the claim",
]
VALIDATE = 20


class Custom(collections.abc.Sequence):
    """A sequence that can only be indexed."""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if not isinstance(i, int):
            raise TypeError("indices only")
        return self.items[i]


class Thing:
    """An ordinary object."""

    def __init__(self, a):
        self.a = a
        self.log = []

    def __call__(self, x):
        self.log.append(x)
        return x

    def __len__(self):
        return 1


def snapshot(x, depth=0):
    """The identity and the contents of ``x``."""
    if depth > 6:
        return ()
    if isinstance(x, (list, tuple, collections.deque)):
        more = [snapshot(e, depth + 1) for e in x]
    elif isinstance(x, dict):
        more = [(k, snapshot(v, depth + 1)) for k, v in x.items()]
    elif isinstance(x, (set, frozenset)):
        more = sorted(map(id, x))
    elif isinstance(x, (Custom, Thing)):
        more = [(k, snapshot(v, depth + 1)) for k, v in vars(x).items()]
    elif isinstance(x, io.StringIO):
        more = [x.tell(), x.getvalue(), x.closed]
    elif type(x).__name__ == "ndarray":
        more = [x.shape, x.strides, x.dtype]
    else:
        more = []
    return [x, type(x), more]


def same(a, b):
    """Whether two snapshots are of the same objects with the same contents."""
    if isinstance(a, list) and isinstance(b, list) and len(a) == 3 and isinstance(a[1], type):
        return a[0] is b[0] and a[1] is b[1] and same_all(a[2], b[2])
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2:
        return a[0] is b[0] and same(a[1], b[1])
    return a == b


def same_all(a, b):
    return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


TD = lambda t: TypedDict("TD", {"k": t, "m": NotRequired[t], "n": int}, total=False)
KINDS = ["array", "list", "list2", "seq", "deque", "custom", "dict", "defaultdict", "odict", "td", "td default", "set", "tup", "vtup", "nt", "opt", "union", "union list",
         "nested", "generator", "iterator", "iterable", "file", "class", "callable", "thing", "any"]


def make(env, kind, t, v, w, bad):
    """(annotation, value, how to look at the value afterwards)"""
    b = bad if bad is not None else w
    if kind == "array":
        return t, v
    if kind == "list":
        return List[t], [v, b]
    if kind == "list2":
        return list[t], [b, v, v]
    if kind == "seq":
        return Sequence[t], [v, b]
    if kind == "deque":
        return Sequence[t], collections.deque([v, b], maxlen=5)
    if kind == "custom":
        return Sequence[t], Custom([v, b])
    if kind == "dict":
        return Dict[str, t], {"k": v, "m": b}
    if kind == "defaultdict":
        return Dict[str, t], collections.defaultdict(list, {"k": v, "m": b})
    if kind == "odict":
        return dict[str, t], collections.OrderedDict([("m", v), ("k", b)])
    if kind == "td":
        return TD(t), {"n": 1, "m": b}
    if kind == "td default":
        return TD(t), collections.defaultdict(lambda: v, {"m": b})
    if kind == "set":
        return Set[int], {1, 2, "a"} if bad is not None else {1, 2}
    if kind == "tup":
        return Tuple[t, t], (v, b)
    if kind == "vtup":
        return Tuple[List[t], ...], ([v], [b], [])
    if kind == "nt":
        nt = NamedTuple("NT", [("a", t), ("b", List[t])])
        return nt, nt(v, [b])
    if kind == "opt":
        return Optional[List[t]], [v, b]
    if kind == "union":
        return Union[int, t, List[t]], [v, b]
    if kind == "union list":
        return List[Union[Dict[str, t], List[t], str]], [{"k": v}, [v, b], "a"]
    if kind == "nested":
        return Dict[str, List[Tuple[t, int]]], {"k": [(v, 1), (b, 2)], "l": []}
    if kind == "generator":
        return Generator[int, None, None], (i for i in range(4))
    if kind == "iterator":
        return Iterator[t], iter([v, b])
    if kind == "iterable":
        return Iterable[int], iter([1, 2, 3])
    if kind == "file":
        return TextIO, io.StringIO("some text\nand more\n")
    if kind == "class":
        return Type[Thing], Thing if bad is None else Custom
    if kind == "callable":
        return Callable[[int], int], Thing(v)
    if kind == "thing":
        return Thing if bad is None else Custom, Thing([v])
    return Any, [v, b, iter([1])]


LEFT = {"generator": 4, "iterator": 2, "iterable": 3}


def calls(fam, kind, unset, options):
    """Two calls; everything is compared with what it was."""

    def run(env):
        config = {**CONFIG, **{o: env.pick(o, ["yes", "no"]) for o in options}}
        asta = load_for(env, fam, config=config)
        import asta.config as cfg
        import asta.dims as dims
        import asta.shapes as shapes
        import asta.symbols as symbols

        T = family_type(asta, fam)
        what = env.pick("shape", ["A", "iX", "S"] if not unset else ["A", "S"])
        lit = env.int("lit", 0, HI)
        t = {"A": lambda: T[dims.A, -1], "iX": lambda: T[lit, symbols.X], "S": lambda: T[shapes.S + (lit,)]}[what]()
        if not unset:
            dims.A = a = env.int("A", 0, HI)
            shapes.S = s = (env.int("s0", 0, HI),)
        lo = 1 if what == "iX" else 0
        v = make_value(env, fam, (env.int("d0", 0, HI), env.int("d1", lo, HI)))
        w = make_value(env, fam, (env.int("e0", 0, HI), env.int("e1", lo, HI)))
        bad = env.pick("bad", [None, 3, "abc"])
        ann, value = make(env, kind, t, v, w, bad)
        other = T[-1, E]
        anns = {"x": ann, "y": other, "return": Any}
        state = {}

        def body(x, y):
            state["ran"] = snapshot(x)
            return y

        args = (value, v)
        before = snapshot(args)
        raw = {}
        real = asta.typechecked

        class Keep:
            """Keeps the function that is decorated."""

            @staticmethod
            def typechecked(f):
                raw["f"] = f
                return real(f)

        fn = typed(Keep, anns, body)
        notes = raw["f"].__annotations__
        shape0, dtype0, args0 = tuple(t.shape), t.dtype, getattr(ann, "__args__", None)
        options_ = [o.replace("-", "_") for o in CONFIG]
        settings = {k: cfg.get_ox().settings[k] for k in options_}
        environ = dict(os.environ)
        cwd = os.getcwd()
        for n in range(2):
            got = env.attempt(fn, *args)
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            env.require("values and their contents", same(before, snapshot(args)))
            if "ran" in state:
                env.require("also while the function runs", same(before[2][0], state["ran"]))
            env.require("annotations", raw["f"].__annotations__ is notes and list(notes) == list(anns) and all(notes[k] is anns[k] for k in anns))
            env.require("the types in them", len(t.shape) == len(shape0) and all(p is q for p, q in zip(t.shape, shape0)) and t.dtype is dtype0 and not t.kwattrs and (ann is t or getattr(ann, "__args__", None) is args0))
            now = cfg.get_ox().settings
            env.require("settings", {k: now[k] for k in options_} == settings)
            env.require("environment", dict(os.environ) == environ and os.getcwd() == cwd)
            if unset:
                env.require("unset placeholders", not isinstance(dims.A, int) and not isinstance(shapes.S, tuple))
            else:
                env.require("placeholders", dims.A == a)
                env.require("shape placeholders", len(shapes.S) == 1 and shapes.S[0] == s[0])
            env.witness("accept" if got.returned else "reject")
        if kind in LEFT:
            env.require("nothing was read", len(list(value)) == LEFT[kind])

    return run


def types_(fam):
    """isinstance, comparison, hash and repr."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.symbols as symbols

        T = family_type(asta, fam)
        p = (env.int("p0", -1, HI), env.int("p1", -1, HI))
        inner = [1, 2]
        attrs = {"alpha": inner, "beta": symbols.X + 1}
        order = list(attrs)
        kept = [attrs["alpha"], attrs["beta"]]
        t = T[float, p[0], p[1], attrs]
        u = T[float, (p[0], p[1])]
        n = env.int("n", 0, HI)
        x = make_value(env, fam, (env.int("d0", 0, HI), env.int("d1", 0, HI)), "float64" if fam == "array" else "float32", attrs={"alpha": inner, "beta": n})
        held = dict(vars(x)) if hasattr(x, "__dict__") else {}
        op = env.pick("op", ["check", "eq", "hash", "repr", "refine", "check decorated", "check other"])
        for _ in range(2):
            if op == "check":
                got = env.check(x, t)
            elif op == "eq":
                got = env.attempt(lambda: (t == u, u == t, t != u))
            elif op == "hash":
                got = env.attempt(lambda: hash(u))
            elif op == "repr":
                got = env.attempt(lambda: (repr(t), str(t)))
            elif op == "refine":
                got = env.attempt(lambda: (t[3, 4], t[int], t[{"gamma": 1}]))
            elif op == "check other":
                got = env.attempt(lambda: [isinstance(y, t) for y in (None, 3, attrs, inner, (1, 2))])
            else:
                got = env.attempt(typed(asta, {"x": t}), x)
            env.require("returns or raises TypeError", got.returned or op == "check decorated" and got.raised(TypeError))
            env.require("the dictionary of attributes", list(attrs) == order and attrs["alpha"] is kept[0] and attrs["beta"] is kept[1])
            env.require("the values in it", inner == [1, 2])
            env.require("the type", len(t.shape) == 2 and list(t.kwattrs) == order and t.kwattrs["alpha"] is kept[0])
            env.require("its shape", t.shape[0] == p[0])
            env.require("its shape, second", t.shape[1] == p[1])
            now = dict(vars(x)) if hasattr(x, "__dict__") else {}
            env.require("the array", list(now) == list(held) and all(now[k] is held[k] for k in held))
            env.require("its attributes", x.alpha is inner)
        env.witness(op)

    return run


def scenarios(tier):
    out = []
    quick = tier == "quick"
    OPTS = ("raise-errors", "check-non-asta-types")
    for fam in FAMILIES:
        kinds = KINDS if fam == "array" or not quick else ["array", "list", "defaultdict", "td", "tup", "union"]
        for kind in kinds:
            opts = OPTS if not quick or fam == "array" else OPTS[:1]
            out.append(Scenario("%s calls with %s" % (fam, kind), calls(fam, kind, False, opts), tf=fam == "tf", witness=["accept"], budget=4))
            if kind in ("array", "list", "td default", "union", "nested") and (fam == "array" or not quick):
                out.append(Scenario("%s calls with %s, unset placeholders" % (fam, kind), calls(fam, kind, True, OPTS), tf=fam == "tf", witness=["reject"], budget=4))
        out.append(Scenario("%s types" % fam, types_(fam), tf=fam == "tf", witness=["check", "eq", "hash", "repr", "refine"], budget=4))
    return out

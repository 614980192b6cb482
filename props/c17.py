"""C17: raise-errors=no."""
import itertools
from typing import Any, Callable, Dict, List, Literal, NamedTuple, Optional, Sequence, Set, Tuple, Type, TypedDict, Union

from engine.scenario import SIZES, Scenario
from engine.ops import iff, implies, land, lor
from props.common import CONFIG, E, FAMILIES, default_dtype, family_type, load_for, make_value, typed

HI = SIZES
BOUNDS = {
    "quick": "annotations of every kind the package checks (array types of rank 0..2 with literal, wildcard, ellipsis, symbolic, placeholder and attribute constraints and dtypes, containers, unions, ordinary types) against values of every kind, sizes in [0, 4000], as one or two (in 7 cases 3 to 6) arguments and as the return value; each call made twice with raise-errors=no; pairs of calls overlapping in two threads, switched at every entry of a function of the package (and back at the end or at one of two fixed points); print-passes yes and no in both modes, check-non-asta-types and check-all-sequence-elements yes and no",
    "thorough": "the same for all families and all ordered pairs of annotations",
}
ASSUMPTIONS = ["sizes of TensorFlow tensors are at most 40 (the replays use real ones)", "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used"]
VALIDATE = 20


class W:
    def __init__(self, env, fam, memo):
        self.env, self.fam, self.memo = env, fam, memo

    def start(self, config):
        self.asta = load_for(self.env, self.fam, config=config)
        self.T = family_type(self.asta, self.fam)
        import asta.dims
        import asta.shapes
        import asta.symbols

        self.dims, self.shapes, self.sym = asta.dims, asta.shapes, asta.symbols
        return self.asta

    def i(self, name, lo=0, hi=HI):
        if name not in self.memo:
            self.memo[name] = self.env.int(name, lo, hi)
        return self.memo[name]

    def pick(self, name, options):
        if name not in self.memo:
            self.memo[name] = self.env.pick(name, range(len(options)))
        return options[self.memo[name]]

    def lib(self):
        import numpy

        return {"array": numpy, "torch": self.env.torch, "tf": self.env.tf}[self.fam]

    def dtype(self, name):
        return getattr(self.lib(), name)

    def arr(self, tag, rank, dtype=None, attrs=None):
        return make_value(self.env, self.fam, tuple(self.i("%s%d" % (tag, k)) for k in range(rank)), dtype, attrs)


class P(NamedTuple):
    a: int
    b: str


def td(t, total):
    return TypedDict("TD", {"a": t, "b": int}, total=total)


# Annotations: name -> fn(w)
ANN = {
    "n": lambda w: w.T[w.i("p0")],
    "nm": lambda w: w.T[w.i("p0"), w.i("p1")],
    "scalar": lambda w: w.T[w.dtype("float32")],
    "w": lambda w: w.T[-1],
    "X": lambda w: w.T[w.sym.X],
    "XX": lambda w: w.T[w.sym.X, w.sym.X],
    "X+1": lambda w: w.T[w.sym.X + 1],
    ".X": lambda w: w.T[..., w.sym.X],
    "attr": lambda w: w.T[w.sym.X, {"tag": w.sym.X}],
    "attr1": lambda w: w.T[w.i("p0"), {"tag": 3}],
    "T": lambda w: w.T,
    "listX": lambda w: List[w.T[w.sym.X]],
    "seqn": lambda w: Sequence[w.T[w.i("p0")]],
    "tup": lambda w: Tuple[w.T[w.sym.X], w.T[w.sym.X]],
    "vtup": lambda w: Tuple[w.T[w.i("p0")], ...],
    "tup0": lambda w: Tuple[()],
    "dict": lambda w: Dict[str, w.T[w.i("p0")]],
    "set": lambda w: Set[int],
    "td": lambda w: td(w.T[w.i("p0")], True),
    "td-": lambda w: td(w.T[w.i("p0")], False),
    "nt": lambda w: P,
    "union": lambda w: Union[w.T[w.i("p0")], w.T[w.i("p0"), w.i("p1")], None],
    "unionX": lambda w: Union[w.T[w.sym.X, w.sym.X], List[w.T[w.sym.X]]],
    "opt": lambda w: Optional[w.T[w.sym.X]],
    "none": lambda w: None,
    "int": lambda w: int,
    "float": lambda w: float,
    "complex": lambda w: complex,
    "str": lambda w: str,
    "bytes": lambda w: bytes,
    "lit": lambda w: Literal["a", 3],
    "call": lambda w: Callable[[int], int],
    "call.": lambda w: Callable[..., int],
    "type": lambda w: Type[int],
    "any": lambda w: Any,
    "listint": lambda w: List[int],
    "unionint": lambda w: Union[int, str],
    "object": lambda w: object,
}


LATE = {
    "K": lambda w: w.T[w.dims.K],
    "K+1": lambda w: w.T[w.dims.K + 1, w.dims.K],
    "K-9": lambda w: w.T[w.dims.K - 9],
    "K/2": lambda w: w.T[w.dims.K / 2],
    "(K-9)/2": lambda w: w.T[(w.dims.K - 9) / 2],
    "Kunset": lambda w: w.T[w.dims.L],
    "S": lambda w: w.T[w.shapes.S],
    "*S": lambda w: w.T[(*w.shapes.S,)],
    "S1": lambda w: w.T[w.shapes.S + (1,)],
    "Sunset": lambda w: w.T[w.shapes.R],
    "*Sunset": lambda w: w.T[(*w.shapes.R,)],
    "Sunset1": lambda w: w.T[w.shapes.R + (1,)],
    "listK": lambda w: List[w.T[w.dims.K]],
    "unionK": lambda w: Union[w.T[w.dims.K / 2], w.T[w.dims.K]],
    "unionL": lambda w: Union[w.T[w.dims.L], w.T[w.dims.K]],
}

# Values: name -> fn(w, tag)
VAL = {
    "0": lambda w, t: w.arr(t, 0),
    "1": lambda w, t: w.arr(t, 1),
    "2": lambda w, t: w.arr(t, 2),
    "1f": lambda w, t: w.arr(t, 1, "float32"),
    "1O": lambda w, t: w.arr(t, 1, "object"),
    "1U": lambda w, t: w.arr(t, 1, "<U3"),
    "1S": lambda w, t: w.arr(t, 1, "S2"),
    "1M": lambda w, t: w.arr(t, 1, "M8[ns]"),
    "1m": lambda w, t: w.arr(t, 1, "m8[D]"),
    "1b": lambda w, t: w.arr(t, 1, "bool"),
    "1c": lambda w, t: w.arr(t, 1, "complex64"),
    "1V": lambda w, t: w.arr(t, 1, "V4"),
    "1>": lambda w, t: w.arr(t, 1, ">i2"),
    "1t": lambda w, t: w.arr(t, 1, None, {"tag": w.i(t + "tag")}),
    "l0": lambda w, t: [],
    "l1": lambda w, t: [w.arr(t, 1)],
    "l11": lambda w, t: [w.arr(t + "a", 1), w.arr(t + "b", 1)],
    "l1z": lambda w, t: [w.arr(t, 1), 3],
    "t": lambda w, t: (),
    "t1": lambda w, t: (w.arr(t, 1),),
    "t11": lambda w, t: (w.arr(t + "a", 1), w.arr(t + "b", 1)),
    "t1z": lambda w, t: (w.arr(t, 1), 3),
    "d": lambda w, t: {},
    "d1": lambda w, t: {"a": w.arr(t, 1)},
    "d1i": lambda w, t: {"a": w.arr(t, 1), "b": 3},
    "d1s": lambda w, t: {"a": w.arr(t, 1), "b": "x", "c": 3},
    "dk": lambda w, t: {3: w.arr(t, 1)},
    "si": lambda w, t: {1, 2},
    "ss": lambda w, t: {"a"},
    "P": lambda w, t: P(1, "b"),
    "Pbad": lambda w, t: P("a", 1),
    "None": lambda w, t: None,
    "3": lambda w, t: 3,
    "2.5": lambda w, t: 2.5,
    "1j": lambda w, t: 1j,
    "a": lambda w, t: "a",
    "b": lambda w, t: b"a",
    "f1": lambda w, t: lambda x: x,
    "f2": lambda w, t: lambda x, y: x,
    "f0": lambda w, t: lambda: 0,
    "cls": lambda w, t: bool,
    "cls2": lambda w, t: str,
}
ARRAYS = ["0", "1", "2", "None", "3", "l1"]
VALUES_OF = {
    "attr": ["1", "1t", "2"], "attr1": ["1", "1t"], "scalar": ["0", "1", "1f", "3"], "T": ["0", "2", "3"],
    "listX": ["l0", "l1", "l11", "l1z", "1", "t1"], "seqn": ["l1", "l11", "l1z", "t1", "t1z", "1", "3"], "tup": ["t11", "t1", "t1z", "l11", "1"],
    "vtup": ["t", "t1", "t11", "t1z", "l1"], "tup0": ["t", "t1", "l0"], "dict": ["d", "d1", "d1i", "dk", "l0"], "set": ["si", "ss", "l0"],
    "td": ["d", "d1", "d1i", "d1s", "1"], "td-": ["d", "d1", "d1i", "d1s"], "nt": ["P", "Pbad", "t", "t1z"], "union": ["0", "1", "2", "None", "3"],
    "unionX": ["1", "2", "l1", "l11", "3"], "opt": ["1", "2", "None", "3"], "none": ["None", "3", "1"], "int": ["3", "2.5", "a", "1"],
    "float": ["2.5", "3", "1"], "complex": ["1j", "3", "1"], "str": ["a", "3"], "bytes": ["b", "a"], "lit": ["a", "b", "3", "1", "2", "l0"],
    "call": ["f1", "f2", "f0", "3", "cls"], "call.": ["f2", "3"], "type": ["cls", "cls2", "3"], "any": ["1", "3"],
    "listint": ["l0", "l1", "l1z"], "unionint": ["3", "a", "2.5", "1"], "object": ["1", "None"],
}


for _a in ("listX", "seqn", "tup", "vtup", "tup0", "dict", "set", "td", "td-", "nt", "unionX", "listint"):
    for _c in ("3", "1", "None", "a", "d", "t"):
        if _c not in VALUES_OF[_a]:
            VALUES_OF[_a].append(_c)
VALUES_OF["listK"] = ["l1", "l11", "3", "t1", "None"]


class Call:
    """One call in one mode: what happened and what was printed."""

    def __init__(self, w, anns, codes, where, config, again=False):
        env = w.env
        asta = w.start(config)
        ts = [(ANN.get(a) or LATE[a])(w) for a in anns]
        if any("K" in a and a != "Kunset" for a in anns) or "unionL" in anns:
            w.dims.K = w.i("k", 1)
        if any("S" in a and "unset" not in a for a in anns):
            w.shapes.S = (w.i("s0", 1), w.i("s1", 1))
        vs = [VAL[c](w, "v%d" % k) for k, c in enumerate(codes)]
        self.ran = []
        self.result = object()
        if where == "return":
            self.result = vs[-1]
            names = {"x%d" % k: t for k, t in enumerate(ts[:-1])}
            names["return"] = ts[-1]
            args = vs[:-1]
        else:
            names = {"x%d" % k: t for k, t in enumerate(ts)}
            args = vs

        def body(*a):
            self.ran.append(len(a) == len(args) and all(x is y for x, y in zip(a, args)))
            return self.result

        fn = typed(asta, names, body)
        start = len(env.output())
        self.got = env.attempt(fn, *args)
        self.out = env.output()[start:]
        if again:
            start = len(env.output())
            self.again = env.attempt(fn, *args)
            self.out_again = env.output()[start:]


def modes(fam, anns, codes, where, non, first):
    def run(env):
        memo = {}
        w = W(env, fam, memo)
        base = {**CONFIG, "check-non-asta-types": non, "check-all-sequence-elements": "no" if first else "yes"}
        prints = [env.pick("print-passes-%d" % k, ["no", "yes"]) for k in range(2)]
        soft = Call(w, anns, codes, where, {**base, "raise-errors": "no", "print-passes": prints[0]}, again=True)
        env.require("soft mode never stops the program", soft.got.returned)
        if not soft.got.returned:
            return
        env.require("the function ran once with its arguments", soft.ran[:1] == [True])
        env.require("the result is returned", soft.got.value is soft.result)
        failed = "FAILED" in soft.out
        env.require("the same call again runs again", soft.ran == [True, True] and soft.again.returned and soft.again.value is soft.result)
        env.require("and prints the same kind of lines", failed == ("FAILED" in soft.out_again))
        hard = Call(w, anns, codes, where, {**base, "print-passes": prints[1]})
        env.require("returns or raises TypeError", hard.got.returned or hard.got.raised(TypeError))
        env.require("FAILED is printed exactly when the strict mode raises", failed == (not hard.got.returned))
        for c, p in ((soft, prints[0]), (hard, prints[1])):
            env.require("PASSED only with print-passes", p == "yes" or "PASSED" not in c.out)
        env.require("strict mode prints no failure", "FAILED" not in hard.out)
        env.witness("failed" if failed else "fine")

    return run


def overlapping(fam, one, two, at, pauses):
    """Two calls with raise-errors=no at the same time, in two threads."""

    def run(env):
        w = W(env, fam, {})
        soft = []
        for mode in ("yes", "no"):
            w.start({**CONFIG, "check-non-asta-types": "yes", "check-all-sequence-elements": "yes", "raise-errors": mode})
            fns, args, ran, results = [], [], ([], []), []
            for j, (a, c) in enumerate((one, two)):
                results.append(object())
                fns.append(typed(w.asta, {"x0": ANN[a](w)}, lambda *v, j=j: ran[j].append(v) or results[j]))
                args.append(VAL[c](w, "v%d" % j))
            if mode == "yes":
                strict = [env.attempt(fn, x) for fn, x in zip(fns, args)]
        start = len(env.output())

        def other():
            soft.append(env.attempt(fns[1], args[1]))

        soft.insert(0, env.overlapped(env.pick("switch", range(*at)), env.pick("back", pauses), other, fns[0], args[0]))
        for j in (0, 1):
            env.require("soft mode never stops the program", soft[j].returned)
            env.require("the result is returned", not soft[j].returned or soft[j].value is results[j])
            env.require("the function ran once", len(ran[j]) == 1 and ran[j][0][0] is args[j])
        bad = sum(not s.returned for s in strict)
        env.require("FAILED is printed exactly for the calls which the strict mode refuses", (env.output()[start:].count("FAILED") > 0) == (bad > 0))
        env.witness("failed" if bad else "fine")

    return run


OVERLAPS = [(("unionX", "2"), ("n", "1")), (("unionint", "2.5"), ("union", "1")), (("X", "3"), ("listX", "l11")), (("dict", "d1i"), ("tup", "t11"))]


MANY = [
    (["X"] * 5, ["1"] * 5), (["n", "X", "int", "opt", "listint"], ["1", "1", "a", "None", "l1z"]), (["int", "str", "X", "X", "float", "X"], ["3", "a", "1", "1", "2.5", "1"]),
    (["int"] * 6, ["3", "a", "3", "3", "1", "3"]), (["listX", "tup", "X"], ["l11", "t11", "1"]), (["K", "S", "X", "X"], ["1", "2", "1", "1"]), (["Kunset", "n", "Sunset"], ["1", "1", "1"]),
]


def scenarios(tier):
    out = []
    quick = tier == "quick"
    for fam in FAMILIES:
        tf = fam == "tf"
        few = quick and fam != "array"
        names = (["n", "XX", "attr", "listX", "unionX", "K/2", "Sunset"] if few else list(ANN) + list(LATE))
        for a in names:
            codes = VALUES_OF.get(a) or (["l1", "l11"] if a == "listK" else ARRAYS if not few else ["1", "2", "3"])
            plain = a in ("set", "nt", "td", "td-", "none", "int", "float", "complex", "str", "bytes", "lit", "call", "call.", "type", "listint", "unionint", "object")
            if fam == "array" and a in ("n", "X", "scalar", "T", "union"):
                codes = codes + ["1O", "1U", "1S", "1M", "1m", "1b", "1c", "1V", "1>"]
            for c in codes:
                if c in ("1t",) and fam == "tf":
                    continue
                for where in ("arg", "return"):
                    for non in (("yes", "no") if plain and where == "arg" else ("yes",) if plain else ("no",)):
                        out.append(Scenario("%s %s value %s %s%s" % (fam, a, c, where, " non-asta" if non == "yes" else ""),
                                            modes(fam, [a], [c], where, non, False), tf=tf))
            if a in ("listX", "seqn", "listint", "listK"):
                for c in ("l11", "l1z"):
                    out.append(Scenario("%s %s value %s first only" % (fam, a, c), modes(fam, [a], [c], "arg", "yes", True), tf=tf))
        pairs = [("X", "1", "X", "1"), ("X", "1", "X+1", "1"), ("XX", "2", "X", "1"), ("listX", "l11", "X", "1"), ("unionX", "2", "X", "1"), ("X", "1", "unionX", "l1"),
                 ("n", "1", "X", "1"), ("n", "3", "n", "3"), ("attr", "1t", "X", "1"), ("X", "3", "X", "1"), ("opt", "None", "X", "1"), ("K", "1", "Kunset", "1"),
                 ("int", "a", "X", "1"), ("tup", "t11", "tup", "t11"), ("dict", "d1", "n", "1"), ("K/2", "1", "K/2", "1")]
        if not quick:
            base = [("X", "1"), ("XX", "2"), ("X+1", "1"), ("listX", "l11"), ("tup", "t11"), ("unionX", "2"), ("opt", "1"), ("n", "1"), ("n", "3"), ("K", "1"), ("attr", "1t"), ("int", "a")]
            pairs = [p + q for p in base for q in base]
        for anns, codes in MANY[:1] if few else MANY:
            for where in ("arg", "return"):
                out.append(Scenario("%s %s values %s %s" % (fam, " ".join(anns), " ".join(codes), where), modes(fam, anns, codes, where, "yes", False), tf=tf))
        for a, c, b, e in pairs[:4] if few else pairs:
            if tf and "1t" in (c, e):
                continue
            for where in ("arg", "return"):
                out.append(Scenario("%s %s value %s then %s value %s %s" % (fam, a, c, b, e, where), modes(fam, [a, b], [c, e], where, "yes", False), tf=tf))
    for fam in FAMILIES if not quick else ("array",):
        for one, two in OVERLAPS:
            for lo in range(0, 90, 10):
                out.append(Scenario("%s %s overlapped by %s at %d.." % (fam, one, two, lo),
                                    overlapping(fam, one, two, (lo, lo + 10), [500, 12, 30] if quick else [500, *range(5, 100, 5)]), tf=fam == "tf"))
    return out

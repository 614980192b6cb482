"""C22: tensor libraries that are not installed."""
import itertools
import operator
from typing import Dict, List, Optional, Sequence, Tuple, Union

from engine.scenario import SIZES, Scenario
from engine.ops import eq, iff, implies, land
from props import c17
from props.common import CONFIG, dim_ok, load_for, make_value, typed

HI = SIZES
BOUNDS = {
    "quick": "the 4 combinations of installed libraries; 60 ways to use the class of a missing library (subscripts with symbolic sizes, comparisons, str, repr and format, isinstance against 20 values, decorated functions with it alone and inside containers, Optional and Union); and 40 annotations of arrays, containers, unions and ordinary types against values of every kind with sizes in [0, 4000], as argument and return value, compared between the combinations",
    "thorough": "the same with every annotation and value of C17 and all pairs of arguments",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used; a missing library is one whose import raises ImportError",
]
VALIDATE = 30
MISSING = {"Tensor": [(), ("tf",)], "TFTensor": [(), ("torch",)]}
ALL = [(), ("torch",), ("tf",), ("torch", "tf")]


def subscripts(w):
    n = w["n"]
    X = w["asta"].symbols.X if hasattr(w["asta"], "symbols") else None
    return {
        "int": n, "pair": (n, 3), "dtype": float, "dtype shape": (float, n), "empty": (), "none": None, "ellipsis": ..., "wild": -1, "dict": {"a": n}, "symbol": X, "symbols": (X, X),
        "string": "float32", "nested": ((n, 2),),
    }


VALUES = {
    "int": lambda w: w["n"], "None": lambda w: None, "str": lambda w: "a", "list": lambda w: [w["n"]], "tuple": lambda w: (w["n"],), "class": lambda w: int, "object": lambda w: object(),
    "array": lambda w: make_value(w["env"], "array", (w["n"],)), "scalar array": lambda w: make_value(w["env"], "array", ()), "Array": lambda w: w["asta"].Array,
    "float": lambda w: 2.5, "dict": lambda w: {"a": w["n"]}, "set": lambda w: {1}, "bytes": lambda w: b"a", "Array[n]": lambda w: w["asta"].Array[w["n"]],
}


def use(name, how, libs):
    """Any use of the missing class raises ImportError."""

    def run(env):
        asta = load_for(env, *libs, config={**CONFIG, "check-non-asta-types": "yes"})
        import asta.symbols  # noqa: F811

        w = {"env": env, "asta": asta, "n": env.int("n", 0, HI)}
        cls = getattr(asta, name)
        memo = {}

        def pick(key, options):
            if key not in memo:
                memo[key] = env.pick(key, options)
            return memo[key]

        for again in range(3):
            if how == "subscript":
                item = subscripts(w)
                key = pick("item", sorted(item))
                got = env.attempt(lambda: cls[item[key]])
            elif how in ("eq", "ne"):
                v = VALUES[pick("value", sorted(VALUES))](w)
                got = env.attempt(lambda: cls == v if how == "eq" else cls != v)
            elif how == "eq self":
                got = env.attempt(lambda: cls == cls)
            elif how == "print":
                fn = pick("fn", [repr, str, format, lambda c: "%s" % (c,), lambda c: "%r" % (c,), lambda c: print(c)])
                got = env.attempt(fn, cls)
            elif how == "isinstance":
                v = VALUES[pick("value", sorted(VALUES))](w)
                got = env.check(v, cls)
            elif how == "isinstance several":
                v = VALUES[pick("value", ["None", "str", "list", "array"])](w)
                got = env.attempt(isinstance, v, (int, cls))
            else:
                v = VALUES[pick("value", sorted(VALUES))](w)
                anns, arg = {
                    "arg": lambda: ({"x": cls}, v), "return": lambda: ({"x": object, "return": cls}, v), "list": lambda: ({"x": list[cls]}, [v]), "dict": lambda: ({"x": dict[str, cls]}, {"a": v}),
                    "tuple": lambda: ({"x": tuple[cls, object]}, (v, 1)), "vtuple": lambda: ({"x": tuple[cls, ...]}, (v,)),
                }[how]()
                got = env.attempt(lambda: typed(asta, anns, lambda *a: v)(arg))
            env.require("raises ImportError, time %d" % again, got.raised(ImportError))
        env.witness("raised")

    return run


def hinted(name, how, libs):
    """Writing the annotation raises ImportError, or checking it does."""

    def run(env):
        asta = load_for(env, *libs, config=CONFIG)
        n = env.int("n", 0, HI)
        w = {"env": env, "asta": asta, "n": n}
        cls = getattr(asta, name)
        v = VALUES[env.pick("value", ["array", "None", "str"])](w)

        def go():
            ann, arg = {
                "Optional": lambda: (Optional[cls], v), "Union": lambda: (Union[cls, int], v), "List": lambda: (List[cls], [v]), "Sequence": lambda: (Sequence[cls], [v]), "Dict": lambda: (Dict[str, cls], {"a": v}),
                "Tuple": lambda: (Tuple[cls, int], (v, 1)), "nested": lambda: (List[Tuple[cls, ...]], [(v,)]),
            }[how]()
            return typed(asta, {"x": ann})(arg)

        for again in range(3):
            got = env.attempt(go)
            env.require("raises ImportError, time %d" % again, got.raised(ImportError))

    return run


def usable(libs):
    """The package imports, and what is there works."""

    def run(env):
        asta = load_for(env, *libs, config=CONFIG)
        import asta.symbols  # noqa: F811

        n, d, e = env.int("n", 0, HI), env.int("d", 0, HI), env.int("e", 1, HI)
        for name in ("Array", "Scalar", "typechecked", "Tensor", "TFTensor", "dims", "shapes", "symbols"):
            env.require("%s is there" % name, name in ("dims", "shapes") or hasattr(asta, name))
        got = env.check(make_value(env, "array", (d,)), asta.Array[n])
        env.require("arrays are checked", got.returned and iff(got.value, dim_ok(n, d)))
        got = env.attempt(typed(asta, {"x": asta.Array[asta.symbols.X], "y": asta.Array[asta.symbols.X, n]}), make_value(env, "array", (e,)), make_value(env, "array", (e, d)))
        env.require("arrays are checked together", iff(got.returned, dim_ok(n, d)))
        for lib, fam, name in (("torch", "torch", "Tensor"), ("tf", "tf", "TFTensor")):
            if lib in libs:
                t = getattr(asta, name)
                got = env.check(make_value(env, fam, (d,)), t[n])
                env.require("%s works" % name, got.returned and iff(got.value, dim_ok(n, d)))
                got = env.check(make_value(env, "array", (d,)), t[n])
                env.require("%s is not for arrays" % name, got.returned and got.value is False)
        env.witness("done")

    return run


def same(anns, codes, where, non):
    """One call under every combination of libraries."""

    def run(env):
        memo, first = {}, None
        combos = ALL if "t" in codes else ALL
        for libs in combos:
            w = c17.W(env, "array", memo)
            w.start = lambda config, w=w, libs=libs: start(w, libs, config)
            call = c17.Call(w, anns, codes, where, {**CONFIG, "check-non-asta-types": "yes" if non else "no", "print-passes": "yes"})
            kind = "returns" if call.got.returned else "TypeError" if call.got.raised(TypeError) else call.got.kind
            env.require("returns or raises TypeError with %s" % (libs,), kind in ("returns", "TypeError"))
            passed, ran = call.out.count("PASSED"), len(call.ran)
            if first is None:
                first = kind, passed, ran
            env.require("the same answer with %s" % (libs,), (kind, passed, ran) == first)
        env.witness(first[0])

    return run


def start(w, libs, config):
    w.asta = load_for(w.env, *libs, config=config)
    w.T = w.asta.Array
    import asta.dims
    import asta.shapes
    import asta.symbols

    w.dims, w.shapes, w.sym = asta.dims, asta.shapes, asta.symbols
    return w.asta


def types(fam_kind):
    """Array types themselves: equality and text."""

    def run(env):
        first = None
        n, m = env.int("n", 0, HI), env.int("m", 0, HI)
        for libs in ALL:
            asta = load_for(env, *libs, config=CONFIG)
            import asta.symbols  # noqa: F811

            import numpy

            X = asta.symbols.X
            made = {
                "n": lambda k: asta.Array[k], "fn": lambda k: asta.Array[float, k], "nX": lambda k: asta.Array[k, X], "dn": lambda k: asta.Array[numpy.int16, k, ..., -1], "kn": lambda k: asta.Array[k, {"a": 1}],
                "sn": lambda k: asta.Array[str, k], "t": lambda k: asta.Array[()] if False else asta.Array[numpy.float32],
            }[fam_kind]
            a, b = made(n), made(m)
            equal = env.attempt(operator.eq, a, b)
            env.require("compares", equal.returned)
            scalar = [env.check(v, asta.Scalar).value for v in (1, "a", None, make_value(env, "array", ()), make_value(env, "array", (n,)))]
            if fam_kind != "t":
                env.require("equality", iff(equal.value, n == m))
            if first is None:
                first = scalar
            env.require("the same answers with %s" % (libs,), scalar == first)

    return run


def scenarios(tier):
    out = []
    quick = tier == "quick"
    for libs in ALL:
        out.append(Scenario("usable with %s" % (libs,), usable(libs), tf="tf" in libs))
    for name, combos in MISSING.items():
        for libs in combos:
            for how in ("subscript", "eq", "ne", "eq self", "print", "isinstance", "isinstance several", "arg", "return", "list", "dict", "tuple", "vtuple"):
                out.append(Scenario("%s %s with %s" % (name, how, libs), use(name, how, libs), tf="tf" in libs))
            for how in ("Optional", "Union", "List", "Sequence", "Dict", "Tuple", "nested"):
                out.append(Scenario("%s in %s with %s" % (name, how, libs), hinted(name, how, libs), tf="tf" in libs))
    for k in ("n", "fn", "nX", "dn", "kn", "sn", "t"):
        out.append(Scenario("types %s" % k, types(k), tf=True))
    names = list(c17.ANN) + list(c17.LATE)
    for a in names:
        codes = c17.VALUES_OF.get(a) or (["l1", "l11"] if a == "listK" else c17.ARRAYS)
        for k, c in enumerate(codes):
            if quick and k > 3 and c not in ("None",):
                continue
            for where in ("arg", "return") if not quick or k < 2 else ("arg",):
                for non in (False, True) if not quick else (True,):
                    out.append(Scenario("same %s value %s %s%s" % (a, c, where, "" if non else " off"), same([a], [c], where, non), tf=True))
    base = [("X", "1"), ("XX", "2"), ("X+1", "1"), ("listX", "l11"), ("unionX", "2"), ("opt", "1"), ("K", "1"), ("attr", "1t"), ("int", "a")]
    for p, q in itertools.product(base[:4] if quick else base, base):
        out.append(Scenario("same %s %s" % (p, q), same([p[0], q[0]], [p[1], q[1]], "arg", True), tf=True))
    return out

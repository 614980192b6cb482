"""C03: element types."""
import datetime

import numpy as np

from engine.scenario import SIZES, Scenario
from props.common import E, family_type, load_for, make_value, shape_matches, subscript
from engine.ops import iff, land

HI = SIZES
BOUNDS = {
    "quick": "every documented Python type and 21 NumPy / 9 (TensorFlow: 18) library dtypes in the subscript against 28 NumPy / 9 (TensorFlow: 13) library element types (chosen by the solver), no shape and the patterns 'i', 'ii', '... i' against ranks 1..2 with sizes in [0, 4000], plus 8 kinds of foreign values",
    "thorough": "the same dtypes with all patterns of up to 3 elements and ranks 0..3",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented dtype objects is used",
    "structured NumPy dtypes and NumPy's abstract scalar types in the subscript are outside the claim",
]

# (what is written in the subscript, predicate on the value's np.dtype)
NP_ANN = [
    ("int", int, lambda d: d == np.dtype("int64")),
    ("float", float, lambda d: d == np.dtype("float64")),
    ("bool", bool, lambda d: d == np.dtype("bool")),
    ("complex", complex, lambda d: d == np.dtype("complex128")),
    ("bytes", bytes, lambda d: d.kind == "S"),
    ("str", str, lambda d: d.kind == "U"),
    ("datetime", datetime.datetime, lambda d: d.kind == "M"),
    ("timedelta", datetime.timedelta, lambda d: d.kind == "m"),
    ("object", object, lambda d: d.kind == "O"),
]
_EXACT = ["int8", "int16", "int32", "int64", "uint8", "uint64", "float16", "float32",
          "float64", "complex64", "complex128", "bool", "U5", "S3", "M8[s]", "m8[D]", ">f8", "q", "longdouble"]
for _n in _EXACT:
    NP_ANN.append((_n, np.dtype(_n), (lambda n: lambda d: d == np.dtype(n))(_n)))
for _t in (np.float32, np.int16):
    NP_ANN.append((_t.__name__, _t, (lambda t: lambda d: d == np.dtype(t))(_t)))
NP_VAL = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
          "float16", "float32", "float64", "complex64", "complex128", "bool", "U1", "U5",
          "S1", "S3", "M8[s]", "M8[D]", "m8[ms]", "m8[D]", "O", ">f8", ">i4", "q", "Q", "longdouble"]

LIB = {
    "torch": (
        [("int", int, "int32"), ("float", float, "float32"), ("bool", bool, "bool"), ("bytes", bytes, "uint8")],
        ["int8", "int32", "int64", "uint8", "float16", "float32", "float64", "bool", "bfloat16"],
    ),
    "tf": (
        [("int", int, "int32"), ("float", float, "float32"), ("bool", bool, "bool"),
         ("bytes", bytes, "string"), ("str", str, "string"), ("complex", complex, "complex128")],
        ["int8", "int32", "int64", "uint8", "float16", "float32", "float64", "bool", "string", "complex128", "complex64", "bfloat16", "uint16"],
    ),
}
# Only in the subscript: there is no simple way to make such a tensor.
RARE = {"torch": [], "tf": ["variant", "resource", "qint8", "quint8", "qint32"]}
LIB = {
    fam: (
        [(n, (lambda t: lambda lib: t)(t), d) for n, t, d in py]
        + [("." + d, (lambda d: lambda lib: getattr(lib, d))(d), d) for d in names + RARE[fam]],
        names,
    )
    for fam, (py, names) in LIB.items()
}


def pattern_of(env, skel):
    if skel is None:
        return None
    return tuple(E if c == "." else env.int("p%d" % i, -1, HI) for i, c in enumerate(skel))


def numpy_case(skel, rank, nested, chunk):
    def run(env):
        asta = env.load()
        pattern = pattern_of(env, skel)
        dims = tuple(env.int("d%d" % i, 0, HI) for i in range(rank))
        _name, ann, pred = env.pick("ann", NP_ANN[chunk::6])
        dt = np.dtype(env.pick("val", NP_VAL))
        arr = env.array(dims, dt)
        if pattern is None:
            t = asta.Array[ann]
        elif nested:
            t = asta.Array[ann, pattern]
        else:
            t = asta.Array[(ann,) + pattern]
        got = env.check(arr, t)
        env.require("isinstance does not raise", got.returned)
        if got.returned:
            env.witness("accept" if got.value else "reject")
            env.require("element type and shape, both",
                        iff(got.value, land(bool(pred(dt)), shape_matches(pattern, dims))))
            if pattern is not None:
                env.require("no dtype accepts all",
                            iff(env.check(arr, asta.Array[subscript(pattern)]).value,
                                shape_matches(pattern, dims)))
            env.require("Array accepts every array", env.check(arr, asta.Array).value)

    return run


def lib_case(fam, skel, rank):
    anns, names = LIB[fam]

    def run(env):
        asta = load_for(env, fam)
        lib = env.torch if fam == "torch" else env.tf
        pattern = pattern_of(env, skel)
        dims = tuple(env.int("d%d" % i, 0, HI) for i in range(rank))
        _name, ann, want = env.pick("ann", anns)
        dt = env.pick("val", names)
        T = family_type(asta, fam)
        v = make_value(env, fam, dims, dt)
        t = T[ann(lib)] if pattern is None else T[ann(lib), pattern]
        got = env.check(v, t)
        env.require("isinstance does not raise", got.returned)
        if got.returned:
            env.witness("accept" if got.value else "reject")
            env.require("element type and shape, both",
                        iff(got.value, land(want == dt, shape_matches(pattern, dims))))
            env.require("the plain class accepts every tensor", env.check(v, T).value)

    return run


def foreign(fam):
    def run(env):
        asta = load_for(env, "torch", "tf")
        T = family_type(asta, fam)
        n = env.int("n", 0, HI)
        others = [
            lambda: [1.0] * 3, lambda: 1, lambda: 1.5, lambda: None, lambda: "a",
            lambda: np.float64(1.0), lambda: np.int64(3), lambda: (n,),
        ] + [
            (lambda g: lambda: make_value(env, g, (n,)))(g)
            for g in ("array", "torch", "tf") if g != fam
        ]
        v = env.pick("value", others)()
        lib = {"array": np, "torch": env.torch, "tf": env.tf}[fam]
        for t in (T, T[...], T[lib.float32], T[n], T[float, n], T[()]):
            got = env.check(v, t)
            env.require("not an instance", got.returned and got.value is False)
        env.witness("reject")

    return run


QUICK = [(None, 1), ("i", 1), (".i", 2), ("ii", 1)]


def scenarios(tier):
    out = []
    skels = [None, "i", "ii", ".i", "i.", ".", "iii", ".i.", "i.i"]
    cases = QUICK if tier == "quick" else [(s, r) for s in skels for r in range(4)]
    for skel, rank in cases:
        fixed = 0 if skel is None else len(skel) - skel.count(".")
        can = skel is None or rank == fixed or ("." in skel and rank >= fixed)
        wit = ["reject"] + (["accept"] if can else [])
        for nested in (False, True) if skel and (tier != "quick" or skel == "i") else (False,):
            for chunk in range(6):
                out.append(Scenario(
                    "numpy %s rank %d%s dtypes %d" % (skel, rank, " tuple" if nested else "", chunk),
                    numpy_case(skel, rank, nested, chunk), budget=10, witness=wit))
        for fam in ("torch", "tf"):
            out.append(Scenario("%s %s rank %d" % (fam, skel, rank), lib_case(fam, skel, rank),
                                tf=fam == "tf", witness=wit, budget=5))
    for fam in ("array", "torch", "tf"):
        out.append(Scenario("foreign values for " + fam, foreign(fam), tf=True, witness=["reject"], budget=20))
    return out

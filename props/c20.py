"""C20: Scalar."""
import collections
import datetime
import decimal
import enum
import fractions

from engine.scenario import Scenario
from engine.ops import iff, lnot
from props.common import CONFIG, FAMILIES, family_type, load_for, make_value, typed

BOUNDS = {
    "quick": "arrays and tensors of rank 0..5 and 10 with all sizes in [0, 10^6] ([0, 100], [0, 12] and [0, 3] for ranks from 2, 3 and 7 on) and every supported dtype, with and without user attributes and subclasses; all integers in [-10^6, 10^6]; 16 other scalars, subclasses of every scalar type, and 25 other objects; with neither, either and both tensor libraries; isinstance and decorated functions",
    "thorough": "the same with rank up to 12",
}
ASSUMPTIONS = [
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "NumPy's own scalar types (np.int64 and so on) that are not subclasses of the listed types are outside the claim",
]
VALIDATE = 60
BIG = 10**6
DTYPES = {
    "array": ["bool", "int8", "uint16", "int32", "int64", "float16", "float32", "float64", "complex64", "complex128", "S3", "<U4", "object", "M8[s]", "m8[ns]", "V2"],
    "torch": ["int32", "float32", "bool", "uint8"],
    "tf": ["int32", "float32", "bool", "uint8", "string", "complex64", "int64"],
}


class Cls:
    pass


class Shaped:
    """Has a shape but is not an array."""

    shape = ()


class Day(enum.Enum):
    ONE = 1


class IntDay(enum.IntEnum):
    ONE = 1


class TZ(datetime.datetime):
    pass


SCALARS = {
    "True": lambda: True, "False": lambda: False, "2.5": lambda: 2.5, "nan": lambda: float("nan"), "inf": lambda: float("inf"), "1j": lambda: 1j, "0j": lambda: 0j, "text": lambda: "abc", "no text": lambda: "",
    "bytes": lambda: b"abc", "no bytes": lambda: b"", "datetime": lambda: datetime.datetime(2020, 1, 2), "timedelta": lambda: datetime.timedelta(3), "zero delta": lambda: datetime.timedelta(),
    "IntEnum": lambda: IntDay.ONE, "huge": lambda: 10**40, "TZ": lambda: TZ(2020, 1, 2), "aware": lambda: datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc),
}
BASES = [int, float, complex, bytes, str, datetime.timedelta]
OTHERS = {
    "None": lambda: None, "list": lambda: [1], "empty list": list, "tuple": lambda: (1,), "empty tuple": tuple, "dict": dict, "set": set, "frozenset": frozenset, "object": object, "Cls": Cls,
    "class": lambda: Cls, "int class": lambda: int, "function": lambda: len, "lambda": lambda: lambda: 1, "Fraction": lambda: fractions.Fraction(1, 2), "Decimal": lambda: decimal.Decimal("1.5"),
    "date": lambda: datetime.date(2020, 1, 2), "time": lambda: datetime.time(1), "range": lambda: range(1), "bytearray": lambda: bytearray(b"a"), "memoryview": lambda: memoryview(b"a"),
    "Enum": lambda: Day.ONE, "Ellipsis": lambda: Ellipsis, "Shaped": Shaped, "deque": collections.deque, "generator": lambda: (x for x in ()), "tzinfo": lambda: datetime.timezone.utc,
}


def judge(env, asta, v, want, decorated):
    got = env.check(v, asta.Scalar)
    env.require("isinstance does not raise", got.returned)
    if got.returned:
        env.require("Scalar exactly when scalar", iff(got.value, want))
    if decorated:
        got = env.attempt(typed(asta, {"x": asta.Scalar}), v)
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("accepted exactly when scalar", iff(got.returned, want))


def libs(fam):
    """The sets of libraries with which ``fam`` can be used."""
    return {"array": [(), ("torch",), ("tf",), ("torch", "tf")], "torch": [("torch",), ("torch", "tf")], "tf": [("tf",), ("torch", "tf")]}[fam]


def arrays(fam, with_libs, rank, dtypes, attrs, decorated):
    def run(env):
        asta = load_for(env, *with_libs, config={**CONFIG, "check-non-asta-types": "yes"})
        dims = tuple(env.int("d%d" % i, 0, BIG if rank == 1 else 100 if rank == 2 else 12 if rank < 7 else 3) for i in range(rank))
        extra = {"tag": env.int("tag", 0, 5)} if attrs else None
        v = make_value(env, fam, dims, env.pick("dtype", dtypes), extra)
        judge(env, asta, v, rank == 0, decorated)
        env.witness("array")

    return run


def scalars(with_libs, decorated):
    def run(env):
        asta = load_for(env, *with_libs, config={**CONFIG, "check-non-asta-types": "yes"})
        which = env.pick("kind", ["int", "sub"] + sorted(SCALARS) + sorted(OTHERS))
        if which == "int":
            v, want = env.int("n", -BIG, BIG), True
        elif which == "sub":
            v, want = type("Sub", (env.pick("base", BASES),), {})(), True
        else:
            v, want = (SCALARS.get(which) or OTHERS[which])(), which in SCALARS
        judge(env, asta, v, want, decorated)
        env.witness("scalar" if want else "other")

    return run


def annotations(fam):
    """The array types and their values are not scalars."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        t = family_type(asta, fam)
        n = env.int("n", 0, BIG)
        for v in (t, t[n], asta.Scalar, asta.typechecked):
            got = env.check(v, asta.Scalar)
            env.require("not a scalar", got.returned and lnot(got.value))

    return run


def scenarios(tier):
    out = []
    quick = tier == "quick"
    for fam in FAMILIES:
        out.append(Scenario("%s annotations" % fam, annotations(fam), tf=fam == "tf"))
        for ls in libs(fam):
            tf = "tf" in ls
            for rank in [*range(6), 10] if quick else range(13):
                for attrs in (False, True) if fam != "tf" else (False,):
                    if quick and attrs and ls != libs(fam)[0]:
                        continue
                    full = rank < 3 or not quick
                    dts = DTYPES[fam] if full and not attrs else DTYPES[fam][:2]
                    out.append(Scenario("%s with %s rank %d%s" % (fam, "+".join(ls) or "none", rank, " attrs" if attrs else ""),
                                        arrays(fam, ls, rank, dts, attrs, rank < 3), tf=tf))
    for ls in libs("array"):
        for decorated in (False, True):
            out.append(Scenario("scalars with %s%s" % ("+".join(ls) or "none", " decorated" if decorated else ""), scalars(ls, decorated), tf="tf" in ls))
    return out

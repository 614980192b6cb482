"""C04: subscripts."""
import itertools

from engine.scenario import Scenario
from props.common import E, FAMILIES, family_type, load_for, make_value, shape_matches, subscript
from engine.ops import iff

HI = 1000
BOUNDS = {
    "quick": "all shapes of up to 3 elements over {integer in [-1, 1000] (40 for TFTensor), '...', symbol} in every documented spelling, for all three families, against a value of any rank 0..3, and 5 shapes of up to 6 elements; adjacent ellipses at every position of shapes of up to 4 elements and in 7 of up to 8 elements; 14 kinds of invalid elements (among them booleans) at every position of shapes of up to 3 elements and 4 positions of shapes of 7, bare, after a dtype, and as a tuple after a dtype",
    "thorough": "the same with shapes of up to 5 elements and values of rank 0..4",
}
ASSUMPTIONS = [
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "shapes written as several nested tuples are outside the claim",
]


def elem(asta, env, code, i, fam, lo=-1):
    hi = 40 if fam == "tf" else HI
    if code == ".":
        return E
    if code == "X":
        return asta.symbols.X
    return env.int("p%d" % i, lo, hi)


def forms(T, dtype, shape):
    """Every documented way to write ``shape``; with and without dtype."""
    bare = [T[shape]] if shape else [T[()]]
    if len(shape) == 1:
        bare.append(T[shape[0]])
    typed = [T[dtype, shape]]
    if shape:
        typed.append(T[(dtype,) + shape])
    return bare, typed


def valid(fam, skel, rank):
    def run(env):
        asta = load_for(env, fam)
        import asta.symbols  # noqa: F811

        T = family_type(asta, fam)
        shape = tuple(elem(asta, env, c, i, fam) for i, c in enumerate(skel))
        hi = 40 if fam == "tf" else HI
        dims = tuple(env.int("d%d" % i, 0, hi) for i in range(rank))
        v = make_value(env, fam, dims, "float64" if fam == "array" else "float32")
        made = env.attempt(forms, T, float, shape)
        env.require("a valid subscript does not raise", made.returned)
        if not made.returned:
            return
        bare, typed = made.value
        if not shape:
            bare.append(T[asta.Scalar])
            typed += [T[float, asta.Scalar], T[float, ()]]
        for group in (bare, typed):
            first = group[0]
            want = env.check(v, first)
            env.require("check does not raise", want.returned)
            for t in group:
                env.require("spellings are equal types", first == t)
                got = env.check(v, t)
                env.require("spellings accept the same values", iff(got.value, want.value))
            if "X" not in skel:
                env.require("accepts what is written", iff(want.value, shape_matches(shape, dims)))
        env.require("a dtype makes a difference", not (bare[0] == typed[0]))

    return run


def raising(env, label, fn):
    out = env.attempt(fn)
    env.require(label, out.raised(TypeError))
    env.witness("rejected")


def repeated(fam, skel):
    def run(env):
        asta = load_for(env, fam)
        import asta.symbols  # noqa: F811

        T = family_type(asta, fam)
        shape = tuple(elem(asta, env, c, i, fam, -1) for i, c in enumerate(skel))
        raising(env, "adjacent ellipses raise", lambda: T[shape])
        raising(env, "adjacent ellipses raise after a dtype", lambda: T[(float,) + shape])
        raising(env, "adjacent ellipses raise in a tuple after a dtype", lambda: T[float, shape])
        raising(env, "adjacent ellipses raise in a refinement", lambda: T[float][shape])

    return run


def invalid(fam, n, pos):
    def run(env):
        asta = load_for(env, fam)
        T = family_type(asta, fam)
        bad = env.pick("bad", ["a", 1.5, [1], {1}, b"x", 2 + 1j, int, object(), len, (),
                               asta.Scalar, True, False, 2.0])
        marker = bad is asta.Scalar or (isinstance(bad, tuple) and bad == ())
        env.assume(not (marker and n == 1))
        env.assume(not (bad is int and pos == 0))
        shape = [env.int("p%d" % i, 0, 40) for i in range(n)]
        shape[pos] = bad
        shape = tuple(shape)
        if n == 1:
            raising(env, "an invalid dimension raises", lambda: T[shape[0]])
        raising(env, "an invalid dimension raises in a tuple", lambda: T[shape])
        raising(env, "an invalid dimension raises after a dtype", lambda: T[(float,) + shape])
        raising(env, "an invalid dimension raises in a tuple after a dtype", lambda: T[float, shape])

    return run


LONG = ["iiiii", "iiXiii", ".ii.i", "iiii.i", "i.i.i."]
LONG_ADJACENT = ["iiiiii..", "..iiiiii", "i.i.i..", "iii..iii", "..i..", ".i.i..i", "X.iii..i"]


def scenarios(tier):
    n, ranks = (3, 3) if tier == "quick" else (4, 4)
    out = []
    for fam in FAMILIES:
        skels = [""] + ["".join(s) for k in range(1, n + 1) for s in itertools.product("i.X", repeat=k)]
        for skel in skels:
            if ".." in skel or skel.count("X") > 1:
                continue
            for rank in range(ranks + 1):
                if tier == "quick" and rank not in (len(skel) - 1, len(skel), 0):
                    continue
                out.append(Scenario("%s '%s' vs rank %d" % (fam, skel, rank), valid(fam, skel, rank),
                                    tf=fam == "tf", budget=len(skel) * rank))
        for skel in LONG:
            for rank in (0, len(skel) - 1 - skel.count("."), len(skel) - skel.count(".")):
                out.append(Scenario("%s '%s' vs rank %d" % (fam, skel, rank), valid(fam, skel, rank),
                                    tf=fam == "tf", budget=len(skel) * rank))
        for skel in LONG_ADJACENT:
            out.append(Scenario("%s adjacent '%s'" % (fam, skel), repeated(fam, skel), tf=fam == "tf", witness=["rejected"]))
        for pos in (0, 3, 4, 6):
            out.append(Scenario("%s invalid at %d of 7" % (fam, pos), invalid(fam, 7, pos),
                                tf=fam == "tf", witness=["rejected"], budget=9))
        for k in range(2, n + 2):
            for s in itertools.product("i.X", repeat=k):
                skel = "".join(s)
                if ".." in skel and skel.count("X") <= 1:
                    out.append(Scenario("%s adjacent '%s'" % (fam, skel), repeated(fam, skel),
                                        tf=fam == "tf", witness=["rejected"]))
        for k in range(1, n + 1):
            for pos in range(k):
                out.append(Scenario("%s invalid at %d of %d" % (fam, pos, k), invalid(fam, k, pos),
                                    tf=fam == "tf", witness=["rejected"], budget=9))
    return out

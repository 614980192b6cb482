"""C12: dimension placeholders."""
import itertools
from typing import Dict, List, Optional, Tuple, Union

from engine.scenario import SIZES, Scenario
from engine.ops import iff, implies, land, lor
from props.common import CONFIG, E, FAMILIES, family_type, load_for, make_value, typed

HI = SIZES
BOUNDS = {
    "quick": "shapes of 1..3 elements over {A, B, A+1, A-1, 2*A, A+B, A-B, A*B, A**2, -A, A/2, A+X, A+B+C+D, A*B+C-D, literal, -1, '...'} in arguments and return values; histories of up to 3 settings (or none) of each placeholder to integers in [-3, 12], one call after each (4 settings for one placeholder, 1 or 2 for expressions of four; next to symbols: 2 settings in [1, 4]); sizes in [0, 4000]; placeholders that are set when the annotation is written",
    "thorough": "all shapes of 1..2 elements and 3 families, histories of up to 4 settings",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "names shared between asta.dims and asta.symbols are outside the claim",
    "checks with isinstance (outside a decorated call) do not look at placeholders and are outside the claim",
]
VALIDATE = 20

# element -> (expression, value as (numerator, denominator))
EXPRS = {
    "A": lambda A, B, C=0, D=0: A, "B": lambda A, B, C=0, D=0: B, "s": lambda A, B, C=0, D=0: A + 1, "p": lambda A, B, C=0, D=0: A - 1, "d": lambda A, B, C=0, D=0: 2 * A,
    "a": lambda A, B, C=0, D=0: A + B, "m": lambda A, B, C=0, D=0: A - B, "t": lambda A, B, C=0, D=0: A * B, "q": lambda A, B, C=0, D=0: A ** 2, "n": lambda A, B, C=0, D=0: -A,
    "c": lambda A, B, C=0, D=0: 3 - A,
    "C": lambda A, B, C=0, D=0: C, "D": lambda A, B, C=0, D=0: D, "S": lambda A, B, C=0, D=0: A + B + C + D, "P": lambda A, B, C=0, D=0: A * B + C - D,
}
USES = {"A": "A", "B": "B", "s": "A", "p": "A", "d": "A", "a": "AB", "m": "AB", "t": "AB", "q": "A", "n": "A", "c": "A", "h": "A", "C": "C", "D": "D", "S": "ABCD", "P": "ABCD"}


def used(code):
    return sorted(set("".join(USES.get(c, "") for c in code)))


def elem(env, dims, c, i):
    if c in EXPRS:
        return EXPRS[c](*[getattr(dims, n) if n in USES[c] else 1 for n in "ABCD"])
    if c == "h":
        return dims.A / 2
    if c == "i":
        return env.int("p%d" % i, 0, HI)
    return -1 if c == "w" else E


def dim_fits(env, c, i, d, val, lits):
    """One element against one size, given the placeholders' values."""
    if c in "ABCD":
        return lor(land(val[c] == -1, d > 0), val[c] == d)
    if c in EXPRS:
        return EXPRS[c](*[val.get(n) for n in "ABCD"]) == d
    if c == "h":
        return val["A"] == 2 * d
    if c == "i":
        return lits[i] == d
    return d > 0


def fits(env, code, dims, val, lits):
    """Some placement of the (at most one) ellipsis."""
    if "." in code:
        k = code.index(".")
        n = len(dims) - (len(code) - 1)
        if n < 0:
            return False
        pairs = list(zip(code[:k], range(k), dims[:k])) + [("w", -1, d) for d in dims[k:k + n]]
        pairs += list(zip(code[k + 1:], range(k + 1, len(code)), dims[k + n:]))
    else:
        if len(code) != len(dims):
            return False
        pairs = list(zip(code, range(len(code)), dims))
    return land(*[dim_fits(env, c, i, d, val, lits) for c, i, d in pairs])


def history(fam, code, rank, where, steps, hi_dim):
    """Settings and calls in turn; ``where``: argument, return, list, union."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.dims as dims

        T = family_type(asta, fam)
        shape = [elem(env, dims, c, i) for i, c in enumerate(code)]
        lits = dict(enumerate(shape))
        item = tuple(shape) if len(shape) > 1 else shape[0]
        dt = env.pick("dtyped", [False, True]) if where == "arg" and steps == 1 else False
        t = T[(float,) + tuple(shape)] if dt else T[item]
        state = {}
        ran = []

        def body(*a):
            ran.append(1)
            return state["v"] if where in ("return", "two") else None

        ann = {"arg": {"x": t}, "return": {"return": t}, "list": {"x": List[t]}, "union": {"x": Optional[t]}, "tuple": {"x": Tuple[t, t]},
               "two": {"x": t, "return": t}}[where]
        fn = typed(asta, ann, body)
        val = {}
        for s in range(steps):
            if where != "union" and (s == 0 or steps > 2 and s == 1):
                what = [n for n in used(code) if env.bool("set%s%d" % (n, s))]
            else:
                what = used(code)
            for n in what:
                lo = 0 if "h" in code and fam == "tf" else -3
                val[n] = env.int("%s%d" % (n, s), lo, 12)
                setattr(dims, n, val[n])
            sizes = tuple(env.int("d%d_%d" % (s, j), 0, hi_dim) for j in range(rank))
            v = make_value(env, fam, sizes, "float64" if fam == "array" else "float32")
            state["v"] = v
            del ran[:]
            args = {"arg": (v,), "two": (v,), "return": (), "list": ([v],), "union": (v,), "tuple": ((v, v),)}[where]
            got = env.attempt(fn, *args)
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            if set(val) < set(used(code)):
                env.require("an unset placeholder raises", got.raised(TypeError))
                if where != "return":
                    env.require("before the function runs", not ran)
                env.witness("unset")
                continue
            ok = fits(env, code, sizes, val, lits)
            if "h" in code:
                ok = land(ok, val["A"] % 2 == 0)
            env.require("call %d uses the current values" % s, iff(got.returned, ok))
            env.witness("accept" if got.returned else "reject")
            for n in val:
                env.require("reading gives the value", getattr(dims, n) == val[n])

    return run


def mixed(fam):
    """With a symbol: A + X, and A next to X."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.dims as dims
        import asta.symbols as symbols

        T = family_type(asta, fam)
        X, A = symbols.X, dims.A
        which = env.pick("shape", [0, 1, 2])
        t = T[[(X + A, X), (X, A), (A * X, X)][which]]
        fn = typed(asta, {"x": t})
        a = env.int("A0", 1, 4)
        dims.A = a
        for s in range(2):
            if s == 1:
                a = env.int("A1", 1, 4)
                dims.A = a
            d = (env.int("d%d_0" % s, 1, HI), env.int("d%d_1" % s, 1, HI))
            got = env.attempt(fn, make_value(env, fam, d))
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            ok = [d[0] == d[1] + a, d[1] == a, d[0] == a * d[1]][which]
            env.require("placeholder substituted, symbol solved", iff(got.returned, ok))
            env.witness("accept" if got.returned else "reject")

    return run


def already_set(fam):
    """A placeholder that has a value when the annotation is written."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.dims as dims

        T = family_type(asta, fam)
        a, b = env.int("A", -1, 12), env.int("B", 0, 12)
        dims.A = a
        env.require("reading gives the value", dims.A == a)
        fn = typed(asta, {"x": T[dims.A, dims.B + 1]})
        dims.B = b
        d = (env.int("d0", 0, 20), env.int("d1", 0, 20))
        got = env.attempt(fn, make_value(env, fam, d))
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("means that number", iff(got.returned, land(lor(land(a == -1, d[0] > 0), a == d[0]), d[1] == b + 1)))
        env.witness("accept" if got.returned else "reject")

    return run


def invalid(env):
    """Setting something that is not an integer."""
    asta = load_for(env, "array", config=CONFIG)
    import asta.dims as dims

    T = asta.Array
    preset = env.bool("preset")
    fn = typed(asta, {"x": T[dims.A]})
    a = env.int("A", 0, 12)
    if preset:
        dims.A = a
    bad = env.pick("bad", [1.5, 2.0, "3", None, (3,), [3], 1j, b"1", {}, T])
    got = env.attempt(setattr, dims, "A", bad)
    env.require("raises TypeError", got.raised(TypeError))
    d = env.int("d", 0, 12)
    out = env.attempt(fn, env.array((d,)))
    if preset:
        env.require("still has its value", dims.A == a)
        env.require("and is used", iff(out.returned, a == d))
        env.witness("accept" if out.returned else "reject")
    else:
        env.require("still unset", out.raised(TypeError))
    env.require("others are not set", env.attempt(typed(asta, {"x": T[dims.B]}), env.array((d,))).raised(TypeError))


LONG = {"AAAAAA": [("arg", 2)], "ABCD": [("arg", 1), ("return", 1)], "S": [("arg", 2)], "ABCS": [("arg", 1)], "P": [("arg", 1), ("list", 1)], "B": [("arg", 4)], "DCBA.": [("arg", 1)]}


def scenarios(tier):
    out = []
    quick = tier == "quick"
    ones = [c for c in EXPRS if c not in "CDSP"] + ["h"]
    codes = ones + ["Ai", "iA", "AA", "AB", "As", "a.", ".A", "A.B", "wA", "Aw", "tA", "Ah", "BAa", "A.i", "dp"]
    codes = [c for c in codes if c not in LONG] + list(LONG)
    if not quick:
        codes += [x + y for x in ones + list("iw.") for y in ones + list("iw.") if used(x + y)]
        codes = list(dict.fromkeys(codes))
    for fam in FAMILIES:
        tf = fam == "tf"
        hi = 40 if tf else HI
        for code in codes:
            if quick and fam != "array" and code not in ("A", "s", "AB", ".A", "h", "m"):
                continue
            fixed = len(code.replace(".", ""))
            if code in LONG:
                for where, steps in LONG[code]:
                    out.append(Scenario("%s '%s' rank %d %s, %d calls" % (fam, code, fixed, where, steps), history(fam, code, fixed, where, steps, hi), tf=tf,
                                        witness=["accept", "reject", "unset"], budget=40))
                continue
            for extra in ((0, 1) if "." in code else (0,)):
                for where, steps in (("arg", 1), ("arg", 2), ("return", 2), ("list", 1), ("union", 2), ("tuple", 1), ("two", 1)) + \
                        ((("arg", 3),) if len(used(code)) == 1 and len(code) == 1 or not quick else ()) + ((("arg", 4),) if not quick else ()):
                    if quick and len(code) > 1 and (where, steps) not in (("arg", 1), ("arg", 2)) and code not in ("As", "A.B") or code == "BAa" and quick and steps > 1:
                        continue
                    wit = ["accept", "reject"] + (["unset"] if where != "union" else [])
                    out.append(Scenario("%s '%s' rank %d %s, %d calls" % (fam, code, fixed + extra, where, steps),
                                        history(fam, code, fixed + extra, where, steps, hi), tf=tf, witness=wit,
                                        budget=4 ** steps))
        out.append(Scenario("%s with symbols" % fam, mixed(fam), tf=tf, witness=["accept", "reject"], budget=8))
        out.append(Scenario("%s already set" % fam, already_set(fam), tf=tf, witness=["accept", "reject"]))
    out.append(Scenario("invalid values", invalid, witness=["accept", "reject"], budget=8))
    return out

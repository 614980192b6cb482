"""C08: symbolic sizes at isinstance."""
import itertools

from engine.scenario import SIZES, Scenario
from engine.ops import iff, implies, land, lor
from props.common import (
    Const, E, FAMILIES, Lin, as_subscript, family_type, lin_matches, load_for, make_value, subscript,
)

HI = SIZES
BOUNDS = {
    "quick": "all shapes of 1..2 elements and selected shapes of 3..7 elements over {X, Y, X+1, X-1, 2*X, X+Y, X-Y, integer literal, expression without symbols, -1, '...'}, in the longer ones up to 7 symbols and X+Y+Z, rank 0..7, sizes in [0, 4000]; nonlinear systems over X, Y (powers, products, quotients) with sizes in [0, 4]",
    "thorough": "all shapes of 1..3 elements and two ellipses over the same alphabet plus 3*X+2*Y and Z, rank 0..5, sizes in [0, 1000]; nonlinear systems with sizes in [0, 6]",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "sympy's solve is replaced by its contract (Gaussian elimination over solver terms) where the system is linear, and run for real on solver-chosen values otherwise",
    "between 'a positive integer solution exists' and 'no solution exists at all' either answer is allowed",
]
VALIDATE = 40

LIN = {
    "X": Lin(X=1), "Y": Lin(Y=1), "Z": Lin(Z=1), "s": Lin(1, X=1), "p": Lin(-1, X=1), "d": Lin(X=2),
    "a": Lin(X=1, Y=1), "m": Lin(X=1, Y=-1), "t": Lin(2, X=3, Y=2), "n": Lin(10, X=-1),
    "c": Const(4), "o": Const(0), "T": Lin(T=1), "U": Lin(U=1), "V": Lin(V=1), "W": Lin(W=1), "e": Lin(X=1, Y=1, Z=1),
}


def element(env, c, i):
    if c in LIN:
        return LIN[c]
    if c == "i":
        return env.int("p%d" % i, 0, HI)
    return -1 if c == "w" else E


def reject(fam, skel, rank, hi):
    """Accepted only if some placement of the pattern is solvable."""

    def run(env):
        asta = load_for(env, fam)
        import asta.symbols  # noqa: F811

        shape = tuple(element(env, c, i) for i, c in enumerate(skel))
        dims = tuple(env.int("d%d" % i, 0, hi) for i in range(rank))
        v = make_value(env, fam, dims)
        t = family_type(asta, fam)[subscript(as_subscript(shape, asta.symbols))]
        got = env.check(v, t)
        env.require("check does not raise", got.returned)
        if got.returned:
            env.require("rejected when nothing solves the system", implies(got.value, lin_matches(shape, dims)))
            env.witness("accept" if got.value else "reject")

    return run


def build(env, shape, vals, runs):
    dims = []
    k = 0
    for i, p in enumerate(shape):
        if p is E:
            dims += [env.int("run%d_%d" % (i, j), 1, HI) for j in range(runs[k])]
            k += 1
        elif isinstance(p, Lin):
            d = p.at(vals)
            env.assume(d >= 0)
            dims.append(d)
        elif isinstance(p, int) and p == -1:
            dims.append(env.int("any%d" % i, 1, HI))
        else:
            dims.append(p)
    return tuple(dims)


def accept(fam, skel, runs, hi):
    """Sizes computed from positive integers are accepted."""

    def run(env):
        asta = load_for(env, fam)
        import asta.symbols  # noqa: F811

        vals = {n: env.int(n, 1, hi) for n in "XYZTUVW"}
        shape = tuple(element(env, c, i) for i, c in enumerate(skel))
        dims = build(env, shape, vals, runs)
        v = make_value(env, fam, dims)
        t = family_type(asta, fam)[subscript(as_subscript(shape, asta.symbols))]
        got = env.check(v, t)
        env.require("check does not raise", got.returned)
        env.require("a solvable system is accepted", got.returned and got.value)
        env.witness("accept")

    return run


def history(fam, skels, hi):
    """Successive checks do not influence each other."""

    def run(env):
        asta = load_for(env, fam)
        import asta.symbols  # noqa: F811

        T = family_type(asta, fam)
        types = []
        for skel in skels:
            if skel not in [s for s, _t, _p in types]:
                shape = tuple(LIN[c] for c in skel)
                types.append((skel, T[subscript(as_subscript(shape, asta.symbols))], shape))
        for n, skel in enumerate(skels):
            t, shape = [(t, p) for s, t, p in types if s == skel][0]
            dims = tuple(env.int("d%d_%d" % (n, i), 1, hi) for i in range(len(skel)))
            got = env.check(make_value(env, fam, dims), t)
            env.require("check does not raise", got.returned)
            vals = {k: None for k in "XYZTUVW"}
            env.require("check %d stands alone" % n, implies(got.value, lin_matches(shape, dims)))
            # Bare symbols determine themselves: the answer is exact.
            if not set(skel) - set(vals):
                env.require("check %d is exact" % n, iff(got.value, lin_matches(shape, dims)))
            env.witness("accept" if got.value else "reject")

    return run


HISTORIES = [("X", "X", "X"), ("XX", "X"), ("XY", "XY"), ("XY", "YX", "XX"), ("XYZ", "XYZ"), ("XYZX", "XYZX"), ("TUVW", "TUVW"), ("XYZe", "XYZe"), ("XYZe", "XYZ", "eZYX"), ("XXs", "XXs"), ("TUVT", "TUVT")]


# Nonlinear systems: (name, shape as a function of X and Y, solvable over the
# complex numbers, sizes from values or None).
def sq(x):
    return x * x


NONLINEAR = [
    ("X**2", lambda X, Y: (X ** 2,), lambda a: True, lambda x, y: (x * x,)),
    ("X,X**2", lambda X, Y: (X, X ** 2), lambda a, b: b == a * a, lambda x, y: (x, x * x)),
    ("X**2,X", lambda X, Y: (X ** 2, X), lambda a, b: a == b * b, lambda x, y: (x * x, x)),
    ("X**2,X**2", lambda X, Y: (X ** 2, X ** 2), lambda a, b: a == b, lambda x, y: (x * x, x * x)),
    ("X*Y", lambda X, Y: (X * Y,), lambda a: True, lambda x, y: (x * y,)),
    ("X,X*Y", lambda X, Y: (X, X * Y), lambda a, b: lor(a != 0, b == 0), lambda x, y: (x, x * y)),
    ("X,Y,X*Y", lambda X, Y: (X, Y, X * Y), lambda a, b, c: c == a * b, lambda x, y: (x, y, x * y)),
    ("X*Y,X*Y", lambda X, Y: (X * Y, X * Y), lambda a, b: a == b, lambda x, y: (x * y, x * y)),
    ("X*Y,2*X*Y", lambda X, Y: (X * Y, 2 * X * Y), lambda a, b: b == 2 * a, lambda x, y: (x * y, 2 * x * y)),
    ("X*Y,X+Y", lambda X, Y: (X * Y, X + Y), lambda a, b: True, lambda x, y: (x * y, x + y)),
    ("X**2+Y,X,Y", lambda X, Y: (X ** 2 + Y, X, Y), lambda a, b, c: a == b * b + c, lambda x, y: (x * x + y, x, y)),
    ("X+1,X**2-1", lambda X, Y: (X + 1, X ** 2 - 1), lambda a, b: b == sq(a - 1) - 1, lambda x, y: (x + 1, x * x - 1)),
    ("(X+1)*(X-1),X", lambda X, Y: ((X + 1) * (X - 1), X), lambda a, b: a == (b + 1) * (b - 1), lambda x, y: ((x + 1) * (x - 1), x)),
    ("X*(Y+1),X,Y", lambda X, Y: (X * (Y + 1), X, Y), lambda a, b, c: a == b * (c + 1), lambda x, y: (x * (y + 1), x, y)),
    ("X/2,X", lambda X, Y: (X / 2, X), lambda a, b: 2 * a == b, lambda x, y: (x, 2 * x)),
    ("X/2+1,X", lambda X, Y: (X / 2 + 1, X), lambda a, b: 2 * a == b + 2, lambda x, y: (x + 1, 2 * x)),
    ("X/Y,X,Y", lambda X, Y: (X / Y, X, Y), lambda a, b, c: land(c != 0, a * c == b), lambda x, y: (x, x * y, y)),
    ("X**3,X", lambda X, Y: (X ** 3, X), lambda a, b: a == b * b * b, lambda x, y: (x * x * x, x)),
    ("2**X,X", lambda X, Y: (2 ** X, X), None, lambda x, y: (None, x)),
    ("..., X**2,X", lambda X, Y: (E, X ** 2, X), None, lambda x, y: (x * x, x)),
]


def nonlinear(fam, entry, hi):
    name, shape, oracle, _make = entry

    def run(env):
        asta = load_for(env, fam)
        import asta.symbols  # noqa: F811

        X, Y = asta.symbols.X, asta.symbols.Y
        s = shape(X, Y)
        n = len([p for p in s if p is not E])
        dims = tuple(env.int("d%d" % i, 0, hi) for i in range(n))
        got = env.check(make_value(env, fam, dims), family_type(asta, fam)[subscript(s)])
        env.require("check does not raise", got.returned)
        if got.returned:
            if oracle is not None:
                env.require("accepted only if solvable", implies(got.value, oracle(*dims)))
            elif s[0] is E:
                env.require("accepted only if solvable", implies(got.value, dims[0] == dims[1] * dims[1]))
            else:
                env.require("accepted only if solvable", implies(got.value, lor(*[land(dims[1] == k, dims[0] == 2 ** k) for k in range(hi + 1)])))
            env.witness("accept" if got.value else "reject")

    return run


def nonlinear_accept(fam, entry, hi):
    name, shape, _oracle, make = entry

    def run(env):
        asta = load_for(env, fam)
        import asta.symbols  # noqa: F811

        X, Y = asta.symbols.X, asta.symbols.Y
        x, y = env.int("X", 1, hi), env.int("Y", 1, hi)
        dims = make(x, y)
        if dims[0] is None:
            x = env.pick("exp", list(range(1, hi + 1)))
            dims = (2 ** x, x)
        s = shape(X, Y)
        got = env.check(make_value(env, fam, dims), family_type(asta, fam)[subscript(s)])
        env.require("a solvable system is accepted", got.returned and got.value)
        env.witness("accept")

    return run


ALPHA = "XYspdam"
THREE = ["XXX", "XYX", "XYa", "aXY", "maX", "amX", "X.X", ".XX", "XX.", ".sX", "Xs.", "X.s", "iXX", "XiX", "wXX", "XwX",
         "XYm", "dXs", "naX", "w.X", ".Xi", "i.X", "X.Y", "pXs", "X.d", "d.X", "cXd", "c.X"]
LONG = ["XXXXXX", "XYXYX", "XYZXYZ", "TUVWXYZ", "TUVWUX", "TUVUVT", ".XYXY", "XYX.YX", "XXX.", "iXiXiX", "wXwXw", "XXspdX", "XYZe", "eZYX", "iii.X", "TUV.TU",
        "TUVWW", "TUVWXX", "XYTUVV", "TTUVWX", "WVUTT", "TUUVWX", "XYZTUVV", "TUVWT", "UVWXYZX", "aXYZTT", "ZZYXWV", ".TUVWW", "TUVWXs"]
FOUR = ["XYXY", "X.Y.", ".X.X", "X.X.", ".X.Y", "s.XY", "X.sX", "aXYm", "iX.X", "XwX.", "..XX"[1:] + "s", "X.wX"]


def runs_for(skel, extra):
    k = skel.count(".")
    return [r for r in itertools.product(range(extra + 1), repeat=k) if sum(r) <= extra]


def scenarios(tier):
    out = []
    quick = tier == "quick"
    hi = HI if quick else 1000
    skels = list(ALPHA) + ["n"] + [a + b for a in ALPHA + ".iw" for b in ALPHA + ".iw" if a + b != ".." and set(a + b) - set(".iw")]
    skels += ["c", "o", "cX", "Xc", "oX", "Xo", ".c", "c.", "cc", "co", "oo", "ic", "wc", "dc", "cs"]
    skels += THREE + FOUR + LONG
    if not quick:
        skels += ["".join(p) for p in itertools.product("XYsam.w", repeat=3) if ".." not in "".join(p) and set(p) - set(".w")]
        skels += ["t", "tX", "tXY", "ZXY", "XYZ", "aZX", ".Z.t"]
        skels = list(dict.fromkeys(skels))
    for fam in FAMILIES:
        tf = fam == "tf"
        h = min(hi, 40) if tf else hi
        for skel in skels:
            if quick and fam != "array" and len(skel) > 1 and skel not in THREE[::3] + FOUR[::3] + LONG[::3]:
                continue
            fixed = len(skel.replace(".", ""))
            extra = (2 if len(skel) < 4 else 1) if "." in skel else 0
            ranks = range(fixed, fixed + extra + 1)
            for rank in ranks:
                wit = ["accept"]
                out.append(Scenario("%s '%s' rank %d" % (fam, skel, rank), reject(fam, skel, rank, h), tf=tf,
                                    witness=wit, budget=4 * rank))
            for rank in ({fixed - 1, fixed + extra + 1} if "." not in skel else {fixed - 1}):
                if rank >= 0:
                    out.append(Scenario("%s '%s' rank %d" % (fam, skel, rank), reject(fam, skel, rank, h), tf=tf,
                                        witness=["reject"], budget=1))
            for runs in runs_for(skel, extra):
                out.append(Scenario("%s '%s' constructed runs %s" % (fam, skel, runs),
                                    accept(fam, skel, runs, min(h, 10 if tf else h)), tf=tf, witness=["accept"], budget=2))
        for h2 in HISTORIES:
            if not quick or fam == "array" or len("".join(h2)) > 5:
                out.append(Scenario("%s successive checks %s" % (fam, " ".join(h2)), history(fam, h2, h), tf=tf, witness=["accept"], budget=20))
        for entry in NONLINEAR:
            if quick and fam != "array" and entry[0] not in ("X,X**2", "X*Y,X*Y", "X/2,X", "X,Y,X*Y"):
                continue
            n = entry[3](1, 1)
            small = (4 if len(n) < 3 else 3) if quick else (6 if len(n) < 3 else 4)
            out.append(Scenario("%s nonlinear %s" % (fam, entry[0]), nonlinear(fam, entry, small), tf=tf,
                                witness=["accept"], budget=60))
            out.append(Scenario("%s nonlinear %s constructed" % (fam, entry[0]), nonlinear_accept(fam, entry, small), tf=tf,
                                witness=["accept"], budget=40))
    return out

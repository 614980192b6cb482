"""C09: symbols across the arguments and the return value of a call."""
import itertools

from engine.scenario import SIZES, Scenario
from engine.ops import iff, implies, land, lnot, lor
from props.common import (
    CONFIG, E, FAMILIES, Lin, as_subscript, default_dtype, dim_ok, family_type, load_for, make_value,
    placements, solvable, subscript, typed,
)

HI = SIZES
BOUNDS = {
    "quick": "up to 3 arguments and a return value, 51 systems of annotations over X, Y, X+1, 2*X, X+Y, X-Y, and 11 with up to 8 arguments, rank 5 or 6 symbols, with literals, -1 and at most one '...' per shape, sizes in [0, 4000]; arrays, tensors and mixtures of them; histories of 2 to 4 calls (of one or two functions, with failing calls and raising bodies), calls nested in calls, and calls overlapped by a call in another thread, switched at every entry of a function of the package (and back at the end or at one of two fixed points)",
    "thorough": "the same with all pairs of shapes of 1..2 elements and histories of 3 calls, all families and every 5th point to switch back for overlapping calls",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "sympy's solve is replaced by its contract on linear systems",
    "between 'a positive integer solution exists' and 'no solution exists at all' either answer is allowed",
]
VALIDATE = 40

LIN = {
    "X": Lin(X=1), "Y": Lin(Y=1), "s": Lin(1, X=1), "d": Lin(X=2), "a": Lin(X=1, Y=1),
    "m": Lin(X=1, Y=-1), "T": Lin(T=1), "U": Lin(U=1), "V": Lin(V=1), "W": Lin(W=1), "Z": Lin(Z=1),
}


def shape_of(env, code, tag):
    return tuple(
        LIN[c] if c in LIN else env.int("%s%d" % (tag, i), 0, HI) if c == "i" else -1 if c == "w" else E
        for i, c in enumerate(code)
    )


def joint(shapes, dims):
    """Solvable together (every shape has at most one ellipsis, so that the
    sizes say where it goes)."""
    out = True
    eqs = []
    for s, d in zip(shapes, dims):
        ps = placements(s, d)
        if not ps:
            return False
        (cond, e), = ps
        out = land(out, cond)
        eqs += e
    return land(out, solvable(eqs))


def ranks_of(codes, extra):
    return [len(c.replace(".", "")) + (extra if "." in c else 0) for c in codes]


def fams_of(fam, n):
    return [fam] * n if fam != "mixed" else [FAMILIES[i % 3] for i in range(n)]


def call(fam, codes, ret, ranks, hi):
    """One call: codes of the argument shapes, ``ret`` of the return's."""
    codes = list(codes) + ([ret] if ret is not None else [])
    fams = fams_of(fam, len(codes))

    def run(env):
        asta = load_for(env, *set(fams), config=CONFIG)
        import asta.symbols  # noqa: F811

        shapes = [shape_of(env, c, "p%d_" % i) for i, c in enumerate(codes)]
        dims = [tuple(env.int("d%d_%d" % (i, j), 0, hi) for j in range(r)) for i, r in enumerate(ranks)]
        vals = [make_value(env, f, d) for f, d in zip(fams, dims)]
        anns = [family_type(asta, f)[subscript(as_subscript(s, asta.symbols))] for f, s in zip(fams, shapes)]
        ran = []
        n = len(codes) - (ret is not None)

        def body(*args):
            ran.append(args)
            return vals[n] if ret is not None else None

        ann = {"x%d" % i: a for i, a in enumerate(anns[:n])}
        if ret is not None:
            ann["return"] = anns[n]
        got = env.attempt(typed(asta, ann, body), *vals[:n])
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        args_ok = joint(shapes[:n], dims[:n])
        env.require("no run on unsolvable arguments", implies(len(ran) > 0, args_ok))
        env.require("rejected when nothing satisfies all shapes", implies(got.returned, joint(shapes, dims)))
        env.require("runs at most once", len(ran) <= 1)
        env.require("returns only after running", not got.returned or len(ran) == 1)
        env.witness("accept" if got.returned else "ran" if ran else "reject")

    return run


def sizes(env, shape, vals, extra, tag):
    out = []
    for i, p in enumerate(shape):
        if p is E:
            out += [env.int("%srun%d" % (tag, j), 1, HI) for j in range(extra)]
        elif isinstance(p, Lin):
            v = p.at(vals)
            env.assume(v >= 0)
            out.append(v)
        elif isinstance(p, int) and p == -1:
            out.append(env.int("%sany%d" % (tag, i), 1, HI))
        else:
            out.append(p)
    return tuple(out)


def constructed(fam, codes, ret, extra, hi):
    codes = list(codes) + ([ret] if ret is not None else [])
    fams = fams_of(fam, len(codes))

    def run(env):
        asta = load_for(env, *set(fams), config=CONFIG)
        import asta.symbols  # noqa: F811

        vals = {n: env.int(n, 1, hi) for n in "XYTUVWZ"}
        shapes = [shape_of(env, c, "p%d_" % i) for i, c in enumerate(codes)]
        dims = [sizes(env, s, vals, extra, "d%d_" % i) for i, s in enumerate(shapes)]
        objs = [make_value(env, f, d) for f, d in zip(fams, dims)]
        anns = [family_type(asta, f)[subscript(as_subscript(s, asta.symbols))] for f, s in zip(fams, shapes)]
        n = len(codes) - (ret is not None)
        ran = []

        def body(*args):
            ran.append(args)
            return objs[n] if ret is not None else None

        ann = {"x%d" % i: a for i, a in enumerate(anns[:n])}
        if ret is not None:
            ann["return"] = anns[n]
        got = env.attempt(typed(asta, ann, body), *objs[:n])
        env.require("accepted", got.returned)
        env.require("ran once", len(ran) == 1)
        env.witness("accept")

    return run


def history(fam, codes, calls, raising):
    """Calls of two functions one after the other; each is judged alone."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.symbols  # noqa: F811

        T = family_type(asta, fam)
        shapes = [shape_of(env, c, "p%d_" % i) for i, c in enumerate(codes)]
        anns = [T[subscript(as_subscript(s, asta.symbols))] for s in shapes]

        class Boom(Exception):
            pass

        def body(*a):
            if raising and state["call"] == 0:
                raise Boom()
            return state["ret"]

        state = {}
        one = typed(asta, {"x": anns[0], "y": anns[1], "return": anns[2]}, body)
        two = typed(asta, {"x": anns[1], "return": anns[0]}, body)
        for c in range(calls):
            which = env.pick("f%d" % c, [0, 1]) if c or not raising else 0
            order = [0, 1, 2] if which == 0 else [1, 0]
            dims = [tuple(env.int("c%d_%d_%d" % (c, i, j), 2 if "s" in codes[i] else 1, 9) for j in range(len(codes[i].replace(".", "")))) for i in order]
            vals = [make_value(env, fam, d) for d in dims]
            state.update(call=c, ret=vals[-1])
            got = env.attempt(one if which == 0 else two, *vals[:-1])
            ok = joint([shapes[i] for i in order], dims)
            if got.raised(Boom):
                env.require("only the body raises", raising and c == 0)
                env.witness("raised")
                continue
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            if raising and c == 0:
                env.require("only the arguments are wrong", lnot(joint([shapes[0], shapes[1]], dims[:2])))
            else:
                env.require("call %d is judged alone" % c, iff(got.returned, ok))
            env.witness("accept" if got.returned else "reject")

    return run


def nested(fam, outer, inner):
    """A decorated function that calls a decorated function (or itself)."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.symbols  # noqa: F811

        T = family_type(asta, fam)
        so, si = shape_of(env, outer, "p"), shape_of(env, inner, "q")
        to, ti = [T[subscript(as_subscript(s, asta.symbols))] for s in (so, si)]
        d = [tuple(env.int("d%d_%d" % (k, i), 1, 20) for i in range(len(c))) for k, c in enumerate((outer, outer, inner))]
        a, b, c = [make_value(env, fam, x) for x in d]
        recursive = outer == inner and env.bool("recursive")
        inner_fn = typed(asta, {"z": ti})
        depth = []
        seen = []

        def body(x):
            if depth:
                return x
            depth.append(1)
            r = env.attempt(inner_fn if not recursive else fn, c)
            seen.append(r)
            return b

        fn = typed(asta, {"x": to, "return": to}, body)
        got = env.attempt(fn, a)
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("outer call", iff(got.returned, joint([so, so], [d[0], d[1]])))
        if seen:
            env.require("inner call on its own", iff(seen[0].returned, joint([si], [d[2]])))
            env.witness("inner " + ("accept" if seen[0].returned else "reject"))
        env.witness("accept" if got.returned else "reject")

    return run


def overlapping(fam, one, two, at, pauses):
    """Two calls at the same time, in two threads: every way to interrupt the
    first with the whole of the second, or with a part of it."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.symbols  # noqa: F811

        T = family_type(asta, fam)
        k = env.pick("switch", range(*at))
        pause = env.pick("back", pauses)
        same = one == two and "i" not in "".join(one) and env.bool("same")
        fns, vals, want, outs = [], [], [], {}
        for j, codes in enumerate((one, two)):
            shapes = [shape_of(env, c, "p%d%d_" % (j, i)) for i, c in enumerate(codes)]
            dims = [tuple(env.int("d%d%d%d" % (j, i, m), 1, 8) for m in range(len(c))) for i, c in enumerate(codes)]
            anns = [T[subscript(as_subscript(s, asta.symbols))] for s in shapes]
            fns.append(fns[0] if same and j else typed(asta, {"x%d" % i: a for i, a in enumerate(anns)}))
            vals.append([make_value(env, fam, d) for d in dims])
            want.append(joint(shapes, dims))

        def other():
            outs[1] = env.attempt(fns[1], *vals[1])

        outs[0] = env.overlapped(k, pause, other, fns[0], *vals[0])
        for j in (0, 1):
            env.require("returns or raises TypeError", outs[j].returned or outs[j].raised(TypeError))
            env.require("accepted exactly when its own arguments agree", iff(outs[j].returned, want[j]))
            env.witness("accept" if outs[j].returned else "reject")

    return run


# (argument shapes, return shape)
SYSTEMS = [
    (["X"], "X"), (["X"], "s"), (["s"], "X"), (["d"], "X"), (["X"], "d"), (["XX"], None), (["XY"], "YX"), (["XY"], "a"),
    (["a"], "m"), (["XY"], "am"), (["X", "X"], None), (["X", "s"], None), (["s", "X"], None), (["d", "X"], None),
    (["X", "Y"], "a"), (["XY", "YX"], None), (["XY", "XY"], "XX"), (["X", "Y", "a"], None), (["a", "X", "Y"], None),
    (["a", "m"], None), (["a", "m"], "X"), (["XX", "X"], None), (["iX", "X"], None), (["Xi", "iX"], "X"), (["wX", "X"], "Xw"),
    ([".X", "X"], None), (["X.", ".X"], None), (["X", ".X"], "X."), (["X.Y", "XY"], None), ([".", "X"], "X."), (["X"], "X.X"),
    (["i", "X"], "iX"), (["X", "X", "X"], None), (["X", "Y"], "XY"), (["XY", "Y"], "X"), (["s", "s"], "d"), (["d", "d"], None),
    (["w", "X"], "w"), (["X", "i"], "i"), (["X.i", "X"], None), ([], "X"), ([], "XX"), ([], "Xs"),
]

SYSTEMS += [
    (["X", "a"], "Y"), (["a", "Y"], "X"), (["XY", "a"], "m"), (["a", "X"], "Y"), (["s", "a"], "Y"), (["X", "m"], "Y"), (["XT", "a", "YU"], "TU"), (["a", "m", "d"], "Y"),
    (["X"] * 6, "X"), (["X", "Y", "XY", "YX", "a"], "XY"), (["T", "U", "V", "W", "X", "Y"], "TY"), (["TU", "UV", "VW", "WX"], "XT"),
    (["X", "i", "w", ".", "Y", "X"], "Y"), (["XXXXX"], "X"), (["X", "XXXX"], None), (["iiiiX"], "X"), (["XYX", "YXY"], "XYXY"), (["X"] * 8, None),
    (["X.", "Y.", ".X", ".Y"], "X.Y"),
]
OVERLAPS = [(["X", "X"], ["X", "X"]), (["X"], ["XX"]), (["X", "s"], ["i", "X"]), (["XY"], ["Y", "X"]), (["s", "X"], ["X"])]


def scenarios(tier):
    out = []
    quick = tier == "quick"
    hi = HI
    seen = set()
    systems = list(SYSTEMS)
    if not quick:
        small = [a + b for a in "XYsda." for b in [""] + list("XYs.")]
        small = [s for s in small if s.count(".") <= 1 and s != "."]
        systems += [([a, b], None) for a in small for b in small] + [([a], b) for a in small for b in small]
    unique = []
    for entry in systems:
        if entry not in unique:
            unique.append(entry)
    for k, (codes, ret) in enumerate(unique):
        fams = (["array"] + (["mixed"] if k % 2 == 0 and len(codes) > 1 else []) + (["torch"] if k % 5 == 0 else [])
                + (["tf"] if k % 5 == 1 else [])) if quick or k >= len(SYSTEMS) else list(FAMILIES) + ["mixed"]
        for fam in fams:
            tf = fam in ("tf", "mixed")
            alls = codes + ([ret] if ret is not None else [])
            name = "%s (%s) -> %s" % (fam, ", ".join(codes), ret)
            h = min(hi, 40) if tf else hi
            for extra in (0, 1) if any("." in c for c in alls) else (0,):
                base = ranks_of(alls, extra)
                deviating = [base] + ([[r + (1 if j == i else 0) for j, r in enumerate(base)] for i in range(len(base))]
                                      if extra == 0 and (not quick or k % 4 == 0) else [])
                for ranks in deviating:
                    if (name, tuple(ranks)) in seen:
                        continue
                    seen.add((name, tuple(ranks)))
                    fits = ranks == base or all("." in c or r == b for c, r, b in zip(alls, ranks, base))
                    out.append(Scenario("%s ranks %s" % (name, ranks), call(fam, codes, ret, ranks, h), tf=tf,
                                        witness=["accept"] if fits else [], budget=3))
                out.append(Scenario("%s constructed +%d" % (name, extra), constructed(fam, codes, ret, extra, 12), tf=tf,
                                    witness=["accept"], budget=2))
    for fam in FAMILIES:
        hist = [["X", "X", "X"], ["X", "Y", "XY"], ["XY", "X", "Y"], ["s", "X", "X"], ["iX", "X", "w"], ["X", "Y", "a"]]
        for codes in hist if fam == "array" or not quick else hist[:2]:
            for raising in (False, True):
                wit = ["accept", "reject"] + (["raised"] if raising else [])
                out.append(Scenario("%s history over %s%s" % (fam, codes, " raising" if raising else ""),
                                    history(fam, codes, 2 if quick else 3, raising), tf=fam == "tf", witness=wit, budget=30))
        if fam == "array" or not quick:
            for codes, calls in ((["X", "X", "X"], 4), (["X", "Y", "XY"], 3), (["s", "X", "i"], 3)):
                out.append(Scenario("%s history of %d over %s" % (fam, calls, codes), history(fam, codes, calls, False), tf=fam == "tf",
                                    witness=["accept", "reject"], budget=60))
        for o, i in (("X", "X"), ("XX", "XX"), ("X", "XX"), ("XY", "YX"), ("XX", "X")):
            if fam != "array" and quick and o != "X":
                continue
            out.append(Scenario("%s %s calls %s" % (fam, o, i), nested(fam, o, i), tf=fam == "tf",
                                witness=["accept", "reject", "inner accept"], budget=12))
    for fam in FAMILIES if not quick else ("array",):
        for one, two in OVERLAPS if not quick else OVERLAPS[:3]:
            for lo in range(0, 120, 5):
                out.append(Scenario("%s %s overlapped by %s at %d.." % (fam, one, two, lo),
                                    overlapping(fam, one, two, (lo, lo + 5), [500, 45, 80] if quick else [500, *range(5, 120, 5)]),
                                    tf=fam == "tf", witness=["accept", "reject"], budget=4))
    return out

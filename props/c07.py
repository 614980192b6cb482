"""C07: keyword attributes."""
from engine.scenario import SIZES, Scenario
from props.common import (
    CONFIG, E, FAMILIES, Lin, as_subscript, default_dtype, family_type, lin_matches, load_for,
    make_value, shape_matches, solvable, typed,
)
from engine.ops import iff, implies, land

HI = SIZES
BOUNDS = {
    "quick": "up to 2 literal attributes (integers in [-5, 4000], strings, None, lists, arrays), 4 and 7 integers, or up to 4 linear equations over X, Y with up to 4 sizes in [0, 4000], at isinstance and in decorated calls with one and two arguments, for the three families",
    "thorough": "the same with three sizes and more systems",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "attributes are plain instance attributes of an ndarray subclass / tensor object",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "sympy's solve is replaced by its contract on linear systems",
]
X, Y = Lin(X=1), Lin(Y=1)
X1, X2, XY, XmY = Lin(1, X=1), Lin(X=2), Lin(X=1, Y=1), Lin(X=1, Y=-1)


def literal(fam, shape_code, dtype):
    def run(env):
        asta = load_for(env, fam)
        T = family_type(asta, fam)
        have = {"tag": env.int("tag", -5, HI)}
        if env.bool("has_two"):
            have["two"] = env.int("two", -5, HI)
        dims = (env.int("d0", 0, HI),)
        v = make_value(env, fam, dims, attrs=have)
        want = {"tag": env.int("w_tag", -5, HI)}
        if env.pick("wants_two", [False, True]):
            want["two"] = env.int("w_two", -5, HI)
        shape = {"n": None, "i": (env.int("p0", -1, HI),), ".i": (E, env.int("p1", -1, HI))}[shape_code]
        item = []
        dt = None
        if dtype:
            dt = env.pick("dt", ["float32", "float64"])
            item.append(getattr({"array": __import__("numpy"), "torch": env.torch, "tf": env.tf}[fam], dt))
        item += list(shape or ()) + [want]
        t = T[item[0]] if len(item) == 1 else T[tuple(item)]
        got = env.check(v, t)
        env.require("check does not raise", got.returned)
        ok = land(
            dt is None or dt == default_dtype(fam),
            shape_matches(shape, dims),
            *[k in have and have[k] == want[k] for k in want],
        )
        if got.returned:
            env.witness("accept" if got.value else "reject")
            env.require("dtype, shape and every attribute", iff(got.value, ok))
        rep = env.attempt(lambda: repr(t))
        env.require("can be printed", rep.returned)

    return run


def kinds(fam):
    """Attributes that are not integers."""

    def run(env):
        asta = load_for(env, fam)
        T = family_type(asta, fam)
        pool = ["cpu", "cuda", None, [1], (1, 2), 1.5, True]
        a = env.pick("have", pool)
        b = env.pick("want", pool + [X, X1])
        v = make_value(env, fam, (env.int("d0", 0, HI),), attrs={"tag": a})
        sym = isinstance(b, Lin)
        import asta.symbols  # noqa: F811

        t = T[{"tag": b.expr(asta.symbols) if sym else b}]
        got = env.check(v, t)
        env.require("check does not raise", got.returned)
        if not got.returned:
            return
        if sym:
            if not isinstance(a, (int, float)):
                env.require("an equation needs a number", not got.value)
        else:
            env.require("attribute equals the value", iff(got.value, a == b))
        miss = env.check(v, T[{"other": b.expr(asta.symbols) if sym else b}])
        env.require("a missing attribute never matches", miss.returned and not miss.value)
        env.witness("accept" if got.value else "reject")

    return run


def alike(fam, call):
    """Values of different types that print alike, equal ones of different types."""
    pairs = {
        "text for a number": lambda k: (str(k), k), "number for a text": lambda k: (k, str(k)), "float": lambda k: (k, float(k)), "text of a float": lambda k: ("%s.0" % k, float(k)),
        "None": lambda k: ("None", None), "text None": lambda k: (None, "None"), "True": lambda k: ("True", True), "list": lambda k: ("[1]", [1]), "tuple": lambda k: ([1], (1,)),
        "case": lambda k: ("CPU", "cpu"), "space": lambda k: ("cpu ", "cpu"), "empty": lambda k: ("", None), "zero": lambda k: (0, None), "false": lambda k: (0, ""), "bytes": lambda k: (b"cpu", "cpu"),
        "same": lambda k: ("cpu", "cpu"), "same list": lambda k: ([1, 2], [1, 2]), "prefix": lambda k: ("cuda:1", "cuda"), "longer": lambda k: ([1, 2], [1]),
    }

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        T = family_type(asta, fam)
        key = env.pick("pair", sorted(pairs))
        have, want = pairs[key](env.pick("k", [0, 3, 12]))
        tag, wtag = env.int("tag", -5, HI), env.int("w_tag", -5, HI)
        v = make_value(env, fam, (env.int("d0", 0, HI),), attrs={"what": have, "tag": tag})
        t = T[{"what": want, "tag": wtag}]
        if call:
            got = env.attempt(typed(asta, {"x": t}), v)
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            accepted = got.returned
        else:
            got = env.check(v, t)
            env.require("check does not raise", got.returned)
            accepted = got.value
        env.require("both attributes are equal", iff(accepted, land(have == want, tag == wtag)))
        env.witness("accept" if accepted else "reject")

    return run


def arrays(fam, call):
    """Attributes that are arrays, as ``base`` and ``T`` of every array are."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import numpy as np

        T = family_type(asta, fam)
        pool = {
            "none": lambda: None, "number": lambda: 3, "text": lambda: "cpu", "zeros": lambda: np.zeros(3), "others": lambda: np.array([0.0, 0.0, 1.0]),
            "longer": lambda: np.zeros(4), "row": lambda: np.zeros((1, 3)), "empty": lambda: np.zeros(0), "no rows": lambda: np.zeros((0, 3)),
        }
        have, want = env.pick("have", sorted(pool)), env.pick("want", sorted(pool))
        tag, wtag = env.int("tag", -5, HI), env.int("w_tag", -5, HI)
        v = make_value(env, fam, (env.int("d0", 0, HI),), attrs={"what": pool[have](), "tag": tag})
        t = T[{"what": pool[want](), "tag": wtag}]
        if call:
            got = env.attempt(typed(asta, {"x": t}), v)
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            accepted = got.returned
        else:
            got = env.check(v, t)
            env.require("check does not raise", got.returned)
            accepted = got.value
        if env.pick("printed", [False, True]):
            rep = env.attempt(lambda: repr(t))
            env.require("can be printed", rep.returned)
        # The values of the pool differ from one another.
        env.require("both attributes are equal", iff(accepted, land(have == want, tag == wtag)))
        env.witness("accept" if accepted else "reject")

    return run


def many(fam, n, missing, call):
    """Several literal attributes, each of which may be the wrong one."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        T = family_type(asta, fam)
        names = ["attr%d" % k for k in range(n)]
        have = {k: env.int("h_" + k, -5, HI) for k in names}
        want = {k: env.int("w_" + k, -5, HI) for k in names}
        ok = land(*[have[k] == want[k] for k in names])
        if missing is not None:
            del have[names[missing]]
            ok = False
        d, p = env.int("d", 0, HI), env.int("p", 0, HI)
        v = make_value(env, fam, (d,), attrs=have)
        t = T[p, want]
        if call:
            got = env.attempt(typed(asta, {"x": t}), v)
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            accepted = got.returned
        else:
            got = env.check(v, t)
            env.require("check does not raise", got.returned)
            accepted = got.value
        env.require("every attribute counts", iff(accepted, land(ok, d == p)))
        env.witness("accept" if accepted else "reject")

    return run


SYSTEMS = [
    ("none | a=X b=Y c=X+Y d=X-Y", None, {"a": X, "b": Y, "c": XY, "d": XmY}),
    ("X,Y | a=X b=Y c=X+Y", [X, Y], {"a": X, "b": Y, "c": XY}),
    ("X | a=X b=7 c=X d=X", [X], {"a": X, "b": 7, "c": X, "d": X}),
    ("-1,X,5,Y | a=Y b=X", [-1, X, 5, Y], {"a": Y, "b": X}),
    ("X | tag=X", [X], {"tag": X}),
    ("X | tag=X+1", [X], {"tag": X1}),
    ("X+1 | tag=2X", [X1], {"tag": X2}),
    ("X,Y | tag=X+Y", [X, Y], {"tag": XY}),
    ("X,Y | tag=X-Y", [X, Y], {"tag": XmY}),
    ("X+Y | tag=X-Y", [XY], {"tag": XmY}),
    ("none | tag=X two=X", None, {"tag": X, "two": X}),
    ("none | tag=X two=2X", None, {"tag": X, "two": X2}),
    ("5,X | tag=X two=3", [5, X], {"tag": X, "two": 3}),
    ("-1,X | tag=X", [-1, X], {"tag": X}),
    ("...,X | tag=X", [E, X], {"tag": X}),
    ("X,... | tag=X+1", [X, E], {"tag": X1}),
    ("X,X | tag=X", [X, X], {"tag": X}),
    ("X+Y | tag=X two=Y", [XY], {"tag": X, "two": Y}),
]


def system(fam, shape, attrs, rank, how, hi):
    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.symbols  # noqa: F811

        T = family_type(asta, fam)
        dims = tuple(env.int("d%d" % i, 0, hi) for i in range(rank))
        have = {k: env.int(k, -5, hi) for k in attrs}
        v = make_value(env, fam, dims, attrs=have)
        want = {k: a.expr(asta.symbols) if isinstance(a, Lin) else a for k, a in attrs.items()}
        item = list(as_subscript(shape or (), asta.symbols)) + [want]
        t = T[item[0]] if len(item) == 1 else T[tuple(item)]
        lits = land(*[have[k] == a for k, a in attrs.items() if not isinstance(a, Lin)])
        eqs = [(a, have[k]) for k, a in attrs.items() if isinstance(a, Lin)]
        if how == "isinstance":
            ok = land(lits, lin_matches(shape, dims, eqs) if shape is not None else solvable(eqs))
            got = env.check(v, t)
            env.require("check does not raise", got.returned)
            accepted = got.value
        elif how == "call":
            ok = land(lits, lin_matches(shape, dims, eqs) if shape is not None else solvable(eqs))
            got = env.attempt(typed(asta, {"x": t}), v)
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            accepted = got.returned
        else:
            # The attributes are on one argument, the shape on another.
            w = make_value(env, fam, dims)
            other = T[tuple(as_subscript(shape or (E,), asta.symbols))]
            ok = land(lits, lin_matches(shape or (E,), dims, eqs))
            args = (v, w) if how == "attrs first" else (w, v)
            anns = (T[want], other) if how == "attrs first" else (other, T[want])
            got = env.attempt(typed(asta, {"x": anns[0], "y": anns[1]}), *args)
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            accepted = got.returned
        env.witness("accept" if accepted else "reject")
        # Linear systems over the rationals: lenient solutions are allowed,
        # so only positive integral ones must be accepted.
        env.require("rejected when nothing solves the system", implies(accepted, ok))

    return run


def constructed(fam, shape, attrs, rank, how, hi):
    """Values computed from positive integers for the symbols."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.symbols  # noqa: F811

        T = family_type(asta, fam)
        vals = {"X": env.int("X", 1, hi), "Y": env.int("Y", 1, hi)}
        extra = rank - len([p for p in shape or () if p is not E])
        dims = []
        for i, p in enumerate(shape or (E,)):
            if p is E:
                dims += [env.int("run%d" % k, 1, hi) for k in range(extra)]
            elif isinstance(p, Lin):
                dims.append(p.at(vals))
            else:
                dims.append(env.int("any", 1, hi) if p == -1 else p)
        have = {k: a.at(vals) if isinstance(a, Lin) else a for k, a in attrs.items()}
        v = make_value(env, fam, tuple(dims), attrs=have)
        want = {k: a.expr(asta.symbols) if isinstance(a, Lin) else a for k, a in attrs.items()}
        item = list(as_subscript(shape or (), asta.symbols)) + [want]
        t = T[item[0]] if len(item) == 1 else T[tuple(item)]
        if how == "isinstance":
            got = env.check(v, t)
            env.require("accepted", got.returned and got.value)
        elif how == "call":
            got = env.attempt(typed(asta, {"x": t}), v)
            env.require("accepted", got.returned)
        else:
            w = make_value(env, fam, tuple(dims))
            other = T[tuple(as_subscript(shape or (E,), asta.symbols))]
            args = (v, w) if how == "attrs first" else (w, v)
            anns = (T[want], other) if how == "attrs first" else (other, T[want])
            got = env.attempt(typed(asta, {"x": anns[0], "y": anns[1]}), *args)
            env.require("accepted", got.returned)
        env.witness("accept")

    return run


def call_literal(fam):
    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        T = family_type(asta, fam)
        a, w = env.int("tag", -5, HI), env.int("want", -5, HI)
        p, d = env.int("p", -1, HI), env.int("d", 0, HI)
        v = make_value(env, fam, (d,), attrs={"tag": a})
        got = env.attempt(typed(asta, {"x": T[p, {"tag": w}]}), v)
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("shape and attribute", iff(got.returned, land(a == w, shape_matches((p,), (d,)))))
        env.witness("accept" if got.returned else "reject")

    return run


def scenarios(tier):
    out = []
    hi = HI
    for fam in FAMILIES:
        tf = fam == "tf"
        for code in ("n", "i", ".i"):
            for dt in (False, True):
                out.append(Scenario("%s literal '%s'%s" % (fam, code, " dtype" if dt else ""),
                                    literal(fam, code, dt), tf=tf, witness=["accept", "reject"]))
        out.append(Scenario("%s kinds of attributes" % fam, kinds(fam), tf=tf, witness=["accept", "reject"]))
        out.append(Scenario("%s literal in a call" % fam, call_literal(fam), tf=tf, witness=["accept", "reject"]))
        for call in (False, True):
            out.append(Scenario("%s alike%s" % (fam, " in a call" if call else ""), alike(fam, call), tf=tf, witness=["accept", "reject"]))
            out.append(Scenario("%s arrays%s" % (fam, " in a call" if call else ""), arrays(fam, call), tf=tf, witness=["accept", "reject"]))
        for n in (4, 7):
            for missing in (None, 0, n // 2, n - 1):
                for call in (False, True):
                    out.append(Scenario("%s %d literals%s%s" % (fam, n, "" if missing is None else " without %d" % missing, " in a call" if call else ""),
                                        many(fam, n, missing, call), tf=tf, witness=["accept", "reject"] if missing is None else ["reject"]))
        for name, shape, attrs in SYSTEMS:
            if fam != "array" and tier == "quick" and "two" in attrs and "5" in name:
                continue
            fixed = 1 if shape is None else len([p for p in shape if p is not E])
            ranks = {fixed} | ({fixed + 1} if shape and E in shape else set())
            if tier != "quick":
                ranks |= {fixed + 1} | ({fixed + 2} if shape and E in shape else set())
            for rank in sorted(ranks):
                fits = shape is None or E in shape or rank == fixed
                for how in ("isinstance", "call", "attrs first", "attrs last"):
                    out.append(Scenario("%s %s rank %d %s" % (fam, name, rank, how),
                                        system(fam, shape, attrs, rank, how, min(hi, 50) if tf else hi), tf=tf,
                                        witness=(["accept"] if fits else []) + ([] if name.startswith("X+Y |") else ["reject"])))
                    if fits:
                        out.append(Scenario("%s %s rank %d %s constructed" % (fam, name, rank, how),
                                            constructed(fam, shape, attrs, rank, how, min(hi, 20) if tf else hi), tf=tf, witness=["accept"]))
    return out

"""C13: shape placeholders."""
from typing import List, Optional, Tuple

from engine.scenario import SIZES, Scenario
from engine.ops import eq, iff, implies, land, lor
from props.common import CONFIG, E, FAMILIES, Lin, family_type, lin_matches, load_for, make_value, shape_matches, typed

HI = SIZES
BOUNDS = {
    "quick": "33 ways to write one to three placeholders (alone, unpacked, concatenated with tuples, each other, dimensions and symbols, in every grouping), set to tuples of 0..2 (some also 6) sizes in [0, 4000]; concatenations of two concatenations in 7 ways, after which all operands are used as well; histories of up to 2 settings (or none) with a call after each; values of every rank the sizes give and one more; arguments and return values, with and without a dtype",
    "thorough": "the same with tuples of 0..3 sizes and histories of 3 settings, for all families",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "checks with isinstance (outside a decorated call) do not look at placeholders and are outside the claim",
]
VALIDATE = 20

# name -> (subscript built from placeholders and other parts, resulting order)
# Other parts: p, q integers; X a symbol; D a dimension.
FORMS = {
    "A": (lambda A, B, p, q: A, "A"),
    "(A,)": (lambda A, B, p, q: (A,), "A"),
    "*A": (lambda A, B, p, q: (*A,), "A"),
    "*A,p": (lambda A, B, p, q: (*A, p), "Ap"),
    "p,*A": (lambda A, B, p, q: (p, *A), "pA"),
    "p,*A,q": (lambda A, B, p, q: (p, *A, q), "pAq"),
    "*A,*B": (lambda A, B, p, q: (*A, *B), "AB"),
    "*A,p,*B": (lambda A, B, p, q: (*A, p, *B), "ApB"),
    "*A,*A": (lambda A, B, p, q: (*A, *A), "AA"),
    "*A,...": (lambda A, B, p, q: (*A, E), "A."),
    "...,*A": (lambda A, B, p, q: (E, *A), ".A"),
    "*A,-1": (lambda A, B, p, q: (*A, -1), "Aw"),
    "A+(p,)": (lambda A, B, p, q: A + (p,), "Ap"),
    "(p,)+A": (lambda A, B, p, q: (p,) + A, "pA"),
    "(p,)+A+(q,)": (lambda A, B, p, q: (p,) + A + (q,), "pAq"),
    "(p,)+(A+(q,))": (lambda A, B, p, q: (p,) + (A + (q,)), "pAq"),
    "A+(p,q)": (lambda A, B, p, q: A + (p, q), "Apq"),
    "(p,q)+A": (lambda A, B, p, q: (p, q) + A, "pqA"),
    "A+B": (lambda A, B, p, q: A + B, "AB"),
    "B+A": (lambda A, B, p, q: B + A, "BA"),
    "A+A": (lambda A, B, p, q: A + A, "AA"),
    "A+B+(p,)": (lambda A, B, p, q: A + B + (p,), "ABp"),
    "A+(B+(p,))": (lambda A, B, p, q: A + (B + (p,)), "ABp"),
    "A+(p,)+B": (lambda A, B, p, q: A + (p,) + B, "ApB"),
    "(p,)+A+B": (lambda A, B, p, q: (p,) + A + B, "pAB"),
    "(A+(p,))+(B+(q,))": (lambda A, B, p, q: (A + (p,)) + (B + (q,)), "ApBq"),
    "A+B+A": (lambda A, B, p, q: A + B + A, "ABA"),
    "A+()": (lambda A, B, p, q: A + (), "A"),
    "()+A": (lambda A, B, p, q: () + A, "A"),
    "A+B+C": (lambda A, B, p, q, C: A + B + C, "ABC"),
    "C+(p,)+A+(q,)+B": (lambda A, B, p, q, C: C + (p,) + A + (q,) + B, "CpAqB"),
    "*A,*B,*C,p": (lambda A, B, p, q, C: (*A, *B, *C, p), "ABCp"),
    "(p,)+A+(q,)+B+(p,)+A": (lambda A, B, p, q: (p,) + A + (q,) + B + (p,) + A, "pAqBpA"),
    "A+A+A+A+A": (lambda A, B, p, q: A + A + A + A + A, "AAAAA"),
    "A+(p,q,p,q,p)": (lambda A, B, p, q: A + (p, q, p, q, p), "Apqpqp"),
    "p,q,*A,q,p,*B": (lambda A, B, p, q: (p, q, *A, q, p, *B), "pqAqpB"),
    "*(A+(p,))": (lambda A, B, p, q: (*(A + (p,)), q), "Apq"),
}


def expand(order, val, p, q):
    out = []
    for c in order:
        out += {"A": val.get("A", ()), "B": val.get("B", ()), "C": val.get("C", ()), "p": (p,), "q": (q,), "w": (-1,), ".": (E,)}[c]
    return tuple(out)


def form(fam, name, lens, over, where, steps):
    make, order = FORMS[name]
    uses = [n for n in "ABC" if n in order]

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.shapes as shapes

        T = family_type(asta, fam)
        A, B = shapes.A, shapes.B
        p, q = env.int("p", 0, HI), env.int("q", 0, HI)
        s = make(A, B, p, q, *([shapes.C] if "C" in order else []))
        if where == "dtype":
            t = T[(float, *s)] if isinstance(s, tuple) else T[float, s]
        else:
            t = T[s]
        alone = T[shapes.A]  # building s does not change A
        cell = {}
        ran = []
        fn = typed(asta, {"return": t} if where == "return" else {"x": List[t]} if where == "list" else {"x": t},
                   lambda *a: (ran.append(1), cell["v"])[1])
        other = typed(asta, {"x": alone})
        val = {}
        for k in range(steps):
            for n in uses:
                if (k == 0 and env.bool("set%s%d" % (n, k))) or k > 0:
                    size = lens[uses.index(n)] if k == 0 or steps == 1 else env.pick("len%s%d" % (n, k), [0, lens[uses.index(n)]])
                    val[n] = tuple(env.int("%s%d_%d" % (n, k, i), 0, HI) for i in range(size))
                    setattr(shapes, n, val[n])
                    env.require("reading gives the value", eq(getattr(shapes, n), val[n]))
            want = expand(order, val, p, q)
            rank = len([e for e in want if e is not E]) + over
            if rank < 0:
                return
            dims = tuple(env.int("d%d_%d" % (k, i), 0, HI) for i in range(rank))
            v = cell["v"] = make_value(env, fam, dims, "float64" if fam == "array" else "float32")
            del ran[:]
            got = env.attempt(fn, *(() if where == "return" else ([v],) if where == "list" else (v,)))
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            if set(val) < set(uses):
                env.require("an unset placeholder raises", got.raised(TypeError))
                env.require("before the function runs", where == "return" or not ran)
                env.witness("unset")
            else:
                env.require("means the sizes in the written order", iff(got.returned, shape_matches(want, dims)))
                env.witness("accept" if got.returned else "reject")
            if "A" in val:
                own = env.attempt(other, make_value(env, fam, val["A"]))
                env.require("the operand still means itself", own.returned)
                longer = env.attempt(other, make_value(env, fam, val["A"] + (3,)))
                env.require("and nothing else", longer.raised(TypeError))

    return run


def with_others(fam):
    """Concatenated with symbols and dimensions."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.dims as dims
        import asta.shapes as shapes
        import asta.symbols as symbols

        T = family_type(asta, fam)
        X = symbols.X
        A, D = shapes.A, dims.D
        which = env.pick("form", ["A+(X,X)", "(X,)+A+(X,)", "*A,X,X", "A+(D,)", "(D+1,)+A", "*A,D", "(X,)+A+(D,)"])
        s = {"A+(X,X)": lambda: A + (X, X), "(X,)+A+(X,)": lambda: (X,) + A + (X,), "*A,X,X": lambda: (*A, X, X),
             "A+(D,)": lambda: A + (D,), "(D+1,)+A": lambda: (D + 1,) + A, "*A,D": lambda: (*A, D),
             "(X,)+A+(D,)": lambda: (X,) + A + (D,)}[which]()
        fn = typed(asta, {"x": T[s]})
        a = env.int("a", 0, HI)
        d = env.int("D", 0, HI)
        shapes.A = (a,)
        if "D" in which and not env.bool("dim_set"):
            got = env.attempt(fn, make_value(env, fam, (a,)))
            env.require("an unset dimension raises", got.raised(TypeError))
            env.witness("unset")
            return
        dims.D = d
        L = Lin(X=1)
        want = {"A+(X,X)": (a, L, L), "(X,)+A+(X,)": (L, a, L), "*A,X,X": (a, L, L), "A+(D,)": (a, d), "(D+1,)+A": (d + 1, a),
                "*A,D": (a, d), "(X,)+A+(D,)": (L, a, d)}[which]
        sizes = tuple(env.int("d%d" % i, 0 if w is not L else 1, HI) for i, w in enumerate(want))
        got = env.attempt(fn, make_value(env, fam, sizes))
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("means the sizes in the written order", iff(got.returned, lin_matches(want, sizes)))
        env.witness("accept" if got.returned else "reject")

    return run


def shared(fam):
    """One function unpacks the placeholder, another one does not."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.shapes as shapes

        T = family_type(asta, fam)
        p = env.int("p", 0, HI)
        makers = {"alone": (lambda: shapes.A, "A"), "unpacked": (lambda: (*shapes.A, p), "Ap"), "sum": (lambda: shapes.A + (p,), "Ap"),
                  "left": (lambda: (p,) + shapes.A, "pA")}
        fns = []
        for i in range(2):
            name = env.pick("form%d" % i, list(makers))
            fns.append((typed(asta, {"x": T[makers[name][0]()]}), makers[name][1]))
        a = tuple(env.int("a%d" % i, 0, HI) for i in range(env.pick("n", [0, 1, 2])))
        shapes.A = a
        for i in ((0, 1) if env.bool("order") else (1, 0)):
            fn, order = fns[i]
            want = expand(order, {"A": a}, p, 0)
            dims = tuple(env.int("d%d_%d" % (i, j), 0, HI) for j in range(len(want)))
            got = env.attempt(fn, make_value(env, fam, dims))
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            env.require("each annotation keeps its meaning", iff(got.returned, eq(want, dims)))
            env.witness("accept" if got.returned else "reject")

    return run


COMPOSITES = {
    "A+B": (lambda A, B, p: A + B, "AB"),
    "A+(p,)": (lambda A, B, p: A + (p,), "Ap"),
    "(p,)+B": (lambda A, B, p: (p,) + B, "pB"),
    "A+(p,)+B": (lambda A, B, p: A + (p,) + B, "ApB"),
    "B": (lambda A, B, p: B, "B"),
}
EXTENSIONS = {
    "c+(q,)": (lambda c, o, q: c + (q,), "cq"),
    "(q,)+c": (lambda c, o, q: (q,) + c, "qc"),
    "c+o": (lambda c, o, q: c + o, "co"),
    "o+c": (lambda c, o, q: o + c, "oc"),
    "c+c": (lambda c, o, q: c + c, "cc"),
    "(q,)+c+(q,)": (lambda c, o, q: (q,) + c + (q,), "qcq"),
    "*c,q": (lambda c, o, q: (*c, q), "cq"),
}


def operands(fam, cname, oname):
    """A concatenation is extended; it keeps its meaning, and so does the
    operand, whether its annotation was written before or after."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.shapes as shapes

        T = family_type(asta, fam)
        p, q = env.int("p", 0, HI), env.int("q", 0, HI)
        (mc, oc), (mo, oo) = COMPOSITES[cname], COMPOSITES[oname]
        c, o = mc(shapes.A, shapes.B, p), mo(shapes.A, shapes.B, p)
        which = env.pick("extension", list(EXTENSIONS))
        make, order = EXTENSIONS[which]
        early = env.bool("written before")
        types = {}
        if early:
            types["c"], types["o"] = T[c], T[o]
        e = make(c, o, q)
        if env.bool("twice"):
            make(c, o, q)
        if not early:
            types["c"], types["o"] = T[c], T[o]
        types["e"] = T[e]
        a, b = (env.int("a", 0, HI),), (env.int("b0", 0, HI), env.int("b1", 0, HI))
        shapes.A, shapes.B = a, b
        val = {"A": a, "B": b}
        meaning = {"c": expand(oc, val, p, q), "o": expand(oo, val, p, q)}
        meaning["e"] = sum((meaning[x] if x in "co" else (q,) for x in order), ())
        for name in env.pick("used", ["c", "e", "o"]):
            fn = typed(asta, {"x": types[name]})
            want = meaning[name]
            dims = tuple(env.int("d_%s%d" % (name, i), 0, HI) for i in range(len(want)))
            got = env.attempt(fn, make_value(env, fam, dims))
            env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
            env.require("operands and result mean what was written", iff(got.returned, eq(want, dims)))
            if name == "c" and len(meaning["e"]) != len(want):
                fits = env.attempt(fn, make_value(env, fam, meaning["e"]))
                env.require("the operand does not become the result", fits.raised(TypeError))
            env.witness("accept" if got.returned else "reject")

    return run


def already_set(fam):
    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        import asta.shapes as shapes

        T = family_type(asta, fam)
        a = tuple(env.int("a%d" % i, 0, HI) for i in range(env.pick("n", [0, 1, 2])))
        b = (env.int("b", 0, HI),)
        shapes.A = a
        env.require("reading gives the value", eq(shapes.A, a))
        which = env.pick("form", ["A", "*A,p", "A+B"])
        p = env.int("p", 0, HI)
        s, want = {"A": lambda: (shapes.A, a), "*A,p": lambda: ((*shapes.A, p), a + (p,)), "A+B": lambda: (shapes.A + shapes.B, a + b)}[which]()
        fn = typed(asta, {"x": T[s]})
        shapes.B = b
        dims = tuple(env.int("d%d" % i, 0, HI) for i in range(len(want)))
        got = env.attempt(fn, make_value(env, fam, dims))
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("means those sizes", iff(got.returned, eq(want, dims)))
        env.witness("accept" if got.returned else "reject")

    return run


def invalid(env):
    asta = load_for(env, "array", config=CONFIG)
    import asta.shapes as shapes

    T = asta.Array
    preset = env.bool("preset")
    fn = typed(asta, {"x": T[shapes.A]})
    a = (env.int("a", 0, HI),)
    if preset:
        shapes.A = a
    bad = env.pick("bad", [3, [3], (1.5,), ("3",), (3, None), None, "3", {3}, (3, (4,)), (E,), (3, 2.0), (1, 1.0), (2.0, 2), (0, 0.0), (0, -0.0), (3, 3, 3.0), (4, 3, 4.0), (4, "4"), (3, 3, None)])
    got = env.attempt(setattr, shapes, "A", bad)
    env.require("raises TypeError", got.raised(TypeError))
    d = (env.int("d", 0, HI),)
    out = env.attempt(fn, env.array(d))
    if preset:
        env.require("still has its value", eq(shapes.A, a))
        env.require("and is used", iff(out.returned, eq(a, d)))
        env.witness("accept" if out.returned else "reject")
    else:
        env.require("still unset", out.raised(TypeError))
    for wrong in (1, "a", [1], None, 1.5):
        env.require("concatenated with tuples only", env.attempt(lambda: shapes.Q + wrong).raised(TypeError))
        env.require("on either side", env.attempt(lambda: wrong + shapes.Q).raised(TypeError))


def scenarios(tier):
    out = []
    quick = tier == "quick"
    for fam in FAMILIES:
        tf = fam == "tf"
        for name, (_make, order) in FORMS.items():
            if quick and fam != "array" and name not in ("A", "*A,p", "A+(p,)", "(p,)+A"):
                continue
            n = len([x for x in "ABC" if x in order])
            lens = [(k,) for k in range(3 if quick else 4)] if n == 1 else [(1, 2), (2, 1), (0, 1), (2, 0), (1, 1)] if n == 2 else [(1, 0, 1), (0, 2, 1)]
            if name in ("A", "*A,p", "(p,)+A", "A+(p,)"):
                lens += [(6,)]
            for k, ln in enumerate(lens):
                for over in (0, 1) if "." in order or not quick else (0,):
                    wit = ["accept", "unset"] + (["reject"] if order not in ("A",) and over == 0 and any(ln) else [])
                    if over and "." not in order:
                        wit = ["unset"]
                    out.append(Scenario("%s %s lengths %s%s" % (fam, name, ln, " rank +1" if over else ""),
                                        form(fam, name, ln, over, "arg", 1), tf=tf, witness=wit, budget=3))
                if "." not in order:
                    out.append(Scenario("%s %s lengths %s rank +1 reject" % (fam, name, ln), form(fam, name, ln, 1, "arg", 1), tf=tf,
                                        witness=["reject"], budget=2))
                if k == 1:
                    for where in ("dtype", "return", "list"):
                        out.append(Scenario("%s %s lengths %s %s" % (fam, name, ln, where), form(fam, name, ln, 0, where, 1), tf=tf,
                                            witness=["accept"], budget=3))
                    out.append(Scenario("%s %s lengths %s set again" % (fam, name, ln), form(fam, name, ln, 0, "arg", 2 if quick else 3), tf=tf,
                                        witness=["accept", "unset"], budget=9))
        out.append(Scenario("%s with symbols and dimensions" % fam, with_others(fam), tf=tf, witness=["accept", "reject", "unset"], budget=9))
        out.append(Scenario("%s shared" % fam, shared(fam), tf=tf, witness=["accept", "reject"], budget=20))
        for c in COMPOSITES:
            for o in COMPOSITES:
                if quick and fam != "array" and (c, o) != ("A+B", "A+(p,)"):
                    continue
                out.append(Scenario("%s operands %s and %s" % (fam, c, o), operands(fam, c, o), tf=tf, witness=["accept", "reject"], budget=5))
        out.append(Scenario("%s already set" % fam, already_set(fam), tf=tf, witness=["accept", "reject"], budget=4))
    out.append(Scenario("invalid values", invalid, witness=["accept", "reject"], budget=9))
    return out

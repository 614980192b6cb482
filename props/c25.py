"""C25: the namespaces of placeholders and symbols."""
import importlib

from engine.scenario import SIZES, Scenario
from engine.ops import iff
from props.common import CONFIG, E, load_for, make_value, typed

HI = SIZES
BOUNDS = {
    "quick": "histories of up to 3 operations (set or read asta.dims and asta.shapes, refused settings of either, reading asta.symbols, building expressions and concatenations, decorated calls, imports in other spellings) over 4 names, one of them shared between dims and shapes, with integers in [-4000, 4000] and tuples of 0..3 of them (histories of 3: setting, refused setting, building and calls only); after every operation every one of these and 11 similar names of both namespaces is read and compared with the last value set",
    "thorough": "histories of 4 operations",
}
ASSUMPTIONS = [
    "names which are attributes of the module objects (symbol_map, placeholder_map and names with two underscores on both sides) and names shared between asta.dims and asta.symbols are outside the claim",
    "bool values of dims and of the elements of shapes are outside the claim",
]
VALIDATE = 20

DIMS = ("A", "a")
SHAPES = ("A", "S")
# Names that are only read.
MORE_DIMS = ("S", "_A", "A_", "A1", "AA", "a_1")
MORE_SHAPES = ("a", "_S", "S_", "S1", "s")
OPS = ("set dim", "set shape", "bad dim", "bad shape", "read fresh", "symbols", "build", "call", "import")
NOT_INT = [None, "3", 2.0, (3,), [3], 1j]
NOT_SHAPE = [None, 3, [1, 2], "ab", (1, "2"), (1, None), (2.0,), (1, (2,)), {1: 2}, (3, E)]


def history(steps, first):
    def run(env):
        asta = load_for(env, "array", config=CONFIG)
        import asta.dims as dims
        import asta.shapes as shapes
        import asta.symbols as symbols
        from sympy.core.symbol import Symbol

        dval, sval = {}, {}
        seen = {n: getattr(symbols, n) for n in ("X", "x", "_X", "X1", "alpha_1")}

        def look(n):
            for name in DIMS + MORE_DIMS:
                got = getattr(dims, name)
                if name in dval:
                    env.require("%d: a dim is what it was set to" % n, type(got) is type(dval[name]) and got == dval[name])
                else:
                    env.require("%d: a dim that is not set is a symbol of that name" % n, isinstance(got, Symbol) and got.name == name and got == getattr(dims, name))
            for name in SHAPES + MORE_SHAPES:
                got = getattr(shapes, name)
                if name in sval:
                    env.require("%d: a shape is a tuple" % n, isinstance(got, tuple) and len(got) == len(sval[name]))
                    for i, v in enumerate(sval[name]):
                        env.require("%d: of the sizes it was set to" % n, got[i] == v)
                else:
                    env.require("%d: a shape that is not set is a placeholder" % n, not isinstance(got, (tuple, Symbol, int)) and got is getattr(shapes, name))
            env.require("%d: symbols of different names differ" % n, len(set(seen.values())) == len(seen))
            for name, sym in seen.items():
                now = getattr(symbols, name)
                env.require("%d: a symbol is the same symbol" % n, isinstance(now, Symbol) and now == sym and now.name == name and hash(now) == hash(sym))

        few = steps > 2
        ops = [o for o in OPS if not few or o not in ("read fresh", "symbols", "import")]
        for n in range(steps):
            op = OPS[first] if n == 0 else env.pick("op%d" % n, ops)
            if op == "set dim":
                name = env.pick("name%d" % n, DIMS)
                dval[name] = env.int("v%d" % n, -HI, HI)
                got = env.attempt(setattr, dims, name, dval[name])
                env.require("setting a dim", got.returned)
            elif op == "set shape":
                name = env.pick("name%d" % n, SHAPES)
                k = env.pick("len%d" % n, [2] if few else [2, 0, 3])
                sval[name] = tuple(env.int("v%d_%d" % (n, i), -HI, HI) for i in range(k))
                got = env.attempt(setattr, shapes, name, sval[name])
                env.require("setting a shape", got.returned)
            elif op == "bad dim":
                got = env.attempt(setattr, dims, env.pick("name%d" % n, DIMS), env.pick("v%d" % n, NOT_INT[:1] if few else NOT_INT))
                env.require("a dim that is not an integer", got.raised(TypeError))
            elif op == "bad shape":
                got = env.attempt(setattr, shapes, env.pick("name%d" % n, SHAPES), env.pick("v%d" % n, NOT_SHAPE[4:5] if few else NOT_SHAPE))
                env.require("a shape that is not a tuple of integers", got.raised(TypeError))
            elif op == "read fresh":
                name = "fresh%d" % n
                env.require("a fresh dim", getattr(dims, name) == getattr(dims, name) and getattr(dims, name).name == name)
                env.require("a fresh shape", getattr(shapes, name) is getattr(shapes, name))
                env.require("a fresh symbol", getattr(symbols, name) == getattr(symbols, name))
                env.require("the names differ", getattr(shapes, name) is not getattr(shapes, name + "x") and getattr(symbols, name) != getattr(symbols, name + "x"))
            elif op == "symbols":
                X, Y = symbols.X, symbols.Y
                env.require("symbols are distinct", X != Y and X - X == 0 and X + Y == Y + X and (X + 1) ** 2 != X ** 2)
            elif op == "build":
                d, s = getattr(dims, "a"), getattr(shapes, "S")
                got = env.attempt(lambda: (d + 1, 2 * d, s + (1,), (1,) + s, s + s, [*s]))
                env.require("expressions and concatenations", got.returned)
            elif op == "call":
                v = make_value(env, "array", (env.int("d%d" % n, 1, HI),))
                fn = typed(asta, {"x": asta.Array[getattr(dims, "a")] if few or env.pick("which%d" % n, [True, False]) else asta.Array[getattr(shapes, "S")]})
                got = env.attempt(fn, v)
                env.require("a call returns or raises TypeError", got.returned or got.raised(TypeError))
            elif op == "import":
                from asta import dims as d2, shapes as s2
                env.require("the same namespaces", d2 is dims and s2 is shapes and importlib.import_module("asta.dims") is dims and importlib.import_module("asta.shapes") is shapes)
            env.witness(op)
            look(n)

    return run


def scenarios(tier):
    out = []
    deep = 3 if tier == "quick" else 4
    for i, op in enumerate(OPS):
        for steps in range(2, deep + 1):
            if steps == 2 or op not in ("read fresh", "symbols", "import"):
                out.append(Scenario("%d operations, first %s" % (steps, op), history(steps, i), witness=OPS if steps == 2 else [op], budget=8))
    return out

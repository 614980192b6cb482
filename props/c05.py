"""C05: equality and hashing of types."""
import numpy as np

from engine.scenario import Scenario
from props.common import E, FAMILIES, family_type, load_for, make_value, subscript
from engine.ops import iff, land, eq, implies

HI = 1000
BOUNDS = {
    "quick": "pairs of types with 4 kinds of dtype parts, shapes of up to 2 integers in [-1, 1000] (values in [-1, 2] where hashes are computed) with '...' and symbols, 7 pairs of shapes of 3 to 6 elements, and up to 2 keyword attributes; before the comparison histories of up to 2 operations out of hash, compare, check, subscript, print, and of 8 with any two of these in turn",
    "thorough": "the same with 7 kinds of dtype parts, shapes of up to 3 elements and histories of up to 3 operations",
}
ASSUMPTIONS = [
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "keyword attributes whose == is not a truth value (arrays) are outside the claim",
    "hash values are compared on the concrete types the solver chooses for each path (CPython's own hash is trusted)",
]

VALIDATE = 12
OPS = ["hash", "base", "equal", "check", "shape", "dtype", "attrs", "print"]
SHAPES = ["n", "0", "i", "ii", "i.", ".i", "Xi", "X"]
ATTRS = ["", "n", "nm", "mn", "m"]


def dtypes(env, fam, thorough):
    """(what is written, identity of the resulting dtype)"""
    if fam == "array":
        out = [(None, None), (float, "f8"), (np.float64, "f8"), (str, "str")]
        if thorough:
            out += [(np.dtype("U5"), "U5"), (int, "i8"), (np.float32, "f4")]
        return out
    lib = env.torch if fam == "torch" else env.tf
    out = [(None, None), (float, "f4"), (lib.float32, "f4"), (int, "i4")]
    if thorough:
        out += [(lib.int32, "i4"), (lib.float64, "f8"), (bool, "b")]
    return out


def shape_part(env, asta, code, tag, hi):
    """(subscript part or None, structure)"""
    if code == "n":
        return None, None
    if code == "0":
        return (), ()
    s = tuple(
        E if c == "." else asta.symbols.X if c == "X" else env.int("%s%d" % (tag, i), -1, hi)
        for i, c in enumerate(code)
    )
    return s, s


def attr_part(env, code, tag, hi):
    if not code:
        return None
    return {{"n": "ndim", "m": "itemsize"}[c]: env.int("%s_%s" % (tag, c), 0, hi) for c in code}


def make(T, dt, shape, attrs):
    parts = []
    if dt is not None:
        parts.append(dt)
    if shape is not None:
        parts.append(shape)
    if attrs is not None:
        parts.append(attrs)
    if not parts:
        return T
    return T[parts[0]] if len(parts) == 1 else T[tuple(parts)]


def make_flat(T, dt, shape, attrs):
    """As a user writes it: T[dt, a, b, attrs]."""
    if shape is None or shape == () or dt is None and attrs is None:
        return make(T, dt, shape, attrs)
    parts = ([] if dt is None else [dt]) + list(shape) + ([] if attrs is None else [attrs])
    return T[parts[0]] if len(parts) == 1 else T[tuple(parts)]


def same_elem(a, b):
    sym = [type(x).__name__ == "Symbol" for x in (a, b)]
    if any(sym) or a is E or b is E:
        return a is b or (all(sym) and a == b)
    return a == b


def same_shape(s, t):
    if s is None or t is None:
        return s is None and t is None
    if len(s) != len(t):
        return False
    return land(*[same_elem(a, b) for a, b in zip(s, t)])


def same_attrs(a, b):
    if a is None or b is None:
        return a is None and b is None
    if set(a) != set(b):
        return False
    return land(*[eq(a[k], b[k]) for k in a])


def pair(fam, c1, c2, hashed, thorough, top=2):
    hi = top if hashed else HI

    def run(env):
        asta = load_for(env, fam)
        import asta.symbols  # noqa: F811

        T = family_type(asta, fam)
        table = dtypes(env, fam, thorough)
        small = not thorough and c1 != c2  # the shapes decide already
        d1, k1 = env.pick("dt1", table[:2] if small else table)
        d2, k2 = env.pick("dt2", table[:2] if small else table)
        a1 = attr_part(env, env.pick("at1", ATTRS if thorough else ["", "nm"] if hashed else ATTRS[:3]), "a", hi)
        a2 = attr_part(env, env.pick("at2", ATTRS[:2] if small else ATTRS if thorough or not hashed else ATTRS[:4]), "b", hi)
        s1, t1 = shape_part(env, asta, c1, "p", hi)
        s2, t2 = shape_part(env, asta, c2, "q", hi)
        A, B = make_flat(T, d1, s1, a1), make(T, d2, s2, a2)
        want = land(k1 == k2, same_shape(t1, t2), same_attrs(a1, a2))
        got = env.attempt(lambda: A == B)
        env.require("comparing does not raise", got.returned)
        if not got.returned:
            return
        env.require("equal exactly when dtype, shape and attributes are", iff(got.value, want))
        env.require("symmetric", iff(B == A, want))
        env.require("!= is the negation", iff(A != B, not want if isinstance(want, bool) and want in (True, False) else want == False))  # noqa: E712
        if hashed and got.value:
            env.witness("equal")
            env.require("equal types have equal hashes", hash(A) == hash(B))
            env.require("a set holds one of two equal types", len({A, B}) == 1)
        if not got.value:
            env.witness("different")

    return run


def history(fam, code, steps, first):
    def run(env):
        asta = load_for(env, fam)
        import asta.symbols  # noqa: F811

        T = family_type(asta, fam)
        table = dtypes(env, fam, False)
        d1, _k = env.pick("dt", table[:3])
        shape, _t = shape_part(env, asta, code, "p", 2)
        attrs = attr_part(env, env.pick("at", ["", "n"]), "a", 2)
        A = make(T, d1, shape, attrs)
        other = T[env.int("o", 0, 2), 1]
        v = make_value(env, fam, (env.int("d", 0, 2),))
        ops = {
            "hash": lambda t: hash(t),
            "base": lambda t: hash(T),
            "equal": lambda t: t == other,
            "check": lambda t: isinstance(v, t),
            "shape": lambda t: t[3, 4],
            "dtype": lambda t: hash(t[float]),
            "attrs": lambda t: t[{"ndim": 7}],
            "print": lambda t: repr(t),
        }
        names = [first]
        if steps > 3:  # two operations in turn
            names = [first, env.pick("op1", list(ops))] * (steps // 2)
        for i in range(steps):
            if i >= len(names):
                names.append(env.pick("op%d" % i, list(ops)))
            name = names[i]
            r = env.attempt(ops[name], A)
            env.require("%s does not raise" % name, r.returned)
        fresh = make(T, d1, shape, attrs)
        env.require("still equal to a fresh type", A == fresh)
        env.require("hash still that of a fresh type", hash(A) == hash(fresh))
        for label, sub in (("shape", (3, 4)), ("dtype", float), ("attributes", {"ndim": 1})):
            d, f = A[sub], fresh[sub]
            env.require("types refined by %s are equal" % label, d == f)
            env.require("types refined by %s have equal hashes" % label, hash(d) == hash(f))
        env.require("equal to the direct spelling", A[5, 6] == make(T, d1, (5, 6), attrs))
        env.require("hash of the direct spelling", hash(A[5, 6]) == hash(make(T, d1, (5, 6), attrs)))
        env.witness("done")

    return run


def across():
    def run(env):
        asta = load_for(env, "torch", "tf")
        import asta.symbols  # noqa: F811

        types = [family_type(asta, f) for f in FAMILIES]
        i = env.pick("i", [0, 1, 2])
        j = env.pick("j", [0, 1, 2])
        code = env.pick("shape", SHAPES)
        s, _t = shape_part(env, asta, code, "p", 2)
        A, B = make(types[i], None, s, None), make(types[j], None, s, None)
        got = env.attempt(lambda: A == B)
        env.require("comparing does not raise", got.returned)
        env.require("equal only within a family", got.returned and iff(got.value, i == j))
        for other in (1, None, "Array", (1,), int, np.ndarray, s):
            env.require("never equal to something else", not (A == other) and A != other)
        env.witness("equal" if i == j else "different")

    return run


def scenarios(tier):
    out = []
    thorough = tier != "quick"
    shapes = SHAPES + (["iii", "i.i", "iX"] if thorough else [])
    for fam in FAMILIES:
        tf = fam == "tf"
        for x, c1 in enumerate(shapes):
            for c2 in shapes[x:]:
                similar = c1 == c2
                if fam != "array" and not thorough and not similar and x % 2:
                    continue
                wit = ["different"]
                out.append(Scenario("%s '%s' and '%s'" % (fam, c1, c2), pair(fam, c1, c2, False, thorough),
                                    tf=tf, witness=wit, budget=3))
                if similar:
                    out.append(Scenario("%s '%s' twice, hashed" % (fam, c1), pair(fam, c1, c2, True, thorough),
                                        tf=tf, witness=["equal"], budget=20, hash_mode="exact"))
        for code in ("n", "0", "i", "X") if not thorough else shapes:
            for k in range(1, 3 if not thorough else 4):
                if fam != "array" and k > 1 and not thorough:
                    continue
                for first in OPS:
                    out.append(Scenario("%s '%s' after %d operations, first %s" % (fam, code, k, first),
                                        history(fam, code, k, first), tf=tf, witness=["done"], budget=9, hash_mode="exact"))
        for code in ("i", "X", "n") if fam == "array" or thorough else ("i",):
            for first in OPS:
                out.append(Scenario("%s '%s' after 8 operations, first %s" % (fam, code, first),
                                    history(fam, code, 8, first), tf=tf, witness=["done"], budget=9, hash_mode="exact"))
        for c1, c2 in (("iiiiii", "iiiiii"), ("iii.ii", "iii.ii"), ("iiiii", "iiiiii"), ("iiii.", ".iiii"), ("iiiXi", "iiiiX")):
            out.append(Scenario("%s '%s' and '%s'" % (fam, c1, c2), pair(fam, c1, c2, False, thorough), tf=tf, witness=["different"], budget=3))
        for c1 in ("iii", "ii.i"):
            out.append(Scenario("%s '%s' twice, hashed" % (fam, c1), pair(fam, c1, c1, True, False, 1), tf=tf, witness=["equal"], budget=20, hash_mode="exact"))
    out.append(Scenario("across families", across(), tf=True, witness=["equal", "different"]))
    return out

"""C15: unions."""
import itertools
from typing import Any, Dict, List, Optional, Tuple, Union

from engine.scenario import SIZES, Scenario
from engine.ops import iff, implies, land, lnot, lor
from props.common import (
    CONFIG, E, FAMILIES, Lin, as_subscript, default_dtype, family_type, load_for, make_value, placements, solvable, subscript, typed,
)

HI = SIZES
BOUNDS = {
    "quick": "unions of 2..4 members in every order, and of 5..6 members in 12 orders, out of array types (literal, symbolic and wildcard shapes of rank 1..2, dtypes), containers of them, None, ordinary types and Any, as argument, return value and inside List, Dict, Tuple and Optional, written as Union, Optional and |; values: arrays of rank 0..2 with sizes in [1, 4000], containers of them, None, int, str; with another argument that shares symbols before or after; check-non-asta-types yes and no",
    "thorough": "the same with every place and spelling, more values and all families",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "when several members match a value, any of them may contribute its symbols",
]
VALIDATE = 20
LIN = {"X": Lin(X=1), "Y": Lin(Y=1), "s": Lin(1, X=1)}

# members: shape codes "i", "XX"; ("dt", dtype, code); ("list", code);
# ("tup", code, code); ("dict", code); None; int; str; Any; list


class World:
    def __init__(self, env, asta, fam, non_asta):
        self.env, self.asta, self.fam, self.non_asta = env, asta, fam, non_asta
        self.T = family_type(asta, fam)
        self.lits = {}

    def shape(self, code):
        out = []
        for i, c in enumerate(code):
            if c == "i":
                if (code, i) not in self.lits:
                    self.lits[code, i] = self.env.int("p_%s%d" % (code, i), 0, HI)
                out.append(self.lits[code, i])
            else:
                out.append(LIN[c] if c in LIN else -1 if c == "w" else E)
        return tuple(out)

    def lib(self):
        import numpy

        return {"array": numpy, "torch": self.env.torch, "tf": self.env.tf}[self.fam]

    def ann(self, m):
        import asta.symbols  # noqa: F811

        if isinstance(m, str):
            return self.T[subscript(as_subscript(self.shape(m), asta.symbols))] if m else self.T
        if isinstance(m, tuple):
            if m[0] == "dt":
                s = as_subscript(self.shape(m[2]), asta.symbols)
                return self.T[(getattr(self.lib(), m[1]),) + s]
            subs = tuple(self.ann(x) for x in m[1:])
            return {"list": lambda: List[subs[0]], "dict": lambda: Dict[str, subs[0]], "tup": lambda: Tuple[subs]}[m[0]]()
        return m

    # a value is ("arr", dims, object), ("list", [values], object), ... or ("obj", object)
    def matches(self, m, v):
        """[(condition, equations)], one per way the value matches."""
        if isinstance(m, str) or isinstance(m, tuple) and m[0] == "dt":
            if v[0] != "arr":
                return []
            code = m if isinstance(m, str) else m[2]
            if not code:
                return [(True, [])]
            if isinstance(m, tuple) and m[1] != default_dtype(self.fam):
                return []
            return placements(self.shape(code), v[1])
        if isinstance(m, tuple):
            if m[0] != v[0] or m[0] == "tup" and len(m) - 1 != len(v[1]):
                return []
            subs = m[1:] if m[0] == "tup" else [m[1]] * len(v[1])
            out = [(True, [])]
            for s, x in zip(subs, v[1]):
                out = [(land(c, d), e + f) for c, e in out for d, f in self.matches(s, x)]
            return out
        if m is Any:
            return [(True, [])]
        if m is None:
            return [(True, [])] if v[0] == "obj" and v[1] is None else []
        if m is list:
            return [(True, [])] if not self.non_asta or v[0] == "list" else []
        if not self.non_asta:
            return [(True, [])]
        return [(True, [])] if v[0] == "obj" and isinstance(v[1], m) else []

    def union(self, members, v):
        return [w for m in members for w in self.matches(m, v)]

    def accepts(self, ways, extra=()):
        return lor(*[land(c, solvable(list(e) + list(extra))) for c, e in ways])

    def value(self, code, tag):
        """code: '0', '1', '2' (arrays of that rank), 'n', 'z' (int), 's', or
        'l..', 'd..', 't..' containers of arrays."""
        env = self.env
        if code in ("0", "1", "2"):
            dims = tuple(env.int("%s%d" % (tag, i), 1, HI) for i in range(int(code)))
            return ("arr", dims, make_value(env, self.fam, dims))
        if code in "nzs":
            o = {"n": None, "z": 3, "s": "abc"}[code]
            return ("obj", o, o)
        subs = [self.value(c, "%s_%d_" % (tag, i)) for i, c in enumerate(code[1:])]
        objs = [s[2] for s in subs]
        if code[0] == "l":
            return ("list", subs, objs)
        if code[0] == "d":
            return ("dict", subs, {"k%d" % i: o for i, o in enumerate(objs)})
        return ("tup", subs, tuple(objs))


def written(anns, how):
    if how == "|":
        out = anns[0]
        for a in anns[1:]:
            out = out | a
        return out
    if how == "nested":
        return Union[anns[0], Union[tuple(anns[1:])]] if len(anns) > 1 else anns[0]
    return Union[tuple(anns)]


def orders(n):
    if n < 5:
        return list(itertools.permutations(range(n)))
    turns = [tuple((i + k) % n for i in range(n)) for k in range(n)]
    return turns + [t[::-1] for t in turns]


def single(fam, members, code, where, how, non_asta):
    def run(env):
        asta = load_for(env, fam, config={**CONFIG, "check-non-asta-types": "yes" if non_asta else "no"})
        w = World(env, asta, fam, non_asta)
        order = env.pick("order", orders(len(members)))
        ms = [members[i] for i in order]
        u = written([w.ann(m) for m in ms], how)
        v = w.value(code, "d")
        ann, arg = {
            "arg": lambda: (u, v[2]), "return": lambda: (u, v[2]), "list": lambda: (List[u], [v[2]]),
            "dict": lambda: (Dict[str, u], {"k": v[2]}), "tuple": lambda: (Tuple[u, int], (v[2], 1)),
            "vtuple": lambda: (Tuple[u, ...], (v[2],)), "optional": lambda: (Optional[u], v[2]),
        }[where]()
        if where == "return":
            got = env.attempt(typed(asta, {"return": ann}, lambda: arg))
        else:
            got = env.attempt(typed(asta, {"x": ann}), arg)
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        ok = w.accepts(w.union(ms + ([None] if where == "optional" else []), v))
        env.require("accepted exactly when a member accepts it", iff(got.returned, ok))
        env.witness("accept" if got.returned else "reject")

    return run


def two(fam, members, code, other, where):
    """With another argument that shares symbols."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        w = World(env, asta, fam, False)
        order = env.pick("order", orders(len(members)))
        ms = [members[i] for i in order]
        u = Union[tuple(w.ann(m) for m in ms)]
        v = w.value(code, "d")
        dims = tuple(env.int("o%d" % i, 2 if "s" in other else 1, HI) for i in range(len(other)))
        o = make_value(env, fam, dims)
        t = w.ann(other)
        if where == "after":
            got = env.attempt(typed(asta, {"x": u, "y": t}), v[2], o)
        elif where == "before":
            got = env.attempt(typed(asta, {"x": t, "y": u}), o, v[2])
        else:
            got = env.attempt(typed(asta, {"x": t, "return": u}, lambda x: v[2]), o)
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        ((cond, eqs),) = placements(w.shape(other), dims)
        ways = w.union(ms, v)
        env.require("accepted only with the symbols of a member", implies(got.returned, land(cond, w.accepts(ways, eqs))))
        alone = [w.accepts([x]) for x in ways]
        unique = land(*[lnot(land(a, b)) for i, a in enumerate(alone) for b in alone[:i]])
        if where != "after":
            # Known before the union is looked at: any member may be taken.
            unique = True
        env.require("a member that does not match leaves no trace", implies(land(unique, cond, w.accepts(ways, eqs)), got.returned))
        env.witness("accept" if got.returned else "reject")

    return run


SETS = [
    ["i", "ii"], ["X", "XX"], ["i", None], ["X", None], ["iX", "X"], ["w", "ww"], ["XX", "XY"], [("list", "X"), "X"], [("list", "X"), ("list", "ii")],
    [("tup", "X", "X"), ("tup", "X", "Y")], [("tup", "X", "i"), ("tup", "i", "X")], [("dict", "X"), ("list", "X"), None], [("dt", "float32", "X"), ("dt", "float64", "XX")],
    [("dt", "int32", "i"), "ii"], ["i", int], ["X", str, None], [("list", "i"), int], ["XX", Any], ["i", "X"], ["iX", "Xi"], [("tup", "X", "X"), None], ["", None],
    [("list", "XX"), ("tup", "X", "Y")], ["sX", "XX"], ["i", "ii", None], ["i", list],
]
FOUR = [["i", "ii", None, ("list", "X")], ["XX", "X", ("tup", "X", "X"), ("dict", "i")], ["X", int, str, None]]
SIX = [["i", "ii", "iX", ("dt", "int32", "w"), ("list", "X"), ("tup", "X", "X")], ["XX", ("list", "i"), ("tup", "X", "X"), ("dict", "X"), "sX", None], ["XX", "XXX", "iXX", ("list", "XX"), "X"]]
VALUES = ["0", "1", "2", "n", "z", "s", "l1", "l11", "l2", "t11", "t12", "d1", "lz", "t1z"]


def plausible(members, quick):
    out = ["1", "2", "n", "z"]
    text = str(members)
    if "list" in text:
        out += ["l1", "l11", "l2"]
    if "tup" in text:
        out += ["t11", "t1z", "t12"]
    if "dict" in text:
        out += ["d1", "d2"]
    if str in members:
        out += ["s"]
    return out if quick else out + ["0", "s"]


def scenarios(tier):
    out = []
    quick = tier == "quick"
    names = set()
    for fam in FAMILIES:
        tf = fam == "tf"
        for k, members in enumerate(SETS + FOUR + SIX):
            if quick and fam != "array" and k not in (1, 3, 9, 12):
                continue
            plain = [m for m in members if m in (int, str, list)]
            for code in plausible(members, quick):
                wheres = ["arg"] + (["return", "list", "dict", "tuple", "vtuple", "optional"] if (k % 3 == 0 and fam == "array" and code in ("1", "2", "n", "t11")) or not quick else [])
                for where in wheres:
                    for how in ["Union"] + (["|", "nested"] if where == "arg" and (k % 2 == 0 or not quick) else []):
                        for non in ([False, True] if plain else [True] if (k % 2) else [False]):
                            if how == "|" and Any in members:
                                continue
                            nm = "%s %s %s value %s %s%s" % (fam, how, members, code, where, " non-asta" if non else "")
                            out.append(Scenario(nm, single(fam, members, code, where, how, non), tf=tf, budget=2 * len(members)))
            if any("X" in str(m) for m in members):
                for code in [c for c in plausible(members, True) if c not in ("z", "s")]:
                    if not quick or k % 2 == 1 and code not in ("l2", "t12", "d2"):
                        for other in ("X", "s") if not quick or code in ("1", "t11") else ("X",):
                            for where in ("after", "before", "return"):
                                out.append(Scenario("%s %s value %s and %s %s" % (fam, members, code, other, where),
                                                    two(fam, members, code, other, where), tf=tf, budget=4 * len(members)))
    return out

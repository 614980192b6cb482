"""C14: arrays inside containers."""
import collections
import types
from typing import Any, Dict, List, NamedTuple, NotRequired, Optional, Required, Sequence, Set, Tuple, TypedDict

from engine.scenario import SIZES, Scenario
from engine.ops import iff, implies, land
from props.common import CONFIG, E, FAMILIES, Lin, as_subscript, family_type, lin_matches, load_for, make_value, placements, solvable, subscript, typed

HI = SIZES
BOUNDS = {
    "quick": "List, Sequence, Set, Dict, fixed, variadic and empty Tuple, NamedTuple and TypedDict (total or not), in both the typing and the builtin spelling, nested up to depth 3 (typed dictionaries also inherited and with Required and NotRequired, sequences also as deque and as a class that can only be indexed, Any at some places), with up to 2 elements per container, 18 with up to 12 elements or depth 5, one container of a wrong type, length or set of keys at any node, elements that are arrays of literal, wildcard or symbolic sizes in [1, 4000] or not arrays; check-all-sequence-elements yes and no; as argument and as return value",
    "thorough": "the same with up to 3 elements per container, all families, and all pairs of nestings",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "FrozenSet, Mapping, Iterable and other container types are outside the claim, as are string annotations",
]
VALIDATE = 20
LIN = {"X": Lin(X=1), "Y": Lin(Y=1), "s": Lin(1, X=1)}

# specs: "X" (an array of that shape), "any", ("list", spec), ("seq", spec),
# ("set", spec), ("dict", spec), ("adict", spec) with keys of any type,
# ("vtup", spec), ("tup", spec, ...), ("nt", spec, ...),
# ("td", keys, spec, ...), ("opt", spec).  The keys of a typed dictionary are
# True or False (total or not), "RN.." (qualified one by one) or "10" (the
# first key inherited from a total one, the others in one that is not).


def td_type(keys, subs):
    """(the type, which keys are required)"""
    names = ["k%d" % i for i in range(len(subs))]
    if isinstance(keys, bool):
        return TypedDict("TD", dict(zip(names, subs)), total=keys), [keys] * len(subs)
    if keys[0] in "RNrn":
        wrap = {"R": Required, "N": NotRequired}
        anns = {n: wrap[k][a] if k in wrap else a for n, k, a in zip(names, keys, subs)}
        return TypedDict("TD", anns, total="r" in keys or keys.isupper()), [k in "Rr" for k in keys]
    base = TypedDict("Base", {names[0]: subs[0]}, total=keys[0] == "1")
    sub = types.new_class("TD", (base,), {"total": keys[1] == "1"},
                          lambda ns: ns.update(__annotations__=dict(zip(names[1:], subs[1:])), __module__=__name__))
    return sub, [keys[0] == "1"] + [keys[1] == "1"] * (len(subs) - 1)


class Custom(collections.abc.Sequence):
    """A sequence that can only be indexed."""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if not isinstance(i, int):
            raise TypeError("indices only")
        return self.items[i]


class Build:
    """Annotation, value and expected answer for one spec."""

    def __init__(self, env, asta, fam, lens, fault, builtin, first_only):
        self.env, self.asta, self.fam = env, asta, fam
        self.lens, self.fault = lens, fault
        self.builtin = builtin
        self.first_only = first_only
        self.T = family_type(asta, fam)
        self.n = 0
        self.node = 0
        self.hashable = False

    def shape(self, code):
        key = "p_" + code
        if not hasattr(self, "lits"):
            self.lits = {}
        out = []
        for i, c in enumerate(code):
            if c in "in":
                if (code, i) not in self.lits:
                    self.lits[code, i] = self.env.int("%s%d" % (key, i), int(c == "n"), HI)
                out.append(self.lits[code, i])
            else:
                out.append(LIN[c] if c in LIN else -1 if c == "w" else E)
        return tuple(out)

    def annotation(self, spec):
        if spec == "any":
            return Any
        if isinstance(spec, str):
            import asta.symbols  # noqa: F811

            return self.T[subscript(as_subscript(self.shape(spec), asta.symbols))]
        kind, rest = spec[0], spec[1:]
        if kind == "td":
            subs = [self.annotation(s) for s in rest[1:]]
            return td_type(rest[0], subs)[0]
        subs = [self.annotation(s) for s in rest]
        b = self.builtin
        if kind == "list":
            return list[subs[0]] if b else List[subs[0]]
        if kind == "seq":
            return collections.abc.Sequence[subs[0]] if b else Sequence[subs[0]]
        if kind == "set":
            return set[subs[0]] if b else Set[subs[0]]
        if kind == "dict":
            return dict[str, subs[0]] if b else Dict[str, subs[0]]
        if kind == "adict":
            return dict[Any, subs[0]] if b else Dict[Any, subs[0]]
        if kind == "vtup":
            return tuple[subs[0], ...] if b else Tuple[subs[0], ...]
        if kind == "tup":
            if not subs:
                return tuple[()] if b else Tuple[()]
            return tuple[tuple(subs)] if b else Tuple[tuple(subs)]
        if kind == "nt":
            return NamedTuple("NT", [("f%d" % i, a) for i, a in enumerate(subs)])
        if kind == "opt":
            return Optional[subs[0]]

    def value(self, spec, ann, counted=True, optional=False):
        """(value, condition, equations)"""
        me = self.node
        self.node += 1
        env = self.env
        if spec == "any":
            return env.pick("any%d" % me, [None, 3, "abc", (1,), make_value(env, self.fam, (2,))]), True, []
        if isinstance(spec, str):
            if self.fault == (me, "scalar"):
                return env.pick("bad%d" % me, ([] if optional else [None]) + [3, "abc", (1,)]), (False if counted else True), []
            shape = self.shape(spec)
            rank = len(shape) - (1 if E in shape else 0)
            dims = tuple(env.int("d%d_%d" % (me, i), 2 if shape[0] is LIN["s"] else 1, HI) for i in range(rank))
            v = make_value(env, self.fam, dims)
            if not counted:
                return v, True, []
            ((cond, eqs),) = placements(shape, dims)
            return v, cond, eqs
        kind, rest = spec[0], spec[1:]
        if kind == "opt":
            if env.bool("none%d" % me):
                return None, True, []
            return self.value(rest[0], ann.__args__[0], counted, True)
        if self.fault == (me, "type"):
            pool = {"list": [(), {}, None, 3, "ab"], "seq": [{}, None, 3, set()], "set": [[], (), None, 3], "dict": [[], (), None, 3], "adict": [[], (), None, 3],
                    "vtup": [[], {}, None, 3], "tup": [[], {}, None, 3], "nt": [(), [], {}, None], "td": [[], (), None, 3]}[kind]
            return env.pick("wrong%d" % me, [x for x in pool if (x is not None or not optional) and not (self.hashable and type(x).__hash__ is None)]), (False if counted else True), []
        cond, eqs = True, []
        kids = list(ann.__annotations__.values()) if kind in ("nt", "td") else [a for a in ann.__args__ if a is not Ellipsis]
        if kind == "td":
            kids = [k.__args__[0] if getattr(k, "__origin__", None) in (Required, NotRequired) else k for k in kids]
        if kind in ("dict", "adict"):
            kids = kids[1:]

        def add(sub, s, on=True):
            nonlocal cond
            v, c, e = self.value(s, sub, counted and on)
            cond = land(cond, c)
            eqs.extend(e)
            return v

        if kind in ("list", "seq", "set", "dict", "adict", "vtup"):
            n = self.lens.get(me, self.lens.get("all", 1))
            self.hashable = self.hashable or kind == "set"
            vals = [add(kids[0], rest[0], not (i and self.first_only and kind in ("list", "seq"))) for i in range(n)]
            if kind == "list":
                out = vals
                if env.pick("sub%d" % me, [False, True]):
                    out = type("MyList", (list,), {})(vals)
            elif kind == "seq":
                out = env.pick("as%d" % me, [list, tuple] if self.hashable else [list, tuple, collections.deque, Custom])(vals)
            elif kind == "set":
                out = set(vals)
            elif kind == "adict":
                out = dict(zip([0, "k", None, (1, 2)], vals))
            elif kind == "dict":
                out = env.pick("as%d" % me, [dict, collections.OrderedDict])(("k%d" % i, v) for i, v in enumerate(vals))
            else:
                out = tuple(vals)
            return out, cond, eqs
        if kind == "tup":
            vals = [add(a, s) for a, s in zip(kids, rest)]
            if self.fault == (me, "short"):
                return tuple(vals[:-1]), (False if counted else True), []
            if self.fault == (me, "long"):
                return tuple(vals) + (3,), (False if counted else True), []
            return tuple(vals), cond, eqs
        if kind == "nt":
            vals = [add(a, s) for a, s in zip(kids, rest)]
            if self.fault == (me, "plain"):
                return tuple(vals), (False if counted else True), []
            return ann(*vals), cond, eqs
        if kind == "td":
            subs = rest[1:]
            required = td_type(rest[0], kids)[1]
            out = {}
            for i, s in enumerate(subs):
                if self.fault in ((me, "missing"), (me, "no first")) and (i == 0) == (self.fault[1] == "no first"):
                    if required[i]:
                        cond = land(cond, False if counted else True)
                    continue
                out["k%d" % i] = add(kids[i], s)
            if self.fault == (me, "extra"):
                out["zz"] = 1
                cond = land(cond, False if counted else True)
            return out, cond, eqs


def call(fam, specs, lens, fault, builtin, first_only, ret):
    def run(env):
        config = {**CONFIG, "check-all-sequence-elements": "no" if first_only else "yes"}
        asta = load_for(env, fam, config=config)
        b = Build(env, asta, fam, lens, fault, builtin, first_only)
        anns = [b.annotation(s) for s in specs]
        built = [b.value(s, a) for s, a in zip(specs, anns)]
        vals = [v for v, _c, _e in built]
        ok = land(*[c for _v, c, _e in built], solvable([e for _v, _c, es in built for e in es]))
        if ret:
            names = {"x%d" % i: a for i, a in enumerate(anns[:-1])}
            fn = typed(asta, {**names, "return": anns[-1]}, lambda *a: vals[-1])
            got = env.attempt(fn, *vals[:-1])
        else:
            fn = typed(asta, {"x%d" % i: a for i, a in enumerate(anns)})
            got = env.attempt(fn, *vals)
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("accepted exactly when container and arrays match", iff(got.returned, ok))
        env.witness("accept" if got.returned else "reject")

    return run


def nodes(spec, lens, me=0):
    """(index, kind) of every node, in the order Build.value visits them."""
    out = [(me, spec if isinstance(spec, str) else spec[0])]
    nxt = me + 1
    if isinstance(spec, str):
        return out, nxt
    kind, rest = spec[0], spec[1:]
    subs = rest[1:] if kind == "td" else rest
    if kind in ("list", "seq", "set", "dict", "adict", "vtup"):
        subs = [rest[0]] * lens.get(me, lens.get("all", 1))
    for s in subs:
        more, nxt = nodes(s, lens, nxt)
        out += more
    return out, nxt


FAULTS = {"tup": ["type", "short", "long"], "nt": ["type", "plain"], "td": ["type", "missing", "no first", "extra"], "opt": [], "any": []}
SETS = ("torch",)  # arrays and eager tensors are not hashable

SPECS = [
    ("list", "i"), ("list", "X"), ("list", "w"), ("list", ".X"), ("seq", "i"), ("seq", "X"), ("dict", "i"), ("dict", "X"), ("vtup", "X"),
    ("vtup", "i"), ("tup", "i"), ("tup", "X", "X"), ("tup", "X", "s"), ("tup", "XY", "YX"), ("tup",), ("nt", "X", "X"), ("nt", "i", "w"),
    ("td", True, "X", "s"), ("td", False, "X", "X"), ("td", True, "i"), ("list", ("list", "X")), ("list", ("tup", "X", "i")),
    ("tup", ("list", "X"), "X"), ("dict", ("list", "X")), ("list", ("dict", "i")), ("vtup", ("tup", "X", "Y")), ("seq", ("seq", "i")),
    ("nt", ("list", "X"), "X"), ("td", True, ("list", "X"), ("tup", "X", "i")), ("list", ("nt", "X", "X")), ("list", ("td", False, "i")),
    ("adict", "i"), ("adict", "X"), ("list", ("adict", "i")), ("tup", "any", "X"), ("tup", "X", "any"), ("nt", "any", "i"), ("list", "any"),
    ("dict", "any"), ("td", "RN", "X", "i"), ("td", "Rn", "X", "i"), ("td", "Nr", "X", "i"), ("td", "10", "X", "i"), ("td", "01", "i", "X"), ("td", "01", "X", "X"),
    ("list", ("td", "10", "X", "i")), ("list", ("opt", "X")), ("tup", ("opt", "X"), "X"), ("dict", ("opt", ("list", "i"))), ("opt", ("list", "X")), ("seq", ("list", "X")),
    ("list", ("seq", "i")), ("list", ("list", ("list", "i"))), ("dict", ("dict", ("list", "X"))), ("tup", ("tup", ("tup", "X", "X"), "X"), "X"),
]
SETSPECS = [("set", "i"), ("set", "X"), ("list", ("set", "X")), ("set", ("tup", "X", "i")), ("dict", ("set", "i"))]
# (spec, number of elements): many elements, deep nestings
LONG = [
    (("list", "X"), 8), (("list", "n"), 12), (("seq", "X"), 8), (("dict", "n"), 8), (("vtup", "X"), 8), (("vtup", "n"), 12), (("tup",) + ("X",) * 8, 1), (("tup",) + ("n",) * 7, 1),
    (("nt",) + ("X",) * 6, 1), (("td", True) + ("X",) * 6, 1), (("td", False) + ("n",) * 6, 1), (("adict", "n"), 4),
    (("list", ("list", ("list", ("list", ("list", "X"))))), 1), (("dict", ("list", ("dict", ("list", ("tup", "X", "i"))))), 1), (("tup", ("vtup", ("seq", ("nt", ("list", "X"), "X"))), "X"), 1),
    (("list", ("td", True, ("dict", ("list", "X")), "X")), 1), (("list", ("list", "n")), 3), (("tup", ("list", "X"), ("dict", "X"), ("seq", "X"), ("vtup", "X")), 2),
]
PAIRS = [(("list", "X"), ("list", "X")), (("tup", "X", "Y"), ("list", "X")), (("dict", "X"), "X"), (("nt", "X", "X"), ("td", True, "X"))]


def scenarios(tier):
    out = []
    quick = tier == "quick"
    names = set()

    def add(fam, specs, lens, fault, builtin, first, ret, wit):
        name = "%s %s lens %s%s%s%s%s" % (fam, " and ".join(map(str, specs)), lens, " fault %s" % (fault,) if fault else "",
                                            " builtin" if builtin else "", " first only" if first else "", " return" if ret else "")
        if name not in names:
            names.add(name)
            out.append(Scenario(name, call(fam, specs, lens, fault, builtin, first, ret), tf=fam == "tf", witness=wit, budget=4))

    for fam in FAMILIES:
        specs = SPECS + (SETSPECS if fam in SETS else [])
        if quick and fam != "array":
            specs = [("list", "X"), ("dict", "i"), ("tup", "X", "s"), ("nt", "X", "X"), ("td", True, "X", "s")] + (SETSPECS if fam in SETS else [])
        for spec in specs:
            deep = str(spec).count("(") > 1
            for n in ((0, 1, 2) if not deep and quick else (1, 2) if quick else (0, 1, 2, 3) if not deep else (0, 1, 2)):
                lens = {"all": n}
                if str(spec).count("(") > 2 and n == 2:
                    lens = {"all": 1, 0: 2}
                add(fam, [spec], lens, None, False, False, False, ["accept"])
                if n == 2:
                    for first in (True,):
                        if "list" in str(spec) or "seq" in str(spec):
                            add(fam, [spec], lens, None, False, True, False, ["accept"])
                    add(fam, [spec], lens, None, True, False, True, ["accept"])
                if n == 1 or n == 2 and not deep:
                    for idx, kind in nodes(spec, lens)[0]:
                        for f in FAULTS.get(kind, ["scalar"] if kind in ("i", "X", "w", ".X", "s", "Y", "XY", "YX") else ["type"]):
                            if f == "short" and spec == ("tup",):
                                continue
                            add(fam, [spec], lens, (idx, f), False, False, False, [])
                            if n == 2 and idx == 2 and not quick:
                                add(fam, [spec], lens, (idx, f), False, True, False, [])
                            if n == 2 and idx == 2 and quick and spec[0] in ("list", "seq", "vtup", "dict"):
                                add(fam, [spec], lens, (idx, f), False, True, False, ["accept"] if spec[0] in ("list", "seq") else ["reject"])
        for spec, n in LONG if fam == "array" or not quick else LONG[::6]:
            lens = {"all": n}
            kinds = nodes(spec, lens)[0]
            for ret in (False, True):
                add(fam, [spec], lens, None, False, False, ret, ["accept"])
            if spec[0] in ("list", "seq"):
                add(fam, [spec], lens, None, False, True, False, ["accept"])
            for idx, kind in kinds[-1:] + kinds[len(kinds) // 2:][:1] + [k for k in kinds[1:] if k[0] > 2 and len(k[1]) > 1][:2]:
                add(fam, [spec], lens, (idx, FAULTS.get(kind, ["type"])[-1] if len(kind) > 1 else "scalar"), False, False, False, ["reject"])
        for pair in PAIRS if fam == "array" or not quick else PAIRS[:1]:
            for ret in (False, True):
                for n in (1, 2):
                    add(fam, list(pair), {"all": n}, None, False, False, ret, ["accept", "reject"])
    return out

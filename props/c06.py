"""C06: refining aliases."""
import datetime
import itertools

import numpy as np

from engine.scenario import Scenario
from props.common import E, FAMILIES, family_type, load_for, make_value, shape_matches
from engine.ops import iff, land, eq

HI = 1000
VALIDATE = 12
BOUNDS = {
    "quick": "chains of 1..2 refinements (3 for plain parts, and 11 longer chains of up to 6) out of shape, scalar shape, dtype, attributes and their combinations; sizes in [-1, 1000] (40 for TFTensor), value ranks 0..2, 3 element types (for arrays also strings and dates of given and of any size or unit); all types of the chain are checked after it was built; 2..3 aliases side by side refined with the same symbolic size in [-1, 3], [8, 12] or [254, 258]",
    "thorough": "all chains of up to 3 refinements, value ranks 0..3",
}
ASSUMPTIONS = [
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
]

# Element types without a size or unit, and with one.
KIND_ACCEPTS = {"u": ("<U5", "<U7"), "U": ("<U5",), "M": ("M8[s]", "M8[ns]"), "D": ("M8[s]",)}
KINDS = ["s", "t", "0", "d", "e", "a", "ds", "sa", "da", "dsa"]


def step(env, asta, fam, kind, i):
    """(subscript, {part: value})"""
    hi = 40 if fam == "tf" else HI
    parts, item = {}, []
    for c in kind:
        if c == "s":
            s = (env.int("s%d" % i, -1, hi), E)
            parts["shape"] = s
            item += list(s)
        elif c == "t":
            s = (env.int("s%d" % i, -1, hi),)
            parts["shape"] = s
            item += list(s)
        elif c == "0":
            parts["shape"] = ()
            item.append(())
        elif c in "uUMD":
            parts["dtype"] = KIND_ACCEPTS[c]
            item.append({"u": str, "U": np.dtype("<U5"), "M": datetime.datetime, "D": np.dtype("M8[s]")}[c])
        elif c in "de":
            lib = {"array": np, "torch": env.torch, "tf": env.tf}[fam]
            parts["dtype"] = ("int32",) if c == "d" else ("float64",)
            item.append(getattr(lib, parts["dtype"][0]))
        else:
            name = "ndim" if c == "a" else "tag"
            parts["attrs"] = (name, env.int("a%d" % i, 0, 3))
            item.append({name: parts["attrs"][1]})
    return (item[0] if len(item) == 1 else tuple(item)), parts


def chain(fam, kinds, rank):
    def run(env):
        asta = load_for(env, fam)
        T = family_type(asta, fam)
        hi = 40 if fam == "tf" else HI
        dims = tuple(env.int("d%d" % i, 0, hi) for i in range(rank))
        dts = ["int32", "float64", "int64"]
        if set("".join(kinds)) & set(KIND_ACCEPTS):
            dts = ["int32", "float64", "<U5", "<U7", "M8[s]", "M8[ns]"]
        dt = env.pick("dtype", dts)
        tag = env.int("tag", 0, 3) if "b" in "".join(kinds) else None
        v = make_value(env, fam, dims, dt, None if tag is None else {"tag": tag})
        types, models = [T], [{}]
        for i, kind in enumerate(kinds):
            item, parts = step(env, asta, fam, kind, i)
            out = env.attempt(lambda: types[-1][item])
            env.require("refining does not raise", out.returned)
            if not out.returned:
                return
            types.append(out.value)
            models.append({**models[-1], **parts})
        for t, m in zip(types, models):
            got = env.check(v, t)
            want = land(
                dt in m.get("dtype", (dt,)),
                shape_matches(m.get("shape"), dims),
                "attrs" not in m or eq(m["attrs"][1], rank if m["attrs"][0] == "ndim" else tag),
            )
            env.require("check does not raise", got.returned)
            if got.returned:
                env.require("keeps what was not given, replaces what was", iff(got.value, want))
                env.witness("accept" if got.value else "reject")

    return run


def siblings(fam, second):
    """Two aliases that were refined with the same sizes share nothing else."""

    def run(env):
        asta = load_for(env, fam)
        T = family_type(asta, fam)
        lib = {"array": np, "torch": env.torch, "tf": env.tf}[fam]
        low, high = env.pick("window", [(-1, 3), (8, 12), (254, 258)] if fam != "tf" else [(-1, 3), (8, 12)])
        n, d = env.int("n", low, high), env.int("d", max(low, 0), high)
        parts = {"d": {"dtype": "int32"}, "e": {"dtype": "float64"}, "a": {"ndim": 1}, "b": {"ndim": 2}, "": {}}
        alias = {"d": lambda: T[lib.int32], "e": lambda: T[lib.float64], "a": lambda: T[{"ndim": 1}], "b": lambda: T[{"ndim": 2}], "": lambda: T}
        form = {"i": lambda t: t[n], "it": lambda t: t[n, ...], "s": lambda t: t[(n,)], "dt": lambda t: t[lib.int32, n]}
        make = form[second]
        dt = env.pick("dtype", ["int32", "float64"])
        v = make_value(env, fam, (d,), dt)
        names = env.pick("order", [("d", "e", ""), ("", "d", "e"), ("a", "b", "d"), ("", "b", "a"), ("e", "a")])
        types = [env.attempt(lambda k=k: make(alias[k]())) for k in names]
        env.require("refining does not raise", all(t.returned for t in types))
        if not all(t.returned for t in types):
            return
        shape = (n, E) if second == "it" else (n,)
        for k, t in zip(names, types):
            want = parts[k]
            got = env.check(v, t.value)
            env.require("check does not raise", got.returned)
            if got.returned:
                env.require("each keeps its own parts", iff(got.value, land(
                    shape_matches(shape, (d,)),
                    (want.get("dtype", dt) if second != "dt" else "int32") == dt,
                    want.get("ndim", 1) == 1)))
                env.witness("accept" if got.value else "reject")
        if second != "dt":
            again = env.attempt(lambda: make(alias[names[0]]()))
            env.require("equal when written again", again.returned and bool(again.value == types[0].value))
            env.require("aliases of other parts differ", not any(bool(types[0].value == t.value) for t in types[1:]))

    return run


def scenarios(tier):
    out = []
    chains = [(k,) for k in KINDS]
    chains += list(itertools.product(KINDS, repeat=2))
    plain = ["t", "d", "a"]
    chains += [c for c in itertools.product(plain if tier == "quick" else KINDS, repeat=3)]
    if tier == "quick":
        chains += [("t", "d", "s"), ("a", "0", "e"), ("ds", "a", "t")]
    sized = [c for c in itertools.product("uUMDd", repeat=2) if c != ("d", "d")]
    sized += [(a, b, c) for a in "uUMD" for b in "tad" for c in "uUMDd"] + [("t", c) for c in "uUMD"]
    sized += [("us",), ("Us", "t"), ("u", "sa"), ("M", "s", "a"), ("ua", "D", "t"), ("Da", "0")]
    chains += [("t", "d", "a", "s"), ("d", "a", "t", "e", "a", "t"), ("a", "t", "a", "t"), ("sa", "d", "0", "e", "t")]
    tagged = [("b",), ("a", "b"), ("b", "a"), ("b", "t", "a"), ("b", "d", "b"), ("b", "s", "d", "a"), ("ta", "db", "t")]
    for fam in FAMILIES:
        for kinds in chains + (sized + tagged if fam == "array" else []):
            if fam != "array" and tier == "quick" and len(kinds) == 2 and any(len(k) > 1 for k in kinds) and kinds[0] != "s":
                continue
            for rank in ((1,) if tier == "quick" and len(kinds) > 1 and kinds[-1] != "0" else range(3 if tier == "quick" else 4)):
                if rank == 0 and "0" not in kinds and tier == "quick":
                    continue
                out.append(Scenario("%s %s rank %d" % (fam, " then ".join(kinds), rank),
                                    chain(fam, kinds, rank), tf=fam == "tf", witness=["accept"]))
    for fam in FAMILIES:
        for second in ("i", "it", "s", "dt"):
            out.append(Scenario("%s siblings [%s]" % (fam, second), siblings(fam, second), tf=fam == "tf", witness=["accept", "reject"], budget=10))
    return out

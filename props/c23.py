"""C23: what the messages say."""
import re
from typing import Dict, List, NamedTuple, Optional, Sequence, Tuple, TypedDict, Union

from engine import core
from engine.scenario import SIZES, Scenario
from engine.ops import iff, land, lnot, lor
from props.c17 import W
from props.common import CONFIG, E, FAMILIES, shape_matches, subscript, typed

BOUNDS = {
    "quick": "one to four parameters and the return value whose annotations are array types (rank 0..3 of literals, wildcards, ellipses, dimension and shape placeholders, with and without a dtype, with attributes), lists, sequences, tuples, dictionaries, typed dictionaries and named tuples of these to depth 3, unions, and ordinary types; all sizes in [0, 4000], dtypes matching or not, values of the wrong kind; raise-errors yes and no, print-passes yes and no; a decorated function which calls another; functions and methods",
    "thorough": "the same for all families, with all ordered pairs of annotations and as the return value",
}
ASSUMPTIONS = ["sizes of TensorFlow tensors are at most 40 (the replays use real ones)", "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
               "texts are compared for the parts the property names, not for their wording"]
VALIDATE = 40


class Leaf:
    """One value which is checked on its own."""

    def __init__(self, path, ok, actual=(), expected=(), array=True):
        self.path, self.ok, self.actual, self.expected, self.array = path, ok, list(actual), list(expected), array


def shape_text(pattern):
    return repr(tuple(pattern)).replace("Ellipsis", "...")


def array(w, tag, path, code):
    """``code``: pattern letters / rank of the value [/ dtypes of both]."""
    pattern, rank, *types = code.split("/")
    pat = []
    attrs = None
    for k, c in enumerate(pattern):
        pat.append({"p": lambda: w.i("%sp%d" % (tag, k), 0), "w": lambda: -1, ".": lambda: E, "K": lambda: w.dims.K, "S": lambda: w.shapes.S}[c]())
    now = []
    for c, p in zip(pattern, pat):
        now += [w.i("k", 1)] if c == "K" else [w.i("s0", 1), w.i("s1", 1)] if c == "S" else [p]
    dims = tuple(w.i("%sd%d" % (tag, k)) for k in range(int(rank)))
    value = w.arr(tag + "d", int(rank), types[1] if types else None, attrs)
    ok = shape_matches(now, dims)
    actual, expected = [repr(tuple(dims))], [shape_text(now)]
    ann = subscript(pat) if pat else ()
    if types:
        actual.append(types[1])
        expected.append(types[0])
        ann = w.T[(w.dtype(types[0]), *pat)] if pat else w.T[w.dtype(types[0]), ()]
        ok = land(ok, types[0] == types[1])
    else:
        ann = w.T[ann]
    return ann, value, [Leaf(path, ok, actual, expected)]


class Named(NamedTuple):
    a: int
    b: str


PLAIN = {
    # annotation, value, matches?, what the message says of the value
    "int": (int, 3, True, "int"), "int-": (int, "a", False, "str"), "str-": (str, 3, False, "int"), "float-": (float, "a", False, "str"),
    "complex-": (complex, 3, False, "int"), "list-": (List[int], (1,), False, "tuple"), "dict-": (Dict[str, int], [1], False, "list"),
    "tup-": (Tuple[int, ...], [1], False, "list"), "named-": (Named, (1, "b"), False, "tuple"), "seq-": (Sequence[int], {1}, False, "set"),
    "bytes-": (bytes, "a", False, "str"), "cls-": (Named, 3, False, "int"), "opt-": (Optional[int], "a", False, "str"),
    "un-": (Union[int, List[str]], 2.5, False, "float"), "td-": (TypedDict("TD", {"a": int}), [1], False, "list"),
}


def build(w, spec, tag, path):
    """(annotation, value, leaves) for a nested description."""
    if isinstance(spec, str):
        if spec in PLAIN:
            ann, value, ok, name = PLAIN[spec]
            return ann, value, [Leaf(path, ok, [name], [], False)]
        if spec == "wrong":
            return w.T[w.i(tag + "p0", 0)], "text", [Leaf(path, False, ["str"])]
        if spec[0] == "?":  # a union
            ann, value, leaves = array(w, tag, path, spec[1:])
            return Union[ann, str], value, [Leaf(path, leaves[0].ok, [type_name(w)], [], False)]
        return array(w, tag, path, spec)
    kind, *subs = spec
    if kind in ("list", "seq", "var"):
        # All elements have the first one's annotation.
        anns, values, leaves = [], [], []
        for k in range(subs[1]):
            w.memo = Shared(w.memo, tag, k)
            a, v, l = build(w, subs[0], tag + "e", "%s[%d]" % (path, k))
            w.memo = w.memo.inner
            anns.append(a), values.append(v), leaves.extend(l)
        ann = {"list": List, "seq": Sequence}.get(kind)
        return (ann[anns[0]] if ann else Tuple[anns[0], ...]), (tuple(values) if kind != "list" else values), leaves
    if kind == "dict":
        anns, values, leaves = [], {}, []
        for k in range(subs[1]):
            w.memo = Shared(w.memo, tag, k)
            a, v, l = build(w, subs[0], tag + "e", "%s[%s]" % (path, "key%d" % k))
            w.memo = w.memo.inner
            anns.append(a), leaves.extend(l)
            values["key%d" % k] = v
        return Dict[str, anns[0]], values, leaves
    parts = []
    for k, s in enumerate(subs):
        sub = {"tup": "%s[%d]" % (path, k), "td": "%s[key%d]" % (path, k), "nt": "%s.fld%d" % (path, k)}[kind]
        parts.append(build(w, s, "%s%s" % (tag, "abcdef"[k]), sub))
    leaves = [l for p in parts for l in p[2]]
    if kind == "tup":
        return Tuple[tuple(p[0] for p in parts)], tuple(p[1] for p in parts), leaves
    if kind == "td":
        return TypedDict("TD", {"key%d" % k: p[0] for k, p in enumerate(parts)}), {"key%d" % k: p[1] for k, p in enumerate(parts)}, leaves
    nt = NamedTuple("NT", [("fld%d" % k, p[0]) for k, p in enumerate(parts)])
    return nt, nt(*[p[1] for p in parts]), leaves


class Shared(dict):
    """Inputs of one element of a homogeneous container: sizes are its own, the
    pattern is shared by all elements."""

    def __init__(self, inner, tag, k):
        self.inner, self.prefix = inner, "%s#%d " % (tag, k)

    def key(self, name):
        head = name.rstrip("0123456789")
        return name if head.endswith("p") or name in ("k", "s0", "s1") else self.prefix + name

    def __contains__(self, name):
        return self.key(name) in self.inner

    def __getitem__(self, name):
        return self.inner[self.key(name)]

    def __setitem__(self, name, value):
        self.inner[self.key(name)] = value


def unique(w, env):
    """``w.i`` asks for inputs under names which are unique."""
    plain = w.i

    def i(name, lo=0, hi=None):
        if name not in w.memo:
            full = name
            m = w.memo
            while isinstance(m, Shared):
                full = m.key(full)
                m = m.inner
            w.memo[name] = env.int(full.replace("#", "_").replace(" ", "_"), lo, SIZES if hi is None else hi)
        return w.memo[name]

    w.i = i


def type_name(w):
    return {"array": "ndarray", "torch": "Tensor", "tf": "Tensor"}[w.fam]


def shows(line, text):
    """``text`` occurs in the line; a shape may be written with other terms
    which have the same values."""
    if text in line:
        return True
    if not (core.OPEN in line + text and text[0] == "("):
        return False
    return lor(*[core.ctx().str_eq(group, text) for group in re.findall(r"\([^()]*\)", line)])


def says(line, leaf):
    """The line is about this leaf and says what it should."""
    return land("'%s'" % leaf.path in line, *[shows(line, t) for t in leaf.actual + leaf.expected])


def check_lines(env, leaves, lines, passes, header):
    """What is printed with raise-errors=no."""
    failed = [l for l in lines if "FAILED" in l]
    passed = [l for l in lines if "PASSED" in l]
    for leaf in leaves:
        about = [l for l in failed if "'%s'" % leaf.path in l]
        env.require("%s: FAILED is printed iff it does not match" % leaf.path, iff(lnot(leaf.ok), bool(about)))
        env.require("%s: and says what it is" % leaf.path, says(about[0], leaf) if about else True)
        about = [l for l in passed if "'%s'" % leaf.path in l]
        if leaf.array and passes:
            env.require("%s: PASSED is printed iff it matches" % leaf.path, iff(leaf.ok, bool(about)))
            env.require("%s: and says what it is" % leaf.path, says(about[0], leaf) if about else True)
        else:
            env.require("%s: no PASSED line" % leaf.path, passes or not about)
    known = ["'%s'" % leaf.path for leaf in leaves]
    for l in failed + (passed if passes else []):
        env.require("every line is about one of the values", any(k in l for k in known))
    for k, l in enumerate(lines):
        if "FAILED" in l or "PASSED" in l:
            env.require("a header with the function's name comes first", any(header in h for h in lines[:k]))


def one_call(fam, specs, where, hard):
    def run(env):
        memo = {}
        w = W(env, fam, memo)
        unique(w, env)
        prints = env.pick("print-passes", ["no", "yes"])
        w.start({**CONFIG, "raise-errors": "yes" if hard else "no", "print-passes": prints, "check-non-asta-types": "yes"})
        names, args, leaves = {}, [], []
        result = None
        late = "K" in str(specs) or "S" in str(specs)
        for n, s in enumerate(specs):
            last = where == "return" and n == len(specs) - 1
            name = "return" if last else "arg%d" % n
            ann, value, ls = build(w, s, "x%d" % n, name)
            names[name] = ann
            leaves += ls
            if last:
                result = value
            else:
                args.append(value)
        if late:
            w.dims.K = w.i("k", 1)
            w.shapes.S = (w.i("s0", 1), w.i("s1", 1))
        fn = typed(w.asta, names, lambda *a: result)
        start = len(env.output())
        got = env.attempt(fn, *args)
        lines = env.output()[start:].split("\n")
        if not hard:
            env.require("soft mode never stops the program", got.returned)
            check_lines(env, leaves, lines, prints == "yes", "user.fn")
            env.witness("done")
            return
        env.require("accepted iff every value matches", iff(land(*[l.ok for l in leaves]), got.returned))
        if got.returned:
            env.witness("accept")
            return
        env.require("raises TypeError", got.raised(TypeError))
        text = str(got.error)
        named = [l for l in leaves if "'%s'" % l.path in text]
        env.require("the message is about a value which does not match", lor(*[land(lnot(l.ok), says(text, l)) for l in named]))
        env.require("a header with the function's name was printed", any("user.fn" in h for h in lines))
        if prints == "yes":
            passed = [l for l in lines if "PASSED" in l]
            for l in leaves:
                about = any("'%s'" % l.path in p for p in passed)
                env.require("%s: PASSED only if it matches" % l.path, lor(l.ok, not about))
        else:
            env.require("no PASSED line", not any("PASSED" in l for l in lines))
        env.witness("reject")

    return run


def lengths(fam, kind, want, have):
    """A tuple of the wrong length; missing or extra keys."""

    def run(env):
        w = W(env, fam, {})
        w.start({**CONFIG, "check-non-asta-types": "yes"})
        t = [w.T[w.i("p%d" % k)] for k in range(want)]
        v = [w.arr("d%d" % k, 1) for k in range(have)]
        if kind == "tup":
            ann, value = Tuple[tuple(t)] if t else Tuple[()], tuple(v)
        else:
            ann = TypedDict("TD", {"key%d" % k: x for k, x in enumerate(t)})
            value = {"key%d" % k: x for k, x in enumerate(v)}
        got = env.attempt(typed(w.asta, {"arg0": ann}), value)
        env.require("raises TypeError", got.raised(TypeError))
        text = str(got.error)
        env.require("names the value", "'arg0'" in text)
        if kind == "tup" and want:
            a, b = text.find("(%d)" % have), text.find("length %d" % want)
            env.require("with both lengths", a >= 0 and b >= 0)
        elif kind == "td":
            env.require("with the keys", all("key%d" % k in text for k in range(max(want, have))))
        env.witness("reject")

    return run


def nested_calls(fam, depth, mode):
    """Functions which call one another: the header names the right one."""

    def run(env):
        w = W(env, fam, {})
        prints = env.pick("print-passes", ["no", "yes"])
        w.start({**CONFIG, "raise-errors": "no", "print-passes": prints, "check-non-asta-types": "yes"})
        ns = {"check": w.asta.typechecked, "T": w.T, "p": [w.i("p%d" % k) for k in range(depth)], "v": [w.arr("d%d" % k, 1) for k in range(depth)]}
        src = ""
        for k in range(depth):
            inner = "level%d(v[%d])" % (k + 1, k + 1) if k + 1 < depth else "None"
            src += "@check\ndef level%d(arg%d: T[p[%d]]) -> T[p[%d]]:\n    %s\n    return v[%d]\n" % (k, k, k, k, inner, k)
        if mode == "method":
            src = "class C:\n" + "".join("    " + l.replace("arg", "self, arg").replace("level", "method") + "\n" if "def" in l else "    " + l.replace("level", "self.method") + "\n" for l in src.splitlines())
            src += "top = C().method0\n"
        else:
            src += "top = level0\n"
        exec(src, {**ns, "__name__": "user"}, out := {}) if mode == "method" else exec(src, out := {**ns, "__name__": "user"})
        start = len(env.output())
        got = env.attempt(out["top"], ns["v"][0])
        env.require("soft mode never stops the program", got.returned)
        current = None
        seen = []
        for line in env.output()[start:].split("\n"):
            if "asta::" in line:
                current = line
            elif "FAILED" in line or "PASSED" in line:
                seen.append((current, line))
        name = "C.method%d" if mode == "method" else "user.level%d"
        for k in range(depth):
            ok = ns["p"][k] == ns["v"][k].shape[0]
            bad = [(c, l) for c, l in seen if "FAILED" in l and "'arg%d'" % k in l]
            env.require("argument %d: FAILED iff it does not match" % k, iff(lnot(ok_dim(ns["p"][k], ns["v"][k].shape[0])), bool(bad)))
            env.require("argument %d: under its function's header" % k, all(c is not None and name % k in c for c, _l in bad))
        if prints == "no":
            # Each failure has a header of its own; the results fail from the
            # innermost call outwards.
            order = [c for c, l in seen if "'return'" in l]
            expect = [k for k in reversed(range(depth)) if any("'arg%d'" % k in l for _c, l in seen)]
            env.require("the results' headers name their functions", len(order) == len(expect) and all(name % k in c for k, c in zip(expect, order)))
        env.witness("done")

    return run


def ok_dim(p, d):
    return lor(p == d, land(p == -1, d > 0))


def systems(fam, n, where):
    """No assignment of the symbols."""

    def run(env):
        w = W(env, fam, {})
        w.start({**CONFIG, "check-non-asta-types": "yes"})
        names = {"arg%d" % k: w.T[w.sym.Xyz] for k in range(n)}
        vs = [w.arr("d%d" % k, 1) for k in range(n)]
        result = None
        if where == "return":
            names = {**{k: v for k, v in list(names.items())[:-1]}, "return": w.T[w.sym.Xyz]}
            result = vs.pop()
        got = env.attempt(typed(w.asta, names, lambda *a: result), *vs)
        if got.returned:
            env.witness("accept")
            return
        env.require("raises TypeError", got.raised(TypeError))
        env.require("the message names the symbol", "Xyz" in str(got.error))
        env.witness("reject")

    return run


def unset(fam, form, rank):
    """A placeholder which is not set: it is named, and nothing passes."""

    def run(env):
        w = W(env, fam, {})
        hard = env.pick("raise-errors", ["no", "yes"])
        w.start({**CONFIG, "raise-errors": hard, "print-passes": "yes", "check-non-asta-types": "yes"})
        ann = {"dim": lambda: w.T[w.dims.Lost], "expr": lambda: w.T[w.dims.Lost + 1, w.i("p0", 0)], "shape": lambda: w.T[w.shapes.Lost], "unpacked": lambda: w.T[(*w.shapes.Lost,)],
               "sum": lambda: w.T[w.shapes.Lost + (1,)], "dtype": lambda: w.T[w.dtype("float32"), w.dims.Lost]}[form]()
        if env.pick("inside", [False, True]):
            ann, value, path = List[ann], [w.arr("d", rank)], "arg1[0]"
        else:
            value, path = w.arr("d", rank), "arg1"
        other = w.arr("e", 1)
        start = len(env.output())
        got = env.attempt(typed(w.asta, {"arg0": w.T[...], "arg1": ann}), other, value)
        out = env.output()[start:]
        env.require("refused, or the failure is printed", got.raised(TypeError) if hard == "yes" else got.returned)
        if got.returned == (hard == "no"):
            text = str(got.error) if hard == "yes" else "".join(l for l in out.split("\n") if "FAILED" in l)
            # The other argument may fail too (sizes of zero).
            fails = land(other.shape[0] == 0, hard == "yes")
            env.require("the placeholder is named", lor(fails, "'Lost'" in text))
            env.require("the value does not pass", not any("PASSED" in l and "'%s'" % path in l for l in out.split("\n")))
        env.witness("done")

    return run


ONE = ["p/1", "p/0", "/0", "/1", "pp/2", "pp/1", "w/1", "wp/2", ".p/1", ".p/2", "p.p/3", "p./1", "K/1", "S/2", "Kp/2", "p/1/float32/float32", "p/1/float32/int32", "w/1/int32/float64", "wrong",
       "?p/1", "?pp/2", *PLAIN]
NESTED = [
    ("list", "p/1", 1), ("list", "p/1", 3), ("list", "wp/2", 2), ("seq", "p/1", 2), ("var", "p/1", 3), ("dict", "p/1", 2), ("tup", "p/1", "pp/2"), ("tup", "p/1", "int-", "p/1"), ("td", "p/1", "p/1"),
    ("nt", "p/1", "p/1"), ("nt", "int-", "p/1"), ("list", ("tup", "p/1", "p/1"), 2), ("dict", ("list", "p/1", 2), 2), ("tup", ("list", "p/1", 1), ("dict", "p/1", 1)), ("td", ("list", "p/1", 2), "int-"),
    ("list", ("list", ("list", "p/1", 1), 2), 1), ("nt", ("tup", "p/1", "w/1"), "K/1"), ("list", "K/1", 2), ("list", "p/1/float32/float32", 2), ("tup", "?p/1", "p/1"), ("list", "int-", 2),
]
MORE = [
    ["p/1", "p/1"], ["int-", "p/1"], ["p/1", ("list", "p/1", 2)], ["p/1", "int", "p/1"], ["p/1", "pp/2", "wrong"], ["p/1", "p/1", "p/1", "p/1"], ["K/1", "S/2", "p/1"], ["?p/1", "p/1"],
    [("tup", "p/1", "p/1"), ("list", "p/1", 1), "str-"], ["p/1", "p/1", "int", "p/1", "p/1", "p/1"], ["p/1", "int-", ("list", "p/1", 2), "p/1", ("tup", "int-", "p/1")],
    [("list", "p/1", 5), "p/1"],
]


def scenarios(tier):
    out = []
    quick = tier == "quick"

    def add(fam, specs, where):
        label = "%s %s %s" % (fam, " ".join(map(str, specs)), where)
        for hard in (True, False):
            out.append(Scenario(label + (" raise" if hard else " print"), one_call(fam, specs, where, hard), tf=fam == "tf", witness=("reject",) if hard and all(s not in ("int", "/0") for s in specs) else () if hard else ("done",)))

    for fam in FAMILIES:
        few = quick and fam != "array"
        for s in ONE:
            if few and (s in PLAIN or s not in ("p/1", ".p/2", "p/1/float32/int32", "wrong", "?p/1", "/0")):
                continue
            if fam != "array" and s in PLAIN:
                continue
            add(fam, [s], "arg")
            if not quick or s in ("p/1", "wrong", "int-", "?p/1", "K/1"):
                add(fam, [s], "return")
        for s in NESTED[:3:2] if few else NESTED:
            add(fam, [s], "arg")
            if not quick or s in NESTED[:4]:
                add(fam, [s], "return")
        for specs in MORE[:1] if few else MORE:
            add(fam, specs, "arg")
            add(fam, specs, "return")
        if not few:
            base = ["p/1", ".p/2", "wrong", "?p/1", ("list", "p/1", 2), ("tup", "p/1", "p/1"), "K/1"] + (["int-", "opt-"] if fam == "array" else [])
            for a in base:
                for b in base:
                    if [a, b] not in MORE:
                        add(fam, [a, b], "arg")
        for form in ("dim", "expr", "shape", "unpacked", "sum", "dtype")[:3 if few else 6]:
            for rank in (1,) if few else (0, 1, 2):
                out.append(Scenario("%s unset %s rank %d" % (fam, form, rank), unset(fam, form, rank), tf=fam == "tf", witness=("done",)))
        if few:
            continue
        for want in range(0, 4):
            for have in range(0, 4):
                if want != have:
                    out.append(Scenario("%s tuple of %d for %d" % (fam, have, want), lengths(fam, "tup", want, have), tf=fam == "tf", witness=("reject",)))
                    out.append(Scenario("%s typed dict of %d for %d" % (fam, have, want), lengths(fam, "td", want, have), tf=fam == "tf", witness=("reject",)))
        for depth in (1, 2, 3):
            for mode in ("function", "method"):
                out.append(Scenario("%s calls %d deep, %s" % (fam, depth, mode), nested_calls(fam, depth, mode), tf=fam == "tf", witness=("done",)))
        for n in (2, 3):
            for where in ("arg", "return"):
                out.append(Scenario("%s system of %d %s" % (fam, n, where), systems(fam, n, where), tf=fam == "tf", witness=("accept", "reject")))
    return out

"""C10: arguments are checked against the parameters they are bound to."""
import itertools

from engine.scenario import SIZES, Scenario
from engine.ops import iff, land
from props.common import CONFIG, FAMILIES, dim_ok, family_type, load_for, make_value, typed

HI = SIZES
BOUNDS = {
    "quick": "all signatures of 1..2 parameters and selected ones of 3 (positional-only, ordinary, keyword-only; with and without defaults; with and without a leading self/cls/mcs, or an annotated first parameter of such a name), every way to pass up to n+1 positional arguments and any subset of keywords in any order, an unknown and a repeated keyword; 6 signatures of 6 or 7 parameters with 16 ways to call each; functions of 1..3 parameters some of which have no annotation; one-dimensional arrays with sizes in [0, 4000] against literal sizes",
    "thorough": "all signatures of 1..3 parameters and selected ones of 4, for the three families",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "functions with *args or **kwargs are outside the claim",
    "Python's own call of the undecorated function says which value each parameter is bound to",
]
VALIDATE = 40


def source(sig, ref, first="a"):
    """Parameter list; sig is e.g. 'pNk': lower case without default."""
    parts = [ref] if ref else []
    names = []
    for i, k in enumerate(sig):
        n = "abcdefgh"[i] if i else first
        names.append(n)
        parts.append(n + ("=_d%s" % n if k.isupper() else ""))
    off = 1 if ref else 0
    npos = len([k for k in sig if k in "pP"])
    nkw = len([k for k in sig if k in "kK"])
    if nkw:
        parts.insert(off + len(sig) - nkw, "*")
    if npos:
        parts.insert(off + npos, "/")
    return names, ", ".join(parts)


def signatures(n):
    out = []
    for kinds in itertools.product("pnk", repeat=n):
        if list(kinds) != sorted(kinds, key="pnk".index):
            continue
        for dflt in itertools.product([0, 1], repeat=n):
            pos = [d for k, d in zip(kinds, dflt) if k != "k"]
            if pos != sorted(pos):
                continue
            out.append("".join(k.upper() if d else k for k, d in zip(kinds, dflt)))
    return out


def shapes_of_calls(n, names):
    """(number of positional arguments, keywords in order)"""
    out = []
    for k in range(n + 2):
        for r in range(n + 1):
            for kws in itertools.permutations(names, r):
                if k + r > n + 1:
                    continue
                out.append((k, kws))
        out.append((k, ("zz",)))
    return out


def long_calls(n, names):
    """Selected calls of functions with many parameters."""
    half, last = n // 2, names[-1]
    back = tuple(reversed(names))
    return [
        (n, ()), (n - 1, ()), (n + 1, ()), (0, tuple(names)), (0, back), (half, back[:n - half]), (half, tuple(names[half:])),
        (n - 1, (last,)), (n, (last,)), (1, tuple(names[2:])), (1, tuple(names[1:-1])), (half, (names[0],) + tuple(names[half + 1:])),
        (n - 1, ("zz",)), (2, back[:n - 3]), (2, tuple(n for n in names[3:])), (n - 2, (last,)),
    ]


def binding(fam, sig, ref, how, part):
    # An annotated first parameter is an ordinary one, whatever its name.
    names, params = source(sig, None, ref) if how == "annotated" else source(sig, ref)
    if how == "annotated":
        ref = None
    calls = (shapes_of_calls if len(names) < 5 else long_calls)(len(names), names)[part[0]::part[1]]

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        T = family_type(asta, fam)
        k, kws = env.pick("call", calls)
        size, vals = {}, {}

        def value(tag):
            size[tag] = env.int("d_" + tag, 0, HI)
            vals[tag] = make_value(env, fam, (size[tag],))
            return vals[tag]

        ns = {"_d" + n: value("default_" + n) for n, s in zip(names, sig) if s.isupper()}
        args = [value("pos%d" % i) for i in range(k)]
        kwargs = {n: value("kw_" + n) for n in kws}
        ran = []
        ns["_ran"] = ran
        exec("def fn(%s):\n    _ran.append(dict(%s))\n    return None" % (params, ", ".join("%s=%s" % (n, n) for n in names)), ns)
        plain = ns["fn"]
        me = object() if how != "missing" else None
        owner = ([me] if ref and how == "first" else [])
        extra = {ref: me} if how == "keyword" else {}
        bound = env.attempt(plain, *owner, *args, **kwargs, **extra)
        where = dict(ran[0]) if ran else None
        del ran[:]
        pat = {n: env.int("p_" + n, 0, HI) for n in names}
        plain.__annotations__ = {n: T[pat[n]] for n in names}
        plain.__module__ = "user"
        fn = asta.typechecked(plain)
        if how == "bound":
            cls = type("C", (), {"m": fn})
            call = cls().m
            inner = type("C", (), {"m": plain})().m
            bound = env.attempt(inner, *args, **kwargs)
            where = dict(ran[0]) if ran else None
            del ran[:]
            got = env.attempt(call, *args, **kwargs)
        else:
            got = env.attempt(fn, *owner, *args, **kwargs, **extra)
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        if not bound.returned:
            env.require("an impossible call raises TypeError", got.raised(TypeError))
            env.require("and does not run the function", not ran)
            env.witness("unbindable")
            return
        tag = {id(v): t for t, v in vals.items()}
        ok = land(*[dim_ok(pat[n], size[tag[id(where[n])]]) for n in names])
        env.require("accepted exactly when each value fits its parameter", iff(got.returned, ok))
        env.require("runs exactly when accepted", len(ran) == (1 if got.returned else 0))
        if got.returned:
            env.require("with the same arguments", all(ran[0][n] is where[n] for n in names))
        env.witness("accept" if got.returned else "reject")

    return run


def order(fam):
    """Annotations need not be in the order of the parameters."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        T = family_type(asta, fam)
        names = ["a", "b", "c"]
        perm = env.pick("perm", list(itertools.permutations(names + ["return"])))
        sizes = {n: env.int("d_" + n, 0, HI) for n in names + ["return"]}
        pat = {n: env.int("p_" + n, 0, HI) for n in names + ["return"]}
        vals = {n: make_value(env, fam, (sizes[n],)) for n in names + ["return"]}
        ns = {"_r": vals["return"]}
        exec("def fn(a, b, c):\n    return _r", ns)
        ns["fn"].__annotations__ = {n: T[pat[n]] for n in perm}
        ns["fn"].__module__ = "user"
        got = env.attempt(asta.typechecked(ns["fn"]), vals["a"], c=vals["c"], b=vals["b"])
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("by name", iff(got.returned, land(*[dim_ok(pat[n], sizes[n]) for n in perm])))
        env.witness("accept" if got.returned else "reject")

    return run


def shared_value(fam, n):
    """The same object may be given for several parameters."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        T = family_type(asta, fam)
        names = list("abcd"[:n])
        which = env.pick("which", list(itertools.product(range(2), repeat=n)))
        sizes = [env.int("d%d" % k, 0, HI) for k in range(2)]
        vals = [make_value(env, fam, (s,)) for s in sizes]
        pat = {m: env.int("p_" + m, 0, HI) for m in names}
        nested = env.pick("nested", [None, 0, n - 1])
        anns = {m: list[T[pat[m]]] if i == nested else T[pat[m]] for i, m in enumerate(names)}
        args = [[vals[k], vals[k]] if i == nested else vals[k] for i, k in enumerate(which)]
        fn = typed(asta, anns)
        kw = env.pick("keywords", [0, 1, n])
        got = env.attempt(fn, *args[:n - kw], **{m: a for m, a in zip(names[n - kw:], args[n - kw:])})
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("every parameter counts", iff(got.returned, land(*[dim_ok(pat[m], sizes[k]) for m, k in zip(names, which)])))
        env.witness("accept" if got.returned else "reject")

    return run


def forgotten(fam, n):
    """Parameters without an annotation are refused."""

    def run(env):
        asta = load_for(env, fam, config=CONFIG)
        T = family_type(asta, fam)
        first = env.pick("first", ["a", "self", "cls", "mcs", "_cls"])
        names = [first] + list("bcd"[:n - 1])
        keyword_only = env.pick("keyword_only", range(n))  # this many at the end
        defaults = env.pick("defaults", range(n + 1 - (first != "a")))
        missing = env.pick("missing", [m for m in itertools.product((False, True), repeat=n) if any(m)])
        params = [m + ("=_d" if i >= n - defaults else "") for i, m in enumerate(names)]
        if keyword_only:
            params.insert(n - keyword_only, "*")
        given = env.pick("given", ["all", "needed"])
        size, pat = env.int("d", 0, HI), env.int("p", 0, HI)
        value = make_value(env, fam, (size,))
        ran = []
        ns = {"_ran": ran, "_d": value}
        exec("def fn(%s):\n    _ran.append(1)\n    return 5" % ", ".join(params), ns)
        fn = ns["fn"]
        fn.__annotations__ = {m: T[pat] for m, gone in zip(names, missing) if not gone}
        if env.bool("returns"):
            fn.__annotations__["return"] = int
        fn.__module__ = "user"
        last = n if given == "all" else n - defaults
        args = [value for i in range(min(last, n - keyword_only))]
        kwargs = {names[i]: value for i in range(n - keyword_only, last)}
        got = env.attempt(asta.typechecked(fn), *args, **kwargs)
        if first != "a" and missing[0] and not any(missing[1:]):
            env.require("self needs none", iff(got.returned, dim_ok(pat, size) if n > 1 else True))
            env.witness("self")
        else:
            env.require("refused", got.raised(TypeError))
            env.witness("refused")
        env.require("runs exactly when accepted", len(ran) == (1 if got.returned else 0))

    return run


LONG = ["nnnnnn", "pnnNkK", "ppnNNN", "nnNNNkK", "kkkkkk", "NNNNNNN"]


def scenarios(tier):
    out = []
    quick = tier == "quick"
    three = ["nnn", "nNN", "pnk", "PNK", "nnk", "nKK", "nkK", "npn"[::2] + "N", "pnN", "NkK"]
    for fam in FAMILIES:
        tf = fam == "tf"
        sigs = signatures(1) + signatures(2)
        sigs += three if quick else signatures(3) + ["nnNN", "pnNk", "pnkK"]
        if quick and fam != "array":
            sigs = ["nN", "nnk"]
        for sig in LONG if fam == "array" or not quick else LONG[:1]:
            for ref, how in [(None, "plain"), ("self", "bound")] if sig in LONG[:2] else [(None, "plain")]:
                for p in range(4):
                    out.append(Scenario("%s %s%s part %d" % (fam, "%s %s " % (ref, how) if ref else "", sig, p), binding(fam, sig, ref, how, (p, 4)), tf=tf, budget=8))
        for sig in sigs:
            refs = [(None, "plain")]
            if len(sig) == 1 or (quick and sig in ("nN", "nk", "pn", "nnk")) or (not quick and len(sig) == 2):
                refs += [("self", "first"), ("cls", "first"), ("self", "bound")]
                refs += [("mcs", "first")] if len(sig) == 1 else []
                refs += [(r, "annotated") for r in ("self", "cls", "mcs", "_cls")]
                refs += [("self", "keyword")] if sig[0] not in "pP" else []
            parts = 1 if len(sig) < 3 else 4 if len(sig) == 3 else 12
            for ref, how in refs:
                for p in range(parts):
                    wit = ["unbindable"] if ref is None else []
                    out.append(Scenario("%s %s(%s)%s" % (fam, "%s %s " % (ref, how) if ref else "", sig, " part %d" % p if parts > 1 else ""),
                                        binding(fam, sig, ref, how, (p, parts)), tf=tf, witness=[] if parts > 1 else wit, budget=len(sig) ** 3))
        for n in (2, 3):
            out.append(Scenario("%s the same object %d times" % (fam, n), shared_value(fam, n), tf=tf, witness=["accept", "reject"], budget=20))
        for n in (1, 2, 3) if fam == "array" or not quick else (2,):
            out.append(Scenario("%s %d parameters, some not annotated" % (fam, n), forgotten(fam, n), tf=tf, witness=["self", "refused"], budget=20))
        out.append(Scenario("%s annotations in any order" % fam, order(fam), tf=tf, witness=["accept", "reject"], budget=20))
    return out

"""C16: the switch."""
import os

from engine.scenario import SIZES, Scenario
from engine.ops import iff, land, lnot, lor
from props.common import CONFIG, dim_ok, family_type, load_for, make_value, typed

HI = SIZES
VALUES = ["1", "0", "", "yes", "no", "true", "on", "01", "1 ", "2", "11", "None"]
BOUNDS = {
    "quick": "on and print-passes in {yes, no}, in a file or by default; ASTA_TYPECHECK unset or one of 12 values at import, at each of 2 (or 3 or 4) decorations, between them and the calls, and at the calls; functions, methods, classes with methods, class methods and static methods; an array of one dimension with size in [0, 4000] against a size in [0, 4000]",
    "thorough": "the same with 3 decorations and the three families",
}
ASSUMPTIONS = ["sizes of TensorFlow tensors are at most 40 (the replays use real ones)", "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used"]
VALIDATE = 40


def set_env(env, tag, fixed=None):
    """Put ASTA_TYPECHECK in some state; returns whether it allows checking."""
    if not env.bool("set_" + tag):
        os.environ.pop("ASTA_TYPECHECK", None)
        return True
    v = env.strsym("env_" + tag, VALUES)
    os.environ["ASTA_TYPECHECK"] = v
    return v, tag


def allows(env, state):
    """Decided late: the package must look at the value before the check does."""
    if state is True:
        return True
    v, tag = state
    from engine import runtime

    return runtime.eq(v, "1") if env.symbolic else v == "1"


def config(env, how):
    """(config, on, print-passes)"""
    if how == "none":
        return None, True, True
    if how == "partial":
        p = env.pick("print", ["yes", "no"])
        return {"print-passes": p}, True, p == "yes"
    on = env.strsym("on", ["yes", "no"])
    return {**CONFIG, "on": on}, on, False


def is_on(env, on):
    if on is True:
        return True
    from engine import runtime

    return runtime.eq(on, "yes") if env.symbolic else on == "yes"


class Thing:
    """Something to decorate: how to make it and how to call what came out."""

    def __init__(self, env, asta, kind, fam, tag):
        self.env, self.asta, self.kind, self.tag = env, asta, kind, tag
        self.n = env.int("n_" + tag, 0, HI)
        self.ran = []
        t = family_type(asta, fam)[self.n]
        ran = self.ran
        if kind == "function":
            def f(x):
                ran.append(x)
                return 5

            f.__annotations__ = {"x": t}
            self.obj, self.members = f, None
        elif kind == "return":
            def f(x):
                ran.append(x)
                return x

            f.__annotations__ = {"x": object, "return": t}
            self.obj, self.members = f, None
        elif kind == "unannotated":
            def f():
                ran.append(None)
                return 5

            self.obj, self.members = f, None
        else:
            class C:
                def m(self, x):
                    ran.append(x)
                    return 5

                @classmethod
                def c(cls, x):
                    ran.append(x)
                    return 5

                @staticmethod
                def s(x):
                    ran.append(x)
                    return 5

            for fn in (C.m, C.__dict__["c"].__func__, C.__dict__["s"].__func__):
                fn.__annotations__ = {"x": t}
            self.obj = C
            self.members = dict(C.__dict__)

    def decorate(self):
        self.out = self.asta.typechecked(self.obj)

    def same(self):
        """Nothing at all changed."""
        if self.out is not self.obj:
            return False
        return self.members is None or all(self.obj.__dict__.get(k) is v for k, v in self.members.items() if k in ("m", "c", "s")) \
            and set(self.obj.__dict__) == set(self.members)

    def calls(self, v):
        if self.kind == "unannotated":
            return [self.out]
        if self.members is None:
            return [lambda: self.out(v)]
        return [lambda: self.out().m(v), lambda: self.out.c(v), lambda: self.out().s(v)]


def history(kinds, how, fam, preset, removed):
    def run(env):
        cfg, on, prints = config(env, how)
        os.environ.pop("ASTA_TYPECHECK", None)
        at_import = env.strsym("import", VALUES)
        asta = load_for(env, fam, config=cfg, environ={"ASTA_TYPECHECK": at_import} if preset else {})
        things = []
        for i, kind in enumerate(kinds):
            th = Thing(env, asta, kind, fam, "t%d" % i)
            th.state = set_env(env, "t%d" % i)
            th.decorate()
            things.append(th)
        os.environ["ASTA_TYPECHECK"] = env.strsym("later", VALUES)
        if removed:
            del os.environ["ASTA_TYPECHECK"]
        d = env.int("d", 0, HI)
        v = make_value(env, fam, (d,))
        for th in things:
            active = land(is_on(env, on), allows(env, th.state))
            env.require("the very object is returned when off", lor(active, th.same()))
            for call in th.calls(v):
                del th.ran[:]
                got = env.attempt(call)
                if th.kind == "unannotated":
                    env.require("still works", got.returned and th.ran == [None])
                    continue
                env.require("checked exactly when on", iff(not got.returned, land(active, lnot(dim_ok(th.n, d)))))
                env.require("TypeError", got.returned or got.raised(TypeError))
                env.witness(("checked " if not got.returned else "ran ") + th.kind)

    return run


def banner(how):
    def run(env):
        cfg, on, prints = config(env, how)
        state = set_env(env, "import")
        start = len(env.output())
        asta = load_for(env, config=cfg, environ={} if state is True else {"ASTA_TYPECHECK": state[0]})
        shown = "ASTA TYPECHECKING IS ENABLED" in env.output()[start:]
        env.require("asta is usable", asta.Array is not None)
        want = land(is_on(env, on), allows(env, state), not prints)
        env.require("the warning is shown exactly when checks are on but silent", iff(shown, want))
        env.witness("shown" if shown else "quiet")

    return run


def scenarios(tier):
    out = []
    quick = tier == "quick"
    kinds = ["function", "return", "unannotated", "class"]
    for how in ("none", "partial", "full"):
        out.append(Scenario("banner " + how, banner(how)))
        for fam in ("array",) if quick else ("array", "torch", "tf"):
            combos = [(a, b) for a in kinds for b in kinds]
            if not quick:
                combos += [(a, b, c) for a in kinds for b in ("function", "class") for c in ("function", "class")]
            combos += [("function",) * 4, ("class", "return", "function")] if how == "full" else []
            for k in combos:
                for preset, removed in [(True, False), (False, True)][len(k) > 2:] if quick else [(a, b) for a in (True, False) for b in (True, False)]:
                    nm = "%s %s %s%s%s" % (fam, "+".join(k), how, " preset" if preset else "", " removed" if removed else "")
                    out.append(Scenario(nm, history(k, how, fam, preset, removed), tf=fam == "tf"))
    return out

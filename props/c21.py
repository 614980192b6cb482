"""C21: decorated classes."""
import dataclasses
import functools
from typing import List, NamedTuple, Tuple

from engine.scenario import SIZES, Scenario
from engine.ops import iff, land, lnot
from props.common import CONFIG, FAMILIES, Lin, default_dtype, dim_ok, family_type, load_for, make_value, solvable, typed

HI = SIZES
BOUNDS = {
    "quick": "classes with every combination of instance, class and static methods, __init__, __new__, __call__, nested classes to depth 3 (and 5, in a class of 20 methods) with and without class annotations, dataclasses and named tuples, inherited, overridden and super methods, already decorated methods; calls through instance, class, subclass and its instance, bound method and unbound function, positionally and by keyword; one and two array parameters and return values with sizes in [0, 4000] against literal sizes in [0, 4000] and symbols; 17 kinds of other attributes",
    "thorough": "the same for all families, and all pairs of members of one class",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used",
    "the first parameter of a method is called self, cls or mcs (or _cls, in named tuples) and is not annotated; default factories of data classes and properties are outside the claim",
]
VALIDATE = 40


class W:
    """Sizes, types and what the bodies saw."""

    def __init__(self, env, fam):
        self.env, self.fam = env, fam
        self.asta = load_for(env, fam, config=CONFIG)
        import asta.symbols

        self.sym = asta.symbols
        self.T = family_type(self.asta, fam)
        self.n = env.int("n", 0, HI)
        self.seen = []
        self.k = 0

    def saw(self, *args):
        self.seen.append(args)
        return args[-1]


def outside(x):
    return x


class Elsewhere:
    def m(self, x: int) -> int:
        return x

    @staticmethod
    def s(x: int) -> int:
        return x

    class Inner:
        a: int

        def m(self, x: int):
            return x


def annotated_outside(x: int) -> int:
    return x


def build(w, how):
    """A class with members of every kind; ``how`` decorates it."""
    t, tn = w.T[w.n], w.T[w.n]
    X = w.sym.X

    class Base:
        def inherited(self, x: t):
            return w.saw("inherited", self, x)

        def overridden(self, x: t):
            return w.saw("base overridden", self, x)

    class C(Base):
        def __init__(self, x: t = None):
            w.saw("__init__", self, x)

        def __call__(self, x: t):
            return w.saw("__call__", self, x)

        def m(self, x: t):
            return w.saw("m", self, x)

        def two(self, x: w.T[X], y: w.T[X + 1]) -> w.T[X]:
            return w.saw("two", self, x, y, x)

        def swapped(self, y, x) -> t:
            return w.saw("swapped", self, y, x)

        swapped.__annotations__ = {"x": t, "y": int, "return": t}

        def plain(self, x):
            return w.saw("plain", self, x)

        def only_return(self) -> t:
            return w.saw("only_return", self, w.give)

        def overridden(self, x: t):
            return super().overridden(x)

        @classmethod
        def c(cls, x: t):
            return w.saw("c", cls, x)

        @classmethod
        def make(cls, x: w.T[X], y: w.T[X + 1]) -> w.T[X]:
            return w.saw("make", cls, x, y, x)

        @staticmethod
        def s(x: t):
            return w.saw("s", x)

        @staticmethod
        def s2(x: w.T[X], y: w.T[X + 1]) -> w.T[X]:
            return w.saw("s2", x, y, x)

        class Bare:
            def m(self, x: t):
                return w.saw("Bare.m", self, x)

            @classmethod
            def c(cls, x: t):
                return w.saw("Bare.c", cls, x)

            class Deep:
                def m(self, x: t):
                    return w.saw("Deep.m", self, x)

                @staticmethod
                def s(x: t):
                    return w.saw("Deep.s", x)

        class Full:
            a: int = 3

            def m(self, x: t):
                return w.saw("Full.m", self, x)

    return how(C)


def sub(C):
    class Sub(C):
        def overridden(self, x):
            return super().overridden(x)

    return Sub


# route -> (member, fn(C, v, u) making the call); v has size d, u has size e.
def routes(w):
    def inst(C):
        saved, ok = w.n, None
        o = C.__new__(C)
        return o

    return {
        "inst.m": lambda C, v, u: inst(C).m(v),
        "inst.m kw": lambda C, v, u: inst(C).m(x=v),
        "C.m": lambda C, v, u: C.m(inst(C), v),
        "C.m kw": lambda C, v, u: C.m(inst(C), x=v),
        "bound m": lambda C, v, u: (lambda f: f(v))(inst(C).m),
        "sub inst.m": lambda C, v, u: inst(sub(C)).m(v),
        "C(v)": lambda C, v, u: C(v),
        "C(x=v)": lambda C, v, u: C(x=v),
        "sub(v)": lambda C, v, u: sub(C)(v),
        "call": lambda C, v, u: inst(C)(v),
        "C.c": lambda C, v, u: C.c(v),
        "C.c kw": lambda C, v, u: C.c(x=v),
        "inst.c": lambda C, v, u: inst(C).c(v),
        "sub.c": lambda C, v, u: sub(C).c(v),
        "C.s": lambda C, v, u: C.s(v),
        "inst.s": lambda C, v, u: inst(C).s(x=v),
        "sub.s": lambda C, v, u: sub(C).s(v),
        "swapped": lambda C, v, u: inst(C).swapped(3, v),
        "swapped kw": lambda C, v, u: inst(C).swapped(x=v, y=3),
        "Bare.m": lambda C, v, u: C.Bare().m(v),
        "inst.Bare.m": lambda C, v, u: inst(C).Bare().m(v),
        "Bare.c": lambda C, v, u: C.Bare.c(v),
        "Deep.m": lambda C, v, u: C.Bare.Deep().m(v),
        "Deep.s": lambda C, v, u: C.Bare.Deep.s(v),
        "Full.m": lambda C, v, u: C.Full().m(v),
        "only_return": lambda C, v, u: inst(C).only_return(),
        "two": lambda C, v, u: inst(C).two(v, u),
        "two mixed": lambda C, v, u: inst(C).two(v, y=u),
        "two kw": lambda C, v, u: inst(C).two(y=u, x=v),
        "make": lambda C, v, u: C.make(v, u),
        "sub make": lambda C, v, u: sub(C).make(v, y=u),
        "s2": lambda C, v, u: C.s2(v, u),
        "plain": lambda C, v, u: inst(C).plain(v),
        "inherited": lambda C, v, u: inst(C).inherited(v),
        "overridden": lambda C, v, u: inst(C).overridden(v),
        "sub overridden": lambda C, v, u: inst(sub(C)).overridden(v),
    }


PAIRED = ("two", "two mixed", "two kw", "make", "sub make", "s2")
UNCHECKED = ("plain", "inherited")


def members(fam, names):
    """Calls through every route, one after the other."""

    def run(env):
        w = W(env, fam)
        made = []

        def how(C):
            made.append(C)
            return w.asta.typechecked(C)

        C = build(w, how)
        env.require("the class itself is returned", C is made[0])
        d, e = env.int("d", 1, HI), env.int("e", 2, HI)
        v, u = make_value(env, fam, (d,)), make_value(env, fam, (e,))
        w.give = v
        for name in names:
            del w.seen[:]
            got = env.attempt(routes(w)[name], C, v, u)
            if name in PAIRED:
                ok = solvable([(Lin(X=1), d), (Lin(1, X=1), e)])
            elif name in UNCHECKED:
                ok = True
            else:
                ok = dim_ok(w.n, d)
            env.require("%s: returns or raises TypeError" % name, got.returned or got.raised(TypeError))
            env.require("%s: checked like a function" % name, iff(got.returned, ok))
            if got.returned:
                env.require("%s: the body ran once" % name, len(w.seen) == 1)
                args = w.seen[0]
                if name == "only_return":
                    pass
                elif name in PAIRED:
                    env.require("%s: right arguments" % name, args[-3] is v and args[-2] is u and got.value is v)
                else:
                    env.require("%s: right arguments" % name, args[-1] is v)
                if name in ("C.c", "C.c kw", "inst.c", "make"):
                    env.require("%s: bound to the class" % name, args[1] is C)
                if name in ("sub.c", "sub make"):
                    env.require("%s: bound to the subclass" % name, args[1] is not C and issubclass(args[1], C))
                if name.startswith(("inst.m", "C.m", "two", "call", "swapped", "plain", "bound")):
                    env.require("%s: bound to the instance" % name, type(args[1]) is C)
            env.witness("accept" if got.returned else "reject")

    return run


class StaticKind(staticmethod):
    pass


class ClassKind(classmethod):
    pass


class LoudClass(ClassKind):
    """Counts how often it is looked up."""

    looked = 0

    def __get__(self, obj, owner=None):
        type(self).looked += 1
        return super().__get__(obj, owner)


def kinds(fam):
    """Class and static methods of special kinds."""

    def run(env):
        w = W(env, fam)
        t = w.T[w.n]
        static = env.pick("static", [staticmethod, StaticKind])
        cls_ = env.pick("class", [classmethod, ClassKind, LoudClass])
        nested = env.bool("nested")

        class C:
            @static
            def s(x: t) -> t:
                return w.saw("s", x)

            @cls_
            def c(cls, x: t) -> t:
                return w.saw(cls, x)

            class Inner:
                @static
                def s(x: t) -> t:
                    return w.saw("s", x)

                @cls_
                def c(cls, x: t) -> t:
                    return w.saw(cls, x)

        w.asta.typechecked(C)
        owner = C.Inner if nested else C
        sub = type("Sub", (owner,), {})
        via = {"class": owner, "instance": owner(), "subclass": sub, "instance of subclass": sub()}
        how = env.pick("via", sorted(via))
        obj = via[how]
        name = env.pick("name", ["s", "c"])
        d = env.int("d", 0, HI)
        v = make_value(env, fam, (d,))
        looked = LoudClass.looked
        got = env.attempt(lambda: getattr(obj, name)(x=v) if env.pick("kw", [False, True]) else getattr(obj, name)(v))
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("accepted exactly when it fits", iff(got.returned, dim_ok(w.n, d)))
        env.require("still of its kind", type(vars(owner)["s"]) is static and type(vars(owner)["c"]) is cls_)
        env.require("looked up through it", LoudClass.looked == looked + (1 if name == "c" and cls_ is LoudClass else 0))
        if got.returned:
            env.require("the body saw it", len(w.seen) == 1 and w.seen[0][1] is v and got.value is v)
            env.require("bound to the right class", w.seen[0][0] == "s" if name == "s" else w.seen[0][0] is (sub if "sub" in how else owner))
        env.witness("accept" if got.returned else "reject")

    return run


def attributes(fam):
    """What is not an annotated method of the class stays as it is."""

    def run(env):
        w = W(env, fam)
        t = w.T[w.n]
        lam = lambda self, x: x  # noqa: E731
        part = functools.partial(outside, 1)

        # Its qualified name starts like that of the decorated class.
        class Case:
            def m(self, x: int):
                return x

            @staticmethod
            def s(x: int):
                return x

            @classmethod
            def c(cls, x: int):
                return x

            class Inner:
                a: int

                def m(self, x: int):
                    return x

        class C:
            case_method = Case.m
            case_static = Case.__dict__["s"]
            case_class = Case.__dict__["c"]
            case_inner = Case.Inner
            arr: t
            number = 3
            kind = t
            other_class = Elsewhere
            other_inner = Elsewhere.Inner
            builtin = len
            anonymous = lam
            partial = part
            static_partial = staticmethod(part)
            mapping = {"a": annotated_outside}
            foreign_method = Elsewhere.m
            foreign = annotated_outside
            foreign_static = staticmethod(annotated_outside)
            foreign_class = classmethod(annotated_outside)
            taken_static = staticmethod(Elsewhere.s)

            def plain(self, x):
                return x

            @property
            def prop(self) -> t:
                return 3

            def m(self, x: t):
                return x

        before = dict(C.__dict__)
        others = (Elsewhere, Elsewhere.Inner, Case, Case.Inner)
        inner = [dict(o.__dict__) for o in others]
        out = w.asta.typechecked(C)
        env.require("the class itself is returned", out is C)
        for k, v in before.items():
            if k not in ("m", "plain"):
                env.require("%s is left alone" % k, C.__dict__.get(k) is v)
        env.require("nothing is added", set(C.__dict__) == set(before))
        env.require("other classes are left alone", [dict(o.__dict__) for o in others] == inner)
        d = env.int("d", 0, HI)
        v = make_value(env, fam, (d,))
        got = env.attempt(C().m, v)
        env.require("the method is checked", iff(got.returned, dim_ok(w.n, d)))
        got = env.attempt(C().plain, v)
        env.require("the unannotated method works", got.returned and got.value is v)
        env.witness("done")

    return run


def again(fam, kind, order):
    """Methods that are decorated already."""

    def run(env):
        w = W(env, fam)
        t = w.T[w.n]
        tc = w.asta.typechecked

        class C:
            @tc
            def m(self, x: t):
                return x

            @staticmethod
            @tc
            def s(x: t):
                return x

            @classmethod
            @tc
            def c(cls, x: t):
                return x

            @tc
            class Inner:
                def m(self, x: t):
                    return x

                @staticmethod
                def s(x: t):
                    return x

        C = tc(C)
        if order == "twice":
            C = tc(C)
        d = env.int("d", 0, HI)
        v = make_value(env, fam, (d,))
        fn = {"m": lambda: C().m, "s": lambda: C.s, "c": lambda: C().c, "inner m": lambda: C.Inner().m, "inner s": lambda: C.Inner.s}[kind]()
        got = env.attempt(fn, v)
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("checked", iff(got.returned, dim_ok(w.n, d)))
        if got.returned:
            env.require("result", got.value is v)
        env.witness("accept" if got.returned else "reject")

    return run


def special(fam, kind):
    def run(env):
        w = W(env, fam)
        t = w.T[w.n]
        tc = w.asta.typechecked
        d = env.int("d", 0, HI)
        v = make_value(env, fam, (d,))
        ok = dim_ok(w.n, d)
        if kind == "dataclass":
            @tc
            @dataclasses.dataclass
            class C:
                a: t
                b: int = 2

            got = env.attempt(C, v)
            again_ = env.attempt(lambda: C(b=3, a=v))
        elif kind == "namedtuple":
            P = NamedTuple("P", [("a", t), ("b", int)])
            P.__new__.__defaults__ = (2,)
            C = tc(P)
            env.require("same class", C is P)
            got = env.attempt(C, v)
            again_ = env.attempt(lambda: C(b=3, a=v))
        elif kind == "new":
            @tc
            class C:
                def __new__(cls, a: t, b: int = 2):
                    self = super().__new__(cls)
                    self.a = a
                    return self

            got = env.attempt(C, v)
            again_ = env.attempt(lambda: C(b=3, a=v))
        elif kind == "meta":
            @tc
            class Meta(type):
                def make(mcs, a: t):
                    w.seen.append((mcs, a))
                    return a

            K = Meta("K", (), {})
            got = env.attempt(K.make, v)
            again_ = env.attempt(lambda: K.make(a=v))
            env.require("bound to the class", all(s[0] is K and s[1] is v for s in w.seen))
        else:
            @tc
            class C:
                def __len__(self) -> int:
                    return 3

                def __getitem__(self, x: t):
                    return x

                def __eq__(self, x: t):
                    return True

            got = env.attempt(lambda: C()[v])
            again_ = env.attempt(lambda: C() == v)
            env.require("unannotated parameters", len(C()) == 3)
        for g in (got, again_):
            env.require("returns or raises TypeError", g.returned or g.raised(TypeError))
            env.require("checked", iff(g.returned, ok))
        if got.returned and kind in ("dataclass", "namedtuple", "new"):
            env.require("constructed", got.value.a is v and type(got.value) is C)
        env.witness("accept" if got.returned else "reject")

    return run


def large(fam, how):
    """Many methods, and classes in classes in classes."""

    def run(env):
        w = W(env, fam)
        src = ["class C:"]
        depth, names = 0, []
        for level in range(6):
            pad = "    " * (level + 1)
            for i in range(10 if level == 0 else 2):
                deco, first = [("", "self, "), ("@classmethod", "cls, "), ("@staticmethod", "")][(i + level) % 3]
                src += [pad + deco] * bool(deco) + ["%sdef m%d(%sx: t, y: int = %d):" % (pad, i, first, level), "%s    return saw(%d, %d, y, x)" % (pad, level, i)]
                names.append((level, i))
            src.append("%sclass N:" % pad)
        src.append("    " * 7 + "pass")
        ns = {"t": w.T[w.n], "saw": w.saw, "__name__": "user"}
        exec("\n".join(src), ns)
        C = w.asta.typechecked(ns["C"])
        env.require("the class itself is returned", C is ns["C"])
        d = env.int("d", 0, HI)
        v = make_value(env, fam, (d,))
        level, i = env.pick("member", names)
        for _ in range(level):
            C = C.N
        fn = getattr(C() if how == "instance" or (i + level) % 3 == 0 else C, "m%d" % i)
        got = env.attempt(fn, x=v) if env.bool("keyword") else env.attempt(fn, v)
        env.require("returns or raises TypeError", got.returned or got.raised(TypeError))
        env.require("checked like a function", iff(got.returned, dim_ok(w.n, d)))
        env.require("runs exactly when accepted", len(w.seen) == (1 if got.returned else 0))
        if got.returned:
            env.require("the right method with the right arguments", w.seen[0][:3] == (level, i, level) and w.seen[0][3] is v and got.value is v)
        env.witness("accept" if got.returned else "reject")

    return run


ALL = [
    "inst.m", "inst.m kw", "C.m", "C.m kw", "bound m", "sub inst.m", "C(v)", "C(x=v)", "sub(v)", "call", "C.c", "C.c kw", "inst.c", "sub.c", "C.s", "inst.s", "sub.s", "swapped",
    "swapped kw", "Bare.m", "inst.Bare.m", "Bare.c", "Deep.m", "Deep.s", "Full.m", "only_return", "two", "two mixed", "two kw", "make", "sub make", "s2", "plain", "inherited", "overridden",
    "sub overridden",
]


def scenarios(tier):
    out = []
    quick = tier == "quick"
    for fam in FAMILIES:
        tf = fam == "tf"
        for name in ALL:
            out.append(Scenario("%s %s" % (fam, name), members(fam, [name]), tf=tf, witness=["accept"] + ([] if name in UNCHECKED else ["reject"])))
        pairs = [(a, b) for a in ALL for b in (ALL if not quick else ["inst.m", "C.c", "two", "Bare.m"])] if fam == "array" or not quick else []
        for a, b in pairs:
            if a != b:
                out.append(Scenario("%s %s then %s" % (fam, a, b), members(fam, [a, b]), tf=tf))
        for how in ("instance", "class"):
            out.append(Scenario("%s large, through the %s" % (fam, how), large(fam, how), tf=tf, witness=["accept", "reject"], budget=9))
        out.append(Scenario("%s kinds of methods" % fam, kinds(fam), tf=tf, witness=["accept", "reject"], budget=20))
        out.append(Scenario("%s attributes" % fam, attributes(fam), tf=tf))
        for kind in ("m", "s", "c", "inner m", "inner s"):
            for order in ("once", "twice"):
                out.append(Scenario("%s decorated %s %s" % (fam, kind, order), again(fam, kind, order), tf=tf, witness=["accept", "reject"]))
        for kind in ("dataclass", "namedtuple", "new", "meta", "operators"):
            out.append(Scenario("%s %s" % (fam, kind), special(fam, kind), tf=tf, witness=["accept", "reject"]))
    return out

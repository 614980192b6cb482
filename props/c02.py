"""C02: Tensor and TFTensor agree with Array on shapes."""
from engine.scenario import SIZES, Scenario
from props.common import E, family_type, load_for, make_value, shape_matches, subscript
from engine.ops import iff, land, eq

HI = SIZES
BOUNDS = {
    "quick": "patterns of up to 3 elements over {integer in [-2, 4000], '...', X, X+1, 2*X}, rank 0..3, and 12 patterns of up to 6 elements (also positive integers and wildcards) with rank up to 7; dimensions in [0, 4000]; shapes written as tuple, torch.Size and tf.TensorShape up to rank 7",
    "thorough": "patterns of up to 4 elements over the same alphabet plus Y, rank 0..5, and the 12 longer ones, dimensions in [0, 4000]",
}
ASSUMPTIONS = [
    "sizes of TensorFlow tensors are at most 40 (the replays use real ones)",
    "torch is not installed: a stand-in with torch's documented Tensor/Size/dtype protocol is used, in replays too",
    "TensorFlow tensors are eager tensors with fully defined shapes; replays use real TensorFlow",
    "sympy's solve is replaced by its contract (Gaussian elimination over solver terms) where the system is linear, and run for real on solver-chosen values otherwise",
]


def elems(asta, code, i, env):
    X, Y = asta.symbols.X, asta.symbols.Y
    return {
        "i": lambda: env.int("p%d" % i, -2, HI),
        "n": lambda: env.int("p%d" % i, 1, HI),
        "w": lambda: -1,
        ".": lambda: E,
        "X": lambda: X,
        "S": lambda: X + 1,
        "D": lambda: 2 * X,
        "Y": lambda: Y,
    }[code]()


def agree(fam, skel, rank):
    def run(env):
        asta = load_for(env, fam)
        import asta.symbols  # noqa: F811

        pattern = tuple(elems(asta, c, i, env) for i, c in enumerate(skel))
        dims = tuple(env.int("d%d" % i, 0, HI) for i in range(rank))
        T = family_type(asta, fam)
        a = env.check(env.array(dims), asta.Array[subscript(pattern)])
        t = env.check(make_value(env, fam, dims), T[subscript(pattern)])
        env.require("neither check raises", a.returned and t.returned)
        if a.returned and t.returned:
            env.witness("accept" if t.value else "reject")
            env.require("the answers agree", iff(a.value, t.value))

    return run


def size_form(fam, n, rank, dtyped):
    """A torch.Size / TensorShape in the subscript means the tuple."""

    def run(env):
        asta = load_for(env, fam)
        shape = tuple(env.int("p%d" % i, 0, HI) for i in range(n))
        dims = tuple(env.int("d%d" % i, 0, HI) for i in range(rank))
        T = family_type(asta, fam)
        obj = env.torch.Size(shape) if fam == "torch" else env.tf_shape(shape)
        v = make_value(env, fam, dims)
        if dtyped:
            lib = env.torch if fam == "torch" else env.tf
            t1, t2 = T[lib.float32, obj], T[lib.float32, shape]
        else:
            t1, t2 = T[obj], T[shape]
        a, b = env.check(v, t1), env.check(v, t2)
        env.require("neither check raises", a.returned and b.returned)
        if a.returned and b.returned:
            env.witness("accept" if a.value else "reject")
            env.require("accepts exactly that shape", iff(a.value, eq(shape, dims)))
            env.require("same as the tuple", iff(b.value, eq(shape, dims)))

    return run


def patterns(alphabet, maxlen):
    out = []

    def go(s):
        if s:
            out.append(s)
        if len(s) < maxlen:
            for c in alphabet:
                if not (c == "." and s.endswith(".")):
                    go(s + c)

    go("")
    return out


LONG = ["nnnnnn", "wwwww", "n.nn", "nn.", ".nnn", "nwnw.", "XXXXX", "XnXnX", ".nX", "X.nX", "SnDn", "wX."]


def scenarios(tier):
    n, ranks, alpha = (3, 3, "i.XSD") if tier == "quick" else (4, 5, "i.XSDY")
    out = []
    for fam in ("torch", "tf"):
        for skel in patterns(alpha, n):
            if len(skel) == n and sum(c in "XSDY" for c in skel) == n and tier == "quick" and skel[0] != "X":
                continue
            for rank in range(ranks + 1):
                fixed = len(skel) - skel.count(".")
                if rank < fixed and rank != fixed - 1:
                    continue
                if "." not in skel and rank > fixed + 1:
                    continue
                out.append(Scenario(
                    "%s '%s' vs rank %d" % (fam, skel, rank), agree(fam, skel, rank),
                    tf=fam == "tf", budget=len(skel) * rank))
        for skel in LONG:
            fixed = len(skel) - skel.count(".")
            for rank in range(max(fixed - 1, 0), 7) if "." in skel else (fixed - 1, fixed, fixed + 1):
                out.append(Scenario(
                    "%s '%s' vs rank %d" % (fam, skel, rank), agree(fam, skel, rank),
                    tf=fam == "tf", budget=len(skel) * rank))
        for k in range(7):
            for rank in (k, k + 1):
                for dt in (False, True):
                    out.append(Scenario(
                        "%s size object of length %d vs rank %d%s" % (fam, k, rank, " with dtype" if dt else ""),
                        size_form(fam, k, rank, dt), tf=fam == "tf",
                        witness=["accept"] if k == rank else ["reject"]))
    return out

"""C01: Array shape patterns."""
from engine.scenario import Scenario
from props.common import E, shape_matches, skeletons, subscript
from engine.ops import iff

HI = 1000
BOUNDS = {
    "quick": "pattern length 1..5 (all placements of '...'), array rank 0..5 (0..4 for length 5 with two or more ellipses), and 16 patterns of up to 8 elements (wildcards, positive integers, ellipses) with rank 0..9 (up to 7 with an ellipsis that does not come last); every pattern integer in [-2, 1000], every dimension in [0, 1000] (60 above rank 6)",
    "thorough": "pattern length 1..6 (all placements of '...'), array rank 0..6, and 16 patterns of up to 8 elements (wildcards, positive integers, ellipses) with rank 0..10; every pattern integer in [-2, 1000], every dimension in [0, 1000] (60 above rank 6)",
}
ASSUMPTIONS = [
    "numpy arrays are represented by an ndarray subclass whose shape and dtype are supplied symbolically; replays use real numpy arrays",
    "isinstance goes through Array's metaclass because type(array) is not Array (CPython's documented behaviour)",
    "patterns with adjacent ellipses belong to C04 (they are rejected when written)",
]


def body(skel, rank):
    def run(env):
        asta = env.load()
        hi = HI if rank <= 6 else 60
        pattern = tuple(
            E if c == "." else -1 if c == "w" else env.int("p%d" % i, -2 if c == "i" else 1, hi)
            for i, c in enumerate(skel)
        )
        dims = tuple(env.int("d%d" % i, 0, hi) for i in range(rank))
        arr = env.array(dims)
        ann = asta.Array[subscript(pattern)]
        got = env.check(arr, ann)
        env.require("isinstance does not raise", got.returned)
        if got.returned:
            env.witness("accept" if got.value else "reject")
            env.require(
                "accepts exactly the shapes the pattern denotes",
                iff(got.value, shape_matches(pattern, dims)),
            )

    return run


# Longer patterns (n: a positive integer, w: -1), with the greatest rank of the quick tier.
LONG = {
    ".": 9, "n.": 9, "nwn.": 9, "nnnnn": 9, "wwwwww": 9, "nwnwnwn": 9, "nnnnnnnn": 9,
    ".n": 7, "n.n": 7, ".nn.": 6, ".n.": 7, "nn.nn": 7, "n.w.n": 6, ".wnn": 7, "nnnn.ww": 7, ".nnnnw": 7,
}


def scenarios(tier):
    n = 5 if tier == "quick" else 6
    out = []
    pairs = [(s, r) for s in skeletons(n) for r in range(n + 1)]
    pairs = [(s, r) for s, r in pairs if len(s) < 5 or r < 5 or tier != "quick" or s.count(".") < 2]
    pairs += [(s, r) for s, top in LONG.items() for r in range(top + 1 if tier == "quick" else top + 2)]
    for skel, rank in dict.fromkeys(pairs):
        ints = len(skel) - skel.count(".")
        can = rank >= ints and ("." in skel or rank == ints)
        wit = (["accept"] if can else []) + (
            ["reject"] if skel != "." or rank > 0 else [])
        out.append(Scenario(
            "pattern '%s' vs rank %d" % (skel, rank), body(skel, rank),
            witness=wit, budget=len(skel) * rank + 5 * skel.count(".") * rank,
        ))
    return out

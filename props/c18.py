"""C18: where the settings come from."""
import os

from engine.scenario import Scenario, scratch
from engine.ops import iff, land, lnot, lor, same
from props.common import load_for

OPTIONS = ["on", "raise-errors", "print-passes", "check-non-asta-types", "check-all-sequence-elements"]
DEFAULT = {"on": "yes", "raise-errors": "yes", "print-passes": "yes", "check-non-asta-types": "no", "check-all-sequence-elements": "yes"}
BOUNDS = {
    "quick": "every combination of presence of astarc, .astarc, pyproject.toml and setup.cfg in the working directory, of astarc and .astarc in up to 2 directories above it with and without __init__.py, of the file named by ASTARC (unset, present, missing), of ~/.astarc and ~/.config/astarc; each file with any subset of the 5 options out of 8 rotations, values yes, no and two other words (TOML: also booleans), with and without an asta section and with sections of other tools",
    "thorough": "the same with all 32 subsets of options and all pairs of subsets for the two first files",
}
ASSUMPTIONS = [
    "there is no /etc/astarc (writing it would not stay in the scratch directory), and the home directory is not /root",
    "ConfigParser and toml are run for real on texts whose values are symbolic words",
]
VALIDATE = 40
WORDS = ["yes", "no", "maybe", "7"]

RC = ["astarc", ".astarc"]
CWD = RC + ["pyproject.toml", "setup.cfg"]
PARENT = ["../astarc", "../.astarc", "../../astarc", "../../.astarc"]
NAMED = ["custom/rc"]
HOME = ["~/.astarc", "~/.config/astarc"]


def text(name, values, style):
    """The text of a file that sets ``values``; style: how it is written."""
    if name.endswith(".toml"):
        head = "[tool.black]\nline-length = 88\ntarget = ['py38']\n\n[asta.master]\non = \"no\"\n\n[tool.fasta.master]\non = \"no\"\n\n[tool.other.asta.master]\non = \"no\"\n\n" if "others" in style else ""
        if "nosection" in style:
            return head + "[tool.other.master]\non = \"no\"\n"
        sect = "[tool.asta.MASTER]" if "upper" in style else "[tool.asta.master]"
        if "empty" in style:
            return head + "[tool.asta]\n"
        quote = (lambda v: v) if "bool" in style else (lambda v: '"%s"' % v)
        return head + sect + "\n" + "".join("%s = %s\n" % (k, quote(v)) for k, v in values.items())
    head = "[tool]\nformat = %(message)s 100%\n\n[master-of-none]\non = no\n\n" if "others" in style else ""
    if name.endswith(".cfg"):
        if "others" in style:
            head += "[tool:fasta]\non = no\n\n[my.asta.master]\non = no\n\n[fasta.master]\non = no\n\n[astarc]\non = no\n\n"
        if "nosection" in style:
            return head + "[metadata]\non = no\n"
        sect = "[asta.MASTER]" if "upper" in style else "[asta.master]"
        if "empty" in style:
            return head + "[asta.other]\non = no\n"
    else:
        if "nosection" in style or "empty" in style:
            return head + ("[other]\non = no\n" if "empty" in style else "")
        sect = "[master]" if "lower" in style else "[asta.master]" if "long" in style else "[MASTER]"
    sep = " = " if "spaced" in style else ": " if "colon" in style else "="
    body = "".join("%s%s%s\n" % (k, sep, v) for k, v in values.items())
    return ("\ufeff" if "bom" in style else "") + head + ("# a comment\n" if "others" in style else "") + sect + "\n" + body


def is_value(got, word, style=""):
    """``got`` is what the setting ``word`` means."""
    if "bool" in style:
        return land(isinstance(got, bool), iff(got, word == "true"))
    if isinstance(got, bool):
        return lor(land(got, same(word, "yes")), land(lnot(got), same(word, "no")))
    return land(same(got, word), lnot(same(word, "yes")), lnot(same(word, "no")))


def mask(k):
    return [o for i, o in enumerate(OPTIONS) if k >> i & 1]


def run_config(names, masks, styles, words, astarc, always=(), package=()):
    def run(env):
        there, said, files = {}, {}, {}
        for i, name in enumerate(names):
            style = styles.get(name, styles.get("all", ""))
            there[name] = True if name in always else env.bool("has_" + name)
            said[name] = {}
            for o in mask(masks[i % len(masks)]):
                v = env.pick("v_%s_%s" % (name, o), ["true", "false"]) if "bool" in style else env.strsym("v_%s_%s" % (name, o), words)
                said[name][o] = v
            files[place(name)] = (there[name], text(name, said[name], style))
            if "nosection" in style or "empty" in style:
                said[name] = {}
        inits = {}
        for p in package:
            inits[p] = env.bool("init_" + p)
            files[place(p + "__init__.py")] = (inits[p], "")
        environ = {}
        if astarc != "unset":
            environ["ASTARC"] = {"abs": os.path.join(scratch(), "cwd", place("custom/rc")), "rel": "custom/rc", "missing": "custom/nothing"}[astarc]
        asta = load_for(env, files=files, environ=environ, workdir="a/b/c")
        import asta.config

        ox = asta.config.get_ox()
        # The documented order, and when each file is looked at.
        looked = []
        for n in names:
            style = styles.get(n, styles.get("all", ""))
            cond = there[n]
            if n in CWD:
                if "." in n[1:] and "nosection" in style:
                    continue
            elif n in PARENT:
                cond = land(cond, inits.get("", False))
                if n.startswith("../.."):
                    cond = land(cond, inits.get("../", False))
            elif n in NAMED:
                if astarc in ("unset", "missing"):
                    continue
            elif astarc in ("abs", "rel"):
                cond = land(cond, lnot(there.get("custom/rc", False)))
            looked.append((n, cond))
        for o in OPTIONS:
            got = getattr(ox, o.replace("-", "_"))
            earlier = False
            right = []
            for n, cond in looked:
                style = styles.get(n, styles.get("all", ""))
                v = is_value(got, said[n][o], style) if o in said[n] else is_value(got, DEFAULT[o])
                right.append(lor(lnot(land(cond, lnot(earlier))), v))
                earlier = lor(earlier, cond)
            right.append(lor(earlier, is_value(got, DEFAULT[o])))
            env.require("%s comes from the first file" % o, land(*right))
        env.witness("done")

    return run


def place(name):
    """Where a file goes, relative to the scratch working directory."""
    return name if name.startswith("~/") else os.path.normpath(os.path.join("a/b/c", name))


def scenarios(tier):
    out = []
    quick = tier == "quick"

    def add(label, names, masks, styles=None, words=("yes", "no"), astarc="unset", always=(), package=()):
        nm = "%s: %s%s set %s%s" % (label, " ".join(names), " " + str(styles) if styles else "", masks, " ASTARC " + astarc if astarc != "unset" else "")
        out.append(Scenario(nm, run_config(names, masks, styles or {}, list(words), astarc, always, package)))

    # Precedence among all the files at once.
    rotations = [[1, 2, 4, 8, 16, 3, 5], [31, 0], [6, 9, 16], [0, 31, 8], [21, 10], [14, 17], [16, 8, 4, 2, 1], [7, 24, 13]]
    for astarc in ("unset", "abs", "missing"):
        for r in rotations if astarc == "abs" else rotations[:2] if quick else rotations:
            add("all", CWD + NAMED + HOME, r, astarc=astarc)
    add("all", CWD + NAMED + HOME, rotations[2], {"all": "others"}, astarc="rel")
    # Projects' files without an asta section are passed over.
    for which in (["pyproject.toml"], ["setup.cfg"], ["pyproject.toml", "setup.cfg"]):
        for style in ("nosection", "nosection others"):
            add("passed over " + style, CWD + HOME, [3, 24], {w: style for w in which})
    # Parents of a package.
    for r in ([1, 3, 31], [4, 8]):
        add("package", ["astarc"] + PARENT + HOME[:1], r, package=("", "../"))
    add("package", ["setup.cfg"] + PARENT + NAMED, [1, 2], astarc="abs", package=("", "../", "../../"))
    # Every kind of file by itself, all the values, all the ways to write it.
    masks = [31, 21, 10, 0] if quick else range(32)
    for name in CWD + NAMED + HOME:
        toml = name.endswith(".toml")
        for style in ["", "others", "upper", "empty"] + (["bool"] if toml else ["spaced", "colon", "empty others"]) + ([] if toml or name.endswith(".cfg") else ["lower", "long", "bom", "nosection"]):
            for m in masks if style == "" else masks[:1]:
                words = WORDS if style == "" and m != 31 else ["yes", "no"]
                add("alone " + style, [name], [m], {name: style}, words, "abs" if name in NAMED else "unset")
    if not quick:
        for a in range(32):
            for b in range(0, 32, 3):
                add("pair", [".astarc", "~/.astarc"], [a, b])
    # No file at all.
    add("none", [], [0])
    return out

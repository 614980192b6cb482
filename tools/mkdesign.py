"""Refills the generated parts of DESIGN.md (bounds, repairs, planted bugs)."""
import ast
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent


def constant(prop, name):
    tree = ast.parse((ROOT / "props" / (prop.lower() + ".py")).read_text())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == name:
            return ast.literal_eval(node.value)


def bounds():
    out = []
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        p = json.loads(line)
        b = constant(p["id"], "BOUNDS")
        out.append("**%s**\n* quick: %s.\n* thorough: %s.\n* assumed: %s.\n" % (
            p["id"], b["quick"], b["thorough"], "; ".join(constant(p["id"], "ASSUMPTIONS"))))
    return "\n".join(out)


def repairs():
    known = json.loads((ROOT / "known-findings.json").read_text())
    rows = []
    for text in known["fixed"]:
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", text)
        rows.append("| %s | %s | %s |" % (m[1], m[2], m[3].replace("|", "\\|")))
    return "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(rows)


def seeds():
    caught = json.loads((ROOT / "tools" / "caught.json").read_text())
    rows = []
    for d in sorted((ROOT / "seeded").iterdir()):
        meta = json.loads((d / "meta.json").read_text())
        rows.append("| %s | %s | %s | %s |" % (
            d.name, meta["what_it_breaks"].replace("|", "\\|"), meta["needs"].replace("|", "\\|"), caught.get(d.name, "?")))
    return "| change | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows)


def main():
    path = ROOT / "DESIGN.md"
    text = path.read_text()
    for name, make in (("bounds", bounds), ("repairs", repairs), ("seeds", seeds)):
        start, end = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
        i, j = text.index(start) + len(start), text.index(end)
        text = text[:i] + make().rstrip() + "\n" + text[j:]
    path.write_text(text)


if __name__ == "__main__":
    main()

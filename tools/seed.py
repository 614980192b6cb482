#!/usr/bin/env python3
"""
Plant the bugs of ``seeds.py`` one at a time in scratch copies of /repo, keep
the ones that pass the tests and fail their demonstration, and (with --check)
run the check of the property on the mutated copy.

    python3 tools/seed.py [--check] [--jobs N] [id ...]
"""
import concurrent.futures
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).resolve().parent
ROOT = HERE.parent
sys.path.insert(0, str(HERE))
from seeds import PRELUDE, SEEDS  # noqa: E402

PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# Run with cwd /repo.  Everything it writes stays in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
scratch="$(mktemp -d)" || exit 3
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 3
export HOME="$scratch" PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0 CUDA_VISIBLE_DEVICES=-1
unset ASTARC ASTA_TYPECHECK
/opt/venv/bin/python "$here/demo.py"
"""
ENV = dict(
    os.environ, HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0", TF_CPP_MIN_LOG_LEVEL="3", TF_ENABLE_ONEDNN_OPTS="0",
    CUDA_VISIBLE_DEVICES="-1",
)
for name in ("ASTARC", "ASTA_TYPECHECK", "PYTHONPATH", "PYTEST_ADDOPTS"):
    ENV.pop(name, None)


def demo(folder, repo):
    out = subprocess.run(
        ["bash", str(folder / "demo.sh")], cwd=repo, env=ENV, timeout=300,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    return out.returncode, out.stdout[-400:]


def tests(repo):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    with tempfile.TemporaryDirectory() as tmp:
        env = dict(ENV, HYPOTHESIS_STORAGE_DIRECTORY=tmp + "/hyp")
        subprocess.run(
            [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
             "--continue-on-collection-errors", "--hypothesis-profile=ci",
             "--ignore=asta/tests/test_tensor.py",
             "--ignore=asta/tests/test_decorator.py", "--ignore=asta/tests/rl",
             "-o", "junit_family=xunit2", f"--junitxml={tmp}/junit.xml", "asta/tests"],
            cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
        )
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", f"{tmp}/o.json",
                        f"junit:{tmp}/junit.xml"], stdout=subprocess.DEVNULL)
        passed = set(json.load(open(f"{tmp}/o.json")).get("passed", []))
    return [t for t in base if t not in passed]


def one(seed, check):
    name = seed["id"]
    notes = []
    tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"seed-{name}-"))
    repo = tmp / "repo"
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        work = tmp / "seeded"
        work.mkdir()
        (work / "demo.sh").write_text(SH)
        (work / "demo.py").write_text(PRELUDE + seed["demo"].lstrip("\n"))
        meta = {k: seed[k] for k in ("property", "needs", "what_it_breaks")}
        (work / "meta.json").write_text(json.dumps(meta, indent=2) + "\n")
        for extra, text in seed.get("files", {}).items():
            path = work / extra
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_text(text)
        rc, out = demo(work, repo)
        if rc != 0:
            return name, False, [f"demo fails unchanged: {rc} {out}"]
        for file, old, new in seed["edits"]:
            path = repo / "asta" / file
            text = path.read_text()
            if text.count(old) != 1:
                return name, False, [f"{file}: {text.count(old)} matches of {old!r}"]
            path.write_text(text.replace(old, new))
        diff = subprocess.run(["git", "-C", str(repo), "diff", "--", "asta"],
                              stdout=subprocess.PIPE, text=True).stdout
        (work / "patch.diff").write_text(diff)
        rc, out = demo(work, repo)
        if rc == 0:
            return name, False, ["demo passes with the patch"]
        notes.append(out.strip().splitlines()[-1] if out.strip() else "")
        missing = tests(repo)
        if missing:
            return name, False, notes + [f"tests fail: {missing[:3]}"]
        target = ROOT / "seeded" / name
        if target.exists():
            shutil.rmtree(target)
        shutil.copytree(work, target)
        if check:
            for prop in [seed["property"]] + seed.get("also", []):
                run = subprocess.run(
                    [PY, "engine/check.py", prop, "--jobs", "2"], cwd=ROOT, text=True,
                    env=dict(ENV, VERIF_REPO=str(repo), VERIF_EVIDENCE=str(tmp)),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                )
                lines = [l for l in run.stdout.splitlines() if "VIOLATION" in l]
                notes.append(f"{prop}: rc={run.returncode} "
                             + (lines[0][:160] if lines else run.stdout[-300:]))
        return name, True, notes
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    check = "--check" in args
    jobs = 4
    if "--jobs" in args:
        jobs = int(args[args.index("--jobs") + 1])
        del args[args.index("--jobs"):args.index("--jobs") + 2]
    ids = [a for a in args if not a.startswith("-")]
    todo = [s for s in SEEDS if not ids or s["id"] in ids or s["property"] in ids]
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        for name, kept, notes in pool.map(lambda s: one(s, check), todo):
            print("KEPT" if kept else "DROPPED", name, flush=True)
            for note in notes:
                print("    ", note, flush=True)


if __name__ == "__main__":
    main()

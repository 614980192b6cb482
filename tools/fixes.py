"""For each repair: undo it in a copy of the repository and run its check.

python3 tools/fixes.py [--jobs N] [commit...]"""
import concurrent.futures
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"


def one(entry):
    _fixed, prop, commit, what = entry.split(" ", 3)
    prop = prop.split("=")[1]
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="fix-%s-" % commit))
    repo = tmp / "repo"
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        run = subprocess.run(["git", "-C", str(repo), "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-n", commit],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        how = "reverted"
        if run.returncode:
            how = "checked out before it (conflicts)"
            subprocess.run(["git", "-C", str(repo), "reset", "-q", "--hard"], check=True)
            subprocess.run(["git", "-C", str(repo), "checkout", "-q", commit + "^"], check=True)
        run = subprocess.run([PY, "engine/check.py", prop, "--jobs", "2"], cwd=ROOT, text=True,
                             env=dict(os.environ, VERIF_REPO=str(repo), VERIF_EVIDENCE=str(tmp)),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        lines = run.stdout.splitlines()
        found = [l for l in lines if l.startswith("counterexample")][:1] or lines[-2:]
        return "%s %s %s rc=%d %s | %s" % (prop, commit, how, run.returncode, found[0][:200] if found else "", what[:70])
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    jobs = 3
    if "--jobs" in args:
        jobs = int(args[args.index("--jobs") + 1])
        del args[args.index("--jobs"):args.index("--jobs") + 2]
    with open(ROOT / "known-findings.json") as f:
        todo = [e for e in json.load(f)["fixed"] if not args or e.split(" ")[2] in args]
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        for line in pool.map(one, todo):
            print(line, flush=True)


main()

"""Build and validate /verif/seeded/<id>/ from dev/plants.py: plant.py [ids...]

Each plant is validated in a scratch copy of /repo: patch applies, demo passes before and fails after, tests pass.
With -n only the folders are written; with -t the tests are skipped.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
sys.path.insert(0, HERE)
from plants import PLANTS, PRELUDE  # noqa: E402

DEMO_SH = """#!/bin/sh
# run with cwd = the repository; exit 0 when the property holds, nonzero when it does not
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def build(pl, tests=True):
    pid = pl["id"]
    d = tempfile.mkdtemp(prefix="plant")
    try:
        sh(["git", "-C", "/repo", "worktree", "prune"], "/")
        r = sh(f"git -C /repo archive HEAD | tar x -C {d}", "/")
        sh("git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", d)
        out = os.path.join(SEEDED, pid)
        os.makedirs(out, exist_ok=True)
        with open(out + "/demo.py", "w") as f:
            f.write(PRELUDE + pl["demo"].lstrip("\n"))
        with open(out + "/demo.sh", "w") as f:
            f.write(DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        with open(out + "/meta.json", "w") as f:
            json.dump({"property": pl["prop"], "needs": pl["needs"], "what_it_breaks": pl["breaks"]}, f, indent=1)
            f.write("\n")
        r0 = sh(["sh", out + "/demo.sh"], d, timeout=300)
        for f, old, new in pl["edits"]:
            p = f"{d}/src/openclsim/{f}"
            s = open(p).read()
            if s.count(old) < 1:
                return pid, "BADEDIT " + old[:50]
            if s.count(old) > 1 and not pl.get("all"):
                return pid, f"AMBIGUOUS({s.count(old)}) " + old[:50]
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", d).stdout
        with open(out + "/patch.diff", "w") as f:
            f.write(diff)
        r1 = sh(["sh", out + "/demo.sh"], d, timeout=300)
        ok = r0.returncode == 0 and r1.returncode != 0
        msg = f"demo {r0.returncode}->{r1.returncode}"
        if not ok:
            msg += " BAD " + ((r0.stderr or r0.stdout)[-400:] if r0.returncode else "passes with the patch")
        else:
            msg += " (" + (r1.stderr.strip().splitlines() or ["?"])[-1][:110] + ")"
        if tests:
            t = sh("PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PROJ_NETWORK=OFF /opt/venv/bin/python -m pytest"
                   " tests -q -x -p no:cacheprovider -o addopts= --disable-warnings -n 2", d)
            tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
            msg += " tests " + ("ok" if t.returncode == 0 else "FAIL ") + ("" if t.returncode == 0 else tail)
            if t.returncode:
                ok = False
        return pid, ("ok  " if ok else "BAD ") + msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    tests = "-t" not in sys.argv
    with ThreadPoolExecutor(4) as ex:
        for pid, msg in ex.map(lambda p: build(p, tests), [p for p in PLANTS if not a or p["id"] in a]):
            print(pid, msg)


main()

"""Run checks on mechanically rewritten copies of the library: quiet.py [-t] [-c C01,C02] [-j 8] [REWRITING[=file[:function]] ...]

-t also runs the test suite on each rewritten copy (a rewriting that breaks tests is reported, not counted)."""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

import refactor

V = pathlib.Path(__file__).resolve().parent.parent


def one(spec, ids, tests):
    d = pathlib.Path(tempfile.mkdtemp(prefix="quiet_"))
    out = []
    try:
        for x in ("src", "tests", "pyproject.toml", "setup.py", "setup.cfg"):
            s = pathlib.Path("/repo") / x
            if s.is_dir():
                shutil.copytree(s, d / x)
            elif s.exists():
                shutil.copy(s, d / x)
        name, _, only = spec.partition("=")
        for nm in name.split("+"):
            subprocess.run([sys.executable, "-B", V / "dev/refactor.py", nm, d / "src/openclsim"] + ([only] if only else []), check=True, stdout=subprocess.DEVNULL)
        if tests:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-o", "addopts="], cwd=d,
                               env=dict(os.environ, PYTHONPATH=str(d / "src"), PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
            out.append(("tests", r.returncode, r.stdout.strip().splitlines()[-1][:150]))
        for c in ids:
            r = subprocess.run([sys.executable, "-B", V / "tools/run.py", c, "quick"], cwd=V, env=dict(
                os.environ, OPENCLSIM_REPO=str(d), VERIF_OUT=str(d / "out")), capture_output=True, text=True)
            und = [l for l in r.stdout.splitlines() if l.startswith("UNDECIDED")]
            bad = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
            out.append((c, r.returncode, len(und), (bad[-1] if r.returncode else und[0] if und else "")[:400],
                        [l for l in r.stdout.splitlines() if not l.startswith("OK")][:6]))
    finally:
        shutil.rmtree(d)
    return spec, out


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "-t" in a
    a = [x for x in a if x != "-t"]
    ids, j = None, 8
    if "-c" in a:
        i = a.index("-c")
        ids = a[i + 1].split(",")
        del a[i:i + 2]
    if "-j" in a:
        i = a.index("-j")
        j = int(a[i + 1])
        del a[i:i + 2]
    if ids is None:
        ids = [c["property"] for c in json.load(open(V / "MANIFEST.json"))["checks"]]
    if ids == ["-"]:
        ids = []
    with ThreadPoolExecutor(j) as ex:
        for spec, out in ex.map(lambda s: one(s, ids, tests), a or sorted(refactor.ALL)):
            t = [x for x in out if x[0] == "tests"]
            rest = [x for x in out if x[0] != "tests"]
            print("==", spec, *(["tests", t[0][2]] if t else []), f"quiet {sum(1 for x in rest if not x[1] and not x[2])}/{len(rest)}")
            for x in rest:
                if x[1] or x[2]:
                    print("  ", x[0], "rc", x[1], "undecided", x[2], x[3])
                    if x[1] == 1:
                        for l in x[4][:3]:
                            print("       ", l[:300])
            sys.stdout.flush()

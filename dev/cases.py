"""Regression cases for the checks: textual edits of /repo that must be reported (bug) or must stay quiet (same).

usage: cases.py [-v] C14 [C15 ...]   each dev/cases/cNN.py defines CASES = [(kind, file, [(old, new), ...]), ...]
"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def run(pid, i, kind, file, edits):
    d = tempfile.mkdtemp(prefix="case")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        if isinstance(file, str):
            edits = [(file, *e) for e in edits]
        else:
            edits = list(file)
        for f, old, new in edits:
            p = f"{d}/src/openclsim/{f}"
            s = open(p).read()
            if old not in s:
                return (i, kind, "BADCASE", old[:60])
            s = s.replace(old, new)
            open(p, "w").write(s)
        for f, _, _ in edits:
            p = f"{d}/src/openclsim/{f}"
            compile(open(p).read(), p, "exec")
        env = dict(os.environ, OPENCLSIM_REPO=d, VERIF_OUT=d, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-B", VERIF + "/tools/run.py", pid, "quick"], capture_output=True, text=True,
                           env=env, timeout=900)
        out = [x for x in r.stdout.splitlines() if not x.startswith("    ")]
        viol = r.returncode == 1 and any(x.startswith("VIOLATION") for x in out)
        und = any("UNDECIDED" in x for x in out)
        st = "VIOLATION" if viol else "undecided" if und else "quiet" if r.returncode == 0 else f"rc{r.returncode}"
        return (i, kind, st, " / ".join(out[1:3] if viol else out[:3])[:int(os.environ.get("W", 330))])
    except SyntaxError as e:
        return (i, kind, "BADCASE", str(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    v = "-v" in sys.argv
    a = a or sorted(x[:-3].upper() for x in os.listdir(HERE + "/cases") if x.startswith("c") and x.endswith(".py"))
    bad = 0
    for pid in a:
        only = None
        if ":" in pid:
            pid, only = pid.split(":")
        sp = importlib.util.spec_from_file_location("cases_" + pid, f"{HERE}/cases/{pid.lower()}.py")
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        cases = [(i, *c) for i, c in enumerate(m.CASES) if only is None or str(i) in only.split(",")]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda c: run(pid, *c), cases))
        nb = sum(1 for r in res if r[1] == "bug")
        ns = len(res) - nb
        caught = sum(1 for r in res if r[1] == "bug" and r[2] == "VIOLATION")
        quiet = sum(1 for r in res if r[1] == "same" and r[2] == "quiet")
        und = sum(1 for r in res if r[1] == "same" and r[2] == "undecided")
        print(f"{pid}: bugs caught {caught}/{nb}, edits quiet {quiet}+{und} undecided of {ns}")
        for r in res:
            ok = r[2] == ("VIOLATION" if r[1] == "bug" else "quiet")
            if not ok or v:
                print(f"  [{r[0]}] {r[1]} -> {r[2]}: {r[3]}")
            if not ok and not (r[1] == "same" and r[2] == "undecided"):
                bad = 1
    return bad


sys.exit(main())

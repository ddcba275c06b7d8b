"""Run the check of each planted bug's property on a scratch copy with the patch: plantcheck.py [-a] [ids...] (-a: every check)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(x):
    sid, pids = x
    d = tempfile.mkdtemp(prefix="pc")
    res = []
    try:
        subprocess.run(f"cp -a /repo/src {d}/src", shell=True, check=True)
        r = subprocess.run(["git", "apply", f"{VERIF}/seeded/{sid}/patch.diff"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return sid, [("-", "NOAPPLY", r.stderr[:100])]
        for p in pids:
            env = dict(os.environ, OPENCLSIM_REPO=d, VERIF_OUT=d, PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run([sys.executable, "-B", VERIF + "/tools/run.py", p, "quick"], capture_output=True, text=True, env=env)
            out = [y for y in r.stdout.splitlines() if not y.startswith("    ")]
            viol = r.returncode == 1 and any(y.startswith("VIOLATION") for y in out)
            und = any("UNDECIDED" in y for y in out)
            st = "VIOLATION" if viol else "undecided" if und else "quiet" if r.returncode == 0 else f"rc{r.returncode}"
            res.append((p, st, " / ".join(out[:2])[:150]))
        return sid, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


a = [x for x in sys.argv[1:] if not x.startswith("-")]
ids = sorted(a or os.listdir(VERIF + "/seeded"))
have = sorted(f[:-3].upper() for f in os.listdir(VERIF + "/tools/rules") if f[0] == "c" and f[1:3].isdigit())
jobs = []
for i in ids:
    p = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))["property"]
    jobs.append((i, have if "-a" in sys.argv else [p] if p in have else []))
CAUGHT = {}
with ThreadPoolExecutor(8) as ex:
    for sid, res in ex.map(run, jobs):
        if "-a" in sys.argv:
            CAUGHT[sid] = [p for p, s, _ in res if s == "VIOLATION"]
            print(sid, "caught by", [p for p, s, _ in res if s == "VIOLATION"], "undecided", [p for p, s, _ in res if s == "undecided"],
                  "other", [p for p, s, _ in res if s.startswith("rc")])
        else:
            for p, s, m in res or [("-", "no check", "")]:
                print(sid, p, s, m if s != "VIOLATION" else m[:int(os.environ.get("W", 60))])
if "-a" in sys.argv and not a:
    json.dump(CAUGHT, open(VERIF + "/dev/caught.json", "w"), indent=0)

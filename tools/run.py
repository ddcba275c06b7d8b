#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property from /repo's current source."""

import ctypes
import importlib
import json
import os
import resource
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import threading

import lib  # noqa: E402
from model import AnalysisBroken  # noqa: E402

OB_SECONDS, ALL_SECONDS = 150, 450     # for one obligation, for all of them


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("rules." + pid.lower())
    try:
        ck = lib.Check(pid, tier)
        mod.run(ck)
    except AnalysisBroken as b:
        print(f"NO ANSWER property={pid}: {b}")
        return 2
    known = [k for k in lib.load_known() if k.get("property") == pid]
    new = []
    for v in ck.violations:
        k = next((k for k in known if k.get("rule") == v["rule"] and k.get("instance", v["instance"]) == v["instance"]
                  and k.get("in", "") in v["where"]), None)
        if k is not None:
            print(f"KNOWN-FINDING: property={pid} {k['text'] or v['message']}")
        else:
            new.append(v)
    n = len(ck.obligations)
    done = sum(1 for o in ck.obligations if o["status"] == "discharged")
    evdir = os.path.join(lib.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    samples = [f"{o['rule']} / {o['instance']}: {o['status']}"
               + (f" ({o['examined']} examined)" if "examined" in o else "") for o in ck.obligations]
    cov = {
        "explanation": (mod.__doc__ or "").strip(),
        "rule": (mod.__doc__ or "").strip().split("\n\n")[0],
        "obligations": n, "discharged": done,
        "violated": len(ck.violations), "undecided": len(ck.undecided), "no_answer": len(ck.broken),
        "functions_analysed": sorted(ck.funcs), "functions": len(ck.funcs),
        "effect_graphs": ck.counts["graphs"], "effect_graph_nodes": ck.counts["nodes"],
        "automaton_states": ck.counts["automaton_states"],
        "samples": samples,
        "undecided_obligations": [f"{r} / {i}: {m} {w}" for r, i, m, w in ck.undecided],
        "checker_cmd": f"python3 tools/run.py {pid} {tier}",
        "trusted_base": ["CPython ast module", "the abstract interpreter in /verif/tools",
                         "models of simpy, the builtin collections and numeric identities over the rationals"],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 3),
          "violations": len(new)}
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rc = 0
    for r, i, m, w in ck.undecided:
        print(f"UNDECIDED property={pid} rule={r} instance={i} {w}: {m}")
    for r, i, m in ck.broken:
        print(f"NO ANSWER property={pid} rule={r} instance={i}: {m}")
    if new:
        rdir = os.path.join(lib.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for j, v in enumerate(new):
            path = os.path.join(rdir, f"{pid}-{j}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  rule {v['rule']} / {v['instance']} at {v['where']}: {v['message']}")
            for p in v["path"][-12:]:
                print("    " + p[:200])
        return 1
    if ck.broken or n == 0:
        return 2
    if tier == "thorough" and ck.undecided:
        return 2
    print(f"OK property={pid}: {done}/{n} obligations, {len(ck.funcs)} functions, {ck.counts['nodes']} graph nodes")
    return 0


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        rc[0] = main()

    # memory runs out here before it does for the machine
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    t = threading.Thread(target=go, daemon=True)
    t.start()
    start, given_up = time.time(), None
    while t.is_alive():
        t.join(0.5)
        now = time.time()
        ob = lib.Check.running
        # an obligation that takes too long is undecided
        if ob is not None and ob != given_up and now - ob[1] > (OB_SECONDS if now - start < ALL_SECONDS else 2):
            given_up = ob
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(lib.TooLong))
        if now - start > ALL_SECONDS + 200:
            print(f"UNDECIDED property={sys.argv[1]}: out of time", flush=True)
            os._exit(0 if "thorough" not in sys.argv else 2)
    sys.stdout.flush()
    sys.exit(rc[0])

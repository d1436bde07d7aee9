#!/usr/bin/env python3
"""python3 tools/check.py <PROPERTY>: build the monitors of a property from /repo's working tree, run
them, and settle the verdict.  Exit 0: held on everything explored.  Exit 1 and a VIOLATION line:
broken.  Anything else: the check could not run."""
import json, os, shutil, subprocess, sys, time

ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import build as B  # noqa: E402


def merge(prop, parts, t0):
    """One evidence file from the parts of a check that consists of several runs."""
    evs = []
    for p in parts:
        f = f"{ROOT}/build/parts/{prop}.{p}.json"
        if os.path.exists(f):
            evs.append((p, json.load(open(f))))
    if not evs:
        return
    out = dict(evs[0][1])
    c = dict(out["coverage"])
    c["evaluations"] = sum(e["coverage"]["evaluations"] for _, e in evs)
    c["distinct_nontrivial"] = sum(e["coverage"]["distinct_nontrivial"] for _, e in evs)
    c["samples"] = [s for _, e in evs for s in e["coverage"]["samples"]][:16]
    c["parts"] = {p: {k: v for k, v in e["coverage"].items() if k not in ("samples", "rule")} for p, e in evs}
    c.pop("monitor_events", None)
    c.pop("distinct_observed", None)
    out["coverage"] = c
    out["violations"] = sum(e.get("violations", 0) for _, e in evs)
    out["wall_s"] = round(time.time() - t0, 3)
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    json.dump(out, open(f"{ROOT}/evidence/{prop}.json", "w"), indent=1)


def main():
    prop = sys.argv[1]
    runs = B.RUNS[prop]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    env = dict(os.environ, VERIF_ROOT=ROOT, VERIF_TIER=tier, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    env.pop("VERIF_PART", None)
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    ev = f"{ROOT}/evidence/{prop}.json"
    if os.path.exists(ev):
        os.unlink(ev)
    shutil.rmtree(f"{ROOT}/build/parts", ignore_errors=True)
    bad = 0
    names = []
    for run in runs:
        if run.get("tier") and run["tier"] != tier:
            continue
        B.build(run)
        e = dict(env, **run.get("env", {}))
        name = run.get("part", "")
        if len(runs) > 1:
            name = name or str(len(names))
            e["VERIF_PART"] = name
        names.append(name)
        beat = f"{ROOT}/build/beat.{prop}"
        e["VERIF_BEAT_FILE"] = beat if run.get("beat") else ""
        if not run.get("beat"):
            e.pop("VERIF_BEAT_FILE")
        cmd = B.command(run, prop)
        limit = run.get("timeout", 800 if tier == "quick" else 7200)
        try:
            r = subprocess.run(cmd, env=e, cwd=ROOT, timeout=limit, stdout=subprocess.PIPE, text=True, errors="replace")
        except subprocess.TimeoutExpired as x:
            sys.stdout.write((x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""))
            print(f"check {prop}: {' '.join(cmd)} ran over {limit} s")
            sys.exit(3)
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        if r.returncode == 1 and "VIOLATION property=" in r.stdout:
            bad = 1
        elif r.returncode < 0 and r.returncode not in (-9, -15):
            # the code under test brought the monitor down (stack overflow, abort, memory fault)
            d = f"{ROOT}/evidence/replay"
            os.makedirs(d, exist_ok=True)
            path = f"{d}/{prop}-signal{-r.returncode}.json"
            last = open(beat).read() if os.path.exists(beat) else ""
            json.dump({"property": prop, "key": "crash", "signal": -r.returncode, "cmd": cmd, "case": last,
                       "seed": e["VERIF_SEED"], "tier": tier}, open(path, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  the code under test crashed the process with signal {-r.returncode}")
            bad = 1
        elif r.returncode != 0:
            print(f"check {prop}: {' '.join(cmd)} ended with {r.returncode}")
            sys.exit(3)
    if len(runs) > 1:
        merge(prop, names, t0)
    if bad and not os.path.exists(ev):
        json.dump({"property": prop, "tier": tier, "seed": int(env["VERIF_SEED"]), "level": "exploration",
                   "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended in a crash or hang", "samples": ["see replay"]},
                   "wall_s": round(time.time() - t0, 3), "violations": 1}, open(ev, "w"))
    sys.exit(bad)


if __name__ == "__main__":
    main()

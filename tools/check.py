#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree.

Builds the machinery from /repo, explores, writes evidence/<property>.json and
exits 0 (held), 1 (VIOLATION line printed) or 2 (the check itself failed)."""
import json, os, shutil, subprocess, sys, tempfile, time

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C23"}
RACE = {"C22"}


def known(prop):
    out = []
    try:
        for line in open(os.path.join(here, "known-findings.txt")):
            if line.startswith("finding: property=%s " % prop):
                out.append(line[len("finding: "):].strip())
    except FileNotFoundError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    start = time.time()
    limit = 240 if tier == "quick" else 800
    ev_dir = os.path.join(here, "evidence")
    replays = os.path.join(ev_dir, "replays")
    os.makedirs(replays, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-check.", dir="/tmp")
    try:
        exe = os.path.join(tmp, "x")
        if prop in PURE:
            cmd = [os.path.join(here, "buildpure.sh"), exe]
        else:
            cmd = [os.path.join(here, "build.sh"), exe] + (["-race"] if prop in RACE else [])
        b = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode != 0:
            sys.stdout.write(b.stdout)
            print("build failed")
            return 2
        out = os.path.join(tmp, "out.json")
        args = [exe, "-prop", prop, "-tier", tier, "-seconds", str(limit), "-evidence", out, "-replays", replays]
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        text = r.stdout
        if len(text) > 40000:
            text = text[:15000] + "\n...\n" + text[-20000:]
        sys.stdout.write(text)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("the explorer ended with", r.returncode)
            return 2
        d = json.load(open(out))
        seed = int(os.environ.get("VERIF_SEED", "0") or 0)
        nviol = len(d.get("violations") or [])
        if prop in PURE:
            level = "exploration"
            cov = {
                "evaluations": d["transitions"],
                "distinct_nontrivial": d["states"],
                "rule": "every case is a distinct point of an enumerated space (listed under spaces); evaluations are the calls of the implementation compared with the reference for all of them",
                "samples": d["samples"],
                "exhaustive": bool(d["complete"]),
                "spaces": d["spaces"],
            }
        else:
            level = "model_checking"
            cov = {
                "states": d["states"],
                "transitions": d["transitions"],
                "traces_validated_against_impl": d["executions"],
                "distinct_outcomes": d["outcomes"],
                "samples": d["samples"],
                "exhaustive": bool(d["complete"]),
                "rule": "every execution runs the implementation itself (instrumented copy of the working tree) under the controlled scheduler, virtual clock and virtual network; all free choices and all schedules with at most the listed number of deviations from the default schedules (oldest first, newest first, round robin, and ones that starve one goroutine or a group) are enumerated, for fresh, restarted and, where speed does not matter, lingering objects; states are distinct hashes of the happens-before history, counted per worker",
                "scenarios": d["scenarios"],
                "executions_not_following_their_prefix": d["diverged"],
                "violations_not_reproducible": d["unconfirmed"],
            }
        e = {
            "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": ASSUME_PURE if prop in PURE else ASSUME,
            "wall_s": round(time.time() - start, 3), "violations": nviol,
        }
        with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)
            f.write("\n")
        if r.returncode == 0:
            for k in known(prop):
                print("KNOWN-FINDING: " + k)
        return r.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ASSUME_PURE = [
    "inputs outside the enumerated spaces behave like those inside (the spaces list what is complete)",
    "the reference description of the Art-Net formats in pure/ref is right",
]
ASSUME = [
    "no incorrect behaviour needs more deviations, larger bursts or longer runs than the listed bounds",
    "the virtual scheduler, channels, locks, timers and sockets behave like those of Go (sequentially consistent memory between scheduling points; data races are judged by C22)",
    "the source rewriting that puts the virtual runtime in place keeps the meaning of the code",
]

if __name__ == "__main__":
    sys.exit(main())

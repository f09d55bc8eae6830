#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current tree.
check.py --replay FILE: show the recorded violation again, step by step."""
import argparse, json, os, subprocess, sys, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import verif
from verif import Work, Report, run_scenarios, run_spaces, add_mc

MC_TRUST = [
    "the virtual runtime (mc/vs and shims) models goroutines, channels, sync, time, net, fsnotify faithfully; it is compared with the native runtime by the litmus suite",
    "sequentially consistent interleavings at synchronisation, channel, network and file operations; unsynchronised accesses are the business of R01",
]

NATIVE_TRUST = [
    "the enumeration runs the real packages, unmodified, in child processes; a crash, fatal error or endless loop of a child is attributed to the input in progress",
    "the reference semantics in native/ (codec, URL rules, buffer rules) is written from the documentation, independently of the program",
]

# property: engines that decide it; "mc": controlled-scheduler harness, "seq": sequential enumeration harness
ENGINES = {
    "E01": [("mc", "srv")], "D01": [("mc", "srv")], "D02": [("mc", "srv")], "D03": [("mc", "srv")],
    "S01": [("mc", "srv"), ("seq", "pg"), ("seq", "prog")],
    "S02": [("mc", "srv"), ("seq", "prog")], "S03": [("mc", "srv"), ("seq", "prog")], "S04": [("mc", "srv")], "S05": [("mc", "srv")], "S06": [("mc", "srv"), ("seq", "prog")], "S07": [("mc", "srv"), ("seq", "prog")],
    "V01": [("mc", "srv")], "V02": [("mc", "srv")], "V03": [("mc", "srv"), ("mc", "cli"), ("seq", "prog")], "V04": [("mc", "srv")],
    "R01": [("mc", "srv"), ("mc", "cli")],
    "L01": [("mc", "cli"), ("seq", "prog")], "L02": [("mc", "cli")], "L03": [("mc", "cli"), ("seq", "prog")],
    "W01": [("seq", "pg")], "W02": [("seq", "pg")], "W03": [("seq", "pg")], "W04": [("seq", "pg")], "W05": [("seq", "pg")], "W06": [("seq", "pg")],
    "U01": [("seq", "pg")],
    "M01": [("seq", "pgmeta")], "M02": [("seq", "pgmeta")],
}
QUICK_BUDGET = 150
THOROUGH_BUDGET = 780


def check(prop, tier):
    rep = Report(prop, tier, "model_checking")
    w = Work()
    engines = ENGINES[prop]
    for i, (kind, harness) in enumerate(engines):
        if rep.violations:
            break
        budget = QUICK_BUDGET if tier == "quick" else (THOROUGH_BUDGET - (time.time() - rep.start)) / (len(engines) - i)
        try:
            if kind == "mc":
                b = w.build_mc(harness)
                extra = ["-onlyraces"] if prop == "R01" else []
                res = run_scenarios(w, b, prop, tier, budget, extra)
                rep.assumptions += MC_TRUST
            else:
                b = w.build_native(harness)
                extra = []
                res = run_spaces(w, b, prop, tier, budget)
                rep.assumptions += NATIVE_TRUST
        except verif.Failed as e:
            rep.errors.append(str(e))
            continue
        for r in res:
            if r.get("violation"):
                r["engine"], r["harness"], r["extra"] = kind, harness, extra
        add_mc(rep, res)
    return rep.finish()


def replay(path):
    r = json.load(open(path))
    w = Work()
    b = w.build_mc(r["harness"]) if r["engine"] == "mc" else w.build_native(r["harness"])
    env = dict(verif.ENV, MC_SCRATCH=w.dir, GEVULOT_PROG=getattr(w, "program", ""))
    return subprocess.call([b, "-replay", os.path.abspath(path)] + r.get("extra", []), cwd=w.dir, env=env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--litmus", action="store_true")
    a = ap.parse_args()
    if a.litmus:
        import litmus
        return litmus.main()
    if a.setup:
        verif.sh(["go", "build", "./..."], os.path.join(verif.VERIF, "mc"))
        print("machinery compiles")
        import litmus
        litmus.main()  # differences are reported, they do not stop the checks
        return 0
    if a.replay:
        return replay(a.replay)
    tier = "thorough" if a.tier == "thorough" else "quick"
    if a.id in ENGINES:
        return check(a.id, tier)
    print("unknown property", a.id)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except verif.Failed as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)

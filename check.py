#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current working tree.

1. builds the extractor, extracts the functions the property depends on from /repo, merges them with
   the contracts in /verif/spec and has Verus discharge every obligation;
2. builds the falsifier against /repo's crates and searches for a failing input, which is the replay
   of a failed obligation, and the bounded stand-in where a function is out of the verifier's reach.

Exit 0: held. Exit 1: a line VIOLATION property=<id> replay=<path> [no-failing-input-found]."""
import json, os, re, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import prover
from props import PROPS

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, "", "timed out after %ss" % timeout


class Falsifier(threading.Thread):
    """Builds against the real code and searches for a failing input."""

    def __init__(self, prop, seed, tier):
        super().__init__()
        self.prop, self.seed, self.tier = prop, seed, tier
        self.result, self.note, self.exe, self.cmd = None, "", None, ""

    def run(self):
        try:
            self.work()
        except Exception as e:  # never an alarm
            self.note = "falsifier: %r" % e

    def work(self):
        src = os.path.join(V, "falsify")
        for flags, sub in (("--cfg bip324_verif -A unexpected_cfgs", "falsify"), ("-A unexpected_cfgs", "falsify-nohooks")):
            tgt = os.path.join(BUILD, sub)
            rc, _, err = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", tgt], 400, {"RUSTFLAGS": flags, "CARGO_TERM_COLOR": "never"}, src)
            if rc == 0:
                self.exe = os.path.join(tgt, "debug", "falsify")
                break
            self.note += "build with [%s] failed: %s\n" % (flags, err[-1500:])
        if not self.exe:
            return
        self.search(self.seed, self.tier, 60 if self.tier == "quick" else 900)

    def search(self, seed, tier, secs):
        out = os.path.join(BUILD, "falsify-%s.json" % self.prop)
        if os.path.exists(out):
            os.unlink(out)
        self.cmd = "%s run %s %d %s %d OUT" % (self.exe, self.prop, seed, tier, secs)
        rc, so, se = sh([self.exe, "run", self.prop, str(seed), tier, str(secs), out], secs + 300)
        if os.path.exists(out):
            self.result = json.load(open(out))
        elif rc < 0 or rc in (101, 134, 139):
            m = re.findall(r"^scenario (\w+)$", se, re.M)
            self.result = {"evaluations": 0, "hooks": False, "seconds": 0, "scenarios": [], "failure": {
                "scenario": m[-1] if m else "?", "case": -1, "seed": seed, "tier": tier,
                "message": "the process running the code ended abnormally (status %d)" % rc}}
        else:
            self.note += "run ended with %d: %s" % (rc, se[-500:])


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    f = Falsifier(prop, seed, tier)
    f.start()
    try:
        pr = prover.prove(prop, P, V, REPO, BUILD, tier, seed)
    except Exception as e:
        pr = prover.unavailable("%r" % e)
    f.join()
    if f.exe and not (f.result or {}).get("failure") and (pr["failed"] or pr["degraded"]) and tier == "quick":
        # something is left open: look much further for an input that settles it
        first, f.result = f.result or {}, None
        try:
            f.search(seed + 1000, "thorough", 240)
        except Exception as e:
            f.note += "falsifier: %r" % e
        f.result = f.result or {}
        f.result["evaluations"] = f.result.get("evaluations", 0) + first.get("evaluations", 0)
    fr = f.result or {}
    fail = fr.get("failure")
    known = [l for l in open(os.path.join(V, "known_findings.txt")).read().splitlines() if l.startswith("known: property=%s " % prop)]
    replay = os.path.join(V, "evidence", "%s-replay.json" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    viol = 0
    line = None
    if fail:
        viol = 1
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif pr["failed"]:
        viol = 1
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    if viol:
        with open(replay, "w") as h:
            json.dump({
                "property": prop,
                "failing_input": fail,
                "how_to_replay": ("cd %s/falsify && RUSTFLAGS='--cfg bip324_verif -A unexpected_cfgs' cargo run --offline --target-dir %s/falsify -- one %s %s %s %s" % (V, BUILD, fail["scenario"], fail["seed"], fail["case"], fail["tier"])) if fail else None,
                "failed_obligations": pr["failed"],
                "verifier_output": pr["output"][-20000:],
            }, h, indent=1)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": pr["obligations"],
            "discharged": pr["discharged"],
            "checker_cmd": pr["cmd"],
            "trusted_base": pr["trusted"],
            "functions_under_contract": pr["functions"],
            "clauses_stating_the_property": pr["clauses"],
            "lemmas": pr["lemmas"],
            "backend": pr["backend"],
            "solver_time_ms": pr["smt_ms"],
            "slowest_functions_ms": pr["slowest"],
            "extraction": pr["extraction"],
            "not_proved_this_run": pr["degraded"],
            "failed_obligations": pr["failed"],
            "attempts": pr["attempts"],
            "vacuity": pr["vacuity"],
            "bounded_search": {
                "label": "bounded; not counted as proved",
                "evaluations": fr.get("evaluations", 0),
                "with_hooks": fr.get("hooks", False),
                "scenarios": fr.get("scenarios", []),
                "command": f.cmd,
                "note": f.note,
            },
        },
        "assumptions": P["assumptions"] + prover.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": viol,
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    for l in known:
        print("KNOWN-FINDING: " + l[len("known: "):])
    print("%s %s: %d/%d obligations discharged (%d property clauses), %d cases searched%s, %.0fs" % (
        prop, tier, pr["discharged"], pr["obligations"], len(pr["clauses"]), fr.get("evaluations", 0),
        (", NOT PROVED (bounded search decides): " + "; ".join(d["function"] + " (" + d["reason"] + ")" for d in pr["degraded"])) if pr["degraded"] else "",
        time.time() - t0))
    if f.note:
        print("note: " + f.note[-600:])
    for o in pr["failed"]:
        print("failed obligation: %s" % o["obligation"])
    if fail:
        print("failing input: scenario %(scenario)s case %(case)s seed %(seed)s: %(message)s" % fail)
    if line:
        print(line)
    sys.stdout.flush()
    if not viol and not pr["discharged"] and not fr.get("evaluations"):
        print("no answer: neither the proof nor the search could be run on this tree")
        sys.exit(2)
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    main()

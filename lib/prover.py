"""Extraction + Verus: proves the functions of a property's cone against their contracts."""
import json, os, re, subprocess, time
import vgen

COMMON_ASSUMPTIONS = [
    "Verus 0.2026.09.13 and Z3 are sound; the extraction rules listed in DESIGN.md preserve meaning",
    "usize has 64 bits; allocation does not fail",
    "contracts assumed for dependencies (spec/deps.rs, spec/iodeps.rs, spec/shdeps.rs, spec/prelude.rs) as listed in trusted_base",
    "counters of packets in a direction stay below 2^64 - 1 (stated preconditions)",
]
BUDGET = {"quick": 420, "thorough": 1500}


def unavailable(why):
    return {"failed": [], "output": why, "obligations": 0, "discharged": 0, "cmd": "verus", "trusted": [], "functions": [],
            "clauses": [], "lemmas": [], "backend": "none", "smt_ms": 0, "slowest": [], "extraction": {}, "vacuity": "not run",
            "degraded": [{"function": "*", "reason": "proof machinery unavailable: " + why[-300:]}], "attempts": []}


def run_verus(path, seed, timeout, rlimit=60, multi=5, extra=()):
    cmd = ["verus", "--crate-type", "lib", "--multiple-errors", str(multi), "--rlimit", str(rlimit), "-V", "spinoff-all",
           "--no-report-long-running", "--output-json", "--time-expanded", "--error-format=json",
           "--smt-option", "smt.random_seed=%d" % seed] + list(extra) + [os.path.basename(path)]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"cmd": " ".join(cmd), "timeout": True, "diags": [], "json": None, "raw": "timed out"}
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                diags.append(d)
    try:
        j = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        j = None
    raw = "\n".join(d.get("rendered") or d["message"] for d in diags) or (p.stderr[-3000:] if p.returncode else "")
    return {"cmd": " ".join(cmd), "timeout": False, "diags": diags, "json": j, "raw": raw, "rc": p.returncode}


def fn_of_line(lines, n):
    """The contract key of the function whose text contains line n (1-based)."""
    i = min(n, len(lines)) - 1
    while i >= 0 and not re.match(r"\s*(?:pub(?:\([^)]*\))? )?(?:(?:open|closed|uninterp|broadcast) )*(?:async )?(?:(?:spec|proof|axiom) )?fn\b", lines[i]):
        i -= 1
    head = i
    if head < 0:
        return None, None
    m = re.search(r"fn (\w+)", lines[head])
    for k in range(head, min(head + 40, len(lines))):
        x = re.search(r"/\*@fn (.*?)\*/", lines[k])
        if x:
            return x.group(1), m.group(1) if m else None
        if k > head and re.search(r"\bfn \w+", lines[k]):
            break
    return None, m.group(1) if m else None


def tags_in(lines, a, b):
    t = []
    for l in lines[a - 1:b]:
        m = re.search(r"//\s*\[([C\d, ]+)\]", l)
        if m:
            t += [x.strip() for x in m.group(1).split(",")]
    return t


# what Verus says of an obligation it could not discharge; anything else is a matter of the language
OBLIGATION = re.compile(r"^(?:pre|post)condition not satisfied|^(?:loop )?(?:invariant|ensures|condition) .*not satisfied|^assert\w* (?:failed|not|may)"
                        r"|^possible |^decreases |^could not prove|^cannot (?:show|prove) |^recommendation|not satisfied(?: \w+)*$|may (?:fail|not) ")


def analyse(run, path, specs):
    """Splits the diagnostics into verification failures, resource limits and compile errors."""
    text = open(path).read()
    lines = text.split("\n")
    vr = (run["json"] or {}).get("verification-results")
    res = {"failed": [], "rlimit": set(), "compile": [], "ok": False}
    if run["timeout"]:
        res["compile"].append({"fn": None, "message": "verifier timed out"})
        return res
    for d in run["diags"]:
        spans = [s for s in d["spans"] if s["file_name"].endswith("verified.rs")]
        prim = next((s for s in spans if s["is_primary"]), spans[0] if spans else None)
        key, name = fn_of_line(lines, prim["line_start"]) if prim else (None, None)
        if key is None:
            # a clause of a trait: the function is that of another span
            for s in spans:
                k2, n2 = fn_of_line(lines, s["line_start"])
                if k2 is not None:
                    key, name = k2, n2
                    break
        msg = d["message"]
        if "esource limit" in msg:
            res["rlimit"].add(key or name)
        elif d.get("code") or vr is None or vr.get("encountered-vir-error") or not OBLIGATION.search(msg):
            res["compile"].append({"fn": key, "name": name, "message": msg, "line": prim["line_start"] if prim else 0})
        else:
            tags, clause = None, None
            for s in spans:
                lab = (s.get("label") or "")
                if "failed this postcondition" in lab:
                    tags = tags_in(lines, s["line_start"], s["line_end"])
                    clause = " ".join(l.strip() for l in lines[s["line_start"] - 1:s["line_end"]])
                elif "failed precondition" in lab:
                    tags = tags_in(lines, s["line_start"], s["line_end"])
                    clause = "requires " + " ".join(l.strip() for l in lines[s["line_start"] - 1:s["line_end"]])
            f = specs.fns.get(key)
            if not tags and prim and prim["line_end"] - prim["line_start"] < 12:
                tags = tags_in(lines, prim["line_start"], prim["line_end"])
            if not tags:
                tags = list(f.tags) if f else []
            where = " ".join(l.strip() for l in lines[prim["line_start"] - 1:prim["line_end"]])[:300] if prim else ""
            res["failed"].append({"function": key or name or "?", "tags": tags, "message": msg,
                                  "obligation": "%s: %s: %s [at: %s]" % (key or name, msg, (clause or where)[:400], where)})
    if not run["diags"] and not (vr and vr.get("success")):
        res["compile"].append({"fn": None, "message": "verifier gave no verdict: " + run["raw"][-300:]})
    res["ok"] = not (res["failed"] or res["rlimit"] or res["compile"])
    return res


def breakdown(run):
    out = {}
    for m in (run["json"] or {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            k = f["function"]
            o = out.setdefault(k, {"time": 0, "ok": True, "mode": f.get("mode:")})
            o["time"] += f["time"]
            o["ok"] = o["ok"] and f["success"]
    return out


def attempt(repo, ex, outdir, P, inline, deadline, seed, log):
    """One mode: extract, verify; where a function is out of reach, drop its hints, then its body."""
    external, nohints, degraded = set(), set(), {}
    last = None
    for rnd in range(8):
        left = deadline - time.time()
        if left < 20:
            return None
        path, rep, specs = vgen.generate(repo, ex, outdir, inline, P["modules"], external, nohints)
        for k in rep["lost"]:
            degraded.setdefault(k, "not found in the source")
        for w in rep["unmodelled"]:
            degraded["* " + w] = "added to the code and not represented in what is verified"
        # a contract whose loops are not those of the code cannot be placed
        again = False
        opaque = {}
        for o in rep["opaque"]:
            c, h = o.split(" ")[0] if " as " not in o else o.rsplit(" ", 1)[0], o.rsplit(" ", 1)[1]
            opaque.setdefault(c, set()).add(h)
        for k, f in specs.fns.items():
            n = rep["loops"].get(k)
            if f.loops and n is not None and n != max(f.loops) + 1 and k not in external and not (inline and f.kind == "aux"):
                external.add(k)
                degraded[k] = "its loops changed"
                again = True
        if again:
            continue
        run = run_verus(path, seed, left)
        res = analyse(run, path, specs)
        log.append({"mode": "inline" if inline else "contracts", "round": rnd, "failed": len(res["failed"]), "rlimit": sorted(map(str, res["rlimit"])),
                    "compile": [c["message"][:200] for c in res["compile"][:3]], "external": sorted(external)})
        last = (run, res, path, rep, specs)
        if res["compile"]:
            moved = False
            for c in res["compile"]:
                k = c.get("fn")
                if k is not None and k not in specs.fns and k in rep["uncontracted"] and k not in external:
                    external.add(k)
                    degraded[k] = "outside the verifier's subset: " + c["message"][:160]
                    moved = True
                if k is None or k not in specs.fns:
                    continue
                f = specs.fns[k]
                if k not in nohints and (f.entry or f.loops or f.exit or f.loopends or f.loopstarts or f.afters or f.befores):
                    nohints.add(k)
                    degraded.setdefault(k, "proof hints do not fit the changed code")
                    moved = True
                elif k not in external:
                    external.add(k)
                    degraded[k] = "outside the verifier's subset: " + c["message"][:160]
                    moved = True
            if not moved and not inline:
                # the culprit is not known: every changed function
                for k in sorted(vgen.changed(rep) - external):
                    if k in specs.fns or k in rep["uncontracted"]:
                        external.add(k)
                        degraded[k] = "outside the verifier's subset: " + res["compile"][0]["message"][:160]
                        moved = True
            if not moved:
                degraded["*"] = "the extracted crate does not compile: " + res["compile"][0]["message"][:200]
                return {"run": run, "res": {"failed": [], "rlimit": set(), "compile": res["compile"]}, "path": path, "rep": rep, "specs": specs,
                        "degraded": degraded, "usable": False, "seeds": [seed]}
            continue
        # other seeds for what ran out of resources
        todo, seeds = set(res["rlimit"]), [seed]
        for s in (seed + 101, seed + 202, seed + 303):
            if not todo or deadline - time.time() < 60:
                break
            r2 = run_verus(path, s, deadline - time.time(), rlimit=90)
            a2 = analyse(r2, path, specs)
            seeds.append(s)
            todo &= set(a2["rlimit"]) | {x["function"] for x in a2["failed"]}
        for k in todo:
            degraded[k] = "the solver ran out of resources"
        # a function that lost its hints and fails is out of reach, not wrong
        failed = []
        for x in res["failed"]:
            if x["function"] in nohints:
                degraded[x["function"]] = "proof hints do not fit the changed code"
            elif not specs.fns[x["function"]].loops and rep["loops"].get(x["function"]) if x["function"] in specs.fns else rep["loops"].get(x["function"]):
                degraded[x["function"]] = "has a loop without invariant"
            elif vgen.stale(specs, rep, x["function"]):
                degraded[x["function"]] = "a loop no longer works on the variable its invariant is about: " + vgen.stale(specs, rep, x["function"])
            elif x["function"] in rep["closures"]:
                degraded[x["function"]] = "has a closure without contract"
            elif x["function"] in opaque:
                degraded[x["function"]] = "calls a function without contract that cannot be inlined: " + ", ".join(sorted(opaque[x["function"]]))
            elif x["function"] not in specs.fns and " as " not in x["function"]:
                degraded["* " + x["function"]] = "has no contract and was not inlined: " + x["obligation"][:160]
            else:
                failed.append(x)
        for k in nohints:
            if k not in [x["function"] for x in res["failed"]] and k not in todo and k not in external:
                degraded.pop(k, None)
        res = dict(res, failed=failed, rlimit=todo)
        return {"run": run, "res": res, "path": path, "rep": rep, "specs": specs, "degraded": degraded, "usable": True, "seeds": seeds}
    if last:
        run, res, path, rep, specs = last
        degraded["*"] = "no stable extraction"
        return {"run": run, "res": {"failed": [], "rlimit": set(), "compile": []}, "path": path, "rep": rep, "specs": specs, "degraded": degraded, "usable": False, "seeds": [seed]}
    return None


def relevant(a, prop):
    """Failures and degradations that concern the property."""
    sp = a["specs"]
    failed = [x for x in a["res"]["failed"] if prop in x["tags"]]
    deg = []
    for k, why in a["degraded"].items():
        f = sp.fns.get(k)
        spec_tags = set(f.tags) if f else set()
        if f:
            spec_tags |= {t for t in tags_in(f.spec, 1, len(f.spec))}
        if k.startswith("*") or prop in spec_tags:
            deg.append({"function": k, "reason": why})
    return failed, deg


def prove(prop, P, V, repo, build, tier, seed):
    deadline = time.time() + BUDGET[tier]
    tgt = os.path.join(build, "extract")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir", tgt], cwd=os.path.join(V, "extract"),
                       capture_output=True, text=True, timeout=300, env=dict(os.environ, RUSTFLAGS=""))
    if p.returncode != 0:
        return unavailable("extractor build: " + p.stderr[-800:])
    ex = os.path.join(tgt, "debug", "extract")
    log = []
    out1 = os.path.join(build, "gen-%s" % prop)
    a = attempt(repo, ex, out1, P, False, deadline, 0, log)
    best = a
    # a second attempt without the optional contracts of private functions, which are inlined instead
    if a is not None and (a["res"]["failed"] or a["degraded"]) and touched_aux(a):
        b = attempt(repo, ex, out1 + "-inline", P, True, deadline, 0, log)
        def score(x):
            if x is None:
                return (3, 0, 0)
            f, d = relevant(x, prop)
            return (1 if x["usable"] else 2, len(f) + len(d), len(x["res"]["failed"]) + len(x["degraded"]))
        if b is not None and score(b) < score(a):
            best = b
    if best is None:
        return unavailable("no time left for the proof")
    failed, deg = relevant(best, prop)
    bd = breakdown(best["run"])
    text = open(best["path"]).read()
    lines = text.split("\n")
    clauses = []
    cur = None
    for l in lines:
        m = re.search(r"/\*@fn (.*?)\*/", l)
        if m:
            cur = m.group(1)
        m = re.search(r"//\s*\[([C\d, ]+)\]", l)
        if m and prop in [x.strip() for x in m.group(1).split(",")]:
            clauses.append("%s: %s" % (cur, l.split("//")[0].strip()))
    lem = re.findall(r"///\s*\[([C\d, ]+)\][^\n]*\n(?:pub )?(?:broadcast )?proof fn (\w+)", text)
    lemmas = [n for t, n in lem if prop in t.replace(" ", "").split(",")]
    trusted = []
    for f in ("prelude.rs", "deps.rs", "iodeps.rs", "shdeps.rs", "axioms.rs"):
        t = open(os.path.join(V, "spec", f)).read()
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(fn|struct) (\w+)", t):
            trusted.append("%s: %s %s (assumed)" % (f, m.group(1), m.group(2)))
        for m in re.finditer(r"axiom fn (\w+)", t):
            trusted.append("%s: axiom %s" % (f, m.group(1)))
    for k, f in best["specs"].fns.items():
        if f.kind == "external":
            trusted.append("contract of %s (assumed)" % k)
        elif k.startswith("derived-"):
            trusted.append("%s: what the derive generates (assumed)" % k)
        for l in f.entry + sum(f.loopstarts.values(), []) + sum(f.loopends.values(), []) + f.exit + sum(f.afters.values(), []) + sum(f.befores.values(), []):
            if re.search(r"\bassume\(", l):
                trusted.append("%s: %s" % (k, l.strip()))
    nob = sum(1 for x in bd.values())
    badfn = {x["function"] for x in best["res"]["failed"]} | {str(x) for x in best["res"]["rlimit"]}
    ok = max(0, min(nob, nob - len(badfn)))
    nob += len([d for d in best["degraded"] if d in best["specs"].fns and best["degraded"][d] != "not found in the source" and not any(True for x in badfn if x == d)])
    if not best["usable"]:
        ok = 0
    vac = "thorough runs check that no contract is vacuous"
    if tier == "thorough" and best["usable"] and deadline - time.time() > 120:
        vac = vacuity(repo, ex, out1 + "-vac", P, deadline)
    slow = sorted(((v["time"], k) for k, v in bd.items()), reverse=True)[:5]
    nonspec = [k for k in best["specs"].fns if not k.startswith("derived-") and best["specs"].fns[k].kind != "external" and k in best["rep"]["functions"] and k not in best["degraded"]]
    return {
        "failed": [{k: x[k] for k in ("function", "obligation", "tags")} for x in failed],
        "output": best["run"]["raw"], "obligations": nob, "discharged": ok, "cmd": "cd %s && %s" % (os.path.dirname(best["path"]), best["run"]["cmd"]),
        "trusted": trusted, "functions": nonspec, "clauses": clauses, "lemmas": lemmas,
        "backend": "Verus 0.2026.09.13.671956e / Z3 (seeds %s)" % best["seeds"],
        "smt_ms": (best["run"]["json"] or {}).get("times-ms", {}).get("smt", {}).get("total", 0),
        "slowest": ["%s %d" % (k, t) for t, k in slow],
        "extraction": {"modules": [m or "(root)" for m in P["modules"]], "dropped": best["rep"]["dropped"], "inlined": best["rep"]["inlined"],
                       "without_contract": best["rep"]["uncontracted"], "notes": best["rep"]["notes"],
                       "other_unproved": {k: v for k, v in best["degraded"].items()}},
        "degraded": deg, "attempts": log, "vacuity": vac,
    }


def touched_aux(a):
    """A private function with an optional contract is gone, was changed, or fails, or a caller of one fails."""
    bad = {x["function"] for x in a["res"]["failed"]} | set(a["degraded"])
    text = open(a["path"]).read()
    for k, f in a["specs"].fns.items():
        if f.kind != "aux":
            continue
        if k in bad:
            return True
        name = k.rsplit("::", 1)[-1]
        for b in bad:
            i = text.find("/*@fn %s*/" % b)
            if i >= 0:
                j = text.find("/*@fn ", i + 5)
                if re.search(r"\b%s\(" % re.escape(name), text[i:j]):
                    return True
    return False


def vacuity(repo, ex, outdir, P, deadline):
    """With `false` added to every postcondition each function has to fail."""
    path, rep, specs = vgen.generate(repo, ex, outdir, False, P["modules"], vacuity=True)
    run = run_verus(path, 0, deadline - time.time(), rlimit=20, multi=0)
    text = open(path).read().split("\n")
    want = {k for k, f in specs.fns.items() if any("[VACUITY]" in l for l in f.spec) and k in rep["functions"]}
    got = set()
    for d in run["diags"]:
        for s in d["spans"]:
            if s["file_name"].endswith("verified.rs"):
                k, n = fn_of_line(text, s["line_start"])
                got.add(k)
    bad = sorted(want - got)
    return "all %d contracts refute false" % len(want) if not bad else "vacuous or skipped: " + ", ".join(bad)

#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree.
1. the functions the property depends on are extracted, composed with their contracts and given to Verus;
2. the executable form of the same contracts is run against the real crates (failing inputs; the bounded stand-in for functions
   outside the verifier's reach)."""
import json, os, subprocess, sys, time, shutil
T0 = time.time()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dv import VERIF, REPO, VX
from props import PROPS
import prove as P

prop = sys.argv[1]
info = PROPS[prop]
tier = os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
WORK = os.path.join(VERIF, "work", prop)
shutil.rmtree(WORK, ignore_errors=True)
os.makedirs(WORK)
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
TOOLCHAIN = "nightly-2026-03-10"


def sh(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    for k in [k for k, v in e.items() if v is None]:
        del e[k]
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def build_vx():
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "tools/vx"), env=e, capture_output=True, text=True)
    return p.returncode == 0, p.stderr[-800:]


def build_harness(name):
    p = sh(["cargo", "build", "--offline", "-q"], os.path.join(VERIF, "harness", name),
           {"CARGO_TARGET_DIR": os.path.join(VERIF, "harness/target"), "RUSTUP_TOOLCHAIN": TOOLCHAIN, "RUSTFLAGS": "--cap-lints allow"})
    return p.returncode == 0, p.stderr[-1500:]


def run_harness(name, budget, sd, tag):
    exe = os.path.join(VERIF, "harness/target/debug/h" + name)
    out = os.path.join(WORK, f"run{tag}.json")
    args = [exe, prop, out, str(sd), tier, str(budget)]
    try:
        p = sh(args, WORK, timeout=budget + 240)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    if os.path.exists(out):
        return json.load(open(out))
    # it died: run again, leaving a trace of the case
    tr = os.path.join(WORK, f"trace{tag}.txt")
    try:
        sh(args + [tr], WORK, timeout=budget * 4 + 240)
    except subprocess.TimeoutExpired:
        pass
    case = open(tr).read() if os.path.exists(tr) else "?"
    return {"evaluations": 1, "distinct": 1, "samples": [case], "groups": {}, "known": [],
            "violations": [{"case": case, "what": f"the process died (exit {rc}): stack overflow or abort"}]}


def main():
    ok, err = build_vx()
    if not ok:
        print("building the extractor failed:", err)
        return 2
    notes = []
    fns_mine, failed, demoted, oblig, proofs = [], {}, {}, [], []
    verified = 0
    smt_ms = 0
    answered = True
    trusted = []
    cmds = []
    for unit in info["units"]:
        r = P.prove(unit, WORK)
        if not r.ok:
            answered = False
            notes += [f"{unit}: {n}" for n in r.notes]
            continue
        proofs.append(r)
        notes += [f"{unit}: {n}" for n in r.notes]
        trusted += P.trusted_base(r)
        vr = r.out.get("verification-results", {})
        verified += vr.get("verified", 0)
        try:
            smt_ms += r.out["times-ms"]["smt"]["smt-run"]
        except (KeyError, TypeError):
            pass
        cmds.append(f"verus {os.path.relpath(r.path, VERIF)} --rlimit 8 --num-threads 8")
        bykey = {f.key: f for f in r.fns}
        for f in r.fns:
            ps = list(f.contract.props) if f.contract else []
            if not f.contract and getattr(f, "props_from", None):
                ps = list(f.props_from.props)
            if prop in ps or (prop == "C10" and f.status == "full"):
                if f.status in ("full",):
                    fns_mine.append(f)
                elif f.status in ("stub", "dropped", "drop", "uncontracted") and f.contract:
                    demoted.setdefault(f.key, r.demoted.get(f.key, "not under contract"))
        for k, fl in r.failed.items():
            f = bykey.get(k)
            ps = list(f.contract.props) if f and f.contract else []
            if f and getattr(f, "props_from", None):
                ps += f.props_from.props
            hit = prop in ps
            if prop == "C10" and not hit and unit == "parser":
                hit = any("consumed-within-input" in lab or "arithmetic" in msg or "precondition" in msg for msg, labs in fl for _, lab, _ in (labs or [(0, "", 0)]))
            if hit:
                failed[k] = fl
        for k, w in r.demoted.items():
            f = bykey.get(k)
            c = r.spec.get(k)
            if c and prop in c.props:
                demoted[k] = w
    # a function may be under contract in one unit and a stub in another
    for r in proofs:
        for f in r.fns:
            if f.status == "full" and f.key not in r.demoted and f.key not in r.failed and f.contract and prop in f.contract.props:
                demoted.pop(f.key, None)
    fns_proved = [f for f in fns_mine if f.key not in demoted]
    for f in fns_proved:
        if f.contract:
            oblig += P.labels(f)
    if prop == "C10":
        oblig = [f"{f.key}#consumed-within-input,no-overflow,no-out-of-bounds" for f in fns_proved]
    bad = sum(len(v) for v in failed.values())

    budget = info.get("budget", 8) * (1 if tier == "quick" else 25)
    hname = info["harness"]
    h = {"evaluations": 0, "distinct": 0, "samples": [], "groups": {}, "known": [], "violations": []}
    hb, herr = build_harness(hname)
    if not hb:
        notes.append("the harness does not build: " + herr)
    else:
        h = run_harness(hname, budget, seed, "")
        if failed and not h["violations"]:
            for i in range(1, 4):
                h2 = run_harness(hname, max(15, budget), seed * 1000 + i, f"x{i}")
                h["evaluations"] += h2["evaluations"]
                h["distinct"] += h2["distinct"]
                if h2["violations"]:
                    h["violations"] = h2["violations"]
                    break
    probe_note = None
    if tier == "thorough" and proofs:
        vac = []
        for unit in info["units"]:
            pr = P.prove(unit, WORK, probe=True)
            if pr.ok:
                hit = set(getattr(pr, "smt_failed", {}))
                vac += [f.key for f in pr.fns if f.status == "full" and f.key not in hit]
        probe_note = {"functions_whose_assumptions_are_contradictory": vac}
    known_file = json.load(open(os.path.join(VERIF, "known_findings.json")))
    listed = {k["id"]: k for k in known_file["known"] if k["property"] == prop}
    violations = list(h["violations"])
    for k in h["known"]:
        if k["id"] not in listed:
            violations.append({"case": k["case"], "what": "matches the unlisted finding " + k["id"]})
        else:
            print(f"KNOWN-FINDING: property={prop} {listed[k['id']]['what']} [{k['case'][:160]}]")
    proved_all = answered and not failed
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": info.get("level", "proof"),
        "coverage": {
            "obligations": len(oblig) + bad, "discharged": len(oblig),
            "checker_cmd": "; ".join(cmds) or "verus (no unit answered)",
            "trusted_base": sorted(set(trusted)) + info.get("trusted", []),
            "functions_under_contract": [f.key for f in fns_proved],
            "verus_functions_verified_in_unit": verified,
            "backend": "Verus 0.2026.09.13 / Z3 (every obligation)", "smt_ms": smt_ms,
            "bounded_not_proved": demoted,
            "failed_obligations": {k: [[m, [list(x) for x in l]] for m, l in v if True] if k != "?" else v for k, v in failed.items()},
            "evaluations": h["evaluations"], "distinct_nontrivial": h["distinct"],
            "rule": info["rule"], "samples": h["samples"] or ["(none)"], "bounded_groups": h["groups"],
            "explanation": "obligations/discharged count contract clauses of functions given to the verifier on this run; evaluations and distinct_nontrivial count the bounded executable check of the same contracts on the real crates, which finds inputs and stands in for the functions under bounded_not_proved; notes: " + "; ".join(notes),
        },
        "assumptions": info["assumptions"],
        "wall_s": round(time.time() - T0, 2),
        "violations": 0,
    }
    if probe_note:
        ev["coverage"]["vacuity"] = probe_note
    rc = 0
    if violations or failed:
        replay = os.path.join(WORK, "replay.json")
        json.dump({"property": prop, "seed": seed, "tier": tier,
                   "failing_inputs": violations, "failed_obligations": ev["coverage"]["failed_obligations"],
                   "verifier": cmds, "notes": notes,
                   "how": "each failing input is a case of the executable contract, run against the real crates: " + f"harness/target/debug/h{hname} {prop} OUT.json {seed} {tier} {budget}"},
                  open(replay, "w"), indent=1, ensure_ascii=False)
        for v in violations[:3]:
            print("failing input:", v["case"][:600])
            print("   ", v["what"][:600])
        for k, fl in list(failed.items())[:5]:
            print("failed obligation in", k + ":", json.dumps(fl)[:500])
        ev["violations"] = max(1, len(violations))
        print(f"VIOLATION property={prop} replay={replay}" + ("" if violations else " no-failing-input-found"))
        rc = 1
    elif not hb:
        print("the harness does not build:", herr[-600:])
        rc = 0 if (proved_all and not demoted) else 2
    ev["wall_s"] = round(time.time() - T0, 2)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    if rc == 0:
        print(f"{prop}: {len(oblig)} obligations discharged in {len(fns_proved)} functions, {len(demoted)} functions bounded, {h['evaluations']} executions, {ev['wall_s']} s")
        if notes:
            print("notes:", "; ".join(notes)[:600])
    return rc


sys.exit(main())

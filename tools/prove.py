"""Runs the proof of one unit on /repo's current tree and says, per function, whether its obligations are discharged."""
import copy, itertools, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dv import *
from units import UNITS

BASE = os.path.join(VERIF, "contracts/baseline.json")


def baseline(unit):
    try:
        return json.load(open(BASE)).get(unit, {})
    except OSError:
        return {}


class Proof:
    pass


def clause_count(fn):
    c = fn.contract
    if not c:
        return 0
    n = sum(1 for k, _, _ in c.clauses if k in ("ens", "rel"))
    n += sum(1 for es in c.loops.values() for s, _, _ in es if s != "post")
    n += sum(1 for es in c.clo.values() for s, _, _ in es if s in ("ens", "rel"))
    return n


def labels(fn):
    c = fn.contract
    out = []
    for k, l, _ in c.clauses:
        if k in ("ens", "rel"):
            out.append(f"{fn.key}#{l or 'ensures'}")
    for n, es in c.loops.items():
        for s, l, _ in es:
            if s != "post":
                out.append(f"{fn.key}#loop{n}:{l or s}")
    for n, es in c.clo.items():
        for s, l, _ in es:
            if s in ("ens", "rel"):
                out.append(f"{fn.key}#closure({n}):{l or s}")
    return out


def trusted_base(r):
    """what the verified file takes on trust, read off the file itself"""
    out = []
    lines = open(r.path).read().split("\n")
    assumed = {f.key for f in r.fns if f.assumed}
    met = set()
    for i, l in enumerate(lines):
        tag = r.cp.tags[i] if i < len(r.cp.tags) else None
        if tag and tag[0] in assumed:
            met.add(tag[0])
            continue
        if "external_body" in l:
            for m in lines[i + 1:i + 6]:
                x = re.search(r"\b(fn|struct|enum)\s+(\w+)", m)
                if x:
                    out.append(f"external_body {x.group(1)} {x.group(2)} (line {i + 1})")
                    break
        x = re.search(r"assume_specification.*\[\s*(.+?)\s*\]\s*\(", l)
        if x:
            out.append("assumed contract of " + x.group(1))
        x = re.search(r"\baxiom fn (\w+)", l)
        if x:
            out.append("axiom " + x.group(1))
        if re.search(r"\b(assume|admit)\s*\(", l) and "assume_specification" not in l:
            out.append(f"assumption at line {i + 1}: {l.strip()[:80]}")
    if met:
        out.append(f"assumed contracts of {len(met)} functions of the crate(s) {', '.join(c for c in r.unit.stub_crates if c[0] != '!')}, whose bodies another unit proves against the same contracts")
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def attempt(u, types, fns, spec, state, work, tag, rlimit, probe=False, extra=()):
    for f in fns:
        f.lost = []
        f.status = None
    cp = compose(u, types, fns, spec, state, probe)
    path = os.path.join(work, f"{u.name}{tag}.rs")
    open(path, "w").write(cp.text())
    out, diags, p, t = run_verus(path, rlimit, extra=list(extra))
    return cp, path, out, diags, p, t


def by_function(smt, cp, keys, r):
    """failed obligations by the function whose body they belong to"""
    failed = {}
    for prim, others, msg in smt:
        key = None
        labs = []
        for tag, lab, ln in prim + others:
            if tag and tag[0] in keys:
                if tag[1] not in ("body",) and (tag[1].startswith(("ensures", "invariant", "requires")) or tag[1] == "proof"):
                    labs.append((tag[0], tag[1], cp.lines[ln - 1].strip()))
        # the function whose body is being checked
        for tag, lab, ln in prim + others:
            if tag and tag[0] in keys and tag[1] in ("body", "closure", "proof", "loop"):
                key = tag[0]
                break
        if key is None:
            for tag, lab, ln in prim + others:
                if tag and tag[0] in keys:
                    key = tag[0]
                    break
        if key is None:
            t0 = [tag for tag, _, _ in prim + others if tag]
            if t0 and t0[0][0] == "vx_probe":
                continue
            r.notes.append("failed outside any function: " + msg[:200])
            failed.setdefault("?", []).append(msg)
            continue
        failed.setdefault(key, []).append((msg, labs))
    return failed


def prove(unit_name, work, probe=False, rlimit=8):
    """-> Proof: ok(bool: the verifier gave an answer), fns, failed {key: [obligation]}, demoted {key: why}, ..."""
    r = Proof()
    r.failed, r.demoted, r.notes = {}, {}, []
    r.ok, r.wall, r.out, r.fns = False, 0.0, {}, []
    r.path = ""
    try:
        u = UNITS[unit_name]()
        spec = parse_specs(u.specs, getattr(u, "skip", ()))
        files = [f for c in u.crates for f in src_files(c)]
        d = extract(files, u)
        types, fns = collect(d["items"], spec, u.inherent, u.stub_crates)
    except Lost as e:
        r.notes.append("extraction: " + str(e))
        return r
    except Exception as e:
        r.notes.append("extraction: " + repr(e)[:300])
        return r
    r.unit, r.fns, r.spec = u, fns, spec
    keys = {f.key: f for f in fns}
    for k, c in spec.items():
        if k not in keys and not k.startswith(("trait ", "impl ")):
            r.demoted[k] = "the function is gone"
    base = baseline(unit_name)
    for f in fns:
        follow_names(f, (base or {}).get(f.key))
    state = {}
    # a local that was a function of its own is written otherwise: so is the function it stood in
    for k in [k for k in r.demoted if k.startswith("vx_")]:
        host = max((h for h in keys if k.startswith(f"vx_{h}_")), key=len, default=None)
        if host and keys[host].contract is not None:
            state[host] = "stub"
            r.demoted[host] = f"outside the verifier's reach: {k} is gone"
    perm_tried = {}
    rl = rlimit
    seeded = ()
    rounds = 0
    while rounds < 25:
        rounds += 1
        try:
            cp, path, out, diags, p, t = attempt(u, types, fns, spec, state, work, "_probe" if probe else "", rl, probe, seeded)
        except Exception as e:
            r.notes.append("composition: " + repr(e)[:300])
            return r
        r.wall += t
        r.path, r.out, r.cp = path, out, cp
        compile_errs, smt, rlim = [], [], []
        for dg in diags:
            if dg["level"] != "error" or dg["message"].startswith("aborting due to"):
                continue
            kind, prim, others, msg = classify(dg, cp.tags)
            {"compile": compile_errs, "smt": smt, "rlimit": rlim}[kind].append((prim, others, msg))
        if compile_errs:
            moved = False
            for prim, others, msg in compile_errs:
                for tag, _, ln in prim + others:
                    k = tag[0] if tag else None
                    if k in keys and state.get(k, "full") in ("full", "stub") and keys[k].contract is not None:
                        if state.get(k, "full") == "full":
                            state[k] = "stub"
                        elif tag[1] in ("sig", "attr") or tag[1].startswith(("requires", "ensures")):
                            state[k] = "drop"
                        else:
                            continue
                        r.demoted[k] = "outside the verifier's reach: " + msg[:160]
                        moved = True
                        break
            if not moved:
                r.notes.append("the verifier rejects the composed file: " + compile_errs[0][2][:200])
                return r
            continue
        if not out.get("verification-results"):
            r.notes.append("no answer from the verifier: " + (p.stderr or p.stdout)[-300:])
            return r
        if rlim:
            ks = set()
            for prim, others, msg in rlim:
                for tag, _, _ in prim + others:
                    if tag and tag[0] in keys:
                        ks.add(tag[0])
            if not ks:
                r.notes.append("resource limit outside any function")
                return r
            if not seeded:
                # once more, from another seed
                seeded = ("--smt-option", "smt.random_seed=11")
                continue
            for k in ks:
                state[k] = "stub"
                r.demoted[k] = "resource limit"
            continue
        failed = by_function(smt, cp, keys, r)
        r.smt_failed = failed
        if probe:
            break
        again = False
        for k in list(failed):
            if k == "?":
                continue
            f = keys[k]
            # role permutations: the same kind of local, declared in another order
            roles = {}
            for l in f.rec["locals"]:
                if l["mut"] or l["kind"] in ("input", "result"):
                    roles.setdefault((l["clo"], l["kind"]), []).append(l["name"])
            kinds = {kd: len(v) for (cl, kd), v in roles.items() if len(v) == 2}
            if kinds and k not in perm_tried:
                perm_tried[k] = True
                state[("perm", k)] = {kd: (1, 0) for kd in kinds}
                again = True
            elif perm_tried.get(k) is True and state.get(("perm", k)):
                perm_tried[k] = False
                state.pop(("perm", k))
        if again:
            r.first_failed = failed
            continue
        # an obligation counts as refused when the solver refuses it under several seeds
        b = base
        for seed in (11, 12):
            hard = [k for k in failed if k == "?" or not (b and k in b and (sorted(keys[k].lost) != sorted(b[k].get("lost", [])) or shape(keys[k]) != b[k].get("shape")))]
            if not hard or probe:
                break
            out2, diags2, p2, t2 = run_verus(path, rl, extra=["--smt-option", f"smt.random_seed={seed}"])
            r.wall += t2
            if not out2.get("verification-results"):
                break
            cl = [classify(dg, cp.tags) for dg in diags2 if dg["level"] == "error" and not dg["message"].startswith("aborting due to")]
            if any(c[0] == "compile" for c in cl):
                break
            again_failed = by_function([c[1:] for c in cl if c[0] == "smt"], cp, keys, r)
            for c in cl:
                if c[0] == "rlimit":
                    for tag, _, _ in c[1] + c[2]:
                        if tag and tag[0] in keys:
                            again_failed.setdefault(tag[0], failed.get(tag[0], []))
            for k in list(failed):
                if k not in again_failed:
                    r.notes.append(f"{k}: refused at first, discharged with random seed {seed}")
                    del failed[k]
        break
    else:
        r.notes.append("no fixed point")
        return r
    r.ok = True
    r.state = state
    why = state.get("why", {})
    for k, w in why.items():
        r.demoted.setdefault(k, w)
    b = base
    for k, fl in getattr(r, "smt_failed", {}).items():
        if k == "?":
            r.failed[k] = fl
            continue
        f = keys[k]
        known = b.get(k, {}).get("lost", [])
        if sorted(f.lost) != sorted(known) or (b and k in b and shape(f) != b[k].get("shape")):
            r.demoted[k] = "its structure changed, the contract's anchors no longer fit: " + "; ".join(f.lost)[:200]
        else:
            r.failed[k] = fl
    return r


def shape(f):
    return [len(f.rec["loops"]), [c["callee"] for c in f.rec["closures"]]]


def names(f):
    return [l["name"] for l in f.rec["locals"]]


def follow_names(f, b):
    """A contract speaks of a local by name. Locals that are called otherwise, in the same order, are followed."""
    then, now = (b or {}).get("locals"), names(f)
    if f.contract is None or not then or len(then) != len(now) or then == now or shape(f) != b.get("shape"):
        return
    m = {}
    for x, y in zip(then, now):
        if m.setdefault(x, y) != y:
            return
    m = {x: y for x, y in m.items() if x != y}
    pat = re.compile(r"(?<![\w.$%'\"])(" + "|".join(map(re.escape, m)) + r")\b(?!\s*(?:\(|::))")

    def go(x):
        if isinstance(x, str):
            return pat.sub(lambda k: m[k.group(1)], x)
        if isinstance(x, (list, tuple)):
            return (x[0], x[1], go(x[2])) if isinstance(x, tuple) else [go(y) for y in x]
        return x
    c = f.contract = copy.copy(f.contract)
    for k in ("clauses", "pre", "extra"):
        setattr(c, k, go(getattr(c, k)))
    for k in ("clo", "loops", "outs"):
        setattr(c, k, {a: go(v) for a, v in getattr(c, k).items()})
    c.afters = {m.get(a, a): go(v) for a, v in c.afters.items()}


def write_baseline(units):
    d = {}
    import tempfile
    for n in units:
        with tempfile.TemporaryDirectory() as w:
            r = prove(n, w)
            assert r.ok, r.notes
            d[n] = {f.key: {"lost": f.lost, "shape": shape(f), "locals": names(f)} for f in r.fns if f.contract and not f.assumed}
            print(n, "failed", list(r.failed), "demoted", r.demoted, "notes", r.notes)
    old = {}
    try:
        old = json.load(open(BASE))
    except OSError:
        pass
    old.update(d)
    json.dump(old, open(BASE, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    write_baseline(sys.argv[1:])

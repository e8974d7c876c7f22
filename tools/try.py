import sys, collections
sys.path.insert(0, "/verif/tools")
from units import *
u = UNITS[sys.argv[1]]()
spec = parse_specs(u.specs, getattr(u, "skip", ()))
files = [f for c in u.crates for f in src_files(c)]
d = extract(files, u)
types, fns = collect(d["items"], spec, u.inherent, u.stub_crates)
keys = {f.key for f in fns}
for k in spec:
    if k not in keys and not k.startswith(("trait ", "impl ")): print("NO SUCH FN", k)
state = {}
cp = compose(u, types, fns, spec, state)
path = f"/tmp/dv_{u.name}.rs"
open(path, "w").write(cp.text())
out, diags, p, t = run_verus(path, extra=sys.argv[2:])
seen = 0
for dg in diags:
    kind, prim, others, msg = classify(dg, cp.tags)
    if dg["level"] != "error": continue
    seen += 1
    if seen > 40: break
    print(kind, "|", msg[:300])
    for (tag, lab, ln) in prim + others:
        print("      ", tag, lab[:80], ln, cp.lines[ln-1].strip()[:150] if 0 < ln <= len(cp.lines) else "")
print(out.get("verification-results"), round(t, 1))
if not diags and not out: print(p.stderr[-3000:], p.stdout[-2000:])
print("uncontracted:", [f.key for f in fns if f.status == "uncontracted"])
print("why", state.get("why"))
print("lost", {f.key: f.lost for f in fns if f.lost})

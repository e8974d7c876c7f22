#!/usr/bin/env python3
"""plant.py FILE.py...: each file defines id, prop, crate, edits=[(path, old, new)], demo (Rust main body), needs, breaks.
Writes seeded/<id>/ after confirming: it builds, the stable tests pass with it, the demonstration passes without and fails with it."""
import sys, os, subprocess, json, runpy
V, R = "/verif", "/repo"
DEMO = '''#!/bin/bash
# run with cwd /repo after build.sh; exit 0 when the guarantee holds
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%(deps)s
EOT
cd "$d"
export REPO_DIR="$repo"
CARGO_TARGET_DIR="$d/target" RUSTFLAGS="--cap-lints allow" timeout 250 cargo run --offline -q
'''
DEPS = {"parser": 'oni-comb-parser-rs = { path = "$repo/parser" }',
        "crond": 'oni-comb-crond-rs = { path = "$repo/crond" }\nchrono = "0.4"\nintervals-rs = "*"',
        "uri": 'oni-comb-uri-rs = { path = "$repo/uri" }\noni-comb-parser-rs = { path = "$repo/parser" }',
        "hocon": 'oni-comb-hocon-rs = { path = "$repo/hocon" }',
        "toys": 'oni-comb-parser-rs = { path = "$repo/parser" }\nstatic_assertions = "*"'}


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(f):
    m = runpy.run_path(f)
    d = f"{V}/seeded/{m['id']}"
    assert sh(f"git -C {R} diff --quiet").returncode == 0, "dirty"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.rs", "w").write(m["demo"])
    open(f"{d}/demo.sh", "w").write(DEMO % {"deps": m.get("deps", DEPS[m["crate"]])})
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": m["prop"], "needs": m["needs"], "what_it_breaks": m["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    try:
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode != 0:
            return f"{m['id']}: demo fails on the clean tree: {(r.stderr + r.stdout)[-1500:]}"
        for p, a, b in m["edits"]:
            s = open(f"{R}/{p}").read()
            if s.count(a) != 1:
                return f"{m['id']}: {p}: found {s.count(a)} times: {a}"
            open(f"{R}/{p}", "w").write(s.replace(a, b))
        diff = sh(f"git -C {R} diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        # every changed line is a line of the original repository
        base = "c8488e2"
        for p, a, b in m["edits"]:
            orig = sh(f"git -C {R} show {base}:{p}").stdout.split("\n")
            for l in diff.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
                    return f"{m['id']}: line not original: {l}"
        r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant_out.json")
        o = json.load(open("/tmp/plant_out.json")) if os.path.exists("/tmp/plant_out.json") else {}
        base_t = json.load(open("/opt/vp/BASELINE.json"))
        txt = json.dumps(o)
        n = len(o.get("passed", [])) if isinstance(o, dict) else 0
        if n < 191:
            return f"{m['id']}: tests passed {n}: failed {str(o.get('failed'))[:300]} {r.stderr[-300:] if not n else ''}"
        r = sh(f"bash {d}/demo.sh", cwd=R)
        if r.returncode == 0:
            return f"{m['id']}: demo passes with the change"
        return f"{m['id']}: OK ({(r.stderr + r.stdout).strip().splitlines()[-1][:150] if (r.stderr + r.stdout).strip() else ''})"
    finally:
        sh(f"git -C {R} checkout -- .")


for f in sys.argv[1:]:
    print(main(f), flush=True)

#!/usr/bin/env python3
"""dv: composes one Verus file from functions extracted from /repo (tools/vx) and the contracts in /verif/contracts,
runs Verus on it, and maps every obligation back to the function and contract clause it belongs to."""
import json, os, re, subprocess, sys, time, itertools, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
VX = os.path.join(VERIF, "tools/vx/target/debug/vx")
OPS = {"Add": "op_add", "Sub": "op_sub", "Mul": "op_mul", "BitOr": "op_bitor", "Not": "op_not"}


BROADCAST = []
PROLOGUE = []
PROBE = [False]


class Lost(Exception):
    pass


# ------------------------------------------------------------------ contract files

class Contract:
    def __init__(self, key):
        self.key = key
        self.props = []
        self.ret = "res"
        self.clauses = []      # (kind, label, text): kind in req ens rel
        self.clo = {}          # selector -> list of (kind, label, text)
        self.loops = {}        # id -> list of (kind,label,text)
        self.pre = ""
        self.outs = {}         # method#k -> assertion behind its k-th call (a step for the solver, no assumption)
        self.afters = {}       # name of a local -> assertion behind its let (a step for the solver, no assumption)
        self.attrs = []
        self.trusted = None
        self.bounded = None
        self.split = False
        self.without = []      # lemmas of the unit that this function's obligations do not need
        self.extra = ""
        self.super = ""
        self.rettype = None
        self.file = ""
        self.line = 0


def parse_specs(paths, skip=()):
    out = {}
    cur = None
    entry = None
    for path in paths:
        for ln, raw in enumerate(open(path), 1):
            s = raw.rstrip("\n")
            if s.startswith("#"):
                continue
            if s.startswith("== "):
                keys = [k.strip() for k in s[3:].split(" , ")]
                cur = [Contract(k) for k in keys]
                for c in cur:
                    c.file, c.line = path, ln
                    if c.key in out:
                        raise SystemExit(f"duplicate contract {c.key}")
                    out[c.key] = c
                entry = None
                continue
            if not s.strip():
                continue
            if s[0].isspace():
                if entry is None:
                    raise SystemExit(f"{path}:{ln}: continuation without entry")
                entry[2] += "\n" + s
                continue
            m = re.match(r"(\w+)(?:\[([^\]]*)\])?(?:\s+(\w+)(?:\[([^\]]*)\])?)?:\s?(.*)$", s)
            if not m:
                raise SystemExit(f"{path}:{ln}: cannot parse {s!r}")
            kind, sel, sub, label, text = m.groups()
            if kind not in ("clo", "loop"):
                sel, label = None, sel
            entry = [kind, (sel, sub, label), text]
            for c in cur:
                c.__dict__.setdefault("raw", []).append(entry)
    for c in out.values():
        for kind, (sel, sub, label), text in c.__dict__.get("raw", []):
            if kind == "props":
                c.props = text.split()
            elif kind == "ret":
                c.ret = text.strip()
            elif kind == "rettype":
                c.rettype = text.strip()
            elif kind in ("req", "ens", "rel"):
                c.clauses.append((kind, label or "", text))
            elif kind == "clo":
                c.clo.setdefault(sel, []).append((sub, label or "", text))
            elif kind == "loop":
                c.loops.setdefault(int(sel), []).append((sub, label or "", text))
            elif kind == "out":
                c.outs[sel or label] = text
            elif kind == "after":
                c.afters[sel or label] = text
            elif kind == "pre":
                c.pre += text + "\n"
            elif kind == "attr":
                c.attrs.append(text)
            elif kind == "trusted":
                c.trusted = text
            elif kind == "bounded":
                c.bounded = text
            elif kind == "without":
                c.without = text.split()
            elif kind == "split":
                c.split = True
            elif kind == "extra":
                c.extra += text + "\n"
            elif kind == "super":
                c.super = text
            else:
                raise SystemExit(f"{c.file}: unknown entry {kind} in {c.key}")
    for k in skip:
        out.pop(k, None)
    return out


# ------------------------------------------------------------------ extraction

def extract(files, u):
    ops, renames, aliases = u.ops, u.renames, u.aliases
    cmd = [VX] + u.vx_flags + (["--parser-ops"] if ops else []) + [f"--alias={a}={b}" for a, b in (aliases or {}).items()] + [f"--rename={a}:{b}" for a, b in (renames or {}).items()] + files
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise Lost("extractor failed: " + p.stderr[:500])
    return json.loads(p.stdout)


def src_files(crate, sub="src"):
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, crate, sub)):
        for f in sorted(fs):
            if f.endswith(".rs"):
                out.append(os.path.join(d, f))
    return sorted(out)


def let_end(body, name):
    """behind the `;` of the first `let NAME`"""
    m = re.search(r"\blet\s+(?:mut\s+)?" + re.escape(name) + r"\s*[:=]", body)
    if not m:
        return None
    depth = 0
    for t in re.finditer(r"/\*@.*?@\*/|'(?:\\.[^']*|[^'\\])'|\"(?:\\.|[^\"\\])*\"|[(){}\[\];]", body[m.end():], re.S):
        x = t.group(0)
        if x in "([{":
            depth += 1
        elif x in ")]}":
            depth -= 1
        elif x == ";" and depth == 0:
            return m.end() + t.end()
    return None


def call_end(body, n):
    """behind the `)` of the call whose argument is closure n"""
    m = re.search(r"/\*@CLO %d@\*/" % n, body)
    if not m:
        return None
    return close_paren(body, m.end())


def close_paren(body, at):
    """behind the `)` of the call whose `(` is before `at`"""
    depth = 0
    for t in re.finditer(r"/\*@.*?@\*/|'(?:\\.[^']*|[^'\\])'|\"(?:\\.|[^\"\\])*\"|[(){}\[\]]", body[at:], re.S):
        x = t.group(0)
        if x in "([{":
            depth += 1
        elif x in ")]}":
            depth -= 1
            if depth < 0:
                return at + t.end()
    return None


def ret_parser_args(ret):
    """Parser < 'a , I , X >  ->  ("'a", "I", "X")"""
    if not ret:
        return None
    m = re.match(r"\s*Parser\s*<(.*)>\s*$", ret, re.S)
    if not m:
        return None
    parts, depth, cur = [], 0, ""
    for ch in m.group(1):
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            depth -= 1
        if ch == "," and depth == 0:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += ch
    parts.append(cur.strip())
    parts = [p for p in parts if p]
    if len(parts) == 2:
        parts = ["'_"] + parts
    return tuple(parts) if len(parts) == 3 else None


class Fn:
    def __init__(self, rec, key, ctx):
        self.rec, self.key, self.ctx = rec, key, ctx   # ctx: text of the impl header or None (free)
        self.status = None
        self.contract = None


# ------------------------------------------------------------------ composition

class Unit:
    def __init__(self, name, crates, specs, preludes, ops=True, imports="", stubs=()):
        self.name, self.crates, self.specs, self.preludes, self.ops, self.imports = name, crates, specs, preludes, ops, imports
        self.stub_specs = list(stubs)


class Composer:
    """collects items; emits text with a line map"""

    def __init__(self):
        self.lines = []
        self.tags = []

    def add(self, text, tag=None):
        for l in text.split("\n"):
            self.lines.append(l)
            self.tags.append(tag)

    def text(self):
        # Verus fails on some raw identifiers
        return "\n".join(re.sub(r"\br#([a-z_]\w*)", r"vx_raw_\1", l) if "r#" in l else l for l in self.lines) + "\n"


def owner_key(rec):
    o = rec["owner"]
    n = rec["name"]
    if o["kind"] == "free":
        return n
    if o["kind"] == "trait":
        return f"{o['ty']}::{n}"
    if o.get("trait") in OPS and o["ty"] == "Parser":
        return "Parser::" + OPS[o["trait"]]
    if o["ty"] in ("Parser", "ParsersImpl", "ParserParsers"):
        return f"{o['ty']}::{n}"
    if o.get("trait"):
        return f"{o['trait']} for {o['ty']}::{n}"
    return f"{o['ty']}::{n}"


PARSER_HEADER = "impl<'a, I, A> Parser<'a, I, A>"


def roles_for(rec, clo, permute=0):
    """mutable locals of a closure (or of the function) by kind"""
    roles = {}
    for l in rec["locals"]:
        if l["clo"] != clo:
            continue
        k = l["kind"]
        if k in ("input", "result") or l["mut"]:
            roles.setdefault(k, []).append(l["name"])
    return roles


def subst(text, rec, closure=None, roles=None, perm=None, retn=None, loop=None):
    params = [p["name"] for p in rec["params"]]

    def repl(m):
        t = m.group(1)
        if t.isdigit():
            i = int(t)
            if i >= len(params):
                raise Lost(f"parameter {i} is missing")
            return params[i]
        if t[0] in "cp" and t[1:].isdigit():
            if closure is None:
                raise Lost("closure parameter outside closure")
            i = int(t[1:])
            if t[0] == "p":
                if closure["parent"] is None:
                    raise Lost("closure has no enclosing closure")
                closure1 = rec["closures"][closure["parent"]]
                if i >= len(closure1["params"]):
                    raise Lost(f"closure parameter {i} is missing")
                return closure1["params"][i]
            ps = closure["params"]
            if i >= len(ps):
                raise Lost(f"closure parameter {i} is missing")
            return ps[i]
        raise Lost("placeholder $" + t)

    def role(m):
        kind, idx = m.group(1), int(m.group(2) or 0)
        lst = (roles or {}).get(kind, [])
        if perm and kind in perm:
            lst = [lst[i] for i in perm[kind]] if len(perm[kind]) == len(lst) else lst
        if idx >= len(lst):
            raise Lost(f"no local for role {kind}{idx}")
        return lst[idx]

    def at(m):
        i = int(m.group(1))
        if rec["receiver"]:
            return "self" if i == 0 else params[i - 1]
        if i >= len(params):
            raise Lost(f"parameter {i} is missing")
        return params[i]

    text = re.sub(r"(?<![\w)\]])@(\d+)\b", at, text)
    text = re.sub(r"\$([cp]?\d+)\b", repl, text)
    text = re.sub(r"%(int|bool|opt|vec|state|input|result|string|other)(\d*)\b", role, text)
    return text


def select_closure(rec, sel):
    """selector: 'new#0', '3', 'map' -> closure index or None"""
    if sel.isdigit():
        return int(sel) if int(sel) < len(rec["closures"]) else None
    name, _, n = sel.partition("#")
    n = int(n or 0)
    hits = [c["id"] for c in rec["closures"] if (c["callee"] or "") == name]
    return hits[n] if n < len(hits) else None


def auto_closure(clo, rec):
    """contracts that can be read off a closure's body: a constructor applied to the parameter, a forwarded call"""
    mm = re.match(r"\s*\{\s*(.*?)\s*\}\s*$", clo["raw"], re.S)
    if not mm:
        return None
    b = " ".join(mm.group(1).split())
    ps = clo["params"]
    if len(ps) == 1 and re.fullmatch(r"[\w: ]+\( ?" + re.escape(ps[0]) + r" ?\)", b):
        f = b.split("(")[0].strip()
        if f.split("::")[-1].strip()[:1].isupper():
            return "_", None, f"vx_r == ({b})"
        if f in [p["name"] for p in rec["params"]]:
            return "_", f"{f}.requires(({ps[0]},))", f"{f}.ensures(({ps[0]},), vx_r)"
    if not ps and re.fullmatch(r"anyhow ! \([^;]*\)", b):
        return "VxError", None, "true"
    if len(ps) == 1 and b in ("true", "false"):
        return "bool", None, f"vx_r == {b}"
    # a comparison of places and literals means the same in a specification
    if re.search(r"==|!=|<=|>=|<|>", b) and re.fullmatch(r"(?:[\w.*]+|==|!=|<=|>=|<|>|&&|\|\||!|\(|\)|\s)+", b) and not re.search(r"\w \(", b):
        return "bool", None, f"vx_r == ({b})"
    return None


def assumed_state(f, state, default="full"):
    if getattr(f, "assumed", False):
        return state.get(f.key, "stub")
    return state.get(f.key, default)


def emit_fn(cp, fn, mode, perm=None, vis="pub ", indent="", case=None):
    """mode: full | stub.  A function marked `split` that ends in a match is checked once per arm, the other arms
    standing for executions that another copy checks; calls go to its contract."""
    rec, c = fn.rec, fn.contract
    if mode == "full" and case is None and c and c.split and rec.get("arms"):
        emit_fn(cp, fn, "stub", perm, vis, indent)
        lost = []
        for i in range(rec["arms"]):
            emit_fn(cp, fn, "full", perm, vis, indent, case=i)
            lost += [x for x in fn.lost if x not in lost]
        fn.lost = lost
        return
    key = fn.key
    for a in (c.attrs if c else []):
        cp.add(a, (key, "attr"))
    if mode == "stub":
        cp.add("#[verifier::external_body]", (key, "attr"))
    elif mode == "full":
        cp.add("#[verifier::exec_allows_no_decreases_clause]", (key, "attr"))
        cp.add("#[verifier::loop_isolation(false)]", (key, "attr"))
        if rec["loops"]:
            cp.add("#[verifier::allow_complex_invariants]", (key, "attr"))
    name = fn.emit_name + (f"__case{case}" if case is not None else "")
    if any(p["name"] == name for p in rec["params"]) and fn.ctx is None:
        name = name + "_" if mode != "stub" else name
    sig = f"{vis}fn {name}"
    if rec["generics"]:
        sig += f"<{rec['generics']}>"
    if mode == "stub" and any(p["name"] == name for p in rec["params"]):
        rec = dict(rec, params=[dict(p, name=p["name"] + "_" if p["name"] == name else p["name"]) for p in rec["params"]])
    ps = ([rec["receiver"]] if rec["receiver"] else []) + [f"{p['name']}: {p['ty']}" for p in rec["params"]]
    sig += "(" + ", ".join(ps) + ")"
    ret = (c.rettype if c and c.rettype else None) or rec["ret"]
    if ret == "Self" and fn.self_text:
        ret = fn.self_text
    rn = c.ret if c else "res"
    if ret and ret.strip() != "!":
        sig += f" -> ({rn}: {ret})"
    elif ret:
        sig += " -> !"
    cp.add(sig, (key, "sig"))
    wh = [w for w in rec["where"] if not re.match(r"Self\s*:", w)]
    if wh:
        cp.add("where " + ", ".join(wh) + ",", (key, "sig"))
    rels = []
    if c and fn.emit_contract:
        reqs = [(l, t) for k, l, t in c.clauses if k == "req"]
        if reqs:
            cp.add("requires", (key, "sig"))
            for i, (l, t) in enumerate(reqs):
                cp.add("  (" + subst(t, rec) + "),", (key, f"requires:{l or i}"))
        enss = [(k, l, t) for k, l, t in c.clauses if k in ("ens", "rel")]
        rels = [(l, t) for k, l, t in enss if k == "rel"]
        if enss:
            cp.add("ensures", (key, "sig"))
            for i, (k, l, t) in enumerate(enss):
                tx = subst(t, rec)
                if k == "rel":
                    pa = ret_parser_args(ret)
                    if pa is None:
                        raise Lost(f"{key}: return type is not a parser: {ret}")
                    tx = (f"forall|vx_s: ParseState<{pa[0]}, {pa[1]}>, vx_r: ParseResult<{pa[0]}, {pa[1]}, {pa[2]}>| "
                          f"#[trigger] {rn}.post(vx_s, vx_r) ==> ({tx.replace('$s', 'vx_s').replace('$r', 'vx_r')})")
                cp.add("  (" + tx + "),", (key, f"ensures:{l or i}"))
    if mode == "decl":
        cp.add(";", (key, "sig"))
        return
    if mode == "stub":
        cp.add("{ unimplemented!() }", (key, "body"))
        return
    body = re.sub(r"\buse\s+crate\s*::[^;{}]*;", "", rec["body"])   # imports only name things
    # closure contracts
    clospec = {}
    lost = []
    if c:
        for sel, entries in c.clo.items():
            k = select_closure(rec, sel)
            if k is None:
                lost.append(f"closure {sel}")
            else:
                clospec[k] = entries
    pa = ret_parser_args(ret)
    for name, text in (c.afters if c else {}).items():
        at = let_end(body, name)
        if at is None:
            lost.append(f"local {name}")
        else:
            body = body[:at] + "/*@AFTER " + name + " @*/" + body[at:]
    for sel in (c.outs if c else {}):
        mname, k = sel.split("#")
        ms = [m for m in re.finditer(r"(?:\.|\b)\s*" + re.escape(mname) + r"\s*\(", body)]
        at = close_paren(body, ms[int(k)].end()) if int(k) < len(ms) else None
        if at is None:
            lost.append(f"call {sel}")
        else:
            body = body[:at] + f"/*@OUT {sel} @*/" + body[at:]
    for n, entries in clospec.items():
        if any(s == "out" for s, l, tx in entries):
            at = call_end(body, n)
            if at is None:
                lost.append(f"call of closure {n}")
            else:
                body = body[:at] + f"/*@OUT {n} @*/" + body[at:]
    segs = re.split(r"(/\*@(?:CLO|TY|LOOP|END|ARM|ARMEND|AFTER|OUT) [^@]*@\*/)", body)
    first = True
    pending_pre = None
    skipping = False
    for seg in segs:
        m = re.match(r"/\*@(CLO|TY|LOOP|END|ARM|ARMEND|AFTER|OUT) ([^@]*)@\*/", seg)
        if m and m.group(1) == "AFTER":
            if not skipping:
                cp.add(subst(c.afters[m.group(2).strip()], rec), (key, "proof"))
            continue
        if m and m.group(1) == "OUT":
            if not skipping:
                n = m.group(2).strip()
                if "#" in n:
                    cp.add(" . vx_then(Ghost(" + subst(c.outs[n], rec) + ")) ", (key, "proof"))
                    continue
                n = int(n)
                cp.add(" . vx_then(Ghost(" + subst(next(tx for s, l, tx in clospec[n] if s == "out"), rec, rec["closures"][n]) + ")) ", (key, "proof"))
            continue
        if m and m.group(1) in ("ARM", "ARMEND"):
            if m.group(1) == "ARM" and case is not None and int(m.group(2)) != case:
                skipping = True
                cp.add("vx_other_case()", (key, "body"))
            elif m.group(1) == "ARMEND":
                skipping = False
            continue
        if skipping:
            continue
        if not m:
            if first:
                i = seg.index("{")
                cp.add(seg[:i + 1], (key, "body"))
                if BROADCAST:
                    lemmas = [x for x in BROADCAST if x.split("::")[-1] not in c.without] if c else BROADCAST
                    if lemmas:
                        cp.add("broadcast use {" + ", ".join(lemmas) + "};", (key, "proof"))
                if PROLOGUE:
                    cp.add(PROLOGUE[0], (key, "proof"))
                if c and c.pre:
                    cp.add(subst(c.pre, rec), (key, "proof"))
                if PROBE[0] and not any(k["callee"] == "new" and k["parent"] is None for k in rec["closures"]):
                    cp.add("proof { assert(false); }", (key, "probe"))
                seg = seg[i + 1:]
            if pending_pre:
                i = seg.index("{")
                cp.add(seg[:i + 1], (key, "body"))
                cp.add(pending_pre, (key, "proof"))
                seg = seg[i + 1:]
                pending_pre = None
            first = False
            cp.add(seg, (key, "body"))
            continue
        what, nums = m.group(1), [int(x) for x in m.group(2).split()]
        if what == "TY":
            n, i = nums
            clo = rec["closures"][n]
            ent = {lab if sub is None else sub: t for sub, lab, t in clospec.get(n, []) if sub and sub.startswith("ty")}
            if f"ty{i}" in ent:
                cp.add(": " + ent[f"ty{i}"], (key, "closure"))
            elif clo["callee"] == "new" and i == 0 and pa:
                cp.add(f": &ParseState<{pa[0]}, {pa[1]}>", (key, "closure"))
            elif clo["tys"][i]:
                cp.add(": " + clo["tys"][i], (key, "closure"))
        elif what == "CLO":
            n = nums[0]
            clo = rec["closures"][n]
            ent = clospec.get(n, [])
            es = [(s, l, t) for s, l, t in ent]
            has_rel = [x for x in es if x[0] == "rel"]
            if clo["callee"] == "new" and not any(x[0] == "ens" for x in es) and clo["parent"] is None and (has_rel or rels):
                use = [(l, t) for s, l, t in has_rel] or rels
                pn = clo["params"][0] if clo["params"] else "_"
                ty = next((t for s, l, t in es if s == "ret"), None) or (f"ParseResult<{pa[0]}, {pa[1]}, {pa[2]}>" if pa else "_")
                if pn == "_":
                    raise Lost("unnamed state parameter")
                cp.add(f"-> (vx_r: {ty})", (key, "closure"))
                cp.add(f"requires {pn}.wf()", (key, "closure"))
                cp.add("ensures", (key, "closure"))
                for i, (l, t) in enumerate(use):
                    tx = subst(t, rec, clo).replace("$s", f"(*{pn})").replace("$r", "vx_r")
                    cp.add("  (" + tx + "),", (key, f"ensures:{l or i}"))
                cp.add(f"  fits(*{pn}, vx_r),", (key, "ensures:consumed-within-input"))
                if PROBE[0]:
                    cp.add("  false,", (key, "probe"))
            elif any(x[0] in ("ens", "req") for x in es):
                ty = next((t for s, l, t in es if s == "ret"), "_")
                cp.add(f"-> (vx_r: {ty})", (key, "closure"))
                rq = [(l, t) for s, l, t in es if s == "req"]
                en = [(l, t) for s, l, t in es if s == "ens"]
                if rq:
                    cp.add("requires " + ", ".join("(" + subst(t, rec, clo) + ")" for l, t in rq), (key, "closure"))
                if en:
                    cp.add("ensures", (key, "closure"))
                    for i, (l, t) in enumerate(en):
                        cp.add("  (" + subst(t, rec, clo).replace("$r", "vx_r") + "),", (key, f"ensures:{l or 'closure%d.%d' % (n, i)}"))
            else:
                auto = auto_closure(clo, rec)
                if auto:
                    ty, rq, en = auto
                    ty = next((t for s, l, t in es if s == "ret"), None) or ty
                    cp.add(f"-> (vx_r: {ty})", (key, "closure"))
                    if rq:
                        cp.add("requires " + rq, (key, "closure"))
                    cp.add("ensures " + en, (key, "closure"))
                else:
                    lost.append(f"closure {n} ({clo['callee']}) has no contract")
            pp = [t for s, l, t in es if s == "pre"]
            if pp:
                pending_pre = subst("\n".join(pp), rec, clo)
        elif what == "END":
            n = nums[0]
            lp = next(x for x in rec["loops"] if x["id"] == n)
            clo = rec["closures"][lp["clo"]] if lp["clo"] is not None else None
            for s, l, t in (c.loops.get(n, []) if c else []):
                if s == "post":
                    tx = subst(t, rec, clo, roles_for(rec, lp["clo"]), perm)
                    if clo and clo["params"]:
                        tx = tx.replace("$s", f"(*{clo['params'][0]})")
                    cp.add(tx, (key, "proof"))
        else:
            n = nums[0]
            lp = next(x for x in rec["loops"] if x["id"] == n)
            if not c or n not in c.loops:
                lost.append(f"loop {n} has no invariant")
                continue
            clo = rec["closures"][lp["clo"]] if lp["clo"] is not None else None
            roles = roles_for(rec, lp["clo"])
            groups = {}
            for s, l, t in c.loops[n]:
                groups.setdefault(s or "inv", []).append((l, t))
            for gname, kw in (("inve", "invariant_except_break"), ("inv", "invariant"), ("ens", "ensures")):
                if gname in groups:
                    cp.add(kw, (key, "loop"))
                    for i, (l, t) in enumerate(groups[gname]):
                        tx = subst(t, rec, clo, roles, perm)
                        if clo and clo["params"]:
                            tx = tx.replace("$s", f"(*{clo['params'][0]})")
                        cp.add("  (" + tx + "),", (key, f"invariant:{l or i}"))
    if c:
        for n in c.loops:
            if not any(x["id"] == n for x in rec["loops"]):
                lost.append(f"loop {n}")
    fn.lost = lost


# ------------------------------------------------------------------ unit assembly

TRAIT_TO_IMPL = {"Parsers": "ParsersImpl"}


def collect(items, spec, inherent=(), stub_crates=()):
    """-> (types, fns) ; trait default methods are attached to the type that uses them"""
    fns, types = [], []
    have = set()
    traits = {}
    for it in items:
        if it["item"] == "fn":
            o = it["owner"]
            if o["kind"] == "impl" and o["ty"] in ("Parser", "ParsersImpl", "ParserParsers"):
                have.add((o["ty"], it["name"]))
    for it in items:
        if it["item"] in ("struct", "enum", "const", "type"):
            types.append(it)
            continue
        if it["item"] != "fn":
            continue
        o = it["owner"]
        if o["kind"] == "trait":
            t = o["ty"]
            if t.endswith("Parsers"):
                if it["body"] is None:
                    continue
                targets = ["ParsersImpl"] + (["ParserParsers"] if t == "Parsers" else [])
                for target in targets:
                    if (target, it["name"]) in have:
                        continue
                    f = Fn(it, f"{target}::{it['name']}", f"impl {target}")
                    f.self_text = target
                    fns.append(f)
            elif t.endswith("Parser") or t.startswith("Parser"):
                if it["body"] is None or ("Parser", it["name"]) in have:
                    continue
                f = Fn(it, f"Parser::{it['name']}", PARSER_HEADER)
                f.self_text = "Parser<'a, I, A>"
                fns.append(f)
            else:
                f = Fn(it, f"{t}::{it['name']}", ("trait", t))
                f.self_text = None
                fns.append(f)
            continue
        if o["kind"] == "impl":
            key = owner_key(it)
            if o["ty"] in ("Parser", "ParsersImpl", "ParserParsers") and not (o["trait"] in ("Clone", "Display", "Debug")):
                gens = [x.strip() for x in o["generics"].split(",")] if o["generics"] else []
                wh = list(o["where"])
                if "::op_" in key:
                    # generics that only the operator's trait mentions belong to the method
                    used = [x for x in gens if re.search(r"(?<![\w'])" + re.escape(x.split(":")[0].strip()) + r"(?!\w)", o["ty_text"])]
                    free = [x for x in gens if x not in used]
                    it = dict(it, generics=", ".join(free + ([it["generics"]] if it["generics"] else [])),
                              where=it["where"] + [w for w in wh if any(re.match(re.escape(x.split(":")[0].strip()) + r"\s*:", w) for x in free)])
                    wh = [w for w in wh if w not in it["where"]]
                    gens = used
                g = f"<{', '.join(gens)}>" if gens else ""
                w = (" where " + ", ".join(wh)) if wh else ""
                f = Fn(it, key, f"impl{g} {o['ty_text']}{w}")
            elif o["trait"] and (o["trait"] not in inherent or "/parser/src/" in it["file"]):
                f = Fn(it, key, ("timpl", o["trait"], o["trait_text"], o["ty"], o["ty_text"], o["generics"], tuple(o["where"])))
            else:
                g = f"<{o['generics']}>" if o["generics"] else ""
                w = (" where " + ", ".join(o["where"])) if o["where"] else ""
                f = Fn(it, key, f"impl{g} {o['ty_text']}{w}")
            f.self_text = o["ty_text"]
            fns.append(f)
        else:
            f = Fn(it, it["name"], None)
            f.self_text = None
            fns.append(f)
    # duplicates (two impl blocks with the same method name)
    seen = {}
    for f in fns:
        n = seen.get(f.key, 0)
        seen[f.key] = n + 1
        if n:
            f.key = f"{f.key}@{n}"
    for f in fns:
        k = f.key
        f.emit_name = OPS_NAME.get(k.split("::")[-1], None) or f.rec["name"]
        if "@" in k and isinstance(f.ctx, str) and f.rec["owner"].get("trait") in inherent:
            f.emit_name = f"{f.rec['name']}__{k.split('@')[1]}"
        if k.startswith("Parser::op_"):
            f.emit_name = k.split("::")[1].split("@")[0]
        f.contract = spec.get(k)
        f.emit_contract = True
        f.lost = []
        f.assumed = "!" + k not in stub_crates and any((f"/{c}" if "/" in c else f"/{c}/src/") in f.rec["file"] for c in stub_crates if c[0] != "!")
    return types, fns


OPS_NAME = {}


class Result:
    pass


HEADER = """#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, unused_must_use, unreachable_code, unreachable_patterns, irrefutable_let_patterns, private_interfaces)]
use vstd::prelude::*;
use std::rc::Rc;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
use vstd::std_specs::cmp::*;
use vstd::std_specs::range::*;
use vstd::pervasive::*;
"""


def compose(unit, types, fns, spec, state, probe=False):
    """state: key -> 'full' | 'stub' | 'drop' ; returns Composer"""
    cp = Composer()
    PROBE[:] = [probe]
    BROADCAST[:] = unit.broadcast
    PROLOGUE[:] = [unit.prologue] if unit.prologue else []
    cp.add(unit.features + HEADER + unit.imports)
    cp.add("verus! {")
    for p in unit.preludes:
        text = open(p).read()
        for n in getattr(unit, "opaque", ()):
            text = re.sub(r"(?m)^pub open spec fn " + n + r"\b", "#[verifier::opaque]\n" + r"\g<0>", text)
        cp.add(text, ("prelude:" + os.path.basename(p), "prelude"))
    done_types = set()
    for t in types:
        if t["name"] in unit.skip_types or t["name"] in done_types:
            continue
        if unit.only_types is not None and t["name"] not in unit.only_types:
            continue
        done_types.add(t["name"])
        cp.add(unit.type_attrs.get(t["name"], ""), ("type:" + t["name"], "type"))
        cp.add(t["text"], ("type:" + t["name"], "type"))
    recs = {n for f in fns for n in re.findall(r"\bvx_rec_(\w+)", f.rec["body"] or "")}
    groups = {}
    order = []
    for f in fns:
        g = f.ctx
        if isinstance(g, tuple):
            gk = g
        else:
            gk = ("fn", f.key)
        if gk not in groups:
            groups[gk] = []
            order.append(gk)
        groups[gk].append(f)
    for gk in order:
        fl = groups[gk]
        if gk[0] == "trait":
            t = gk[1]
            c = spec.get("trait " + t)
            if c is None:
                for f in fl:
                    f.status = "uncontracted"
                continue
            o = fl[0].rec["owner"]
            gtag = ("trait " + t, "trait")
            g = f"<{o['generics']}>" if o.get("generics") else ""
            cp.add(f"pub trait {t}{g}" + (f": {c.super}" if c.super else "") + " {", gtag)
            cp.add(c.extra, gtag)
            for f in fl:
                if f.contract is None:
                    f.status = "uncontracted"
                    continue
                m = "decl" if f.rec["body"] is None else assumed_state(f, state)
                emit_fn(cp, f, m, vis="")
                f.status = "declared" if m == "decl" else m
            cp.add("}", gtag)
        elif gk[0] == "timpl":
            _, tr, trt, ty, tyt, gen, wh = gk
            c = spec.get(f"impl {tr} for {ty}")
            if c is None and not any(f.contract for f in fl):
                for f in fl:
                    f.status = "uncontracted"
                continue
            tag = (f"impl {tr} for {ty}", "trait")
            g = f"<{gen}>" if gen else ""
            w = (" where " + ", ".join(wh)) if wh else ""
            cp.add(f"impl{g} {trt} for {tyt}{w} {{", tag)
            if c:
                cp.add(c.extra, tag)
            for f in fl:
                base = spec.get(f"{tr}::{f.rec['name']}")
                if base is None and f.contract is None:
                    f.status = "uncontracted"
                    continue
                f.props_from = base
                own = f.contract
                if state.get(f.key) == "drop":
                    continue
                if own and own.bounded and not getattr(f, "assumed", False):
                    state[f.key] = "stub"
                    state.setdefault("why", {})[f.key] = "bounded: " + own.bounded
                emit_fn(cp, f, assumed_state(f, state), perm=state.get(("perm", f.key)), vis="")
                f.status = assumed_state(f, state)
            cp.add("}", tag)
        else:
            f = fl[0]
            if f.contract is None:
                f.status = "uncontracted"
                if f.key in unit.emit_uncontracted:
                    f.emit_contract = False
                else:
                    continue
            elif f.contract.trusted:
                f.status = "trusted"
                continue
            st = assumed_state(f, state)
            if st == "drop":
                f.status = "dropped"
                continue
            if f.contract and f.contract.bounded and not getattr(f, "assumed", False):
                st = "stub"
                state.setdefault("why", {})[f.key] = "bounded: " + f.contract.bounded
            if f.rec["unsafe"] or f.rec["unsupported"]:
                if st == "full":
                    st = "stub"
                    state[f.key] = "stub"
                    state.setdefault("why", {})[f.key] = "unsupported construct: " + ", ".join(f.rec["unsupported"])
            mark = len(cp.lines)
            try:
                if f.ctx:
                    cp.add(f.ctx + " {", (f.key, "sig"))
                emit_fn(cp, f, st, perm=state.get(("perm", f.key)))
                if f.ctx:
                    cp.add("}", (f.key, "sig"))
                if f.status != "uncontracted":
                    f.status = st
                n = f.rec["name"].replace("r#", "")
                if f.ctx is None and n in recs:
                    # the production where another one that it is part of names it: its contract
                    saved, f.emit_name = f.emit_name, "vx_rec_" + n
                    lost = f.lost
                    emit_fn(cp, f, "stub")
                    f.emit_name, f.lost = saved, lost
            except Lost as e:
                del cp.lines[mark:]
                del cp.tags[mark:]
                why = state.setdefault("why", {})
                why[f.key] = "lost anchor: " + str(e)
                if st == "full":
                    state[f.key] = "stub"
                    st = "stub"
                    try:
                        if f.ctx:
                            cp.add(f.ctx + " {", (f.key, "sig"))
                        emit_fn(cp, f, "stub")
                        if f.ctx:
                            cp.add("}", (f.key, "sig"))
                        f.status = "stub"
                    except Lost:
                        del cp.lines[mark:]
                        del cp.tags[mark:]
                        state[f.key] = "drop"
                        f.status = "dropped"
                else:
                    state[f.key] = "drop"
                    f.status = "dropped"
    for f in fns:
        if getattr(f, "assumed", False) and f.status in ("stub", "full"):
            f.status = "assumed"
    # must fail: the axioms of the prelude are not contradictory by themselves
    cp.add("proof fn vx_probe() ensures false {", ("vx_probe", "probe"))
    if unit.broadcast:
        cp.add("broadcast use {" + ", ".join(unit.broadcast) + "};", ("vx_probe", "probe"))
    cp.add("}", ("vx_probe", "probe"))
    cp.add("} // verus!")
    cp.add("fn main() {}")
    return cp


class _Killed:
    stdout = ""
    stderr = "time limit"
    returncode = -9


def run_verus(path, rlimit=8, extra=(), errors=3, wall=200):
    t0 = time.time()
    cmd = ["verus", path, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", str(errors), "--rlimit", str(rlimit), "--num-threads", "8"] + list(extra)
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path), start_new_session=True)
    try:
        o, e = pr.communicate(timeout=wall)
        p = subprocess.CompletedProcess(cmd, pr.returncode, o, e)
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, 9)
        pr.communicate()
        if rlimit > 3:
            return run_verus(path, 3, extra, 1, wall)
        p = _Killed()
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    out = {}
    try:
        i = p.stdout.index("{")
        out = json.loads(p.stdout[i:])
    except ValueError:
        pass
    return out, diags, p, time.time() - t0


SMT_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "possible arithmetic",
            "invariant not satisfied", "possible division", "unable to prove", "recommendation not met", "cannot prove termination",
            "possible out of bounds", "might panic", "decreases", "loop invariant", "failed precondition", "possible bit shift",
            "requires not satisfied", "could not prove", "assert")
RLIMIT_MSGS = ("Resource limit", "rlimit", "timed out", "SMT solver")


def classify(d, tags):
    """-> (kind, key, labels, message)"""
    msg = d["message"]
    prim, others = [], []
    for s in d.get("spans", []):
        ln = s["line_start"]
        tag = tags[ln - 1] if 0 < ln <= len(tags) else None
        rec = (tag, s.get("label") or "", ln)
        (prim if s["is_primary"] else others).append(rec)
    kind = "compile"
    low = msg.lower()
    if any(m.lower() in low for m in RLIMIT_MSGS):
        kind = "rlimit"
    elif any(m in low for m in SMT_MSGS) and not d.get("code"):
        kind = "smt"
    return kind, prim, others, msg

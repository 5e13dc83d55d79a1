#!/usr/bin/env python3
"""Development tool: turn edits into /verif/seeded/<id>/ and confirm them in a scratch copy (/tmp/wt).
usage: seed.py spec.py [id...]    spec.py: S = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo=rust source of main.rs, run=True)]"""
import json, os, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); WT = "/tmp/wt"
DEMO = '''#!/bin/bash
# Builds demo.rs against the tree in the current directory and runs it: exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=/tmp/vp-demo/%s; mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo-%s"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
textual = { path = "$R/crates/textual" }
tcss = { path = "$R/crates/tcss" }
rich = { path = "$R/crates/rich" }
crossterm = { version = "0.27", features = ["event-stream"] }
EOF
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/vp-demo/target CARGO_PROFILE_DEV_DEBUG=0
cd "$T" && cargo build --offline -q 2>"$T/build.log" || { cat "$T/build.log"; exit 99; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo-%s"
'''
def sh(c, **kw): return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)
def fresh():
    if not os.path.exists(WT): sh("cp -a /repo " + WT)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f --detach FETCH_HEAD" % (WT, WT))
    r = sh("git -C %s status --short" % WT).stdout
    assert not r.strip(), r
def tests():
    t = open("/opt/vp/test.sh").read().replace("/repo", WT); b = open("/opt/vp/build.sh").read().replace("/repo", WT)
    open("/tmp/wt-test.sh", "w").write(t); open("/tmp/wt-build.sh", "w").write(b)
    r = sh("bash /tmp/wt-build.sh")
    if r.returncode: return "build: " + r.stderr[-1500:]
    sh("bash /tmp/wt-test.sh /tmp/wt-out.json")
    o = json.load(open("/tmp/wt-out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    ids = base.get("stable") or base.get("passed") or base.get("tests") or base
    ps = set(o.get("passed", o.get("pass", [])))
    miss = [i for i in ids if i not in ps] if isinstance(ids, list) else None
    return "tests missing: %s" % miss[:5] if miss else None
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
    for s in ns["S"]:
        if only and s["id"] not in only: continue
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True); fresh()
        open(d + "/demo.rs", "w").write(s["demo"]); n = s["id"].lower()
        open(d + "/demo.sh", "w").write(DEMO % (n, n, n)); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, cwd=WT)
        for f, a, b in s["edits"]:
            p = os.path.join(WT, f); t = open(p).read()
            if t.count(a) != 1: print(s["id"], "edit matches", t.count(a), f, repr(a[:60])); break
            open(p, "w").write(t.replace(a, b))
        else:
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % WT).stdout)
            bad = tests()
            r1 = sh("bash %s/demo.sh" % d, cwd=WT)
            ok = r0.returncode == 0 and r1.returncode not in (0, 99) and not bad
            print(s["id"], "OK" if ok else "BAD", "base rc", r0.returncode, "patched rc", r1.returncode, bad or "", "" if ok else (r0.stderr + r0.stdout)[-1200:] + "\n---\n" + (r1.stderr + r1.stdout)[-1200:])
        sh("git -C %s checkout -q -- ." % WT)
main()

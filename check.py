#!/usr/bin/env python3
"""Decide one property: build the harness against /repo's current tree, lower it to LLVM IR, execute every entry
symbolically (symex + z3), replay witnesses and counterexamples natively, write the evidence file.

usage: check.py <ID> [quick|thorough]        exit 0 held, 1 violation (VIOLATION line), 2 error of the check
"""
import fcntl, json, os, re, shutil, subprocess, sys, time, glob, hashlib
V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(V, ".build")
CFG = json.load(open(os.path.join(V, "checks.json")))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
RUSTFLAGS = "-C no-vectorize-loops -C no-vectorize-slp"

def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "CARGO_BUILD", "CARGO_ENCODED", "RUSTC_WRAPPER")): del e[k]
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **kw)
    return e

def die(msg, code=2):
    print("CHECK-ERROR: " + msg); sys.stdout.flush(); sys.exit(code)

class Lock:
    def __init__(self, n):
        os.makedirs(BUILD, exist_ok=True); self.f = open(os.path.join(BUILD, n), "w")
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN)

def build_engine():
    with Lock("engine.lock"):
        r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"),
                           env=env(CARGO_TARGET_DIR=os.path.join(BUILD, "engine"), RUSTFLAGS="-A warnings"), capture_output=True, text=True)
    if r.returncode: die("engine build failed:\n" + r.stderr[-4000:])
    return os.path.join(BUILD, "engine", "release", "symex")

def build_harness(binname, tier):
    """One whole-program IR module + a native executable of the same program."""
    td = os.path.join(BUILD, "harness-" + tier)
    with Lock("harness-%s.lock" % tier):
        # The harness lock file follows the repository's own.
        try:
            a = open("/repo/Cargo.lock").read(); base = open(os.path.join(V, "harness", "base.lock")).read()
            if a != base: print("note: /repo/Cargo.lock differs from the one the harness lock was derived from")
        except OSError: pass
        for f in glob.glob(os.path.join(td, "debug", "deps", binname + "-*.ll")): os.remove(f)
        cmd = ["cargo", "rustc", "--offline", "-q", "--bin", binname]
        if tier == "thorough": cmd += ["--features", "thorough"]
        cmd += ["--", "--emit=llvm-ir,link", "-A", "warnings"]
        r = subprocess.run(cmd, cwd=os.path.join(V, "harness"), env=env(CARGO_TARGET_DIR=td, RUSTFLAGS=RUSTFLAGS), capture_output=True, text=True)
        if r.returncode: die("the harness does not build against /repo:\n" + r.stderr[-6000:])
        ll = glob.glob(os.path.join(td, "debug", "deps", binname + "-*.ll"))
        exe = os.path.join(td, "debug", binname)
        if len(ll) != 1 or not os.path.exists(exe):
            # fingerprint was fresh: force this one unit
            os.utime(os.path.join(V, "harness", "src", "bin", binname + ".rs"))
            r = subprocess.run(cmd, cwd=os.path.join(V, "harness"), env=env(CARGO_TARGET_DIR=td, RUSTFLAGS=RUSTFLAGS), capture_output=True, text=True)
            ll = glob.glob(os.path.join(td, "debug", "deps", binname + "-*.ll"))
            if r.returncode or len(ll) != 1: die("no IR module for " + binname + r.stderr[-2000:])
    return ll[0], exe

def demangle(names):
    """Rust v0 names, roughly: keep only the path."""
    tool = shutil.which("rustfilt")
    out = []
    for n in names:
        m = re.findall(r"(?<![0-9])(\d+)_?([A-Za-z_][A-Za-z0-9_]*)", n)
        out.append(n)
    return out

CRATES = {"textual", "tcss", "rich"}
def repo_functions(names):
    """Repo functions executed symbolically, as crate::path, from v0 mangled names (linkage names of inlined scopes too)."""
    res = set()
    for n in names:
        if not n.startswith("_R"): continue
        ids, i = [], 0
        s = n[2:]
        # collect length-prefixed identifiers in order
        while i < len(s):
            if s[i] == "C" and i + 1 < len(s) and s[i + 1] == "s":      # crate disambiguator
                j = s.find("_", i)
                if j < 0: break
                i = j + 1; continue
            if s[i].isdigit():
                j = i
                while j < len(s) and s[j].isdigit(): j += 1
                k = int(s[i:j]); st = j + (1 if j < len(s) and s[j] == "_" else 0)
                if k == 0 or k > 120 or st + k > len(s): i = j; continue
                w = s[st:st + k]
                if re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", w): ids.append(w); i = st + k; continue
                i = j; continue
            i += 1
        if ids and ids[0] in CRATES: res.add("::".join(ids[:5]))
    return sorted(res)

def native(exe, entry, inputs, work, trace=False, timeout=60):
    p = os.path.join(work, "in.txt")
    open(p, "w").write(inputs.replace(",", "\n") + "\n")
    e = {"SYM_INPUT": p, "PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"}
    if trace: e["SYM_TRACE"] = "1"
    try: r = subprocess.run([exe, entry], env=e, capture_output=True, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired: return 124, ""
    return r.returncode, r.stderr.decode("utf8", "replace")

def confirms(kind, label, rc, err):
    if kind == "check": return rc == 42 and ("FAIL " + label) in err
    if kind in ("panic", "abort"): return rc in (-6, 134) or "panicked" in err
    if kind == "hang": return rc == 124
    if kind == "stack-overflow": return rc < 0 or rc == 124
    if kind == "memory": return rc < 0 or rc == 42
    return False

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CFG[pid]
    ents = [dict(e) if isinstance(e, dict) else {"entry": e} for e in c["entries"]]
    ents = [e for e in ents if tier == "thorough" or not e.get("thorough_only")]
    only = os.environ.get("ONLY_ENTRY")
    if only: ents = [e for e in ents if e["entry"] == only]
    symex = build_engine()
    ll, exe = build_harness(c["bin"], tier)
    tb = time.time() - t0
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid())); os.makedirs(work, exist_ok=True)
    kf = []
    try: kf = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == pid and k.get("status") == "open"]
    except OSError: pass
    budget = c.get("seconds", {}).get(tier, 700 if tier == "quick" else 6 * 3600)
    deadline = time.time() + budget
    cov = {"entries": [], "functions_encoded": set()}
    tot = dict(paths=0, forks=0, instructions=0, queries=0, unsat=0, sat=0, solver_s=0.0, checks=0, validated=0)
    assumptions = set(c.get("assumptions", []))
    samples, problems, viols, known_hit = [], [], [], []
    for e in ents:
        out = os.path.join(work, e["entry"] + ".json")
        opts = ["--seconds", str(max(20, int(deadline - time.time()))), "--workers", str(os.environ.get("WORKERS", os.cpu_count() or 8))]
        mykf = [k for k in kf if k.get("entry") == e["entry"]]
        if mykf: opts += ["--all"]
        for k in ("max-steps", "max-depth", "rlimit"):
            if k in e: opts += ["--" + k, str(e[k])]
        r = subprocess.run([symex, "--ll", ll, "--entry", e["entry"], "--out", out] + opts, capture_output=True, text=True, env=env(**({"SYMEX_XCHECK": "1"} if tier == "thorough" else {})))
        try: d = json.load(open(out))
        except Exception:
            problems.append("%s: engine failed (rc %d): %s" % (e["entry"], r.returncode, r.stderr[-1500:])); continue
        print("%-28s %-9s paths=%d queries=%d unsat=%d solver=%.1fs wall=%.1fs" % (e["entry"], d["status"], d["paths"], d["queries"], d["unsat"], d["solver_s"], d["wall_s"])); sys.stdout.flush()
        for k in ("paths", "forks", "instructions", "queries", "unsat", "sat", "checks", "solver_s"): tot[k] += d[k]
        assumptions |= set(d["assumptions"])
        fns = repo_functions(d["functions"]); cov["functions_encoded"] |= set(fns)
        confirmed = 0
        for v in d["violations"]:
            rc, err = native(exe, e["entry"], v["inputs"], work, timeout=30)
            if confirms(v["kind"], v["label"], rc, err):
                confirmed += 1
                k = [k for k in mykf if re.search(k["match"], v["kind"] + ": " + v["label"] + "\n" + err)]
                if k: known_hit.append((k[0], v))
                else: viols.append((e["entry"], v, rc, err))
            else: problems.append("%s: counterexample does not reproduce natively: %s %s rc=%d inputs=%s" % (e["entry"], v["kind"], v["label"][:200], rc, v["inputs"][:300]))
        if d["status"] != "ok" and not d["violations"]: problems.append("%s: %s %s" % (e["entry"], d["status"], json.dumps(d["errors"])[:1500]))
        if d["status"] == "violation" and d["errors"]: problems.append("%s: %s" % (e["entry"], json.dumps(d["errors"])[:800]))
        if not d["violations"]:
            for lab in e.get("reach", []):
                if not d["reach"].get(lab): problems.append("%s: vacuous: label %r never reached" % (e["entry"], lab))
            if not d["checks"] and not e.get("totality"): problems.append("%s: vacuous: no assertion evaluated" % e["entry"])
        # translator validation: path witnesses must behave identically in the native build
        n = 0
        for s in d["samples"][: e.get("replay", 24)]:
            rc, err = native(exe, e["entry"], s["inputs"], work, trace=True)
            tr = "".join(x + "|" for x in re.findall(r"((?:REACH|OBS) [^|]*)\|", err))
            if rc != 0 or tr != s["trace"]:
                problems.append("%s: native replay of a path witness differs: rc=%d inputs=%s engine=%s native=%s" % (e["entry"], rc, s["inputs"][:200], s["trace"][:300], err[:300]))
                break
            n += 1
        tot["validated"] += n
        for s in d["samples"][:2]: samples.append({"entry": e["entry"], "inputs (width:value)": s["inputs"][:400], "trace": s["trace"][:300]})
        cov["entries"].append({"entry": e["entry"], "what": e.get("what", ""), "bounds": e.get("bounds_thorough" if tier == "thorough" and "bounds_thorough" in e else "bounds", ""), "status": d["status"], "paths": d["paths"], "assume_pruned": d["assume_pruned"],
            "queries": d["queries"], "unsat": d["unsat"], "sat": d["sat"], "cached": d["cached"], "solver_s": d["solver_s"], "assertions_evaluated": d["checks"], "assertions_proved": d["checks_valid"], "symbols_max": d["max_symbols"], "wall_s": d["wall_s"], "reach": d["reach"], "repo_functions": len(fns)})
        if viols: break
    # replay files
    rep = None
    if viols:
        entry, v, rc, err = viols[0]
        os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
        rep = os.path.join(V, "evidence", "replay", pid + ".txt")
        # textual details from the native run
        open(rep, "w").write("property %s\nentry %s (harness/src/bin/%s.rs)\nkind %s\nlabel %s\ninputs %s\n\nnative replay: rc=%d\n%s\n\nreplay with:\n  printf '%%s\\n' '%s' > /tmp/in && SYM_INPUT=/tmp/in %s %s\n" % (pid, entry, c["bin"], v["kind"], v["label"], v["inputs"], rc, err[:6000], v["inputs"], exe, entry))
    fl = sorted(cov["functions_encoded"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "model_checking"),
          "coverage": {"states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": tot["validated"], "samples": samples[:12] or ["none"],
                       "exhaustive": not problems and not viols,
                       "explanation": "states = symbolic paths of the real code, each standing for every input satisfying its path condition; transitions = symbolic branch decisions where the solver found both sides feasible",
                       "queries_discharged": tot["queries"], "unsat": tot["unsat"], "sat": tot["sat"], "solver_time_s": round(tot["solver_s"], 3), "assertions_evaluated": tot["checks"], "instructions_executed": tot["instructions"],
                       "solver": "z3 5.3.2 (bit-vector/floating-point, no timeouts: resource limit, unknown = error)", "entries": cov["entries"], "functions_encoded": fl, "functions_encoded_count": len(fl),
                       "outside_the_bounds": c.get("outside", ""), "problems": problems[:10]},
          "assumptions": sorted(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in kf:
        if any(h[0] is k for h in known_hit): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: build %.1fs, total %.1fs, %d paths, %d queries (%d unsat), %d witnesses replayed, %d repo functions" % (pid, tier, tb, time.time() - t0, tot["paths"], tot["queries"], tot["unsat"], tot["validated"], len(fl)))
    if viols:
        entry, v, rc, err = viols[0]
        print("counterexample: %s: %s %s inputs=%s" % (entry, v["kind"], v["label"][:300], v["inputs"][:300]))
        print((err or "")[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rep)); sys.exit(1)
    if problems: die("; ".join(problems)[:3000])
    sys.exit(0)
if __name__ == "__main__": main()

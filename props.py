#!/usr/bin/env python3
"""Single source of properties.jsonl, checks.json and MANIFEST.json: run it to regenerate the three."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []   # claimed properties
NA = []  # (id, reason)
def prop(id, title, statement, over, text, why, files, mech, bin, entries, assumptions=(), outside="", seconds=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bin=bin, entries=entries,
                  assumptions=list(assumptions), outside=outside, seconds=seconds))
def e(entry, what, bounds, deep=None, **kw):
    d = dict(entry=entry, what=what, bounds=bounds, reach=kw.pop("reach", ["end"]))
    if deep: d["bounds_thorough"] = deep
    d.update(kw); return d
exec(open(os.path.join(V, "props_list.py")).read())

TECH = "symbolic execution of the compiled code (LLVM IR) with z3 deciding every branch and assertion"
LEVEL_NOTE = ("Bounded: the solver decides every assertion for all inputs within the stated sizes; nothing is claimed outside them. Trusted: rustc's lowering "
              "(opt-level 2, overflow checks on), the IR executor (its path witnesses are replayed natively on every run) and z3.")
def main():
    ids = [p["id"] for p in P]; assert len(ids) == len(set(ids)), "duplicate id"
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P + NAP:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
    json.dump({p["id"]: {"bin": p["bin"], "entries": p["entries"], "assumptions": p["assumptions"], "outside": p["outside"], **({"seconds": p["seconds"]} if p["seconds"] else {})} for p in P},
              open(os.path.join(V, "checks.json"), "w"), indent=1)
    json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
               "technique": TECH, "level": "model_checking", "level_note": LEVEL_NOTE} for p in P], "not_applicable": [{"property": a["id"], "reason": a["reason"]} for a in NAP]},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
